//! `#[tokio::main]`, which runs the function's body on the simulation.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut t: Vec<TokenTree> = item.into_iter().collect();
    let body = match t.pop() {
        Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => g,
        _ => panic!("not a function"),
    };
    let at = t.iter().position(|x| matches!(x, TokenTree::Ident(i) if i.to_string() == "async")).expect("not async");
    t.remove(at);
    let mut s: TokenStream = t.into_iter().collect();
    let mut arg: TokenStream = "async move".parse().unwrap();
    arg.extend([TokenTree::Group(body)]);
    let mut call: TokenStream = "::tokio::sim::run".parse().unwrap();
    call.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, arg))]);
    s.extend([TokenTree::Group(Group::new(Delimiter::Brace, call))]);
    s
}
