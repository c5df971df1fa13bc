//! Checks of the sequential behaviour, on the crates as they are.
#[path = "../../shared/eng.rs"]
mod eng;
#[path = "../../shared/calls.rs"]
mod calls;
#[path = "../../shared/histories.rs"]
mod histories;
mod cli;
mod client;
mod engine;
mod small;
mod codec;
use mc::*;

fn main() {
    mc::main(|id, t: Tier| {
        Some(match id {
            "C01" => engine::c01(t),
            "C02" => engine::c02(t),
            "C03" => engine::c03(t),
            "C04" => engine::c04(t),
            "C08" => codec::c08(t),
            "C09" => codec::c09(t),
            "C10" => codec::c10(t),
            "C11" => codec::c11(t),
            "C12" => codec::c12(t),
            "C13" => codec::c13(t),
            "C14" => codec::c14(t),
            "C15" => small::c15(t),
            "C26" => small::c26(t),
            "C29" => small::c29(t),
            "C32" => small::c32(t),
            "C20" => client::c20(t),
            "C27" => cli::c27(t),
            "C28" => cli::c28(t),
            _ => return None,
        })
    })
}
