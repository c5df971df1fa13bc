//! Checks of the server and the networked client, on a simulated network.
//! What each needs of the code under test is a feature, so that a checker
//! only depends on what it's about.
#[cfg(any(feature = "client", feature = "server"))]
#[path = "../../shared/eng.rs"]
mod eng;
#[cfg(feature = "client")]
#[path = "../../shared/calls.rs"]
mod calls;
#[cfg(feature = "client")]
#[path = "../../shared/histories.rs"]
mod histories;
#[cfg(all(feature = "client", feature = "server"))]
mod both;
mod choices;
#[cfg(feature = "client")]
mod client;
#[cfg(feature = "program")]
mod program;
#[cfg(feature = "server")]
mod server;
use mc::*;

fn main() {
    mc::main(|id, t: Tier| {
        Some(match id {
            #[cfg(feature = "server")]
            "C16" => server::c16(t),
            #[cfg(feature = "server")]
            "C17" => server::c17(t),
            #[cfg(feature = "client")]
            "C18" => client::c18(t),
            #[cfg(all(feature = "client", feature = "server"))]
            "C19" => both::c19(t),
            #[cfg(feature = "client")]
            "C21" => client::c21(t),
            #[cfg(feature = "server")]
            "C30" => server::c30(t),
            #[cfg(feature = "program")]
            "C31" => program::c31(t),
            _ => return None,
        })
    })
}
