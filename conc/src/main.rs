//! Checks of the concurrent behaviour: the engine with its locks and atomics
//! under the control of a scheduler that tries every order.
#[path = "../../shared/eng.rs"]
mod eng;
mod engine;
mod managers;
mod prog;
use mc::*;

fn main() {
    mc::main(|id, t: Tier| {
        Some(match id {
            "C05" => engine::c05(t),
            "C06" => engine::c06(t),
            "C07" => engine::c07(t),
            "C22" => managers::c22(t),
            "C23" => managers::c23(t),
            "C24" => managers::c24(t),
            "C25" => managers::c25(t),
            _ => return None,
        })
    })
}
