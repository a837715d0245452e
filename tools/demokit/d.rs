//! Common part of the demonstrations.
pub use crate::progs::*;
pub use crate::sw::*;
pub use crate::vm::*;
pub fn cr(t: u16, n: u8) -> Cred { Cred { t, n } }
/// an empty world at slot 1000 with funded payers and two mints
pub fn world() -> World {
    let mut w = World { slot: 1000, accts: Default::default() };
    for k in [PAYER, DEST, DEST2] { w.fund(k, 1_000_000_000); }
    w
}
fn show(e: &TxErr) -> String { format!("{:?}", e.e) }
pub fn must_ok(w: &World, ixs: &[Ix], what: &str) -> World {
    match exec(w, ixs) {
        Ok(d) => d.world,
        Err(e) => { println!("FAILED: {what} was refused: {}", show(&e)); std::process::exit(1) }
    }
}
pub fn must_fail(w: &World, ixs: &[Ix], what: &str) {
    if exec(w, ixs).is_ok() { println!("FAILED: {what} was accepted"); std::process::exit(1) }
}
pub fn check(ok: bool, what: &str) {
    if !ok { println!("FAILED: {what}"); std::process::exit(1) }
}
