#![allow(dead_code, unused_imports)]
mod host;
mod svm;
mod world;
mod scenario;
extern crate xorca_staking_program as _program;
use world::*;
use svm::*;
pub const T0: i64 = 1_700_000_000;
/// One operation; Err carries the reason of the refusal.
pub fn attempt(w: &mut World, op: Op) -> Result<Vec<Vec<u8>>, String> {
    let ixs: Vec<Ix> = match &op {
        Op::Warp(d) => {
            w.now += d;
            return Ok(vec![]);
        }
        Op::PrefundRaw(u, i, l) => {
            w.put(pending(&who(*u), *i), Acc::system(*l));
            return Ok(vec![]);
        }
        Op::Tx(v) => v.iter().map(|o| build(o, w).unwrap().0).collect(),
        o => vec![build(o, w).unwrap().0],
    };
    raw(w, &ixs).map_err(|e| format!("{op}: {e}"))
}
pub fn raw(w: &mut World, ixs: &[Ix]) -> Result<Vec<Vec<u8>>, String> {
    match run_tx(w, ixs) {
        Ok(o) => {
            *w = o.world;
            Ok(o.events)
        }
        Err(e) => Err(format!("{e:?}")),
    }
}
/// One operation that has to be accepted.
pub fn must(w: &mut World, op: Op) -> Vec<Vec<u8>> {
    attempt(w, op).unwrap_or_else(|e| panic!("refused: {e}"))
}
/// One operation that has to be refused.
pub fn must_not(w: &mut World, op: Op) {
    let text = op.to_string();
    assert!(attempt(w, op).is_err(), "accepted: {text}");
}
fn main() {
    // Crashes of the program unwind within the host; everything else is the scenario's verdict.
    let r = std::panic::catch_unwind(scenario::scenario);
    if r.is_err() {
        println!("the scenario's expectations do not hold");
        std::process::exit(1);
    }
    println!("the scenario's expectations hold");
}
