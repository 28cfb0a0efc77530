//! Explicit-state model checking of the xORCA staking program: the real program code is run natively
//! through its on-chain entrypoint inside a small, exact re-implementation of the Solana runtime.
pub mod host;
pub mod svm;
pub mod engine;
pub mod model;
pub mod world;
pub mod suites;
pub mod forge;
pub mod client;
pub mod js;
pub mod ledgers;
pub mod serve;
// Pulls the program (and with it the `entrypoint` symbol) into the link.
extern crate xorca_staking_program as _program;
