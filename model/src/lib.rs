//! Reference models, workload generators and the monitoring harness. Nothing here depends on the
//! code under test.
pub mod rng;
mod uni;
pub mod chars;
pub mod lex;
pub mod json;
pub mod genlex;
pub mod node;
pub mod parse;
pub mod genprog;
pub mod harness;
