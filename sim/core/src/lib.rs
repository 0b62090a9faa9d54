pub mod exec;
pub mod interpose;
pub mod rng;
pub mod runner;
