pub mod db;
pub mod engine;
pub mod gen;
pub mod model;
pub mod report;
pub mod rng;
pub mod types;
pub mod checks;
pub mod progress;
pub mod lin;
pub mod noisy;
pub mod heap;
#[cfg(feature = "full")]
pub mod grpc;
#[cfg(feature = "full")]
pub mod fault;
