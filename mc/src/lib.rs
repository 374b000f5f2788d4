//! Shared parts of the model-checking harnesses.
#[macro_use]
pub mod golden;
pub mod codes;
pub mod model;
pub mod os;
pub mod render;
pub mod report;
pub mod reps;
pub mod sgr;
pub mod sink;
pub mod storm;
pub use report::Report;
