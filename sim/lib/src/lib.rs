//! Everything that does not touch the library under test: session files, the
//! pattern language and its reference model, generators.
pub mod ast;
pub mod genb;
pub mod model;
pub mod session;
pub use simrt::rng;
