//! Core of the model checker: a stateless, exhaustive explorer of choice trees
//! (`engine`), the executable reference models (`model`), and small helpers.
pub mod engine;
pub mod model;
pub mod util;
pub mod vclock;
pub mod words;
pub use engine::*;
