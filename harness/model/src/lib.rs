//! Reference model of SCALE encoded, dynamically typed values, and generators for it. Nothing
//! in here uses the code under test.
pub mod engine;
pub mod gen;
pub mod model;
pub mod resolver;
pub mod shape;
pub use engine::*;
pub use model::*;
pub use resolver::*;
