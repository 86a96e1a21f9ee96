//! Reference models, written independently of the crate under test.
pub mod gen;
pub mod grid;
pub mod group;
pub mod solve;
pub mod parse;
pub mod model;
