pub mod solver;
pub mod transform;
pub mod generate;
pub mod formats;
pub mod sets;
pub mod strategy;
pub mod purity;
