#[macro_use]
pub mod engine;
pub mod model;
#[macro_use]
pub mod wire;
