#[macro_use]
pub mod core;
pub mod model;
pub mod reference;
pub mod gen;
pub mod emit;
pub mod dynty;
pub mod checks;
