pub mod engine;
pub mod h;
