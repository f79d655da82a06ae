pub mod cx;
pub mod dag;
pub mod driver;
pub mod explore;
pub mod poly;
pub mod solver;
pub mod sym;
