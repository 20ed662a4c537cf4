#![allow(clippy::precedence, clippy::type_complexity, clippy::needless_range_loop)]
pub mod check;
pub mod cost;
pub mod engine;
pub mod gen;
pub mod mem;
pub mod model;
pub mod multi;
pub mod plan;
pub mod quiet;
pub mod real;
pub mod special;
