//! Property-based checks of gvas.
#![allow(clippy::all)]

pub mod alloc;
pub mod conv;
pub mod dec;
pub mod enc;
pub mod r#gen;
pub mod leaf;
pub mod model;
pub mod mutate;
pub mod props;
pub mod runner;
pub mod shrink;
pub mod src;
