#![allow(clippy::all)]
pub mod bfs;
pub mod builtins;
pub mod core;
pub mod meta;
pub mod props;
pub mod report;
pub mod tok;
pub mod tw;
