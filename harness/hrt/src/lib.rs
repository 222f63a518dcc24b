//! Symbolic harnesses for the runtime crate `funcmap`.
#![allow(static_mut_refs, dead_code, unused_imports, non_snake_case)]
pub mod cases;
pub mod drive;
pub mod neg;
pub mod spec;
pub mod table;
pub mod world;
