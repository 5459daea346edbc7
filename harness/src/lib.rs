//! Generated-input search for the properties of /verif/properties.jsonl.
pub mod alloc;
pub mod case;
pub mod driver;
pub mod gen;
pub mod model;
pub mod normtable;
pub mod props;
pub mod sut;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
