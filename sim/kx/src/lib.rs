//! String types of further capacities (see build.rs).
include!(concat!(env!("OUT_DIR"), "/kinds.rs"));
