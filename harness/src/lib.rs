//! The programs the analysis starts from.
//!
//! `abs` holds opaque parameter types: their methods have no meaning of their
//! own, the analyzer gives them the contract of the trait they implement.
//! `roots` instantiates every public operation of the crate with those types,
//! one non-generic function per operation; the compiler resolves each of them
//! to the monomorphic MIR the analyzer reads.  Nothing here is ever executed.
#![recursion_limit = "512"]
#![allow(unused_variables, dead_code)]
extern crate alloc;
pub mod abs;
pub mod roots;
