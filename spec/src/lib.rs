//! Reference functions for the value-flow comparison.  Nothing in this crate is ever executed: it is
//! type-checked next to the repository's crates and summarised by the same analysis.
#![allow(clippy::all, unused, unconditional_recursion)]

/// A value the specification leaves open.
pub fn any<T>() -> T {
    loop {}
}

/// The specification says nothing about this input.
pub fn open() -> ! {
    panic!()
}

pub mod gen;
pub mod parser;
