//! Reference functions for the built-in value types and the derived implementations.  Nothing in this crate is ever
//! executed: it is type-checked next to the repository's crates and summarised by the same analysis.
#![allow(clippy::all, unused, unconditional_recursion)]

/// A value the specification leaves open.
pub fn any<T>() -> T {
    loop {}
}

/// The specification says nothing about this input.
pub fn open() -> ! {
    panic!()
}

pub mod duration;
pub mod parse;
pub mod print;
pub mod range;
pub mod serde;
