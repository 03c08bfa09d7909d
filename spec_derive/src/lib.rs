//! Types the derives are applied to, and what the derived code has to do.  Nothing in this crate is ever executed: the
//! derives are expanded while it is type-checked next to the repository's crates, and the expansions are summarised by
//! the same analysis as the references.
#![allow(clippy::all, unused, non_camel_case_types, unconditional_recursion)]

/// A value the specification leaves open.
pub fn any<T>() -> T {
    loop {}
}

pub mod union;
pub mod wrapper;
