//! Pairs of functions: `imp::x` calls the library, `spec::x` says what it has to do in terms of
//! simpler operations of the library. Nothing here is ever run: the analysis compares the two.
#![allow(dead_code, clippy::all)]
pub mod cursor;
pub mod typed;
pub mod walk;
pub mod query;
pub mod text;
pub mod ast;
pub mod fmt;
pub mod build;
pub mod green;
pub mod auto;
pub mod ser;

/// what no tree leads to: anything may be done there
pub fn impossible() -> ! {
    std::process::exit(1)
}
