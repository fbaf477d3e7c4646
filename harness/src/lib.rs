#![allow(dead_code, unused_imports)]
//! Analysed, never run: block/payload definitions over which the code produced by the
//! macros of /repo is inspected, plus thin entry points that instantiate the library's
//! generic items on them.
pub mod blocks;
pub mod payloads;
pub use blocks::*;
pub use payloads::*;
brec::generate!();
pub mod roots;
