//! Reference model of XDR (RFC 4506) used by every check: a specification
//! model, a reference encoder and decoder, a deviation-bounded explorer and
//! the in-shard runner. None of it is derived from fastxdr's own output.
pub mod codec;
pub mod emit;
pub mod explore;
pub mod items;
pub mod layout;
pub mod models;
pub mod peg;
pub mod report;
pub mod rt;
pub mod sem;
pub mod spec;
pub mod tk;
pub mod universe;
pub mod util;

pub use fastxdr;
pub use fastxdr::bytes;
