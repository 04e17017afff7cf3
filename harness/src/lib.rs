//! Shared machinery of the checks: drivers for the real encoder, independent
//! decoders, the exploration loop and the evidence writer.
pub mod checks;
pub mod content;
pub mod dec;
pub mod enc;
pub mod lattice;
pub mod obu;
pub mod report;
pub mod sched;
pub mod steps;

pub use content::Content;
pub use enc::*;
pub use report::*;
