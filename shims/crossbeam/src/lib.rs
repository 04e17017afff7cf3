//! Stand-in for the parts of crossbeam that rav1e uses (MPMC channels), with
//! every operation a scheduling point of `mcsched`.
pub mod channel;
