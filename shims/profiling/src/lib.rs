//! Stand-in for `profiling`: an instrumented function is a scheduling point.
pub use mc_procmacros::{all_functions, function, skip};
#[inline]
pub fn point() {
  mcsched::point(mcsched::Kind::Fun);
}
#[macro_export]
macro_rules! scope {
  ($($t:tt)*) => {
    $crate::point();
  };
}
#[macro_export]
macro_rules! function_scope {
  ($($t:tt)*) => {
    $crate::point();
  };
}
#[macro_export]
macro_rules! finish_frame {
  () => {};
}
#[macro_export]
macro_rules! register_thread {
  ($($t:tt)*) => {};
}
