fn main() {
  println!("cargo:rerun-if-changed=csrc/dec.c");
  println!("cargo:rerun-if-changed=csrc/crash.c");
  cc::Build::new().file("csrc/dec.c").file("csrc/crash.c").opt_level(2).compile("mcdec");
  println!("cargo:rustc-link-lib=dav1d");
  println!("cargo:rustc-link-lib=aom");
}
