//! Every CPU feature level produces the same stream.
use crate::checks::r03::{diff, reference, Seen};
use crate::lattice::*;
use crate::*;
use std::sync::Mutex;

pub const LEVELS: [&str; 7] =
  ["rust", "sse2", "ssse3", "sse4_1", "avx2", "avx512", "avx512icl"];

pub fn plan(t: bool) -> Vec<(String, Case)> {
  let mut v = vec![];
  let mut push = |pre: &str, base: &Case, axes: &[Axis], ds: Vec<Vec<(usize, usize)>>| {
    for d in ds {
      let mut c = base.clone();
      apply(axes, &d, &mut c);
      v.push((format!("{pre} {}", lattice::name(axes, &d)), c));
    }
  };
  let f = vec![
    ax_bd(&[10, 12, 16]),
    ax_cs(&[CS400, CS422, CS444]),
    ax_q(&[2, 40, 220]),
    ax_content(&CONTENTS),
  ];
  let mut b = base(40, 24, 7);
  b.low_latency = false;
  push("format", &Case::new(b, Content::Pan(-7, 2), 3), &f, product(&f));
  let mut a = vec![
    ax_speed(&[0, 1, 2, 3, 4, 5, 6, 8, 9, 10]),
    ax_size(&[(16, 16), (17, 33), (64, 64), (66, 20), (24, 100)]),
    ax_tiles(),
    ax_bd(&[10, 12, 16]),
    ax_cs(&[CS400, CS422, CS444]),
    ax_q(&[0, 30, 255]),
    ax_content(&CONTENTS),
  ];
  a.extend(feature_axes());
  a.extend(tool_axes());
  let b = base(48, 40, 6);
  push("tools", &Case::new(b, Content::Pan(5, 3), 3), &a, deviations(&a, if t { 2 } else { 1 }));
  let s = vec![
    ax_speed(&[0, 1, 2, 3, 4, 5, 6, 8, 9, 10]),
    ax_bd(&[10, 12, 16]),
    ax_cs(&[CS422, CS444]),
    ax_content(&[Content::Noise, Content::Spot, Content::Extreme, Content::Quilt]),
  ];
  let b = base(if t { 72 } else { 32 }, 32, 7);
  push("speed", &Case::new(b, Content::Half, 3), &s, product(&s));
  v
}

/// The pixel type is storage only.
fn storage(r: &Report, p: &[(String, Case)]) {
  par_for(p.len(), |i| {
    let (n, c) = &p[i];
    let name = format!("{n} storage");
    if c.cfg.bit_depth != 8 || c.wide || !r.wants(&name) {
      return;
    }
    tick(&name);
    let mut d = c.clone();
    d.wide = true;
    r.add("evaluations", 2);
    r.add("traces", 1);
    match (reference(c), reference(&d)) {
      (Ok(a), Ok(b)) => {
        if let Some(d) = diff(&a, &b) {
          r.violation("storage-dependent", &name, &d);
        }
      }
      (Err(a), Err(b)) if a == b => {}
      (a, b) => r.violation("storage-dependent", &name, &format!("{:?} / {:?}", a.err(), b.err())),
    }
  });
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("each case is encoded once per CPU feature level; all levels must agree byte for byte; levels above the machine's fall back to the highest it has");
  r.assume("the machine supports the levels it reports; instruction sets it lacks are not exercised");
  let p = plan(r.thorough());
  let refs: Vec<Mutex<Option<Result<Vec<Seen>, String>>>> =
    p.iter().map(|_| Mutex::new(None)).collect();
  for l in LEVELS {
    // Workers only exist inside par_for, so the environment is stable there.
    std::env::set_var("RAV1E_CPU_TARGET", l);
    let top = format!("{}", rav1e::config::CpuFeatureLevel::default());
    r.sample(format!("asked for {l}, running {top}"));
    if top.to_lowercase() != l && l != "rust" {
      r.add("levels_missing_on_this_machine", 1);
      continue;
    }
    r.add("levels", 1);
    par_for(p.len(), |i| {
      let (n, c) = &p[i];
      if l != "rust" && !r.wants(&format!("{n} level={l}")) {
        return;
      }
      tick(n);
      let got = reference(c);
      r.add("evaluations", 1);
      let mut g = refs[i].lock().unwrap();
      match &*g {
        None => {
          if let Ok(w) = &got {
            r.outcome(w);
          }
          *g = Some(got);
        }
        Some(w) => {
          let name = format!("{n} level={l}");
          r.add("traces", 1);
          match (w, &got) {
            (Ok(w), Ok(x)) => {
              r.add("states", x.len() as u64);
              r.add("transitions", x.len() as u64);
              if let Some(d) = diff(w, x) {
                r.violation("level-dependent", &name, &d);
              }
            }
            (Err(a), Err(b)) if a == b => {}
            (a, b) => r.violation(
              "level-dependent",
              &name,
              &format!("{:?} / {:?}", a.as_ref().err(), b.as_ref().err()),
            ),
          }
        }
      }
    });
  }
  std::env::remove_var("RAV1E_CPU_TARGET");
  storage(r, &p);
}
