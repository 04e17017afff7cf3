//! Thread schedules never show in the stream.
use crate::checks::r03::*;
use crate::lattice::*;
use crate::sched::*;
use crate::*;

pub struct Job {
  pub name: String,
  pub case: Case,
  /// Encoded at the same time on another thread.
  pub other: Option<Case>,
  pub b: Bounds,
}

fn straight(case: &Case) -> Result<Vec<Seen>, String> {
  let mut c = Ctx::new(&case.config(), case.cfg.bit_depth, case.wide)?;
  let mut out = vec![];
  for n in 0..case.frames {
    c.send(&case.cfg, case.content, n, case.fp.get(&n))
      .map_err(|e| format!("send {n}: {e:?}"))?;
  }
  c.flush();
  drain(&mut c, &case.cfg, REC, &mut out)?;
  Ok(out.into_iter().map(seen).collect())
}

pub fn explore_case(r: &Report, j: &Job) {
  if r.only().is_some_and(|o| !o.starts_with(&j.name)) {
    return;
  }
  let want = match reference(&j.case) {
    Ok(w) => w,
    Err(e) => return r.violation("encode-fails", &j.name, &e),
  };
  r.outcome(&want);
  let other = match &j.other {
    Some(o) => match reference(o) {
      Ok(w) => Some((o, w)),
      Err(e) => return r.violation("encode-fails", &j.name, &e),
    },
    None => None,
  };
  let mut bad = false;
  let st = explore(
    &j.b,
    || match &other {
      None => straight(&j.case),
      Some((o, ow)) => {
        let (a, b) = rayon_core::join(|| straight(&j.case), || straight(o));
        match diff(ow, &b?) {
          Some(d) => Err(format!("the second encoder: {d}")),
          None => a,
        }
      }
    },
    |sch, res, out| {
      let name = format!("{} schedule={}", j.name, fmt_schedule(sch));
      tick(&name);
      r.add("evaluations", 1);
      r.add("traces", 1);
      if let Some(d) = &out.deadlock {
        bad = true;
        r.violation("deadlock", &name, d);
        return false;
      }
      match res {
        Ok(Ok(g)) => {
          if let Some(d) = diff(&want, &g) {
            r.violation("schedule-dependent", &name, &d);
            bad = true;
          }
        }
        Ok(Err(e)) | Err(e) => {
          r.violation("encode-fails", &name, &e);
          bad = true;
        }
      }
      !bad
    },
  );
  r.add("states", st.points);
  r.add("transitions", st.points);
  r.add("schedules", st.execs);
  if st.capped {
    r.capped(&format!("{}: {} schedules", j.name, st.execs));
  }
  r.sample(format!(
    "{}: {} schedules, up to {} scheduling points",
    j.name, st.execs, st.max_points
  ));
}

pub fn jobs(t: bool) -> Vec<Job> {
  let mut v = vec![];
  let axes = vec![
    axis("order").v("pyramid", |c| {
      c.cfg.low_latency = false;
      c.frames = 4;
    }),
    ax_speed(&[6, 9]),
    ax_bd(&[10, 16]),
    ax_cs(&[CS444]),
    axis("rate").v("200k", |c| c.cfg.bitrate = 200_000),
    axis("txdist").v("off", |c| {
      c.cfg.speed_settings.transform.tx_domain_distortion = false
    }),
    ax_scene(),
    axis("tune").v("psnr", |c| c.cfg.tune = rav1e::prelude::Tune::Psnr),
    axis("lrf").v("on", |c| {
      c.cfg.speed_settings.lrf = true;
      c.cfg.speed_settings.cdef = true;
    }),
    axis("content").v("noise", |c| c.content = Content::Noise).v("pan", |c| {
      c.content = Content::Pan(9, 5)
    }),
  ];
  let geo = [("c2", 80, 16, 2, 1), ("r2", 16, 80, 1, 2), ("c2r2", 80, 72, 2, 2), ("c3", 144, 16, 4, 1)];
  for (g, w, h, tc, tr) in geo {
    for threads in [0usize, 1, 2, 3] {
      for d in deviations(&axes, 1) {
        let mut cfg = base(w, h, 10);
        cfg.tile_cols = tc;
        cfg.tile_rows = tr;
        cfg.speed_settings.rdo_lookahead_frames = 1;
        cfg.quantizer = 160;
        let mut c = Case::new(cfg, Content::Half, 2);
        c.threads = threads;
        apply(&axes, &d, &mut c);
        for fun in [false, true] {
          // Deep task orders for the plain cases, one preemption anywhere
          // inside the tasks for two threads.
          if fun && (threads != 2 || !(t || d.is_empty())) {
            continue;
          }
          if !t && !d.is_empty() && (threads != 2 || g == "r2" || g == "c3") {
            continue;
          }
          if !t && fun && g == "c2r2" {
            continue;
          }
          let deep = d.is_empty() && g == "c2" && threads == 2 && !fun;
          v.push(Job {
            name: format!(
              "{g} threads={threads}{} {}",
              if fun { " preempt" } else { "" },
              lattice::name(&axes, &d)
            ),
            case: c.clone(),
            other: None,
            b: Bounds {
              deviations: if t || deep { 2 } else { 1 },
              free_when_blocked: false,
              fun_points: fun,
              explore_forks: true,
              threads: 4,
              max_execs: if t { 50_000 } else { 3_000 },
            },
          });
        }
      }
    }
  }
  // Two encoders running at once, preempted anywhere.
  for (n, w, h, bd, cs) in
    [("same", 16, 16, 8, CS420), ("size", 24, 40, 8, CS420), ("format", 16, 16, 10, CS444)]
  {
    for (m, sp) in [("fast", 10), ("slow", 7)] {
      if !t && sp == 7 {
        continue;
      }
      let mut a = base(16, 16, sp);
      a.speed_settings.rdo_lookahead_frames = 1;
      let mut b = base(w, h, sp);
      b.speed_settings.rdo_lookahead_frames = 1;
      b.bit_depth = bd;
      b.chroma_sampling = cs;
      b.quantizer = 40;
      v.push(Job {
        name: format!("pair {n} {m}"),
        case: Case::new(a, Content::Half, 2),
        other: Some(Case::new(b, Content::Screen, 2)),
        b: Bounds {
          deviations: if t { 2 } else { 1 },
          free_when_blocked: false,
          fun_points: true,
          explore_forks: true,
          threads: 4,
          max_execs: if t { 200_000 } else { 3_000 },
        },
      });
    }
  }
  // The long explorations first.
  v.sort_by_key(|j| std::cmp::Reverse(j.b.deviations * 2 + usize::from(j.b.fun_points)));
  v
}

/// Every number of threads, for many tiles of similar and of unequal weight:
/// the default schedule, where only the way work is divided differs.
fn wide(r: &Report) {
  let t = r.thorough();
  let mut v = vec![];
  for (g, w, h, tc, tr) in [
    ("c8", 512, 16, 8, 1),
    ("c5", 320, 16, 8, 1),
    ("c3", 192, 64, 4, 1),
    ("c4r2", 256, 128, 4, 2),
    ("r7", 16, 448, 1, 8),
    ("c7r3", 448, 192, 8, 4),
  ] {
    for content in
      [Content::Tiers, Content::Noise, Content::Half, Content::Pan(9, 5), Content::Screen]
    {
      for q in [20usize, 100, 200] {
        for (kind, frames) in [("p", 6), ("pyramid", 5)] {
          if !t && (q == 100 || w * h > 40_000) && content != Content::Tiers {
            continue;
          }
          if !t && kind == "pyramid" && q != 100 {
            continue;
          }
          let mut cfg = base(w, h, 10);
          cfg.tile_cols = tc;
          cfg.tile_rows = tr;
          cfg.low_latency = kind == "p";
          cfg.speed_settings.rdo_lookahead_frames = 2;
          cfg.quantizer = q;
          v.push((
            format!("wide {g} content={} q={q} {kind}", content.name()),
            Case::new(cfg, content, frames),
          ));
        }
      }
    }
  }
  par_for(v.len(), |i| {
    let (name, case) = &v[i];
    let mut one = case.clone();
    one.threads = 1;
    if r.only().is_some_and(|o| !o.starts_with(name)) {
      return;
    }
    let want = match reference(&one) {
      Ok(w) => w,
      Err(e) => return r.violation("encode-fails", name, &e),
    };
    r.outcome(&want);
    for threads in [0, 2, 3, 4, 5, 6, 7, 8, 16, 33] {
      let n = format!("{name} threads={threads}");
      if !r.wants(&n) {
        continue;
      }
      tick(&n);
      one.threads = threads;
      r.add("evaluations", 1);
      r.add("traces", 1);
      r.add("thread_counts", 1);
      match reference(&one) {
        Err(e) => r.violation("encode-fails", &n, &e),
        Ok(g) => {
          if let Some(d) = diff(&want, &g) {
            r.violation("thread-count", &n, &d);
          }
        }
      }
    }
  });
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("one evaluation is one complete schedule of the encoder's tasks");
  let j = jobs(r.thorough());
  par_for(j.len(), |i| explore_case(r, &j[i]));
  wide(r);
}
