//! The stream depends on the configuration and the frames, nothing else.
use crate::lattice::*;
use crate::*;
use rav1e::prelude::EncoderStatus as S;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Seen {
  pub data: Vec<u8>,
  pub rec: Option<Planes>,
  pub ty: u8,
  pub qp: u8,
  pub no: u64,
}
pub fn seen(p: Pkt) -> Seen {
  Seen { data: p.data, rec: p.rec, ty: p.ty as u8, qp: p.qp, no: p.no }
}
pub const REC: Want = Want { rec: true, src: false };

pub fn reference(case: &Case) -> Result<Vec<Seen>, String> {
  Ok(encode(case, REC)?.into_iter().map(seen).collect())
}

/// First difference between two runs.
pub fn diff(a: &[Seen], b: &[Seen]) -> Option<String> {
  if a.len() != b.len() {
    return Some(format!("{} packets instead of {}", b.len(), a.len()));
  }
  for (i, (x, y)) in a.iter().zip(b).enumerate() {
    if x.data != y.data {
      let o = x.data.iter().zip(&y.data).position(|(p, q)| p != q);
      return Some(format!(
        "packet {i} differs from byte {:?} on ({} and {} bytes)",
        o,
        x.data.len(),
        y.data.len()
      ));
    }
    if x.rec != y.rec {
      return Some(format!("packet {i}: the reconstructions differ"));
    }
    if x.ty != y.ty || x.qp != y.qp || x.no != y.no {
      return Some(format!("packet {i}: type, quantizer or number differ"));
    }
  }
  None
}

/// Receives `how` many packets (usize::MAX: until the encoder waits).
fn take(c: &mut Ctx, cfg: &EncoderConfig, how: usize, out: &mut Vec<Seen>) -> Result<(), String> {
  let mut n = 0;
  while n < how {
    match c.receive(cfg, REC) {
      Ok(p) => {
        out.push(seen(p));
        n += 1;
      }
      Err(S::Encoded) => {}
      Err(S::NeedMoreData) | Err(S::LimitReached) => break,
      Err(e) => return Err(format!("receive: {e:?}")),
    }
  }
  Ok(())
}

/// Encodes with `pat[i]` receives after frame `i`.
fn with_pattern(case: &Case, pat: &[usize]) -> Result<Vec<Seen>, String> {
  guarded(|| {
    let mut c = Ctx::new(&case.config(), case.cfg.bit_depth, case.wide)?;
    let mut out = vec![];
    for n in 0..case.frames {
      c.send(&case.cfg, case.content, n, case.fp.get(&n))
        .map_err(|e| format!("send: {e:?}"))?;
      take(&mut c, &case.cfg, pat[n], &mut out)?;
    }
    c.flush();
    take(&mut c, &case.cfg, usize::MAX, &mut out)?;
    Ok(out)
  })?
}

/// Two encodes advanced in every order: `order[i]` says who moves.
fn lockstep(a: &Case, b: &Case, order: &[bool]) -> Result<(Vec<Seen>, Vec<Seen>), String> {
  guarded(|| {
    let cs = [a, b];
    let mut ctx = [
      Ctx::new(&a.config(), a.cfg.bit_depth, false)?,
      Ctx::new(&b.config(), b.cfg.bit_depth, false)?,
    ];
    let mut out = [vec![], vec![]];
    let mut sent = [0, 0];
    for &who in order {
      let w = usize::from(who);
      let c = cs[w];
      ctx[w]
        .send(&c.cfg, c.content, sent[w], None)
        .map_err(|e| format!("send: {e:?}"))?;
      sent[w] += 1;
      if sent[w] == c.frames {
        ctx[w].flush();
      }
      take(&mut ctx[w], &c.cfg, usize::MAX, &mut out[w])?;
    }
    let [x, y] = out;
    Ok((x, y))
  })?
}

/// The same picture in differently laid out buffers.
fn layouts(case: &Case, kind: usize) -> Result<Vec<Seen>, String> {
  guarded(|| {
    let mut c = Ctx::new(&case.config(), case.cfg.bit_depth, case.wide)?;
    let mut out = vec![];
    for n in 0..case.frames {
      c.send_layout(&case.cfg, case.content, n, kind)
        .map_err(|e| format!("send: {e:?}"))?;
    }
    c.flush();
    take(&mut c, &case.cfg, usize::MAX, &mut out)?;
    Ok(out)
  })?
}

fn patterns(n: usize, vals: &[usize]) -> Vec<Vec<usize>> {
  let mut v = vec![vec![]];
  for _ in 0..n {
    v = v
      .into_iter()
      .flat_map(|p| {
        vals.iter().map(move |&x| {
          let mut p = p.clone();
          p.push(x);
          p
        })
      })
      .collect();
  }
  v
}

fn merges(a: usize, b: usize) -> Vec<Vec<bool>> {
  if a == 0 && b == 0 {
    return vec![vec![]];
  }
  let mut v = vec![];
  if a > 0 {
    for mut m in merges(a - 1, b) {
      m.insert(0, false);
      v.push(m);
    }
  }
  if b > 0 {
    for mut m in merges(a, b - 1) {
      m.insert(0, true);
      v.push(m);
    }
  }
  v
}

fn judge(r: &Report, name: &str, key: &str, want: &[Seen], got: Result<Vec<Seen>, String>) {
  r.add("evaluations", 1);
  match got {
    Ok(g) => {
      r.add("states", g.len() as u64 + 1);
      r.add("transitions", 2 * g.len() as u64);
      r.add("traces", 1);
      if let Some(d) = diff(want, &g) {
        r.violation(key, name, &d);
      }
    }
    Err(e) => r.violation("encode-fails", name, &e),
  }
}

pub fn axes() -> Vec<Axis> {
  vec![
    axis("order").v("pyramid", |c| c.cfg.low_latency = false),
    ax_lookahead(&[1, 4]),
    axis("rate")
      .v("30k", |c| c.cfg.bitrate = 30_000)
      .v("400k", |c| {
        c.cfg.bitrate = 400_000;
        c.cfg.reservoir_frame_delay = Some(12);
      }),
    ax_keyint(&[(0, 3), (2, 5)]),
    ax_scene(),
    axis("txdist").v("off", |c| {
      c.cfg.speed_settings.transform.tx_domain_distortion = false
    }),
    axis("tune").v("psnr", |c| c.cfg.tune = rav1e::prelude::Tune::Psnr),
    ax_speed(&[5, 8]),
    ax_bd(&[10, 16]),
    ax_cs(&[CS400, CS444]),
    axis("key").v("f3", |c| {
      c.fp.insert(3, FP { key: true, ..FP::default() });
    }),
    axis("grain").v("on", |c| {
      c.cfg.film_grain_params = Some(vec![grain(0, u64::MAX, 77)])
    }),
    axis("er").v("on", |c| c.cfg.error_resilient = true),
    ax_content(&[Content::Noise, Content::Screen, Content::Fade]),
  ]
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("each evaluation is one history (receive pattern, merge of two encoders, buffer layout, repetition) compared with the send-all-then-drain run; distinct outcomes are distinct reference streams");
  let t = r.thorough();
  let axes = axes();
  let frames = if t { 7 } else { 6 };
  let mut b = base(32, 24, 10);
  b.speed_settings.rdo_lookahead_frames = 2;
  let base_case = Case::new(b, Content::Cut(3), frames);
  let ds = deviations(&axes, if t { 2 } else { 2 });
  let pats = patterns(frames, &[0, 1, usize::MAX]);
  // Few patterns for the pairs of deviations, all for the rest.
  let coarse: Vec<&Vec<usize>> = pats
    .iter()
    .filter(|p| {
      let all = p.iter().filter(|&&x| x == usize::MAX).count();
      p.iter().all(|&x| x != 1) && (all <= 1 || all == p.len())
    })
    .collect();
  let all: Vec<&Vec<usize>> = pats.iter().collect();
  par_for(ds.len(), |i| {
    let d = &ds[i];
    let n = lattice::name(&axes, d);
    let mut c = base_case.clone();
    apply(&axes, d, &mut c);
    if !r.wants(&n) && r.only().is_some_and(|o| !o.starts_with(&n)) {
      return;
    }
    let want = match reference(&c) {
      Ok(w) => w,
      Err(e) if e.contains("Invalid") => return,
      Err(e) => return r.violation("encode-fails", &n, &e),
    };
    r.outcome(&want);
    r.sample(format!("{n}: {} bytes", want.iter().map(|w| w.data.len()).sum::<usize>()));
    judge(r, &format!("{n} repeat"), "repeat", &want, reference(&c));
    // The one-pass rate control may use whatever input it has already seen,
    // so there only equal histories must agree.
    let none = vec![];
    let list = if c.cfg.bitrate != 0 {
      &none
    } else if d.len() < 2 || t {
      &all
    } else {
      &coarse
    };
    if c.cfg.bitrate != 0 {
      for p in &coarse {
        let name = format!("{n} twice={p:?}");
        if r.wants(&name) {
          if let Ok(w) = with_pattern(&c, p) {
            judge(r, &name, "repeat", &w, with_pattern(&c, p));
          }
        }
      }
    }
    for p in list {
      let s: String = p
        .iter()
        .map(|&x| if x == usize::MAX { 'R' } else { char::from(b'0' + x as u8) })
        .collect();
      let name = format!("{n} receives={s}");
      if r.wants(&name) {
        judge(r, &name, "interleaving", &want, with_pattern(&c, p));
      }
    }
    for k in (0..5).filter(|_| c.fp.is_empty()) {
      let name = format!("{n} layout={k}");
      if r.wants(&name) {
        judge(r, &name, "layout", &want, layouts(&c, k));
      }
    }
  });
  // Two encoders in one process, every merge of their frames.
  let k = if t { 5 } else { 4 };
  let one: Vec<Vec<(usize, usize)>> = deviations(&axes, 1);
  let ms = merges(k, k);
  let refs: Vec<(Case, Option<Vec<Seen>>)> = one
    .iter()
    .map(|d| {
      let mut c = base_case.clone();
      c.frames = k;
      apply(&axes, d, &mut c);
      c.fp.clear();
      let w = reference(&c).ok();
      (c, w)
    })
    .collect();
  let mut jobs = vec![];
  for a in 0..one.len() {
    for b in a..one.len() {
      // All merges with the base, alternation with every other pair.
      if a == 0 || b == a {
        for m in 0..ms.len() {
          jobs.push((a, b, m));
        }
      } else {
        let alt = (0..2 * k).map(|i| i % 2 == 1).collect::<Vec<_>>();
        jobs.push((a, b, ms.iter().position(|m| *m == alt).unwrap()));
      }
    }
  }
  par_for(jobs.len(), |i| {
    let (a, b, m) = jobs[i];
    let (Some(wa), Some(wb)) = (&refs[a].1, &refs[b].1) else { return };
    let name = format!(
      "two [{}] [{}] merge={}",
      lattice::name(&axes, &one[a]),
      lattice::name(&axes, &one[b]),
      ms[m].iter().map(|&x| if x { 'b' } else { 'a' }).collect::<String>()
    );
    if !r.wants(&name) {
      return;
    }
    match lockstep(&refs[a].0, &refs[b].0, &ms[m]) {
      Ok((x, y)) => {
        judge(r, &name, "two-encoders", wa, Ok(x));
        judge(r, &name, "two-encoders", wb, Ok(y));
      }
      Err(e) => r.violation("encode-fails", &name, &e),
    }
  });
}
