//! Quantizer bounds and rate targets.
use crate::lattice::*;
use crate::*;
use rav1e::config::RateControlConfig;

fn qps(c: &Case) -> Result<Vec<(u8, usize, u64)>, String> {
  Ok(
    encode(c, Want { rec: false, src: false })?
      .iter()
      .map(|p| (p.qp, p.data.len(), p.no))
      .collect(),
  )
}

fn constant(c: &Case, q: usize) -> Result<Vec<(u8, usize, u64)>, String> {
  let mut k = c.clone();
  k.cfg.bitrate = 0;
  k.cfg.min_quantizer = 0;
  k.cfg.reservoir_frame_delay = None;
  k.cfg.quantizer = q;
  k.rc = Default::default();
  qps(&k)
}

/// First pass statistics: the records and the summary.
pub fn first_pass(c: &Case) -> Result<(Vec<Vec<u8>>, Vec<u8>), String> {
  guarded(|| {
    let mut c = c.clone();
    c.rc = RateControlConfig::new().with_emit_data(true);
    let mut x = Ctx::new(&c.config(), c.cfg.bit_depth, c.wide)?;
    for n in 0..c.frames {
      x.send(&c.cfg, c.content, n, c.fp.get(&n)).map_err(|e| format!("{e:?}"))?;
    }
    x.flush();
    let mut rec = vec![];
    loop {
      match x.receive(&c.cfg, Want { rec: false, src: false }) {
        Ok(_) | Err(EncoderStatus::Encoded) => {}
        Err(EncoderStatus::LimitReached) => break,
        Err(e) => return Err(format!("first pass: {e:?}")),
      }
      match x.rc_receive() {
        Some((false, d)) => rec.push(d),
        Some((true, d)) => return Ok((rec, d)),
        None => return Err("no statistics for a frame".into()),
      }
    }
    match x.rc_receive() {
      Some((true, d)) => Ok((rec, d)),
      _ => Err("no summary after the last frame".into()),
    }
  })?
}

/// Second pass with exactly the data asked for.
pub fn second_pass(
  c: &Case, rec: &[Vec<u8>], summary: &[u8], want: Want,
) -> Result<Vec<Pkt>, String> {
  guarded(|| {
    let mut c = c.clone();
    c.rc = RateControlConfig::from_summary_slice(summary).map_err(|e| format!("{e:?}"))?;
    let mut x = Ctx::new(&c.config(), c.cfg.bit_depth, c.wide)?;
    for n in 0..c.frames {
      x.send(&c.cfg, c.content, n, c.fp.get(&n)).map_err(|e| format!("{e:?}"))?;
    }
    x.flush();
    let mut it = rec.iter();
    let mut out = vec![];
    loop {
      while x.rc_needed() > 0 {
        let Some(d) = it.next() else { return Err("statistics used up".into()) };
        x.rc_send(d).map_err(|e| format!("rc_send: {e:?}"))?;
      }
      match x.receive(&c.cfg, want) {
        Ok(p) => out.push(p),
        Err(EncoderStatus::Encoded) => {}
        Err(EncoderStatus::LimitReached) => return Ok(out),
        Err(e) => return Err(format!("second pass: {e:?}")),
      }
    }
  })?
}

fn axes() -> Vec<Axis> {
  vec![
    axis("bitrate")
      .v(1, |c| c.cfg.bitrate = 1)
      .v("5k", |c| c.cfg.bitrate = 5_000)
      .v("1M", |c| c.cfg.bitrate = 1_000_000)
      .v("50M", |c| c.cfg.bitrate = 50_000_000)
      .v("max", |c| c.cfg.bitrate = i32::MAX),
    ax_latency(),
    ax_bd(&[10, 12]),
    ax_cs(&[CS400, CS422, CS444]),
    ax_content(&[Content::Noise, Content::Flat(130), Content::Cut(2), Content::Fade]),
    axis("delay")
      .v(12, |c| c.cfg.reservoir_frame_delay = Some(12))
      .v(40, |c| c.cfg.reservoir_frame_delay = Some(40)),
    ax_keyint(&[(0, 1), (0, 3)]),
    ax_lookahead(&[1, 6]),
    ax_scene(),
    axis("tune").v("psnr", |c| c.cfg.tune = Tune::Psnr),
    ax_frames(&[1, 14]),
    ax_size(&[(16, 16), (80, 48)]),
    ax_speed(&[6]),
    axis("rate").v("1000fps", |c| c.cfg.time_base = Rational { num: 1, den: 1000 }),
    axis("er").v("on", |c| c.cfg.error_resilient = true),
  ]
}

const BOUNDS: &[(u8, usize)] = &[
  (0, 255), (0, 254), (0, 60), (0, 1), (0, 0), (1, 1), (60, 60), (120, 120), (254, 254),
  (80, 140), (200, 254), (200, 255), (255, 255), (1, 2),
];

fn bounds(r: &Report) {
  let t = r.thorough();
  let ax = axes();
  let dev = deviations(&ax, 2);
  par_for(dev.len(), |i| {
    let d = &dev[i];
    let nm = lattice::name(&ax, d);
    if r.only().is_some_and(|o| !o.starts_with(&nm)) {
      return;
    }
    let mut cfg = base(32, 32, 10);
    cfg.bitrate = 60_000;
    let mut c = Case::new(cfg, Content::Pan(3, 1), 8);
    apply(&ax, d, &mut c);
    if c.config().validate().is_err() {
      return;
    }
    // Constant quantizer encodes by quantizer, as needed.
    let mut memo = std::collections::BTreeMap::new();
    let few = !t && d.len() == 2;
    for (k, &(lo, hi)) in BOUNDS.iter().enumerate() {
      if few && k % 4 != i % 4 {
        continue;
      }
      for pass in [1, 2] {
        let name = format!("{nm} min={lo} max={hi} pass={pass}");
        if (pass == 2 && few && (k / 4) % 2 != 0) || !r.wants(&name) {
          continue;
        }
        tick(&name);
        r.add("evaluations", 1);
        for q in [lo as usize, hi] {
          if !memo.contains_key(&q) {
            match constant(&c, q) {
              Ok(v) => {
                memo.insert(q, v);
              }
              Err(e) => return r.violation("encode-fails", &format!("{nm} constant {q}"), &e),
            }
          }
        }
        c.cfg.min_quantizer = lo;
        c.cfg.quantizer = hi;
        let got = if pass == 1 {
          qps(&c)
        } else {
          match first_pass(&c) {
            Ok((rec, s)) => second_pass(&c, &rec, &s, Want { rec: false, src: false })
              .map(|v| v.iter().map(|p| (p.qp, p.data.len(), p.no)).collect()),
            Err(e) => Err(e),
          }
        };
        let got = match got {
          Ok(v) => v,
          Err(e) => return r.violation("encode-fails", &name, &e),
        };
        let (vl, vh) = (&memo[&(lo as usize)], &memo[&hi]);
        if got.len() != c.frames || vl.len() != got.len() || vh.len() != got.len() {
          return r.violation("frame-count", &name, &format!("{} packets", got.len()));
        }
        r.add("states", got.len() as u64);
        r.add("transitions", got.len() as u64);
        r.add("traces", 1);
        r.outcome(&got);
        for n in 0..got.len() {
          let (l, h) = (vl[n].0, if hi == 255 { 255 } else { vh[n].0 });
          let l = if lo == 0 { 1 } else { l };
          if !(l..=h).contains(&got[n].0) {
            return r.violation(
              "bounds",
              &name,
              &format!("packet {n} has quantizer {}, constant encodes at the bounds have {l} and {h}", got[n].0),
            );
          }
        }
      }
    }
    c.cfg.bitrate = 0;
  });
}

/// Constant quantizers: every frame's quantizer grows with the setting.
fn monotone(r: &Report) {
  let mut v = vec![];
  for bd in [8, 10, 12] {
    for cs in [CS420, CS400, CS444] {
      for low in [true, false] {
        for content in [Content::Pan(3, 1), Content::Flat(90)] {
          v.push((bd, cs, low, content));
        }
      }
    }
  }
  par_for(v.len(), |i| {
    let (bd, cs, low, content) = v[i];
    let name = format!(
      "constant bd={bd} {cs:?} {} {}",
      if low { "p" } else { "pyramid" },
      content.name()
    );
    if !r.wants(&name) {
      return;
    }
    tick(&name);
    let mut cfg = base(16, 16, 10);
    cfg.bit_depth = bd;
    cfg.chroma_sampling = cs;
    cfg.low_latency = low;
    let c = Case::new(cfg, content, 5);
    let mut prev: Option<Vec<(u8, usize, u64)>> = None;
    let mut at_max = vec![];
    for q in (0..=255usize).chain([256, 300, 511, 512, 1 << 20, usize::MAX]) {
      r.add("evaluations", 1);
      match constant(&c, q) {
        Err(e) => {
          return r.violation("encode-fails", &format!("{name}"), &format!("quantizer {q}: {e}"))
        }
        Ok(v) => {
          r.add("states", v.len() as u64);
          if let Some(p) = &prev {
            for n in 0..v.len() {
              if v[n].0 < p[n].0 {
                return r.violation(
                  "monotone",
                  &name,
                  &format!(
                    "packet {n} has quantizer {} at setting {q} and {} at a lower setting",
                    v[n].0, p[n].0
                  ),
                );
              }
            }
          }
          if q == 255 {
            at_max = v.clone();
          }
          prev = Some(v);
        }
      }
    }
    r.add("traces", 1);
    r.outcome(&at_max);
  });
}

/// Steady video: the size of the stream is what was asked for, as far as the
/// quantizers reach.
fn targets(r: &Report) {
  let t = r.thorough();
  let mut v = vec![];
  let fps = [(1, 30), (1, 24), (1001, 60000), (1, 1000), (3, 2)];
  for content in [Content::Pan(3, 1), Content::Tiers, Content::Noise] {
    for per_frame in [400usize, 1200, 4000, 10_000] {
      for (low, keyint) in [(true, 30), (false, 30), (true, 240), (false, 11)] {
        for (k, delay) in [None, Some(12), Some(30)].into_iter().enumerate() {
          for (j, f) in fps.iter().enumerate() {
            // Frame rates only scale: one of them per case is enough for
            // the quick tier.
            let i = v.len() + usize::from(low) + k;
            if !t && (j + k + per_frame / 400) % 5 != 0 || (!low && keyint == 30) || (keyint == 240 && per_frame > 4000) {
              continue;
            }
            v.push((content, per_frame, low, keyint, delay, *f, i % 3));
          }
        }
      }
    }
  }
  par_for(v.len(), |i| {
    let (content, per_frame, low, keyint, delay, f, fmt) = v[i];
    let bitrate = (per_frame as u128 * f.1 as u128 / f.0 as u128).min(i32::MAX as u128) as i32;
    if bitrate == 0 {
      return;
    }
    let nm = format!(
      "target {} bits={per_frame} {} key={keyint} delay={delay:?} time={}/{} format={fmt}",
      content.name(),
      if low { "p" } else { "pyramid" },
      f.0,
      f.1
    );
    if r.only().is_some_and(|o| !o.starts_with(&nm)) {
      return;
    }
    let mut cfg = base(32, 32, 10);
    match fmt {
      1 => cfg.bit_depth = 10,
      2 => cfg.chroma_sampling = CS444,
      _ => {}
    }
    cfg.low_latency = low;
    cfg.bitrate = bitrate;
    cfg.quantizer = 255;
    cfg.time_base = Rational { num: f.0, den: f.1 };
    cfg.reservoir_frame_delay = delay;
    cfg.max_key_frame_interval = keyint;
    let c = Case::new(cfg, content, 60);
    let budget = bitrate as f64 * f.0 as f64 / f.1 as f64 * 60.0;
    let total = |v: &[(u8, usize, u64)]| v.iter().map(|x| x.1 * 8).sum::<usize>() as f64;
    let least = std::cell::OnceCell::new();
    let most = std::cell::OnceCell::new();
    for pass in [1, 2] {
      let name = format!("{nm} pass={pass}");
      if !r.wants(&name) {
        continue;
      }
      tick(&name);
      r.add("evaluations", 1);
      let got = if pass == 1 {
        qps(&c)
      } else {
        first_pass(&c).and_then(|(rec, s)| {
          second_pass(&c, &rec, &s, Want { rec: false, src: false })
            .map(|v| v.iter().map(|p| (p.qp, p.data.len(), p.no)).collect())
        })
      };
      let got = match got {
        Ok(v) => v,
        Err(e) => return r.violation("encode-fails", &name, &e),
      };
      r.add("states", got.len() as u64);
      r.add("transitions", got.len() as u64);
      r.add("traces", 1);
      r.outcome(&got);
      let bits = total(&got);
      if (0.75..=1.6).contains(&(bits / budget)) {
        continue;
      }
      // Only budgets well within the reach of the quantizers say something.
      let l = *least.get_or_init(|| constant(&c, 255).map(|v| total(&v)).unwrap_or(0.0));
      let m = *most.get_or_init(|| constant(&c, 0).map(|v| total(&v)).unwrap_or(f64::MAX));
      r.add("off_target", 1);
      if bits > budget && budget > l * 3.0 {
        r.violation(
          "overspends",
          &name,
          &format!("{bits} bits for a budget of {budget}; quantizer 255 takes {l}"),
        );
      }
      if bits < budget && bits < m * 0.75 && budget > l * 3.0 {
        r.violation(
          "underspends",
          &name,
          &format!("{bits} bits for a budget of {budget}; quantizer 0 takes {m}"),
        );
      }
    }
  });
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("one evaluation is one rate controlled encode compared with the constant encodes at its bounds, or one constant encode");
  monotone(r);
  bounds(r);
  targets(r);
}
