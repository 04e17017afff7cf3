//! The pictures that are shown are the pictures that were sent, to within
//! what the quantizer in force may lose.
//!
//! Every plane of every decoded frame is compared with the source frame of the
//! same position: the mean squared error over the plane and over every 4x4
//! block is bounded by a multiple of the square of the quantizer step in force
//! (read from the frame header by the decoder), and the step itself by the
//! quantizer that was asked for.
use crate::checks::r01::Plan;
use crate::dec::*;
use crate::lattice::*;
use crate::steps::ac;
use crate::*;
use rav1e::prelude::{SceneDetectionSpeed, Tune};
use std::sync::Mutex;

/// Mean squared error allowed over a plane: PLANE step^2 + PLANE_FREE, the
/// constant being in units of 8-bit samples.
const PLANE: f64 = 1.0;
const PLANE_FREE: f64 = 20.0;
/// The same over a 4x4 block.
const BLOCK: f64 = 16.0;
const BLOCK_FREE: f64 = 600.0;
/// Step allowed for a requested quantizer, by segments, frame types and chroma.
const STEP: f64 = 4.0;
const STEP_FREE: f64 = 2.0;

static TOP: Mutex<Vec<(f64, f64, f64, String)>> = Mutex::new(vec![]);

/// Worst mean squared error over the 4x4 blocks of a plane.
fn worst_block(a: &[u16], b: &[u16], w: usize, h: usize) -> (f64, usize, usize) {
  let mut worst = (0f64, 0, 0);
  for by in (0..h).step_by(4) {
    for bx in (0..w).step_by(4) {
      let (mut sq, mut n) = (0u64, 0);
      for y in by..(by + 4).min(h) {
        for x in bx..(bx + 4).min(w) {
          let e = (a[y * w + x] as i64 - b[y * w + x] as i64).unsigned_abs();
          sq += e * e;
          n += 1;
        }
      }
      let m = sq as f64 / n as f64;
      if m > worst.0 {
        worst = (m, bx, by);
      }
    }
  }
  worst
}

fn case(r: &Report, name: &str, c: &Case) {
  if !r.wants(name) {
    return;
  }
  r.add("evaluations", 1);
  let p = match encode(c, Want::default()) {
    Ok(p) => p,
    Err(e) if e.contains("Invalid") || e.contains("PARTITION_INVALID") => {
      r.add("rejected_by_validation", 1);
      return;
    }
    Err(e) => return r.violation("encode-fails", name, &e),
  };
  let dims = plane_dims(&c.cfg);
  let bd = c.cfg.bit_depth;
  let unit = 4f64.powi(bd as i32 - 8);
  let mut d = Decoder::new(Which::Dav1d);
  let mut seen = 0;
  for (i, x) in p.iter().enumerate() {
    let v = match d.feed(&x.data) {
      Ok(v) if v.len() == 1 => v,
      Ok(v) => return r.violation("frame-count", name, &format!("packet {i} shows {} frames", v.len())),
      Err(e) => return r.violation("undecodable", name, &format!("packet {i}: {e}")),
    };
    let g = &v[0];
    let src = source_planes(&c.cfg, c.content, i);
    if g.planes.len() != src.len() {
      return r.violation("planes", name, &format!("packet {i} has {} planes", g.planes.len()));
    }
    let base = if g.r.seg_enabled != 0 { *g.r.seg_qidx.iter().max().unwrap() } else { g.r.yac };
    for pl in 0..src.len() {
      let (w, h) = dims[pl];
      if g.planes[pl].len() != w * h {
        return r.violation("size", name, &format!("packet {i} plane {pl} has {} samples", g.planes[pl].len()));
      }
      let delta = match pl {
        0 => 0,
        1 => g.r.qdelta[2],
        _ => g.r.qdelta[4],
      };
      let step = ac(base + delta, bd) / 8.0;
      let sq: u64 = src[pl]
        .iter()
        .zip(&g.planes[pl])
        .map(|(a, b)| (*a as i64 - *b as i64).pow(2) as u64)
        .sum();
      let mse = sq as f64 / (w * h) as f64;
      let (worst, bx, by) = worst_block(&src[pl], &g.planes[pl], w, h);
      let asked = ac(c.cfg.quantizer as i32, bd) / 8.0;
      if std::env::var_os("MC_TOP").is_some() {
        TOP.lock().unwrap().push((
          mse / (PLANE * step * step + PLANE_FREE * unit),
          worst / (BLOCK * step * step + BLOCK_FREE * unit),
          if c.cfg.bitrate == 0 { step / asked } else { 0.0 },
          format!("{name} frame {i} plane {pl} {:?} mse {mse:.2} worst {worst:.1} step {step:.2} asked {asked:.2} yac {} lf {:?}", x.ty, g.r.yac, g.r.lf),
        ));
      }
      r.add("transitions", 1);
      if c.cfg.bitrate == 0
        && c.cfg.min_quantizer == 0
        && step > STEP * asked + STEP_FREE * unit.sqrt()
      {
        return r.violation("coarser-than-asked", name, &format!(
          "frame {i} ({:?}) plane {pl}: quantizer step {step:.2} for a requested {asked:.2}",
          x.ty
        ));
      }
      if mse > PLANE * step * step + PLANE_FREE * unit {
        return r.violation("far-from-source", name, &format!(
          "frame {i} ({:?}) plane {pl}: mean squared error {mse:.1} with a quantizer step of {step:.2}",
          x.ty
        ));
      }
      if worst > BLOCK * step * step + BLOCK_FREE * unit {
        return r.violation("block-lost", name, &format!(
          "frame {i} ({:?}) plane {pl}, 4x4 block at ({bx}, {by}): mean squared error {worst:.1} with a quantizer step of {step:.2}",
          x.ty
        ));
      }
    }
    seen += 1;
    r.add("states", 1);
  }
  if seen != c.frames {
    return r.violation("frame-count", name, &format!("{} frames in, {seen} shown", c.frames));
  }
  let mut bytes = vec![];
  for x in &p {
    bytes.extend_from_slice(&x.data);
  }
  r.add("traces", 1);
  r.outcome(&bytes);
  r.sample(format!("{name}: {} frames, {} bytes", p.len(), bytes.len()));
}

pub fn plan(thorough: bool) -> Vec<Plan> {
  let mut v = vec![];
  let mut push = |pre: &str, base: &Case, axes: &[Axis], ds: Vec<Vec<(usize, usize)>>| {
    for d in ds {
      let mut c = base.clone();
      apply(axes, &d, &mut c);
      v.push(Plan { name: format!("{pre} {}", lattice::name(axes, &d)), case: c });
    }
  };
  // Formats, quantizers, speeds and contents fully crossed.
  let some = [CONTENTS[0], CONTENTS[1], CONTENTS[2], CONTENTS[3], CONTENTS[4]];
  let f = vec![
    ax_speed(if thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 9, 10] } else { &[2, 6] }),
    ax_bd(&[10, 12]),
    ax_cs(&[CS400, CS422, CS444]),
    ax_q(&[0, 20, 60, 180, 255]),
    ax_content(if thorough { &CONTENTS } else { &some }),
  ];
  let mut b = base(34, 26, 8);
  b.low_latency = false;
  b.speed_settings.scene_detection_mode = SceneDetectionSpeed::Fast;
  push("format", &Case::new(b, Content::Pan(-7, 2), 6), &f, product(&f));
  // Every position of the right and bottom edges within a superblock's grid.
  let mut s = axis("size");
  let (lo, hi) = if thorough { (16, 34) } else { (17, 24) };
  for w in lo..=hi {
    for h in lo..=hi {
      s = s.v(format!("{w}x{h}"), move |c: &mut Case| {
        c.cfg.width = w;
        c.cfg.height = h;
      });
    }
  }
  let s = vec![
    s,
    ax_cs(&[CS400, CS422, CS444]),
    axis("tune").v("psnr", |c| c.cfg.tune = Tune::Psnr),
    ax_q(&[0, 180]),
  ];
  push("edges", &Case::new(base(16, 16, 10), Content::Pan(-3, 2), 3), &s, product(&s));
  let slow = vec![
    axis("size").v("19x23", |c| {
      c.cfg.width = 19;
      c.cfg.height = 23;
    }).v("66x35", |c| {
      c.cfg.width = 66;
      c.cfg.height = 35;
    }),
    ax_tiles(),
    ax_speed(&[0, 2, 4, 6]),
    ax_bd(&[10]),
    axis("tune").v("psnr", |c| c.cfg.tune = Tune::Psnr),
    ax_q(&[0, 30]),
  ];
  let mut b = base(48, 40, 8);
  b.low_latency = false;
  push("slow", &Case::new(b, Content::Spot, 4), &slow, deviations(&slow, if thorough { 4 } else { 2 }));
  // Every switch of the encoder, with every content.
  let mut a = vec![
    ax_speed(&[2, 4, 6, 9]),
    ax_tiles(),
    ax_bd(&[10, 12]),
    ax_cs(&[CS400, CS422, CS444]),
    ax_q(&[0, 30, 180, 255]),
    ax_content(&CONTENTS),
  ];
  a.extend(feature_axes());
  a.extend(tool_axes());
  // 64x64 transforms code the low quarter of the frequencies only, so blocks
  // of nothing smaller are not bounded by the quantizer.
  let a64 = |d: &Vec<(usize, usize)>| !lattice::name(&a, d).contains("part=64-64");
  push("tools", &Case::new(base(52, 42, 8), Content::Pan(5, 3), 4), &a, deviations(&a, if thorough { 2 } else { 1 }).into_iter().filter(a64).collect());
  let mut b = base(52, 42, 6);
  b.low_latency = false;
  b.quantizer = 40;
  push("pyramid", &Case::new(b, Content::Half, 9), &a, deviations(&a, 1).into_iter().filter(a64).collect());
  // Every quantizer.
  let mut q = axis("q");
  for x in 0..=255 {
    q = q.v(x, move |c: &mut Case| c.cfg.quantizer = x);
  }
  let q = vec![q, ax_bd(&[10, 12]), axis("order").v("pyramid", |c| c.cfg.low_latency = false)];
  push("quant", &Case::new(base(24, 24, 10), Content::Extreme, 3), &q, deviations(&q, 3));
  v
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("a case is non-trivial when every picture was shown within the bound; distinct cases are distinct streams");
  r.assume("libdav1d implements the AV1 decoding process and reports the quantizer of each frame");
  let p = plan(r.thorough());
  par_for(p.len(), |i| case(r, &p[i].name, &p[i].case));
  let mut t = TOP.lock().unwrap();
  for k in 0..3 {
    t.sort_by(|a, b| match k {
      0 => b.0.total_cmp(&a.0),
      1 => b.1.total_cmp(&a.1),
      _ => b.2.total_cmp(&a.2),
    });
    for x in t.iter().take(15) {
      println!("{:.3} {:.3} {:.2} {}", x.0, x.1, x.2, x.3);
    }
  }
}
