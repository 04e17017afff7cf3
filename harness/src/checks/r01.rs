//! Decoders reconstruct exactly what the encoder says they will.
use crate::dec::*;
use crate::lattice::*;
use rav1e::prelude::*;
use crate::*;

/// Decodes packets with both decoders: one frame each, of the right format,
/// equal to the reconstruction.
pub fn judge(
  r: &Report, cfg: &EncoderConfig, pkts: &[Pkt],
) -> Result<(), (&'static str, String)> {
  let dims = plane_dims(cfg);
  for w in [Which::Dav1d, Which::Aom] {
    let mut d = Decoder::new(w);
    for (i, x) in pkts.iter().enumerate() {
      r.add("transitions", 1);
      let v = match d.feed(&x.data) {
        Ok(v) => v,
        Err(e) => {
          return Err(("undecodable", format!("packet {i}: {e}")))
        }
      };
      if v.len() != 1 {
        return Err((
          "frame-count",
          format!("packet {i} shows {} frames in {w:?}", v.len()),
        ));
      }
      let got = &v[0];
      let Some(rec) = &x.rec else {
        return Err(("no-rec", format!("packet {i} has no reconstruction")));
      };
      if got.r.bpc as usize != cfg.bit_depth
        || got.planes.len() != dims.len()
        || dims
          .iter()
          .enumerate()
          .any(|(p, d)| (got.r.pw[p] as usize, got.r.ph[p] as usize) != *d)
      {
        return Err(("format", format!("packet {i}: {w:?} shows {}x{} {} bit", got.r.w, got.r.h, got.r.bpc)));
      }
      if got.planes != *rec {
        let mut at = String::new();
        for (p, (g, e)) in got.planes.iter().zip(rec).enumerate() {
          if let Some(o) = g.iter().zip(e).position(|(a, b)| a != b) {
            let n = g.iter().zip(e).filter(|(a, b)| a != b).count();
            at = format!(
              "plane {p} at ({}, {}): decoder {} encoder {} ({n} samples differ)",
              o % dims[p].0,
              o / dims[p].0,
              g[o],
              e[o]
            );
            break;
          }
        }
        return Err(("mismatch", format!("frame {i} ({:?}), {w:?}: {at}", x.ty)));
      }
    }
  }
  Ok(())
}

/// Encodes the case, decodes it with both decoders and compares.
pub fn conform(r: &Report, name: &str, case: &Case) {
  if !r.wants(name) {
    return;
  }
  r.add("evaluations", 1);
  let p = match encode(case, Want { rec: true, src: false }) {
    Ok(p) => p,
    Err(e) if e.contains("Invalid") => {
      r.add("rejected_by_validation", 1);
      return;
    }
    Err(e)
      if name.contains("part=4-4")
        && case.cfg.chroma_sampling != CS420
        && e.contains("PARTITION_INVALID") =>
    {
      return r.violation("max-partition-4x4-non-420", name, &e)
    }
    Err(e) => return r.violation("encode-fails", name, &e),
  };
  if let Err((k, what)) = judge(r, &case.cfg, &p) {
    return r.violation(k, name, &what);
  }
  let mut bytes = vec![];
  for x in &p {
    bytes.extend_from_slice(&x.data);
  }
  if p.len() != case.frames {
    return r.violation(
      "frame-count",
      name,
      &format!("{} frames in, {} packets out", case.frames, p.len()),
    );
  }
  r.add("states", p.len() as u64);
  r.add("traces", 2);
  r.outcome(&bytes);
  r.sample(format!("{name}: {} frames, {} bytes", p.len(), bytes.len()));
}

pub struct Plan {
  pub name: String,
  pub case: Case,
}

pub fn plan(thorough: bool) -> Vec<Plan> {
  let mut v = vec![];
  let mut push = |pre: &str, base: &Case, axes: &[Axis], ds: Vec<Vec<(usize, usize)>>| {
    for d in ds {
      let mut c = base.clone();
      apply(axes, &d, &mut c);
      v.push(Plan { name: format!("{pre} {}", lattice::name(axes, &d)), case: c });
    }
  };
  // Every pair of deviations from two bases, over all switches.
  let all = || {
    let mut a = vec![
      ax_speed(&[0, 1, 2, 3, 4, 5, 6, 7, 9]),
      ax_size(&[(16, 16), (17, 33), (64, 64), (66, 20), (24, 100)]),
      ax_tiles(),
      ax_bd(&[10, 12, 16]),
      ax_cs(&[CS400, CS422, CS444]),
      ax_q(&[0, 1, 30, 180, 255]),
      ax_content(&CONTENTS),
    ];
    a.extend(feature_axes());
    a.extend(tool_axes());
    a
  };
  let mut fast = base(48, 40, 8);
  fast.speed_settings.scene_detection_mode = SceneDetectionSpeed::None;
  let a = all();
  push("fast", &Case::new(fast, Content::Pan(5, 3), 3), &a, deviations(&a, 2));
  let mut slow = base(40, 56, 4);
  slow.low_latency = false;
  slow.quantizer = 60;
  push("slow", &Case::new(slow, Content::Spot, 5), &a, deviations(&a, if thorough { 2 } else { 1 }));
  // The formats fully crossed with content, quantizer and speed.
  let f = vec![
    ax_speed(if thorough { &[0, 1, 2, 3, 4, 5, 7, 8, 9, 10] } else { &[2, 4, 10] }),
    ax_bd(&[10, 12, 16]),
    ax_cs(&[CS400, CS422, CS444]),
    ax_q(&[8, 220]),
    ax_content(&CONTENTS),
  ];
  let mut b = base(34, 26, 6);
  b.low_latency = false;
  push("format", &Case::new(b, Content::Pan(-7, 2), 3), &f, product(&f));
  // All small sizes around the block grid.
  let mut s = axis("size");
  let top = if thorough { 40 } else { 20 };
  for w in 16..=top {
    for h in 16..=top {
      s = s.v(format!("{w}x{h}"), move |c: &mut Case| {
        c.cfg.width = w;
        c.cfg.height = h;
      });
    }
  }
  let s = vec![s, ax_cs(&[CS422, CS444]), ax_bd(&[10, 16])];
  push("sizes", &Case::new(base(16, 16, 9), Content::Half, 2), &s, deviations(&s, 2));
  // Every quantizer at every bit depth, with something to code everywhere.
  let mut q = axis("q");
  for x in 0..=255 {
    q = q.v(x, move |c: &mut Case| c.cfg.quantizer = x);
  }
  let q = vec![q, ax_bd(&[10, 12, 16]), axis("order").v("pyramid", |c| c.cfg.low_latency = false)];
  push("quant", &Case::new(base(24, 24, 10), Content::Extreme, 3), &q, deviations(&q, 3));
  // Motion of every magnitude class.
  let mut m = axis("pan");
  let wide = if thorough { 1100 } else { 360 };
  let mut d = 1i32;
  while d < wide {
    for (x, y) in [(d, 0), (-d, 0), (0, d), (0, -d), (d, -d), (d - 1, 1)] {
      m = m.v(format!("{x},{y}"), move |c: &mut Case| {
        let (x, y) = (x as i64, y as i64);
        c.content = Content::Pan(x as _, y as _);
        let far = d as usize;
        c.cfg.width = if x.abs() > 1 { 64 + far + far / 2 } else { 48 } & !7;
        c.cfg.height = if y.abs() > 1 { 64 + far + far / 2 } else { 48 } & !7;
      });
    }
    d = d * 7 / 4 + 1;
  }
  let m = vec![m, axis("fullme").v("flip", |c| {
    let s = &mut c.cfg.speed_settings;
    s.motion.me_allow_full_search = !s.motion.me_allow_full_search;
  })];
  let mut b = base(48, 48, 9);
  b.quantizer = 40;
  push("motion", &Case::new(b, Content::Pan(0, 0), 2), &m, product(&m));
  // Neighbours that move apart, with every structure of references.
  let mut f = axis("flock");
  for n in if thorough { (0..24).collect() } else { vec![0, 1, 2, 8u8] } {
    f = f.v(n, move |c: &mut Case| c.content = Content::Flock(n));
  }
  let f = vec![
    f,
    ax_speed(&[6, 4, 2, 0]),
    ax_latency(),
    axis("multiref").v("flip", |c: &mut Case| {
      let s = &mut c.cfg.speed_settings;
      s.multiref = !s.multiref;
    }),
    axis("size").v("80x24", |c| (c.cfg.width, c.cfg.height) = (80, 24)).v("136x72", |c| {
      (c.cfg.width, c.cfg.height) = (136, 72)
    }),
    axis("tiles").v("2", |c| (c.cfg.width, c.cfg.height, c.cfg.tile_cols) = (96, 40, 2)),
    ax_q(&[20, 200]),
    ax_cs(&[CS444, CS400]),
    ax_bd(&[10]),
    axis("er").v("on", |c| c.cfg.error_resilient = true),
  ];
  let mut b = base(48, 40, 9);
  b.low_latency = false;
  b.speed_settings.multiref = true;
  push("flock", &Case::new(b, Content::Flock(10), 9), &f, deviations(&f, if thorough { 3 } else { 2 }));
  // Chroma from luma at the edges of the frame, where the luma of a block
  // is not all there.
  let mut z = axis("size");
  for (w, h) in [(24, 24), (40, 24), (24, 40), (56, 56), (88, 56), (56, 88)] {
    z = z.v(format!("{w}x{h}"), move |c: &mut Case| (c.cfg.width, c.cfg.height) = (w, h));
  }
  let z = vec![
    z,
    axis("format")
      .v("422", |c: &mut Case| {
        c.cfg.chroma_sampling = CS422;
        c.content = Content::Tint(1, 0);
      })
      .v("444", |c| {
        c.cfg.chroma_sampling = CS444;
        c.content = Content::Tint(0, 0);
      }),
    ax_q(&[20, 60, 180]),
    axis("blocks").v("32", |c: &mut Case| {
      c.cfg.speed_settings.partition.partition_range =
        PartitionRange::new(BlockSize::BLOCK_32X32, BlockSize::BLOCK_32X32)
    }).v("16", |c| {
      c.cfg.speed_settings.partition.partition_range =
        PartitionRange::new(BlockSize::BLOCK_16X16, BlockSize::BLOCK_32X32)
    }),
    ax_bd(&[10]),
  ];
  let mut b = base(32, 32, 2);
  b.speed_settings.transform.rdo_tx_decision = true;
  push("cfl", &Case::new(b, Content::Tint(1, 1), 2), &z, product(&z));
  // Restoration units around every rounding of their number.
  let mut z = axis("size");
  let mut lens = vec![];
  for k in if thorough { vec![64, 96, 128, 160, 192, 256, 320, 384, 448, 640] } else { vec![96, 160, 192, 320, 384] } {
    for d in if thorough { vec![-2i32, -1, 0, 1, 2] } else { vec![-1, 0, 1] } {
      lens.push((k + d) as usize);
    }
  }
  for n in lens {
    for (w, h) in [(n, 48), (48, n)] {
      z = z.v(format!("{w}x{h}"), move |c: &mut Case| {
        c.cfg.width = w;
        c.cfg.height = h;
      });
    }
  }
  let z = vec![
    z,
    ax_cs(&[CS422, CS444]),
    ax_q(&[170, 230]),
    axis("tiles").v("2", |c| {
      if c.cfg.width > c.cfg.height {
        c.cfg.tile_cols = 2
      } else {
        c.cfg.tile_rows = 2
      }
    }),
  ];
  let mut b = base(48, 48, 8);
  b.speed_settings.lrf = true;
  push("lrf", &Case::new(b.clone(), Content::Half, 2), &z, product(&z));
  // Restoration units and tiles in both directions.
  let mut y = axis("size");
  for (w, h) in if thorough {
    vec![(256, 128), (128, 256), (320, 320), (512, 256), (256, 512), (512, 512), (384, 256), (300, 170), (640, 384)]
  } else {
    vec![(256, 128), (128, 256), (320, 200)]
  } {
    y = y.v(format!("{w}x{h}"), move |c: &mut Case| (c.cfg.width, c.cfg.height) = (w, h));
  }
  let mut tl = axis("tiles");
  for (a, b) in [(1, 2), (2, 1), (2, 2), (4, 1), (4, 4)] {
    tl = tl.v(format!("{a}x{b}"), move |c: &mut Case| (c.cfg.tile_cols, c.cfg.tile_rows) = (a, b));
  }
  let y = vec![y, tl, ax_cs(&[CS422, CS444, CS400]), ax_q(&[170, 230])];
  (b.width, b.height) = (256, 256);
  push("lrf-tiles", &Case::new(b, Content::Half, 2), &y, product(&y));
  // Groups of pictures past the order hint's range, with every structure.
  let l = vec![
    ax_latency(),
    ax_frames(if thorough { &[66, 97, 130, 131, 200, 270] } else { &[75, 140] }),
    axis("speed").v(6, |c| {
      let n = c.cfg.speed_settings.rdo_lookahead_frames;
      c.cfg.speed_settings = SpeedSettings::from_preset(6);
      c.cfg.speed_settings.rdo_lookahead_frames = n;
      c.cfg.speed_settings.scene_detection_mode = SceneDetectionSpeed::None;
    }),
    axis("multiref").v("flip", |c| {
      let s = &mut c.cfg.speed_settings;
      s.multiref = !s.multiref;
    }),
    axis("er").v("on", |c| c.cfg.error_resilient = true),
    axis("sframe")
      .v(5, |c| {
        c.cfg.switch_frame_interval = 5;
        c.cfg.low_latency = true;
      })
      .v(33, |c| {
        c.cfg.switch_frame_interval = 33;
        c.cfg.low_latency = true;
      }),
    ax_keyint(&[(0, 37), (0, 70)]),
    ax_content(&[Content::Spot, Content::Flat(130)]),
    axis("rate").v("150k", |c| c.cfg.bitrate = 150_000),
    ax_lookahead(&[3]),
    ax_bd(&[10]),
  ];
  let mut b = base(16, 16, 10);
  b.low_latency = false;
  b.speed_settings.scene_detection_mode = SceneDetectionSpeed::None;
  b.max_key_frame_interval = 1000;
  push("long", &Case::new(b, Content::Pan(1, 1), 135), &l, deviations(&l, if thorough { 3 } else { 2 }));
  v
}

use rav1e::prelude::SceneDetectionSpeed;

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("a case is non-trivial when both decoders reproduced every frame bit-exactly; distinct cases are distinct streams");
  r.assume("libdav1d (strict) and libaom implement the AV1 decoding process; both must agree with the encoder");
  let p = plan(r.thorough());
  par_for(p.len(), |i| conform(r, &p[i].name, &p[i].case));
}
