//! Deviation-bounded enumeration of the configuration space.
use crate::content::Content;
use crate::enc::*;
use rav1e::prelude::*;
use std::sync::Arc;

pub type Mod = Arc<dyn Fn(&mut Case) + Send + Sync>;

pub struct Axis {
  pub name: &'static str,
  /// The non-default values.
  pub vals: Vec<(String, Mod)>,
}

pub fn axis(name: &'static str) -> Axis {
  Axis { name, vals: vec![] }
}
impl Axis {
  pub fn v(
    mut self, n: impl ToString, f: impl Fn(&mut Case) + Send + Sync + 'static,
  ) -> Self {
    self.vals.push((n.to_string(), Arc::new(f)));
    self
  }
}

/// All ways of deviating from the default on at most `k` axes.
pub fn deviations(axes: &[Axis], k: usize) -> Vec<Vec<(usize, usize)>> {
  fn rec(
    axes: &[Axis], from: usize, k: usize, cur: &mut Vec<(usize, usize)>,
    out: &mut Vec<Vec<(usize, usize)>>,
  ) {
    out.push(cur.clone());
    if k == 0 {
      return;
    }
    for a in from..axes.len() {
      for v in 0..axes[a].vals.len() {
        cur.push((a, v));
        rec(axes, a + 1, k - 1, cur, out);
        cur.pop();
      }
    }
  }
  let mut out = vec![];
  rec(axes, 0, k, &mut vec![], &mut out);
  out.sort_by_key(|d| d.len());
  out
}

/// The full product: every axis takes its default or any other value.
pub fn product(axes: &[Axis]) -> Vec<Vec<(usize, usize)>> {
  deviations(axes, axes.len())
}

pub fn apply(axes: &[Axis], d: &[(usize, usize)], c: &mut Case) {
  for &(a, v) in d {
    (axes[a].vals[v].1)(c);
  }
}

pub fn name(axes: &[Axis], d: &[(usize, usize)]) -> String {
  if d.is_empty() {
    return "default".into();
  }
  d.iter()
    .map(|&(a, v)| format!("{}={}", axes[a].name, axes[a].vals[v].0))
    .collect::<Vec<_>>()
    .join(" ")
}

pub const CONTENTS: [Content; 11] = [
  Content::Flat(130),
  Content::Ramp,
  Content::Noise,
  Content::Pan(3, 1),
  Content::Screen,
  Content::Extreme,
  Content::Cut(2),
  Content::Half,
  Content::Fade,
  Content::Spot,
  Content::Quilt,
];

pub fn ax_speed(v: &[u8]) -> Axis {
  let mut a = axis("speed");
  for &s in v {
    a = a.v(s, move |c| {
      let old = c.cfg.speed_settings;
      let mut n = SpeedSettings::from_preset(s);
      n.rdo_lookahead_frames = old.rdo_lookahead_frames;
      n.scene_detection_mode = old.scene_detection_mode;
      c.cfg.speed_settings = n;
    });
  }
  a
}
pub fn ax_size(v: &[(usize, usize)]) -> Axis {
  let mut a = axis("size");
  for &(w, h) in v {
    a = a.v(format!("{w}x{h}"), move |c| {
      c.cfg.width = w;
      c.cfg.height = h;
    });
  }
  a
}
pub fn ax_bd(v: &[usize]) -> Axis {
  let mut a = axis("bd");
  for &b in v {
    // 16 is 8-bit video in 16-bit pixels.
    if b == 16 {
      a = a.v("8in16", |c| c.wide = true);
    } else {
      a = a.v(b, move |c| c.cfg.bit_depth = b);
    }
  }
  a
}
pub fn ax_cs(v: &[ChromaSampling]) -> Axis {
  let mut a = axis("cs");
  for &b in v {
    a = a.v(format!("{b:?}"), move |c| c.cfg.chroma_sampling = b);
  }
  a
}
pub fn ax_q(v: &[usize]) -> Axis {
  let mut a = axis("q");
  for &b in v {
    a = a.v(b, move |c| c.cfg.quantizer = b);
  }
  a
}
pub fn ax_content(v: &[Content]) -> Axis {
  let mut a = axis("content");
  for &b in v {
    a = a.v(b.name(), move |c| c.content = b);
  }
  a
}
pub fn ax_frames(v: &[usize]) -> Axis {
  let mut a = axis("frames");
  for &b in v {
    a = a.v(b, move |c| c.frames = b);
  }
  a
}
pub fn ax_lookahead(v: &[usize]) -> Axis {
  let mut a = axis("lookahead");
  for &b in v {
    a = a.v(b, move |c| c.cfg.speed_settings.rdo_lookahead_frames = b);
  }
  a
}
pub fn ax_latency() -> Axis {
  axis("order")
    .v("pyramid", |c| c.cfg.low_latency = false)
    .v("lowdelay", |c| c.cfg.low_latency = true)
}
pub fn ax_scene() -> Axis {
  axis("scene")
    .v("fast", |c| {
      c.cfg.speed_settings.scene_detection_mode = SceneDetectionSpeed::Fast
    })
    .v("std", |c| {
      c.cfg.speed_settings.scene_detection_mode = SceneDetectionSpeed::Standard
    })
}
pub fn ax_keyint(v: &[(u64, u64)]) -> Axis {
  let mut a = axis("keyint");
  for &(mi, ma) in v {
    a = a.v(format!("{mi}-{ma}"), move |c| {
      c.cfg.min_key_frame_interval = mi;
      c.cfg.max_key_frame_interval = ma;
    });
  }
  a
}
/// Geometry with several tiles; takes part in pairs as one value.
pub fn ax_tiles() -> Axis {
  let mut a = axis("tiles");
  for (n, w, h, tc, tr, t) in [
    ("130x40c2", 130, 40, 2, 0, 0),
    ("40x130r2", 40, 130, 0, 2, 0),
    ("136x132c2r2", 136, 132, 2, 2, 0),
    ("200x72t4", 200, 72, 0, 0, 4),
    ("260x20c4", 260, 20, 4, 0, 0),
  ] {
    a = a.v(n, move |c| {
      c.cfg.width = w;
      c.cfg.height = h;
      c.cfg.tile_cols = tc;
      c.cfg.tile_rows = tr;
      c.cfg.tiles = t;
    });
  }
  a
}
pub fn grain(start: u64, end: u64, seed: u16) -> rav1e::config::GrainTableSegment {
  use arrayvec::ArrayVec;
  rav1e::config::GrainTableSegment {
    start_time: start,
    end_time: end,
    scaling_points_y: ArrayVec::from_iter([[0, 20], [40, 30], [255, 60]]),
    scaling_points_cb: ArrayVec::from_iter([[0, 10], [128, 40]]),
    scaling_points_cr: ArrayVec::from_iter([[0, 12]]),
    scaling_shift: 9,
    ar_coeff_lag: 2,
    ar_coeffs_y: ArrayVec::from_iter((0..12).map(|i| i as i8 - 6)),
    ar_coeffs_cb: ArrayVec::from_iter((0..13).map(|i| 5 - i as i8)),
    ar_coeffs_cr: ArrayVec::from_iter((0..13).map(|i| i as i8 * 2 - 9)),
    ar_coeff_shift: 7,
    cb_mult: 128,
    cb_luma_mult: 192,
    cb_offset: 256,
    cr_mult: 100,
    cr_luma_mult: 180,
    cr_offset: 300,
    overlap_flag: true,
    chroma_scaling_from_luma: false,
    grain_scale_shift: 1,
    random_seed: seed,
  }
}

/// Stream-level features.
pub fn feature_axes() -> Vec<Axis> {
  vec![
    ax_latency(),
    ax_lookahead(&[1, 3, 6]),
    ax_scene(),
    ax_keyint(&[(0, 1), (0, 2), (2, 3)]),
    axis("er").v("on", |c| c.cfg.error_resilient = true),
    axis("sframe")
      .v(1, |c| {
        c.cfg.switch_frame_interval = 1;
        c.cfg.low_latency = true;
      })
      .v(2, |c| {
        c.cfg.switch_frame_interval = 2;
        c.cfg.low_latency = true;
      }),
    axis("still").v("on", |c| {
      c.cfg.still_picture = true;
      c.frames = 1;
    }),
    axis("tune").v("psnr", |c| c.cfg.tune = Tune::Psnr),
    axis("rate")
      .v("10k", |c| c.cfg.bitrate = 10_000)
      .v("150k", |c| c.cfg.bitrate = 150_000)
      .v("4M-lat", |c| {
        c.cfg.bitrate = 4_000_000;
        c.cfg.reservoir_frame_delay = Some(12);
      }),
    axis("minq").v(140, |c| c.cfg.min_quantizer = 140),
    axis("grain").v("on", |c| {
      c.cfg.film_grain_params = Some(vec![grain(0, u64::MAX, 1234)])
    }),
    axis("timing").v("on", |c| c.cfg.enable_timing_info = true),
    axis("range").v("full", |c| c.cfg.pixel_range = PixelRange::Full),
    axis("sar").v("2:1", |c| {
      c.cfg.sample_aspect_ratio = Rational { num: 2, den: 1 }
    }),
  ]
}

/// One axis per coding tool switch.
pub fn tool_axes() -> Vec<Axis> {
  use BlockSize::*;
  macro_rules! flip {
    ($n:literal, $($f:ident).+) => {
      axis($n).v("flip", |c| {
        let s = &mut c.cfg.speed_settings;
        s.$($f).+ = !s.$($f).+;
      })
    };
  }
  let part = |n: &'static str, lo, hi| {
    (n, move |c: &mut Case| {
      c.cfg.speed_settings.partition.partition_range =
        PartitionRange::new(lo, hi)
    })
  };
  let mut parts = axis("part");
  for (n, f) in [
    part("4-64", BLOCK_4X4, BLOCK_64X64),
    part("4-4", BLOCK_4X4, BLOCK_4X4),
    part("8-8", BLOCK_8X8, BLOCK_8X8),
    part("8-32", BLOCK_8X8, BLOCK_32X32),
    part("16-16", BLOCK_16X16, BLOCK_16X16),
    part("64-64", BLOCK_64X64, BLOCK_64X64),
  ] {
    parts = parts.v(n, f);
  }
  vec![
    flip!("multiref", multiref),
    flip!("fastdb", fast_deblock),
    flip!("cdef", cdef),
    flip!("lrf", lrf),
    flip!("lruskip", lru_on_skip),
    axis("sgr")
      .v("full", |c| {
        c.cfg.speed_settings.sgr_complexity = SGRComplexityLevel::Full
      })
      .v("red", |c| {
        c.cfg.speed_settings.sgr_complexity = SGRComplexityLevel::Reduced
      }),
    axis("seg")
      .v("off", |c| {
        c.cfg.speed_settings.segmentation = SegmentationLevel::Disabled
      })
      .v("simple", |c| {
        c.cfg.speed_settings.segmentation = SegmentationLevel::Simple
      })
      .v("complex", |c| {
        c.cfg.speed_settings.segmentation = SegmentationLevel::Complex
      })
      .v("full", |c| {
        c.cfg.speed_settings.segmentation = SegmentationLevel::Full
      }),
    flip!("bottomup", partition.encode_bottomup),
    axis("nonsq")
      .v(8, |c| {
        c.cfg.speed_settings.partition.non_square_partition_max_threshold =
          BLOCK_8X8
      })
      .v(64, |c| {
        c.cfg.speed_settings.partition.non_square_partition_max_threshold =
          BLOCK_64X64
      }),
    parts,
    flip!("redtx", transform.reduced_tx_set),
    flip!("txdist", transform.tx_domain_distortion),
    flip!("txrate", transform.tx_domain_rate),
    flip!("rdotx", transform.rdo_tx_decision),
    flip!("txsplit", transform.enable_inter_tx_split),
    axis("modes")
      .v("simple", |c| {
        c.cfg.speed_settings.prediction.prediction_modes =
          PredictionModesSetting::Simple
      })
      .v("all", |c| {
        c.cfg.speed_settings.prediction.prediction_modes =
          PredictionModesSetting::ComplexAll
      }),
    flip!("finedir", prediction.fine_directional_intra),
    flip!("nearmv", motion.include_near_mvs),
    flip!("satd", motion.use_satd_subpel),
    flip!("fullme", motion.me_allow_full_search),
  ]
}
