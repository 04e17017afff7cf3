//! Configurations are rejected with an error or they work: at every limit.
use crate::checks::r01::conform;
use crate::lattice::*;
use crate::*;
use rav1e::config::InvalidConfig as IC;

/// Annex A of the AV1 standard: picture size, width, height, samples per second.
fn level_limits(l: u8) -> Option<(u64, u64, u64, u64)> {
  Some(match l {
    0 => (147456, 2048, 1152, 4_423_680),
    1 => (278784, 2816, 1584, 8_363_520),
    4 => (665856, 4352, 2448, 19_975_680),
    5 => (1065024, 5504, 3096, 31_950_720),
    8 => (2359296, 6144, 3456, 70_778_880),
    9 => (2359296, 6144, 3456, 141_557_760),
    12 => (8912896, 8192, 4352, 267_386_880),
    13 => (8912896, 8192, 4352, 534_773_760),
    14 | 15 => (8912896, 8192, 4352, 1_069_547_520),
    16 => (35651584, 16384, 8704, 1_069_547_520),
    17 => (35651584, 16384, 8704, 2_139_095_040),
    18 | 19 => (35651584, 16384, 8704, 4_278_190_080),
    _ => return None,
  })
}

/// What the documentation of `InvalidConfig` and the standard say.
/// None: no opinion.
pub fn expectation(c: &EncoderConfig) -> Result<(), &'static str> {
  let lo = if c.still_picture { 1 } else { 16 };
  if !(lo..=65535).contains(&c.width) {
    return Err("InvalidWidth");
  }
  if !(lo..=65535).contains(&c.height) {
    return Err("InvalidHeight");
  }
  if ![8, 10, 12].contains(&c.bit_depth) {
    return Err("InvalidBitDepth");
  }
  let (n, d) = (c.sample_aspect_ratio.num as u128, c.sample_aspect_ratio.den as u128);
  if n == 0 {
    return Err("InvalidAspectRatioNum");
  }
  if d == 0 {
    return Err("InvalidAspectRatioDen");
  }
  let round = |a: u128, b: u128| (2 * a + b) / (2 * b);
  if n > d {
    let w = round(c.width as u128 * n, d);
    if w == 0 || w > 65535 {
      return Err("InvalidRenderWidth");
    }
  } else {
    let h = round(c.height as u128 * d, n);
    if h == 0 || h > 65535 {
      return Err("InvalidRenderHeight");
    }
  }
  let l = c.speed_settings.rdo_lookahead_frames;
  if l == 0 || l == usize::MAX {
    return Err("InvalidRdoLookaheadFrames");
  }
  if c.max_key_frame_interval > i32::MAX as u64 / 3 {
    return Err("InvalidMaxKeyFrameInterval");
  }
  if c.tile_cols != 0 && !c.tile_cols.is_power_of_two() {
    return Err("InvalidTileCols");
  }
  if c.tile_rows != 0 && !c.tile_rows.is_power_of_two() {
    return Err("InvalidTileRows");
  }
  let u32r = 1..=u32::MAX as u64;
  if !u32r.contains(&c.time_base.num) {
    return Err("InvalidFrameRateNum");
  }
  if !u32r.contains(&c.time_base.den) {
    return Err("InvalidFrameRateDen");
  }
  if c.reservoir_frame_delay.is_some_and(|d| !(12..=131072).contains(&d)) {
    return Err("InvalidReservoirFrameDelay");
  }
  if c.switch_frame_interval > 0 && !c.low_latency {
    return Err("InvalidSwitchFrameInterval");
  }
  if c.enable_timing_info && c.still_picture {
    return Err("InvalidOptionWithStillPicture");
  }
  if let (Some(d), false) = (&c.color_description, c.chroma_sampling == CS400) {
    // The sequence header implies 4:4:4 and full range for this triple, and
    // the identity matrix needs planes of one size.
    let id = d.matrix_coefficients as u8 == 0;
    let triple = id && d.color_primaries as u8 == 1 && d.transfer_characteristics as u8 == 13;
    if triple && c.pixel_range != rav1e::prelude::PixelRange::Full || id && c.chroma_sampling != CS444 {
      return Err("ColorConfigurationMismatch");
    }
  }
  if let Some(l) = c.level_idx {
    if l != 31 {
      let Some((pic, w, h, rate)) = level_limits(l) else {
        return Err("LevelUndefined");
      };
      let area = (c.width * c.height) as u128;
      if area > pic as u128
        || c.width as u64 > w
        || c.height as u64 > h
        || area * c.time_base.den as u128 > rate as u128 * c.time_base.num as u128
      {
        return Err("LevelConstraintsExceeded");
      }
    }
  }
  Ok(())
}

/// Whether and how the configuration is refused.
fn verdict(case: &Case) -> Result<Result<(), String>, String> {
  guarded(|| match case.config().validate() {
    Ok(()) => Ok(()),
    Err(e) => {
      let e: IC = e;
      Err(format!("{e:?}"))
    }
  })
}

fn judge(r: &Report, name: &str, case: &Case, encode_too: bool) {
  if !r.wants(name) {
    return;
  }
  tick(name);
  r.add("transitions", 1);
  let v = match verdict(case) {
    Ok(v) => v,
    Err(e) => {
      r.add("evaluations", 1);
      return r.violation("validate-panics", name, &e);
    }
  };
  let want = expectation(&case.cfg);
  let ok = match (&v, want) {
    (Ok(()), Ok(())) => true,
    (Err(e), Err(w)) => e.starts_with(w),
    // The standard allows what the encoder may still decline, but only for
    // reasons of its own.
    (Err(e), Ok(())) => {
      !e.starts_with("Level") && !e.starts_with("InvalidWidth") && own_reason(&case.cfg)
    }
    (Ok(()), Err(_)) => false,
  };
  if !ok {
    r.add("evaluations", 1);
    return r.violation(
      "verdict",
      name,
      &format!("validation says {v:?}, expected {want:?}"),
    );
  }
  r.outcome(&(format!("{v:?}").chars().filter(|c| !c.is_ascii_digit()).collect::<String>()));
  match v {
    Err(_) => {
      r.add("evaluations", 1);
      r.add("rejected", 1);
      // The constructor must refuse it in the same way.
      match guarded(|| Ctx::new(&case.config(), 8, case.cfg.bit_depth != 8).map(|_| ())) {
        Ok(Err(_)) => {}
        Ok(Ok(())) => r.violation("constructor", name, "validate() refuses, new_context() accepts"),
        Err(e) => r.violation("constructor-panics", name, &e),
      }
    }
    Ok(()) if encode_too => conform(r, name, case),
    Ok(()) => {
      r.add("evaluations", 1);
      if let Err(e) = guarded(|| case.config().tiling_info().map(|_| ())) {
        r.violation("tiling-panics", name, &e);
      }
    }
  }
}

/// Values no documentation gives a range for, which may be refused.
fn own_reason(c: &EncoderConfig) -> bool {
  c.quantizer > 255
    || c.bitrate < 0
    || c.tile_cols > 64
    || c.tile_rows > 64
}

fn limits() -> Vec<Axis> {
  use rav1e::prelude::Rational;
  let mut v = vec![];
  macro_rules! ax {
    ($n:literal, [$($val:expr),* $(,)?], |$c:ident, $x:ident| $f:expr) => {{
      let mut a = axis($n);
      $(
        let $x = $val;
        a = a.v(format!("{:?}", $x), move |$c: &mut Case| $f);
      )*
      v.push(a);
    }};
  }
  ax!("w", [0usize, 1, 15, 16, 17, 65536, usize::MAX], |c, x| c.cfg.width = x);
  ax!("h", [0usize, 1, 15, 16, 17, 65536, usize::MAX], |c, x| c.cfg.height = x);
  ax!("sarn", [0u64, 2, 1023, 1366, 65535, u64::MAX], |c, x| c.cfg.sample_aspect_ratio.num = x);
  ax!("sard", [0u64, 3, 1365, 65536, u64::MAX], |c, x| c.cfg.sample_aspect_ratio.den = x);
  ax!("tbn", [0u64, 7, 1001, u32::MAX as u64, 1 << 32, u64::MAX], |c, x| c.cfg.time_base.num = x);
  ax!("tbd", [0u64, 1, 1000, 90000, u32::MAX as u64, 1 << 32, u64::MAX], |c, x| c.cfg.time_base.den = x);
  ax!("bd", [0usize, 1, 7, 9, 10, 11, 12, 13, 16, usize::MAX], |c, x| c.cfg.bit_depth = x);
  ax!("q", [0usize, 1, 255, 256, 511, usize::MAX], |c, x| c.cfg.quantizer = x);
  ax!("minq", [1u8, 255], |c, x| c.cfg.min_quantizer = x);
  ax!("rate", [1i32, 1000, i32::MAX, -1, i32::MIN], |c, x| c.cfg.bitrate = x);
  ax!("delay", [11i32, 12, 13, 131072, 131073, -1, i32::MIN], |c, x| c.cfg.reservoir_frame_delay = Some(x));
  ax!("minkey", [1u64, 12, 1 << 40, u64::MAX], |c, x| c.cfg.min_key_frame_interval = x);
  ax!("maxkey", [0u64, 1, 715_827_882, 715_827_883, u64::MAX], |c, x| c.cfg.max_key_frame_interval = x);
  ax!("sframe", [1u64, 2, u64::MAX], |c, x| c.cfg.switch_frame_interval = x);
  ax!("cols", [1usize, 2, 3, 64, 128, 1 << 40, 1 << 63, usize::MAX], |c, x| c.cfg.tile_cols = x);
  ax!("rows", [1usize, 2, 3, 64, 128, 1 << 40, 1 << 63, usize::MAX], |c, x| c.cfg.tile_rows = x);
  ax!("tiles", [1usize, 2, 3, 4096, usize::MAX], |c, x| c.cfg.tiles = x);
  ax!("la", [0usize, 1, 115, usize::MAX - 1, usize::MAX], |c, x| c.cfg.speed_settings.rdo_lookahead_frames = x);
  ax!("level", [0u8, 1, 2, 3, 4, 9, 19, 20, 30, 31, 32, 255], |c, x| c.cfg.level_idx = Some(x));
  ax!("still", [true], |c, x| {
    c.cfg.still_picture = x;
    c.frames = 1;
  });
  ax!("order", [false], |c, x| c.cfg.low_latency = x);
  ax!("timing", [true], |c, x| c.cfg.enable_timing_info = x);
  ax!("er", [true], |c, x| c.cfg.error_resilient = x);
  ax!("cs", [CS400, CS422, CS444], |c, x| c.cfg.chroma_sampling = x);
  ax!("grain", [(0u64, 1u64), (0, u64::MAX), (5, 5), (9, 3), (u64::MAX, u64::MAX)], |c, x| {
    c.cfg.film_grain_params = Some(vec![grain(x.0, x.1, 77)])
  });
  ax!("nograin", [0], |c, x| {
    let _: i32 = x;
    c.cfg.film_grain_params = Some(vec![])
  });
  ax!("fps", [(u32::MAX as u64, u32::MAX as u64), (1, u32::MAX as u64), (u32::MAX as u64, 1)], |c, x| {
    c.cfg.time_base = Rational { num: x.0, den: x.1 }
  });
  v
}

/// Every level at every one of its limits.
fn levels(r: &Report) {
  let mut v = vec![];
  for l in (0..=40u8).chain([255]) {
    let (pic, w, h, rate) = level_limits(l).unwrap_or((147456, 2048, 1152, 4_423_680));
    let mut sizes = vec![(64, 64), (w, 16), (w + 1, 16), (16, h), (16, h + 1)];
    // Pictures of the largest area, a little less and a little more.
    for a in [256u64, 512, 1024, 1152, 1536, 2048, 2304, 4096, 4352, 8704] {
      sizes.extend([(pic / a, a), (pic / a + 1, a), (a, pic / a), (a, pic / a + 1)]);
    }
    for (w, h) in sizes {
      if w > 65535 || h > 65535 {
        continue;
      }
      // Frame rates around the limit, in several time bases.
      let mut fps = vec![(1, 30u64), (1, 1), (1001, 30000), (1, 60), (30, 1), (90000, 90001)];
      for k in [1u64, 1001] {
        let f = (rate as u128 * k as u128 / (w * h) as u128) as u64;
        fps.extend([(k, f.max(1)), (k, f + 1), (f.max(1), k), (f + 1, k)]);
      }
      for (num, den) in fps {
        v.push((l, w as usize, h as usize, num, den));
      }
    }
  }
  par_for(v.len(), |i| {
    let (l, w, h, num, den) = v[i];
    let name = format!("level {l} {w}x{h} at {num}/{den}");
    if !r.wants(&name) {
      return;
    }
    let mut c = base(w, h, 10);
    c.level_idx = Some(l);
    c.time_base = Rational { num, den };
    judge(r, &name, &Case::new(c, Content::Flat(9), 1), false);
  });
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("a configuration is non-trivial when it was refused for the documented reason or encoded into a stream both decoders reproduce; distinct cases are refusal kinds and streams");
  r.assume("the pixel type of the context fits the bit depth (mixing them is a documented panic)");
  levels(r);
  let axes = limits();
  let mut b = base(32, 24, 10);
  b.speed_settings.rdo_lookahead_frames = 3;
  let d = deviations(&axes, 2);
  par_for(d.len(), |i| {
    let name = format!("limits {}", lattice::name(&axes, &d[i]));
    if !r.wants(&name) {
      return;
    }
    let mut c = Case::new(b.clone(), Content::Spot, 4);
    apply(&axes, &d[i], &mut c);
    let small = c.cfg.width.saturating_mul(c.cfg.height) <= 1 << 16;
    judge(r, &name, &c, small);
  });
  if r.thorough() {
    let mut b = base(64, 48, 6);
    b.low_latency = false;
    b.bitrate = 200_000;
    b.speed_settings.scene_detection_mode = rav1e::prelude::SceneDetectionSpeed::Standard;
    par_for(d.len(), |i| {
      let name = format!("limits2 {}", lattice::name(&axes, &d[i]));
      if !r.wants(&name) {
        return;
      }
      let mut c = Case::new(b.clone(), Content::Cut(2), 12);
      apply(&axes, &d[i], &mut c);
      if c.cfg.still_picture {
        c.frames = 1;
      }
      let small = c.cfg.width.saturating_mul(c.cfg.height) <= 1 << 16;
      judge(r, &name, &c, small);
    });
  }
}
