//! The headers say what the configuration says, in a well-formed stream.
use crate::dec::*;
use crate::lattice::*;
use crate::*;
use rav1e::prelude::*;

fn ne<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Result<(), String> {
  if got == want {
    Ok(())
  } else {
    Err(format!("{what}: {got:?}, expected {want:?}"))
  }
}

/// The sequence-level facts a configuration fixes.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Expect {
  pub profile: i32,
  pub high: bool,
  pub twelve: bool,
  pub mono: bool,
  pub ss: (i32, i32),
  pub csp: i32,
  pub level: i32,
}

pub fn expect(c: &EncoderConfig) -> Expect {
  let mono = c.chroma_sampling == CS400;
  Expect {
    profile: match (c.chroma_sampling, c.bit_depth) {
      (_, 12) | (ChromaSampling::Cs422, _) => 2,
      (ChromaSampling::Cs444, _) => 1,
      _ => 0,
    },
    high: c.bit_depth > 8,
    twelve: c.bit_depth == 12,
    mono,
    ss: match c.chroma_sampling {
      ChromaSampling::Cs444 => (0, 0),
      ChromaSampling::Cs422 => (1, 0),
      _ => (1, 1),
    },
    csp: if c.chroma_sampling == CS420 {
      c.chroma_sample_position as i32
    } else {
      0
    },
    level: c.level_idx.map_or(31, |l| l as i32),
  }
}

/// The av1C record.
pub fn container(h: &[u8], e: &Expect) -> Result<(), String> {
  ne("container header length", h.len(), 4)?;
  let mut b = obu::Bits::new(h);
  let mut f = |n| b.f(n).map(|v| v as i32);
  ne("container marker", f(1)?, 1)?;
  ne("container version", f(7)?, 1)?;
  ne("container profile", f(3)?, e.profile)?;
  ne("container level", f(5)?, e.level)?;
  ne("container tier", f(1)?, 0)?;
  ne("container high_bitdepth", f(1)?, e.high as i32)?;
  ne("container twelve_bit", f(1)?, e.twelve as i32)?;
  ne("container monochrome", f(1)?, e.mono as i32)?;
  ne("container subsampling_x", f(1)?, e.ss.0)?;
  ne("container subsampling_y", f(1)?, e.ss.1)?;
  ne("container chroma_sample_position", f(2)?, e.csp)?;
  ne("container reserved", f(3)?, 0)?;
  ne("container delay present", f(1)?, 0)?;
  ne("container reserved", f(4)?, 0)
}

/// The order of the OBUs of one temporal unit.
pub fn structure(p: &Pkt) -> Result<(), String> {
  let o = obu::split(&p.data)?;
  let t: Vec<u8> = o.iter().map(|o| o.ty).collect();
  if t.first() != Some(&obu::TD) || !o[0].payload.is_empty() {
    return Err(format!("does not start with a temporal delimiter: {t:?}"));
  }
  let mut i = 1;
  if p.ty == FrameType::KEY {
    if t.get(1) != Some(&obu::SEQ) {
      return Err(format!("no sequence header after the delimiter: {t:?}"));
    }
    i = 2;
  }
  let mut frames = 0;
  for x in &t[i..] {
    match *x {
      obu::METADATA => {}
      obu::FRAME | obu::FRAME_HEADER => frames += 1,
      o => return Err(format!("unexpected OBU type {o}: {t:?}")),
    }
  }
  if frames == 0 {
    return Err(format!("no frame: {t:?}"));
  }
  if *t.last().unwrap() == obu::METADATA {
    return Err(format!("metadata after the last frame: {t:?}"));
  }
  for o in &o {
    if o.ext {
      return Err("OBU extension".into());
    }
  }
  Ok(())
}

fn headers(cfg: &EncoderConfig, p: &Pkt, g: &Pic, e: &Expect, ti: (usize, usize)) -> Result<(), String> {
  let r = &g.r;
  ne("profile", r.profile, e.profile)?;
  ne("size", (r.max_w, r.max_h), (cfg.width as i32, cfg.height as i32))?;
  ne("frame size", (r.fw, r.fh), (cfg.width as i32, cfg.height as i32))?;
  ne("bit depth", r.bpc, cfg.bit_depth as i32)?;
  ne("hbd", r.hbd, (cfg.bit_depth as i32 - 8) / 2)?;
  ne("monochrome", r.mono != 0, e.mono)?;
  ne("subsampling", (r.ss_hor, r.ss_ver), e.ss)?;
  ne("still picture", (r.still != 0, r.reduced_still != 0), (cfg.still_picture, cfg.still_picture))?;
  let d = cfg.color_description;
  ne("colour description present", r.color_desc != 0, d.is_some())?;
  let want = d.map_or((2, 2, 2), |d| {
    (
      d.color_primaries as i32,
      d.transfer_characteristics as i32,
      d.matrix_coefficients as i32,
    )
  });
  ne("colour description", (r.pri, r.trc, r.mtrx), want)?;
  ne("full range", r.full_range != 0, cfg.pixel_range == PixelRange::Full)?;
  if cfg.chroma_sampling == CS420 {
    ne("chroma sample position", r.chr, e.csp)?;
  }
  // dav1d leaves out the offset in reduced headers.
  let two = if cfg.still_picture { 0 } else { 2 };
  ne("level", (r.major_level, r.minor_level), (two + (e.level >> 2), e.level & 3))?;
  ne("tier", r.tier, 0)?;
  ne("timing info", r.timing_info != 0, cfg.enable_timing_info)?;
  if cfg.enable_timing_info {
    ne(
      "time base",
      (r.num_units as u64, r.time_scale as u64),
      (cfg.time_base.num, cfg.time_base.den),
    )?;
    ne("equal picture interval", (r.equal_pic, r.ticks_per_pic), (1, 1))?;
  }
  let sar = cfg.sample_aspect_ratio.num as f64 / cfg.sample_aspect_ratio.den as f64;
  let render = if sar > 1.0 {
    ((cfg.width as f64 * sar).round() as i32, cfg.height as i32)
  } else {
    (cfg.width as i32, (cfg.height as f64 / sar).round() as i32)
  };
  ne("render size", (r.rw, r.rh), render)?;
  ne("tiles", (r.tile_cols as usize, r.tile_rows as usize), ti)?;
  ne(
    "film grain present",
    r.film_grain_present != 0,
    cfg.film_grain_params.as_ref().is_some_and(|g| !g.is_empty()),
  )?;
  ne("restoration allowed", r.restoration != 0, cfg.speed_settings.lrf && cfg.width >= 32 && cfg.height >= 32)?;
  ne("cdef allowed", r.cdef != 0, cfg.speed_settings.cdef && cfg.width >= 32 && cfg.height >= 32)?;
  ne(
    "reduced transform set",
    r.sef != 0 || (r.tx_reduced != 0) == cfg.speed_settings.transform.reduced_tx_set,
    true,
  )?;
  if r.sef == 0 {
    let er = cfg.error_resilient || matches!(p.ty, FrameType::KEY | FrameType::SWITCH);
    ne("error resilient", r.error_res != 0, er)?;
    if er {
      ne("primary reference", r.primary_ref, 7)?;
    }
  }
  // A frame shown later comes with the header it was coded with.
  ne("quantizer", r.yac, p.qp as i32)?;
  let hidden = !cfg.low_latency && !cfg.still_picture;
  ne("shown", r.show_frame != 0 || hidden && r.showable != 0, true)?;
  Ok(())
}

pub fn judge(r: &Report, name: &str, case: &Case) {
  if !r.wants(name) {
    return;
  }
  r.add("evaluations", 1);
  tick(name);
  let cfg = &case.cfg;
  let e = expect(cfg);
  let config = case.config();
  if let Err(e) = config.validate() {
    // What must be refused is another property's business.
    r.add("rejected", 1);
    if super::r11::expectation(cfg).is_ok() {
      r.violation("header-refused", name, &format!("{e:?}: an expressible configuration is refused"));
    }
    return;
  }
  let res = guarded(|| -> Result<Vec<u8>, String> {
    let mut c = Ctx::new(&config, cfg.bit_depth, false)?;
    container(&c.container_header(), &e)?;
    channel_header(&config, cfg, &e)?;
    let ti = config.tiling_info().map_err(|e| format!("{e:?}"))?;
    let mut p = vec![];
    for n in 0..case.frames {
      c.send(cfg, case.content, n, case.fp.get(&n))
        .map_err(|e| format!("send: {e:?}"))?;
    }
    c.flush();
    drain(&mut c, cfg, Want::default(), &mut p)?;
    let mut d = Decoder::new(Which::Dav1d);
    let mut all = vec![];
    for (i, x) in p.iter().enumerate() {
      structure(x).map_err(|e| format!("packet {i}: {e}"))?;
      let g = d.feed(&x.data).map_err(|e| format!("packet {i}: {e}"))?;
      ne("shown frames", g.len(), 1).map_err(|e| format!("packet {i}: {e}"))?;
      headers(cfg, x, &g[0], &e, (ti.cols, ti.rows))
        .map_err(|e| format!("packet {i}: {e}"))?;
      if x.ty == FrameType::KEY {
        // All sequence headers of a stream are the same.
        let o = obu::split(&x.data)?;
        let s = o.iter().find(|o| o.ty == obu::SEQ).unwrap();
        if all.is_empty() {
          all = s.payload.clone();
        }
        ne("sequence header", &s.payload, &all)?;
      }
    }
    r.add("states", p.len() as u64);
    Ok(all)
  });
  match res {
    Ok(Ok(s)) => {
      r.outcome(&s);
      r.add("traces", 1);
      r.sample(name.to_string());
    }
    Ok(Err(e)) | Err(e) => {
      let k = e.split(": ").find(|s| !s.starts_with("packet ")).unwrap_or("").replace(" ", "-");
      r.violation(&format!("header-{k}"), name, &e)
    }
  }
}

fn channel_header(config: &Config, cfg: &EncoderConfig, e: &Expect) -> Result<(), String> {
  // Outside of a controlled run the encoder task is a thread that ends as
  // soon as the sender is dropped.
  let h = if cfg.bit_depth > 8 {
    let (s, r) = config.new_channel::<u16>().map_err(|e| format!("{e:?}"))?;
    let h = r.container_sequence_header();
    drop(s);
    while r.recv().is_ok() {}
    h
  } else {
    let (s, r) = config.new_channel::<u8>().map_err(|e| format!("{e:?}"))?;
    let h = r.container_sequence_header();
    drop(s);
    while r.recv().is_ok() {}
    h
  };
  container(&h, e).map_err(|e| format!("channel: {e}"))
}

fn cd(p: ColorPrimaries, t: TransferCharacteristics, m: MatrixCoefficients) -> Option<ColorDescription> {
  Some(ColorDescription { color_primaries: p, transfer_characteristics: t, matrix_coefficients: m })
}

pub fn plan(t: bool) -> Vec<(String, Case)> {
  use ColorPrimaries as P;
  use MatrixCoefficients as M;
  use TransferCharacteristics as T;
  let mut v = vec![];
  let mut sar = axis("sar");
  for (n, d) in [(2, 1), (1, 2), (3, 2), (16, 15), (1, 1000), (1000, 1), (7, 7)] {
    sar = sar.v(format!("{n}:{d}"), move |c: &mut Case| {
      c.cfg.sample_aspect_ratio = Rational { num: n, den: d }
    });
  }
  let mut tb = axis("timing");
  for (n, d) in [(1, 25), (1001, 30000), (1, 1), (u32::MAX as u64, u32::MAX as u64), (1, 240), (2, 1)] {
    tb = tb.v(format!("{n}/{d}"), move |c: &mut Case| {
      c.cfg.enable_timing_info = true;
      c.cfg.time_base = Rational { num: n, den: d };
    });
  }
  let mut level = axis("level");
  for l in [0u8, 1, 4, 5, 8, 9, 12, 13, 14, 15, 16, 17, 18, 19, 31] {
    level = level.v(l, move |c: &mut Case| c.cfg.level_idx = Some(l));
  }
  let axes = vec![
    ax_bd(&[10, 12]),
    ax_cs(&[CS400, CS422, CS444]),
    axis("csp")
      .v("vertical", |c: &mut Case| c.cfg.chroma_sample_position = ChromaSamplePosition::Vertical)
      .v("colocated", |c: &mut Case| c.cfg.chroma_sample_position = ChromaSamplePosition::Colocated),
    axis("colour")
      .v("bt709", |c: &mut Case| c.cfg.color_description = cd(P::BT709, T::BT709, M::BT709))
      .v("pq", |c: &mut Case| c.cfg.color_description = cd(P::BT2020, T::SMPTE2084, M::BT2020NCL))
      .v("unspecified", |c: &mut Case| {
        c.cfg.color_description = cd(P::Unspecified, T::Unspecified, M::Unspecified)
      })
      .v("last", |c: &mut Case| c.cfg.color_description = cd(P::EBU3213, T::HLG, M::ICtCp))
      .v("srgb", |c: &mut Case| {
        c.cfg.color_description = cd(P::BT709, T::SRGB, M::Identity);
        c.cfg.pixel_range = PixelRange::Full;
        c.cfg.chroma_sampling = CS444;
      })
      .v("identity", |c: &mut Case| {
        c.cfg.color_description = cd(P::BT2020, T::BT709, M::Identity);
        c.cfg.chroma_sampling = CS444;
      }),
    axis("range").v("full", |c: &mut Case| c.cfg.pixel_range = PixelRange::Full),
    level,
    tb,
    sar,
    axis("still").v("on", |c: &mut Case| {
      c.cfg.still_picture = true;
      c.cfg.enable_timing_info = false;
      c.frames = 1;
    }),
    axis("er").v("on", |c: &mut Case| c.cfg.error_resilient = true),
    axis("order").v("pyramid", |c: &mut Case| {
      c.cfg.low_latency = false;
      c.cfg.switch_frame_interval = 0;
    }),
    axis("sframe").v(2, |c: &mut Case| {
      c.cfg.switch_frame_interval = 2;
      c.cfg.low_latency = true;
    }),
    axis("keyint").v(2, |c: &mut Case| c.cfg.max_key_frame_interval = 2),
    ax_size(&[(16, 16), (17, 65), (64, 64), (255, 16), (256, 18), (16, 257), (40, 31)]),
    axis("grain").v("on", |c: &mut Case| {
      c.cfg.film_grain_params = Some(vec![grain(0, u64::MAX, 9)])
    }),
    axis("lrf").v("flip", |c: &mut Case| c.cfg.speed_settings.lrf ^= true),
    axis("cdef").v("flip", |c: &mut Case| c.cfg.speed_settings.cdef ^= true),
    axis("redtx").v("flip", |c: &mut Case| c.cfg.speed_settings.transform.reduced_tx_set ^= true),
    axis("tiles")
      .v("c2", |c: &mut Case| {
        c.cfg.width = 130;
        c.cfg.tile_cols = 2;
      })
      .v("t4", |c: &mut Case| {
        c.cfg.width = 200;
        c.cfg.height = 130;
        c.cfg.tiles = 4;
      }),
    ax_q(&[0, 255]),
    axis("rate").v("80k", |c: &mut Case| c.cfg.bitrate = 80_000),
  ];
  let mut cfg = base(40, 40, 10);
  cfg.speed_settings.rdo_lookahead_frames = 1;
  let c0 = Case::new(cfg, Content::Spot, 4);
  for d in deviations(&axes, if t { 3 } else { 2 }) {
    let mut c = c0.clone();
    apply(&axes, &d, &mut c);
    v.push((lattice::name(&axes, &d), c));
  }
  // Still pictures may be smaller than video.
  for w in 1..=20usize {
    for h in 1..=20usize {
      if !t && w > 9 && h > 9 {
        continue;
      }
      for cs in [CS400, CS420, CS422, CS444] {
        let mut cfg = base(w, h, 10);
        cfg.still_picture = true;
        cfg.chroma_sampling = cs;
        v.push((format!("still {w}x{h} {cs:?}"), Case::new(cfg, Content::Half, 1)));
      }
    }
  }
  // Every colour code point.
  for code in 0..=22u8 {
    for cs in [CS420, CS422, CS444, CS400] {
      for which in 0..3 {
        let mut cfg = base(16, 16, 10);
        cfg.chroma_sampling = cs;
        let mut d = ColorDescription {
          color_primaries: P::BT709,
          transfer_characteristics: T::BT709,
          matrix_coefficients: M::BT709,
        };
        let ok = match which {
          0 => PRI.iter().find(|p| **p as u8 == code).map(|p| d.color_primaries = *p).is_some(),
          1 => TRC.iter().find(|p| **p as u8 == code).map(|p| d.transfer_characteristics = *p).is_some(),
          _ => MTX.iter().find(|p| **p as u8 == code).map(|p| d.matrix_coefficients = *p).is_some(),
        };
        // The decoders disagree about monochrome video with this matrix.
        if !ok || which == 2 && code == 0 && cs == CS400 {
          continue;
        }
        cfg.color_description = Some(d);
        v.push((format!("colour {which} code {code} {cs:?}"), Case::new(cfg, Content::Flat(90), 1)));
      }
    }
  }
  // Every colour description, in both ranges.
  for p in PRI {
    for x in TRC {
      for m in MTX {
        for range in [PixelRange::Limited, PixelRange::Full] {
          let mut cfg = base(16, 16, 10);
          cfg.chroma_sampling = CS444;
          cfg.pixel_range = range;
          cfg.color_description = cd(*p, *x, *m);
          v.push((format!("colours {p:?} {x:?} {m:?} {range:?}"), Case::new(cfg, Content::Flat(90), 1)));
        }
      }
    }
  }
  v
}

const PRI: &[ColorPrimaries] = {
  use ColorPrimaries::*;
  &[BT709, Unspecified, BT470M, BT470BG, BT601, SMPTE240, GenericFilm, BT2020, XYZ, SMPTE431, SMPTE432, EBU3213]
};
const TRC: &[TransferCharacteristics] = {
  use TransferCharacteristics::*;
  &[
    BT709, Unspecified, BT470M, BT470BG, BT601, SMPTE240, Linear, Log100, Log100Sqrt10, IEC61966,
    BT1361, SRGB, BT2020_10Bit, BT2020_12Bit, SMPTE2084, SMPTE428, HLG,
  ]
};
const MTX: &[MatrixCoefficients] = {
  use MatrixCoefficients::*;
  &[
    Identity, BT709, Unspecified, FCC, BT470BG, BT601, SMPTE240, YCgCo, BT2020NCL, BT2020CL, SMPTE2085,
    ChromatNCL, ChromatCL, ICtCp,
  ]
};

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("distinct cases have distinct sequence headers");
  r.assume("libdav1d (strict) parses AV1 headers as specified");
  let p = plan(r.thorough());
  par_for(p.len(), |i| judge(r, &p[i].0, &p[i].1));
}
