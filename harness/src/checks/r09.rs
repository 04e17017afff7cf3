//! Metadata: each piece exactly once, unchanged, with its own frame.
use crate::dec::*;
use crate::*;
use arrayvec::ArrayVec;
use rav1e::config::GrainTableSegment;
use rav1e::prelude::*;

type T35s = Vec<(u8, u8, Vec<u8>)>;

/// The T.35 payloads of one temporal unit, from its OBUs, in order.
fn t35_of(o: &[obu::Obu]) -> Result<T35s, String> {
  let mut v = vec![];
  for o in o.iter().filter(|o| o.ty == obu::METADATA) {
    let mut at = 0;
    if obu::leb128(&o.payload, &mut at)? != 4 {
      continue;
    }
    let d = &o.payload[at..];
    let end = d.iter().rposition(|&b| b != 0).ok_or("metadata without trailing bits")?;
    if d[end] != 0x80 {
      return Err("metadata without trailing bits".into());
    }
    let d = &d[..end];
    let cc = *d.first().ok_or("metadata without country code")?;
    let (ext, from) = if cc == 0xff {
      (*d.get(1).ok_or("metadata without extension byte")?, 2)
    } else {
      (0, 1)
    };
    v.push((cc, ext, d[from..].to_vec()));
  }
  Ok(v)
}

/// The payloads of the sequence-wide metadata of type `ty` (1 CLL, 2 MDCV).
fn hdr_of(o: &[obu::Obu], ty: u64) -> Result<Vec<Vec<u8>>, String> {
  let mut v = vec![];
  for o in o.iter().filter(|o| o.ty == obu::METADATA) {
    let mut at = 0;
    if obu::leb128(&o.payload, &mut at)? == ty {
      v.push(o.payload[at..].to_vec());
    }
  }
  Ok(v)
}

fn want_cll(c: &ContentLight) -> Vec<u8> {
  let mut v = vec![];
  v.extend(c.max_content_light_level.to_be_bytes());
  v.extend(c.max_frame_average_light_level.to_be_bytes());
  v.push(0x80);
  v
}
fn want_mdcv(m: &MasteringDisplay) -> Vec<u8> {
  let mut v = vec![];
  for p in m.primaries.iter().chain([&m.white_point]) {
    v.extend(p.x.to_be_bytes());
    v.extend(p.y.to_be_bytes());
  }
  v.extend(m.max_luminance.to_be_bytes());
  v.extend(m.min_luminance.to_be_bytes());
  v.push(0x80);
  v
}

/// Where frame `n` is, in the units of grain tables.
fn grain_time(cfg: &EncoderConfig, n: usize) -> u128 {
  n as u128 * 10_000_000 * cfg.time_base.num as u128 / cfg.time_base.den as u128
}

fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Result<(), String> {
  if got == want {
    Ok(())
  } else {
    Err(format!("{what}: {got:?}, expected {want:?}"))
  }
}

/// The grain the decoder was told to apply to frame `n`.
pub fn check_grain(cfg: &EncoderConfig, n: usize, key: bool, r: &Raw) -> Result<(), String> {
  let Some(tab) = &cfg.film_grain_params else {
    return eq("film grain present in the sequence", r.film_grain_present, 0);
  };
  let t = grain_time(cfg, n);
  let seg = tab.iter().find(|s| s.start_time as u128 <= t && t < s.end_time as u128);
  let Some(s) = seg else {
    return eq("frames outside the table: apply_grain", r.fg_present, 0);
  };
  eq("film grain present in the sequence", r.film_grain_present, 1)?;
  eq("apply_grain", r.fg_present, 1)?;
  if key {
    eq("grain seed of a key frame", r.fg_seed, s.random_seed as i32)?;
  }
  let mono = cfg.chroma_sampling == CS400;
  let cfl = s.chroma_scaling_from_luma && !mono;
  let chroma =
    !(mono || cfl || (cfg.chroma_sampling == CS420 && s.scaling_points_y.is_empty()));
  eq("num_y_points", r.fg_ny as usize, s.scaling_points_y.len())?;
  eq("y points", &r.fg_y[..r.fg_ny as usize], &s.scaling_points_y[..])?;
  eq("chroma_scaling_from_luma", r.fg_cfl != 0, cfl)?;
  let luma = !s.scaling_points_y.is_empty();
  let npos = 2 * s.ar_coeff_lag as usize * (s.ar_coeff_lag as usize + 1);
  let uv = [
    (&s.scaling_points_cb, &s.ar_coeffs_cb, s.cb_mult, s.cb_luma_mult, s.cb_offset),
    (&s.scaling_points_cr, &s.ar_coeffs_cr, s.cr_mult, s.cr_luma_mult, s.cr_offset),
  ];
  for (i, (pts, ar, mult, lmult, off)) in uv.into_iter().enumerate() {
    let has = chroma && !pts.is_empty();
    let n = r.fg_nuv[i] as usize;
    eq("num_uv_points", n, if has { pts.len() } else { 0 })?;
    eq("uv points", &r.fg_uv[i][..n], if has { &pts[..] } else { &[] })?;
    if has || cfl {
      let m = npos + usize::from(luma);
      // The decoder keeps the luma weight at a fixed place.
      eq("chroma coefficients", &r.fg_aruv[i][..npos], &ar[..npos])?;
      if luma {
        eq("chroma luma coefficient", r.fg_aruv[i][m - 1], ar[m - 1])?;
      }
    }
    if has {
      eq("uv_mult", r.fg_mult[i], mult as i32 - 128)?;
      eq("uv_luma_mult", r.fg_luma_mult[i], lmult as i32 - 128)?;
      eq("uv_offset", r.fg_offset[i], off as i32 - 256)?;
    }
  }
  if luma {
    eq("luma coefficients", &r.fg_ary[..npos], &s.ar_coeffs_y[..npos])?;
  }
  eq("scaling_shift", r.fg_scaling_shift, s.scaling_shift as i32)?;
  eq("ar_coeff_lag", r.fg_lag, s.ar_coeff_lag as i32)?;
  eq("ar_coeff_shift", r.fg_ar_shift, s.ar_coeff_shift as i32)?;
  eq("grain_scale_shift", r.fg_grain_scale_shift, s.grain_scale_shift as i32)?;
  eq("overlap_flag", r.fg_overlap != 0, s.overlap_flag)?;
  eq("clip_to_restricted_range", r.fg_clip != 0, cfg.pixel_range == PixelRange::Limited)
}

fn judge(r: &Report, name: &str, case: &Case) {
  if !r.wants(name) {
    return;
  }
  r.add("evaluations", 1);
  let pk = match encode(case, Want::default()) {
    Ok(p) => p,
    Err(e) => return r.violation("encode-fails", name, &e),
  };
  if pk.len() != case.frames {
    return r.violation("frame-count", name, &format!("{} packets", pk.len()));
  }
  let mut d = Decoder::new(Which::Dav1d);
  let mut seeds: Vec<i32> = vec![];
  let none = FP::default();
  let mut sig = vec![];
  for (i, p) in pk.iter().enumerate() {
    let fp = case.fp.get(&i).unwrap_or(&none);
    let want: T35s = fp
      .t35
      .iter()
      .map(|(c, e, d)| (*c, if *c == 0xff { *e } else { 0 }, d.clone()))
      .collect();
    let key = p.ty == FrameType::KEY;
    let res = (|| -> Result<(), (&str, String)> {
      let o = obu::split(&p.data).map_err(|e| ("obu", e))?;
      let got = t35_of(&o).map_err(|e| ("obu", e))?;
      eq("T.35 metadata", got, want.clone()).map_err(|e| ("t35", e))?;
      eq("opaque data", p.opaque, fp.opaque).map_err(|e| ("opaque", e))?;
      let cll = hdr_of(&o, 1).map_err(|e| ("obu", e))?;
      let w = case.cfg.content_light.iter().filter(|_| key).map(want_cll);
      eq("content light", cll, w.collect()).map_err(|e| ("cll", e))?;
      let mdcv = hdr_of(&o, 2).map_err(|e| ("obu", e))?;
      let w = case.cfg.mastering_display.iter().filter(|_| key).map(want_mdcv);
      eq("mastering display", mdcv, w.collect()).map_err(|e| ("mdcv", e))?;
      let pics = d.feed(&p.data).map_err(|e| ("decode", e))?;
      if pics.len() != 1 {
        return Err(("decode", format!("{} pictures", pics.len())));
      }
      let h = &pics[0].r;
      if want.len() <= 16 {
        let got: T35s = pics[0]
          .t35
          .iter()
          .map(|(c, e, d)| (*c, if *c == 0xff { *e } else { 0 }, d.clone()))
          .collect();
        // libdav1d skips empty payloads.
        let want: T35s = want.into_iter().filter(|t| !t.2.is_empty()).collect();
        eq("T.35 metadata of the picture", got, want).map_err(|e| ("t35", e))?;
      }
      match &case.cfg.content_light {
        Some(c) => {
          let g = (h.has_cll != 0, h.cll_max, h.cll_avg);
          let w = (
            true,
            c.max_content_light_level as i32,
            c.max_frame_average_light_level as i32,
          );
          eq("content light of the picture", g, w).map_err(|e| ("cll", e))?;
        }
        None => eq("content light of the picture", h.has_cll, 0).map_err(|e| ("cll", e))?,
      }
      eq(
        "mastering display of the picture",
        h.has_mdcv != 0,
        case.cfg.mastering_display.is_some(),
      )
      .map_err(|e| ("mdcv", e))?;
      if let Some(m) = &case.cfg.mastering_display {
        let g = (h.prim, h.wp, h.max_lum, h.min_lum);
        let q = |p: &ChromaticityPoint| [p.x, p.y];
        let w = (
          [q(&m.primaries[0]), q(&m.primaries[1]), q(&m.primaries[2])],
          q(&m.white_point),
          m.max_luminance,
          m.min_luminance,
        );
        eq("mastering display of the picture", g, w).map_err(|e| ("mdcv", e))?;
      }
      check_grain(&case.cfg, i, key, h).map_err(|e| ("grain", e))?;
      if h.fg_present != 0 {
        seeds.push(h.fg_seed);
      }
      Ok(())
    })();
    if let Err((k, e)) = res {
      return r.violation(k, name, &format!("packet {i}: {e}"));
    }
    sig.push((p.ty as u8, p.data.len()));
  }
  // The same grain must not be stamped on consecutive frames of a group.
  for (i, w) in seeds.windows(2).enumerate() {
    if w[0] == w[1] && case.frames == seeds.len() && pk[i + 1].ty != FrameType::KEY {
      return r.violation("grain-seed", name, &format!("frames {i} and {} share a seed", i + 1));
    }
  }
  r.add("states", pk.len() as u64);
  r.add("transitions", pk.len() as u64);
  r.add("traces", 1);
  r.outcome(&(sig, seeds));
  r.sample(name.to_string());
}

fn tiny(frames: usize) -> Case {
  let mut cfg = base(16, 16, 10);
  cfg.speed_settings.rdo_lookahead_frames = 1;
  cfg.quantizer = 200;
  Case::new(cfg, Content::Half, frames)
}

fn grain_of(
  lag: usize, ny: usize, ncb: usize, ncr: usize, cfl: bool, shifts: (u8, u8, u8),
  overlap: bool, range: (u64, u64), seed: u16,
) -> GrainTableSegment {
  let pts = |n: usize, k: usize| (0..n).map(move |i| [(i * 255 / n.max(2)) as u8, (i * k + 1) as u8]);
  let np = 2 * lag * (lag + 1);
  GrainTableSegment {
    start_time: range.0,
    end_time: range.1,
    scaling_points_y: ArrayVec::from_iter(pts(ny, 17)),
    scaling_points_cb: ArrayVec::from_iter(pts(ncb, 23)),
    scaling_points_cr: ArrayVec::from_iter(pts(ncr, 25)),
    scaling_shift: 8 + shifts.0,
    ar_coeff_lag: lag as u8,
    ar_coeffs_y: ArrayVec::from_iter((0..np).map(|i| (i as i8).wrapping_mul(11).wrapping_add(-128))),
    ar_coeffs_cb: ArrayVec::from_iter((0..np + 1).map(|i| 127i8.wrapping_sub((i as i8).wrapping_mul(9)))),
    ar_coeffs_cr: ArrayVec::from_iter((0..np + 1).map(|i| (i as i8).wrapping_mul(7).wrapping_sub(60))),
    ar_coeff_shift: 6 + shifts.1,
    cb_mult: 1 + 50 * shifts.0,
    cb_luma_mult: 255 - 40 * shifts.1,
    cb_offset: 511 - 170 * shifts.2 as u16,
    cr_mult: 255 - 85 * shifts.2,
    cr_luma_mult: 3 + shifts.0,
    cr_offset: 170 * shifts.1 as u16,
    overlap_flag: overlap,
    chroma_scaling_from_luma: cfl,
    grain_scale_shift: shifts.2,
    random_seed: seed,
  }
}

pub fn plan(t: bool) -> Vec<(String, Case)> {
  let mut v: Vec<(String, Case)> = vec![];
  // Which frames carry something: every subset, in every frame structure.
  let n = if t { 11 } else { 9 };
  let structures: Vec<(&str, fn(&mut Case))> = vec![
    ("low-latency", |_| {}),
    ("pyramid", |c| c.cfg.low_latency = false),
    ("pyramid max=5", |c| {
      c.cfg.low_latency = false;
      c.cfg.max_key_frame_interval = 5;
    }),
    ("pyramid forced=3", |c| {
      c.cfg.low_latency = false;
      c.fp.entry(3).or_default().key = true;
    }),
    ("pyramid forced=6,7", |c| {
      c.cfg.low_latency = false;
      c.fp.entry(6).or_default().key = true;
      c.fp.entry(7).or_default().key = true;
    }),
    ("pyramid lookahead=4", |c| {
      c.cfg.low_latency = false;
      c.cfg.speed_settings.rdo_lookahead_frames = 4;
    }),
    ("pyramid detection", |c| {
      c.cfg.low_latency = false;
      c.cfg.speed_settings.scene_detection_mode = SceneDetectionSpeed::Fast;
      c.content = Content::Cut(3);
    }),
    ("switch=2", |c| c.cfg.switch_frame_interval = 2),
    ("error-resilient", |c| c.cfg.error_resilient = true),
    ("rate", |c| {
      c.cfg.low_latency = false;
      c.cfg.bitrate = 50_000;
    }),
  ];
  for (sn, sf) in &structures {
    for mask in 0u32..1 << n {
      let mut c = tiny(n);
      for i in 0..n {
        if mask >> i & 1 == 1 {
          let f = c.fp.entry(i).or_default();
          f.t35 = vec![(0xb5, 0, vec![0, 60, i as u8, 0])];
          if i % 3 == 1 {
            f.t35.push((0xff, 0x40 + i as u8, vec![0x80; i]));
          }
          if i % 4 == 2 {
            f.t35.push((i as u8, 9, vec![]));
          }
        } else if i % 2 == 0 {
          c.fp.entry(i).or_default().opaque = Some(1000 + i as u64);
        }
      }
      sf(&mut c);
      v.push((format!("frames {sn} mask={mask:b}"), c));
    }
  }
  // What they carry.
  let mut payloads: Vec<T35s> = vec![];
  for l in 0..=if t { 600 } else { 300 } {
    payloads.push(vec![(181, 7, (0..l).map(|i| (i * 7 + l) as u8).collect())]);
  }
  for l in [16378usize, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 70000] {
    payloads.push(vec![(255, 3, vec![0x5a; l])]);
    payloads.push(vec![(1, 3, vec![0xa5; l])]);
  }
  for cc in 0..=255u8 {
    for ext in [0u8, 1, 0x80, 255] {
      payloads.push(vec![(cc, ext, vec![1, 2, 3])]);
    }
    for tail in [vec![cc], vec![cc, 0], vec![0, cc], vec![cc, cc, 0, 0], vec![0x80, cc]] {
      payloads.push(vec![(26, 0, tail.clone()), (255, cc, tail)]);
    }
  }
  for k in 0..=24usize {
    payloads.push((0..k).map(|i| (i as u8, 0, vec![i as u8 + 1; i])).collect());
    payloads.push((0..k).map(|_| (5, 0, vec![6])).collect());
  }
  for (k, p) in payloads.into_iter().enumerate() {
    let mut c = tiny(4);
    c.cfg.low_latency = k % 2 == 0;
    let at = k % 4;
    c.fp.insert(at, FP { t35: p, ..FP::default() });
    v.push((format!("payload {k} at frame {at}"), c));
  }
  // HDR metadata, everywhere it is needed and nowhere else.
  let u16s = [0u16, 1, 0x7fff, 0x8000, 0xff00, 0xffff];
  let cll = |a, b| ContentLight { max_content_light_level: a, max_frame_average_light_level: b };
  let mdcv = |k: u16, l: u32| MasteringDisplay {
    primaries: [
      ChromaticityPoint { x: k, y: 1 },
      ChromaticityPoint { x: 2, y: !k },
      ChromaticityPoint { x: 300, y: k / 3 },
    ],
    white_point: ChromaticityPoint { x: k ^ 0x1234, y: 4 },
    max_luminance: l,
    min_luminance: l.rotate_left(13) ^ 0x55,
  };
  let mut hdr: Vec<(String, Option<ContentLight>, Option<MasteringDisplay>)> = vec![];
  for a in u16s {
    for b in u16s {
      hdr.push((format!("cll={a},{b}"), Some(cll(a, b)), None));
    }
    for l in [0u32, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX, 10_000 << 8] {
      hdr.push((format!("mdcv={a},{l}"), None, Some(mdcv(a, l))));
      hdr.push((format!("cll={a},9 mdcv={a},{l}"), Some(cll(a, 9)), Some(mdcv(a, l))));
    }
  }
  let hs: Vec<(&str, fn(&mut Case))> = vec![
    ("still", |c| {
      c.cfg.still_picture = true;
      c.frames = 1;
    }),
    ("keys", |c| c.cfg.max_key_frame_interval = 2),
    ("pyramid", |c| {
      c.cfg.low_latency = false;
      c.cfg.max_key_frame_interval = 6;
      c.fp.insert(4, FP { key: true, t35: vec![(9, 9, vec![9])], ..FP::default() });
    }),
    ("10bit", |c| c.cfg.bit_depth = 10),
  ];
  for (n, l, m) in &hdr {
    for (sn, sf) in &hs {
      let mut c = tiny(7);
      c.cfg.content_light = *l;
      c.cfg.mastering_display = *m;
      sf(&mut c);
      v.push((format!("hdr {n} {sn}"), c));
    }
  }
  // Film grain parameters.
  for cs in [CS420, CS400, CS422, CS444] {
    for lag in 0..4 {
      for ny in if t { (0..=14).collect() } else { vec![0, 1, 2, 13, 14] } {
        for (ncb, ncr) in [(0, 0), (1, 0), (0, 1), (1, 1), (10, 9), (2, 10)] {
          for cfl in [false, true] {
            // 4:2:0 must not have chroma points for one plane only.
            if cs == CS420 && (ncb == 0) != (ncr == 0) {
              continue;
            }
            let k = lag + ny + ncb + usize::from(cfl);
            let sh = ((k % 4) as u8, (k / 2 % 4) as u8, (k / 3 % 4) as u8);
            let mut c = tiny(3);
            c.cfg.chroma_sampling = cs;
            c.cfg.bit_depth = if k % 2 == 0 { 8 } else { 10 };
            c.cfg.low_latency = k % 3 == 0;
            c.cfg.film_grain_params = Some(vec![grain_of(
              lag, ny, ncb, ncr, cfl, sh, k % 2 == 1, (0, u64::MAX), 1 + k as u16,
            )]);
            v.push((format!("grain {cs:?} lag={lag} points={ny},{ncb},{ncr} cfl={cfl}"), c));
          }
        }
      }
    }
  }
  for a in 0..4u8 {
    for b in 0..4u8 {
      for s in 0..4u8 {
        for o in [false, true] {
          for full in [false, true] {
            let mut c = tiny(2);
            c.cfg.pixel_range = if full { PixelRange::Full } else { PixelRange::Limited };
            c.cfg.film_grain_params =
              Some(vec![grain_of(2, 3, 2, 2, false, (a, b, s), o, (0, u64::MAX), 77)]);
            v.push((format!("grain shifts={a},{b},{s} overlap={o} full={full}"), c));
          }
        }
      }
    }
  }
  for seed in [0u16, 1, 3247, 3248, 62288, 62287, 65535, 32768] {
    for ll in [true, false] {
      let mut c = tiny(26);
      c.cfg.low_latency = ll;
      c.cfg.film_grain_params =
        Some(vec![grain_of(1, 2, 0, 0, false, (0, 0, 0), true, (0, u64::MAX), seed)]);
      v.push((format!("grain seed={seed} low-latency={ll}"), c));
    }
  }
  // Which segment applies: boundaries around the time of every frame.
  for (num, den) in [(1u64, 30u64), (1, 24), (1001, 30000), (1, 1), (7, 3), (1, 10_000_000), (1, 3)] {
    for ll in [true, false] {
      for frame in 0..7usize {
        for off in [-1i64, 0, 1] {
          for shape in 0..4 {
            let mut c = tiny(7);
            c.cfg.time_base = Rational { num, den };
            c.cfg.low_latency = ll;
            let at = grain_time(&c.cfg, frame) as i64 + off;
            if at < 0 {
              continue;
            }
            let at = at as u64;
            let g = |r: (u64, u64), n| grain_of(1, n, 1, 1, false, (1, 1, 1), true, r, 99 + n as u16);
            c.cfg.film_grain_params = Some(match shape {
              0 => vec![g((0, at), 1)],
              1 => vec![g((at, u64::MAX), 2)],
              2 => vec![g((0, at), 3), g((at, u64::MAX), 4)],
              _ => vec![g((at, at + 1), 5)],
            });
            v.push((
              format!("segment base={num}/{den} low-latency={ll} frame={frame}{off:+} shape={shape}"),
              c,
            ));
          }
        }
      }
    }
  }
  v
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("a case is one history of frames with metadata; distinct cases differ in packet types, sizes or grain seeds");
  r.assume("libdav1d (strict) parses metadata and film grain parameters as the standard says");
  let p = plan(r.thorough());
  par_for(p.len(), |i| judge(r, &p[i].0, &p[i].1));
}
