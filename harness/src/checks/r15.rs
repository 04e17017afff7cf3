//! The C interface does what the Rust interface does.
use crate::*;
use rav1e::capi::*;
use rav1e::prelude as rr;
use std::ffi::{CStr, CString};
use std::os::raw::c_void;
use std::ptr::{null, null_mut};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

use crate::EncoderStatus;
use rr::{ChromaSamplePosition, PixelRange, SceneDetectionSpeed};

fn ne<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Result<(), String> {
  if got == want {
    Ok(())
  } else {
    Err(format!("{what}: {got:?}, expected {want:?}"))
  }
}

/// What the same settings mean for the Rust interface.
#[derive(Clone)]
struct Mirror {
  enc: EncoderConfig,
  threads: usize,
}

impl Mirror {
  fn new() -> Self {
    Mirror { enc: EncoderConfig::default(), threads: 0 }
  }
  fn case(&self, content: Content, frames: usize) -> Case {
    let mut c = Case::new(self.enc.clone(), content, frames);
    c.threads = self.threads;
    c
  }
  /// As documented with `rav1e_config_parse()`.
  fn set(&mut self, key: &str, v: &str) -> bool {
    let e = &mut self.enc;
    macro_rules! p {
      ($f:expr) => {
        match v.parse() {
          Ok(x) => {
            $f = x;
            true
          }
          Err(_) => false,
        }
      };
    }
    let forever = i32::MAX as u64 / 3;
    match key {
      "width" => p!(e.width),
      "height" => p!(e.height),
      "threads" => p!(self.threads),
      "tiles" => p!(e.tiles),
      "tile_rows" => p!(e.tile_rows),
      "tile_cols" => p!(e.tile_cols),
      "quantizer" => p!(e.quantizer),
      "min_quantizer" => p!(e.min_quantizer),
      "bitrate" => p!(e.bitrate),
      "switch_frame_interval" => p!(e.switch_frame_interval),
      "rdo_lookahead_frames" => p!(e.speed_settings.rdo_lookahead_frames),
      "low_latency" => p!(e.low_latency),
      "enable_timing_info" => p!(e.enable_timing_info),
      "still_picture" => p!(e.still_picture),
      "min_key_frame_interval" => p!(e.min_key_frame_interval),
      "key_frame_interval" => {
        let ok = p!(e.max_key_frame_interval);
        if ok && e.max_key_frame_interval == 0 {
          e.max_key_frame_interval = forever;
        }
        ok
      }
      "reservoir_frame_delay" => {
        let mut d = 0i32;
        let ok = p!(d);
        if ok {
          e.reservoir_frame_delay = Some(d);
        }
        ok
      }
      "speed" => {
        let mut s = 0u8;
        let ok = p!(s);
        if ok {
          e.speed_settings = SpeedSettings::from_preset(s);
        }
        ok
      }
      "no_scene_detection" => {
        let mut s = false;
        let ok = p!(s);
        if s {
          e.speed_settings.scene_detection_mode = SceneDetectionSpeed::None;
        }
        ok
      }
      "tune" => match v.to_ascii_lowercase().as_str() {
        "psnr" => {
          e.tune = Tune::Psnr;
          true
        }
        "psychovisual" => {
          e.tune = Tune::Psychovisual;
          true
        }
        _ => false,
      },
      "level" => {
        let l = match v {
          "auto" => Some(None),
          "unconstrained" => Some(Some(31)),
          _ => {
            let b = v.as_bytes();
            if b.len() == 3 && (b'2'..=b'7').contains(&b[0]) && b[1] == b'.' && (b'0'..=b'3').contains(&b[2]) {
              Some(Some((b[0] - b'2') * 4 + b[2] - b'0'))
            } else {
              None
            }
          }
        };
        if let Some(l) = l {
          e.level_idx = l;
        }
        l.is_some()
      }
      _ => false,
    }
  }
  fn set_int(&mut self, key: &str, v: i32) -> bool {
    self.set(key, &v.to_string())
      || matches!(key, "low_latency" | "enable_timing_info" | "still_picture" | "no_scene_detection")
        && self.set(key, if v != 0 { "true" } else { "false" })
  }
}

/// One setting, through the string or the integer call.
#[derive(Clone, Debug, PartialEq)]
enum Set {
  S(&'static str, &'static str),
  I(&'static str, i32),
}
impl Set {
  fn key(&self) -> &'static str {
    match self {
      Set::S(k, _) | Set::I(k, _) => k,
    }
  }
  fn name(&self) -> String {
    match self {
      Set::S(k, v) => format!("{k}='{v}'"),
      Set::I(k, v) => format!("{k}={v}"),
    }
  }
}

fn settings() -> Vec<Set> {
  let s: &[(&str, &[&str])] = &[
    ("width", &["48", "16", "15", "", "-1", "x", "65536", "18446744073709551616"]),
    ("height", &["40", "17", "0", "1e2"]),
    ("speed", &["0", "7", "10", "256", "-1", "fast"]),
    ("threads", &["0", "1", "3", "-2"]),
    ("tiles", &["0", "2", "-1"]),
    ("tile_rows", &["1", "2", "3", ""]),
    ("tile_cols", &["1", "2", "3", "64"]),
    ("tune", &["psnr", "psychovisual", "Psnr", "ssim", ""]),
    ("quantizer", &["0", "1", "255", "30", "-3", "1.5"]),
    ("min_quantizer", &["0", "120", "255", "256"]),
    ("bitrate", &["1000", "200000", "2147483647", "2147483648", "k"]),
    ("key_frame_interval", &["0", "1", "2", "-1", "715827882", "715827883"]),
    ("min_key_frame_interval", &["0", "1", "3", "-1", ""]),
    ("switch_frame_interval", &["1", "0", "-1"]),
    ("reservoir_frame_delay", &["12", "11", "131072", "131073", "-1", "none"]),
    ("rdo_lookahead_frames", &["1", "3", "0", "-1"]),
    ("low_latency", &["true", "false", "1", "True", ""]),
    ("enable_timing_info", &["true", "false", "yes"]),
    ("still_picture", &["true", "false", "0"]),
    ("no_scene_detection", &["true", "false", "2"]),
    (
      "level",
      &[
        "auto", "unconstrained", "2.0", "2.1", "4.0", "5.3", "6.3", "7.3", "7.4", "8.0", "2.2", "1.3", "0.0",
        "2", "", "auto ", "255.0", "2.256", "x.y",
      ],
    ),
    ("quality", &["1"]),
    ("", &["", "1"]),
    ("Width", &["64"]),
  ];
  let mut v = vec![];
  for (k, vals) in s {
    v.extend(vals.iter().map(|x| Set::S(k, x)));
  }
  for (k, vals) in [
    ("width", &[64, -1][..]),
    ("speed", &[9, 256]),
    ("quantizer", &[0, 200]),
    ("bitrate", &[50_000, -1]),
    ("low_latency", &[0, 1, -7]),
    ("still_picture", &[1, 0]),
    ("enable_timing_info", &[2]),
    ("no_scene_detection", &[1, 0]),
    ("level", &[2, 31, 0]),
    ("tune", &[0, 1]),
    ("key_frame_interval", &[0, 3]),
    ("threads", &[2, -1]),
    ("other", &[1]),
  ] {
    v.extend(vals.iter().map(|x| Set::I(k, *x)));
  }
  v
}

/// Everything the interface hands out is released, also on early returns.
struct CCfg(*mut rav1e::capi::Config);
impl CCfg {
  fn new() -> Self {
    CCfg(unsafe { rav1e_config_default() })
  }
  fn set(&self, s: &Set) -> i32 {
    unsafe {
      match s {
        Set::S(k, v) => {
          let (k, v) = (CString::new(*k).unwrap(), CString::new(*v).unwrap());
          rav1e_config_parse(self.0, k.as_ptr(), v.as_ptr())
        }
        Set::I(k, v) => {
          let k = CString::new(*k).unwrap();
          rav1e_config_parse_int(self.0, k.as_ptr(), *v)
        }
      }
    }
  }
}
impl Drop for CCfg {
  fn drop(&mut self) {
    unsafe { rav1e_config_unref(self.0) }
  }
}
struct CCtx(*mut rav1e::capi::Context);
impl Drop for CCtx {
  fn drop(&mut self) {
    unsafe { rav1e_context_unref(self.0) }
  }
}
struct CFrame(*mut rav1e::capi::Frame);
impl Drop for CFrame {
  fn drop(&mut self) {
    unsafe { rav1e_frame_unref(self.0) }
  }
}
unsafe fn take(d: *mut Data) -> Option<Vec<u8>> {
  if d.is_null() {
    return None;
  }
  let v = std::slice::from_raw_parts((*d).data, (*d).len).to_vec();
  rav1e_data_unref(d);
  Some(v)
}

fn raw(v: &[u16], w: usize, stride: usize, bytes: usize) -> Vec<u8> {
  let h = v.len() / w;
  let mut o = vec![0xa5; stride * h];
  for y in 0..h {
    for x in 0..w {
      let b = v[y * w + x].to_le_bytes();
      o[y * stride + x * bytes..][..bytes].copy_from_slice(&b[..bytes]);
    }
  }
  o
}

impl CCtx {
  fn new(c: &CCfg) -> Option<CCtx> {
    let p = unsafe { rav1e_context_new(c.0) };
    (!p.is_null()).then_some(CCtx(p))
  }
  fn frame(&self, cfg: &EncoderConfig, k: Content, n: usize, extra: usize) -> CFrame {
    let f = CFrame(unsafe { rav1e_frame_new(self.0) });
    self.fill(&f, cfg, k, n, extra);
    f
  }
  fn fill(&self, f: &CFrame, cfg: &EncoderConfig, k: Content, n: usize, extra: usize) {
    unsafe {
      let bytes = if cfg.bit_depth > 8 { 2 } else { 1 };
      let src = source_planes(cfg, k, n);
      for (i, (w, _)) in plane_dims(cfg).iter().enumerate() {
        let stride = (w + extra) * bytes;
        let d = raw(&src[i], *w, stride, bytes);
        rav1e_frame_fill_plane(f.0, i as i32, d.as_ptr(), d.len(), stride as isize, bytes as i32);
      }
    }
  }
  fn send(&self, f: &CFrame) -> i32 {
    self.noted(unsafe { rav1e_send_frame(self.0, f.0) as i32 })
  }
  fn flush(&self) -> i32 {
    self.noted(unsafe { rav1e_send_frame(self.0, null_mut()) as i32 })
  }
  /// The last status is that of the call that just returned.
  fn noted(&self, s: i32) -> i32 {
    if self.last() != s {
      panic!("last status: {} after a call that returned {s}", self.last());
    }
    s
  }
  fn last(&self) -> i32 {
    unsafe { rav1e_last_status(self.0) as i32 }
  }
  fn header(&self) -> Vec<u8> {
    unsafe { take(rav1e_container_sequence_header(self.0)).unwrap() }
  }
  fn receive(&self, cfg: &EncoderConfig, extra: usize) -> Result<CPkt, i32> {
    unsafe {
      let mut p: *mut rav1e::capi::Packet = null_mut();
      let s = rav1e_receive_packet(self.0, &mut p);
      self.noted(s as i32);
      if s != rav1e::capi::EncoderStatus::Success {
        return Err(s as i32);
      }
      let planes = |f: *mut rav1e::capi::Frame| {
        (!f.is_null()).then(|| {
          let bytes = if cfg.bit_depth > 8 { 2 } else { 1 };
          plane_dims(cfg)
            .iter()
            .enumerate()
            .map(|(i, (w, h))| {
              let stride = (w + extra) * bytes;
              let mut d = vec![0x5a; stride * h];
              rav1e_frame_extract_plane(f, i as i32, d.as_mut_ptr(), d.len(), stride as isize, bytes as i32);
              let mut v = vec![];
              for y in 0..*h {
                for x in 0..*w {
                  let b = &d[y * stride + x * bytes..][..bytes];
                  v.push(if bytes == 2 { u16::from_le_bytes([b[0], b[1]]) } else { b[0] as u16 });
                }
              }
              v
            })
            .collect()
        })
      };
      let r = CPkt {
        data: std::slice::from_raw_parts((*p).data, (*p).len).to_vec(),
        no: (*p).input_frameno,
        ty: (*p).frame_type,
        rec: planes((*p).rec),
        src: planes((*p).source),
        opaque: (*p).opaque as usize,
      };
      rav1e_packet_unref(p);
      Ok(r)
    }
  }
}

struct CPkt {
  data: Vec<u8>,
  no: u64,
  ty: FrameType,
  rec: Option<Planes>,
  src: Option<Planes>,
  opaque: usize,
}

fn same(c: &CPkt, p: &Pkt) -> Result<(), String> {
  ne("input_frameno", c.no, p.no)?;
  ne("frame_type", c.ty, p.ty)?;
  if c.data != p.data {
    return Err(format!("data: {} bytes differ from the {} of the Rust interface", c.data.len(), p.data.len()));
  }
  if c.rec != p.rec {
    return Err("rec: differs".into());
  }
  if c.src != p.src {
    return Err("source: differs".into());
  }
  Ok(())
}

fn status(s: EncoderStatus) -> i32 {
  match s {
    EncoderStatus::NeedMoreData => 1,
    EncoderStatus::EnoughData => 2,
    EncoderStatus::LimitReached => 3,
    EncoderStatus::Encoded => 4,
    EncoderStatus::Failure => -1,
    EncoderStatus::NotReady => -2,
  }
}

const WANT: Want = Want { rec: true, src: true };

/// Encodes through both interfaces, call by call.
fn both(c: &CCfg, case: &Case, extra: usize) -> Result<Vec<u8>, String> {
  let cfg = &case.cfg;
  let config = case.config();
  let ctx = CCtx::new(c);
  let ctx = match (Ctx::new(&config, cfg.bit_depth, false), ctx) {
    (Err(_), None) => return Ok(vec![]),
    (Err(e), Some(_)) => return Err(format!("context: made where Rust says {e}")),
    (Ok(_), None) => return Err("context: refused where Rust makes one".into()),
    (Ok(m), Some(c)) => (m, c),
  };
  if cfg.width * cfg.height > 1 << 14 {
    return Ok(vec![1]);
  }
  let (mut m, c) = ctx;
  let mut bytes = c.header();
  ne("container header", &bytes, &m.container_header())?;
  for n in 0..case.frames {
    let want = m.send(cfg, case.content, n, None);
    let f = c.frame(cfg, case.content, n, extra);
    let got = c.send(&f);
    ne("send", got, want.err().map_or(0, status))?;
    ne("last status", c.last(), got)?;
  }
  m.flush();
  ne("flush", c.flush(), 0)?;
  for _ in 0..case.frames * 4 + 8 {
    match (m.receive(cfg, WANT), c.receive(cfg, extra)) {
      (Ok(p), Ok(q)) => {
        same(&q, &p)?;
        bytes.extend(p.data);
      }
      (Err(e), Err(g)) => {
        ne("receive", g, status(e))?;
        ne("last status", c.last(), g)?;
        if e == EncoderStatus::LimitReached {
          break;
        }
      }
      (p, q) => {
        return Err(format!("receive: {:?}, expected {:?}", q.map(|_| ()), p.map(|_| ())));
      }
    }
  }
  Ok(bytes)
}

fn settle(r: &Report, name: &str, f: impl FnOnce() -> Result<Vec<u8>, String>) {
  if !r.wants(name) {
    return;
  }
  tick(name);
  r.add("evaluations", 1);
  r.add("traces", 1);
  match fatal(r, name, f) {
    Ok(Ok(b)) => {
      r.outcome(&b);
      r.sample(name.to_string());
    }
    Ok(Err(e)) | Err(e) => {
      let k = e.split(':').next().unwrap_or("").replace(' ', "-");
      let k: String = k.chars().filter(|c| c.is_ascii_alphabetic() || *c == '-').take(30).collect();
      r.violation(&format!("capi-{k}"), name, &e)
    }
  }
}

fn set_all(c: &CCfg, m: &mut Mirror, s: &[Set]) -> Result<(), String> {
  for s in s {
    let ok = match s {
      Set::S(k, v) => m.set(k, v),
      Set::I(k, v) => m.set_int(k, *v),
    };
    ne(&format!("parse {}", s.name()), c.set(s) < 0, !ok)?;
  }
  Ok(())
}

const SMALL: [Set; 4] = [
  Set::I("width", 32),
  Set::S("height", "24"),
  Set::I("speed", 10),
  Set::S("rdo_lookahead_frames", "2"),
];

/// All pairs of settings, in both orders.
fn keys(r: &Report, t: bool) {
  let all = settings();
  let n = all.len();
  par_for((n + 1) * (n + 1), |i| {
    let (a, b) = (i / (n + 1), i % (n + 1));
    // One alone is the pair with nothing; the same key twice counts too.
    let mut s: Vec<Set> = vec![];
    s.extend(all.get(a).cloned());
    s.extend(all.get(b).cloned());
    let name = format!("keys {}", s.iter().map(|s| s.name()).collect::<Vec<_>>().join(" "));
    // Refused values need not be paired with everything.
    let ok = |x: &Set| match x {
      Set::S(k, v) => Mirror::new().set(k, v),
      Set::I(k, v) => Mirror::new().set_int(k, *v),
    };
    if !t && s.len() == 2 && s[0].key() != s[1].key() && !s.iter().all(ok) {
      return;
    }
    settle(r, &name, || {
      let c = CCfg::new();
      let mut m = Mirror::new();
      set_all(&c, &mut m, &SMALL)?;
      set_all(&c, &mut m, &s)?;
      both(&c, &m.case(Content::Spot, 4), 0)
    });
  });
}

/// The other setters, in full products.
fn setters(r: &Report, t: bool) {
  use rr::*;
  let mut v: Vec<(String, Box<dyn Fn(&CCfg, &mut Mirror) -> Result<(), String> + Sync>)> = vec![];
  for bd in [8u8, 10, 12, 0, 9, 16, 255] {
    for cs in [CS400, CS420, CS422, CS444] {
      for pos in [ChromaSamplePosition::Unknown, ChromaSamplePosition::Vertical, ChromaSamplePosition::Colocated] {
        for range in [PixelRange::Limited, PixelRange::Full] {
          v.push((
            format!("format {bd} {cs:?} {pos:?} {range:?}"),
            Box::new(move |c, m| {
              let s = unsafe { rav1e_config_set_pixel_format(c.0, bd, cs, pos, range) };
              let ok = [8, 10, 12].contains(&bd);
              ne("pixel format", s < 0, !ok)?;
              if ok {
                m.enc.bit_depth = bd as usize;
                m.enc.chroma_sampling = cs;
                m.enc.chroma_sample_position = pos;
                m.enc.pixel_range = range;
              }
              Ok(())
            }),
          ));
        }
      }
    }
  }
  for (mx, p, x) in [
    (MatrixCoefficients::BT709, ColorPrimaries::BT709, TransferCharacteristics::BT709),
    (MatrixCoefficients::BT2020NCL, ColorPrimaries::BT2020, TransferCharacteristics::SMPTE2084),
    (MatrixCoefficients::Unspecified, ColorPrimaries::EBU3213, TransferCharacteristics::HLG),
    (MatrixCoefficients::ICtCp, ColorPrimaries::XYZ, TransferCharacteristics::Linear),
    (MatrixCoefficients::Identity, ColorPrimaries::BT709, TransferCharacteristics::SRGB),
  ] {
    v.push((
      format!("colours {mx:?} {p:?} {x:?}"),
      Box::new(move |c, m| {
        ne("colours", unsafe { rav1e_config_set_color_description(c.0, mx, p, x) }, 0)?;
        m.enc.color_description =
          Some(ColorDescription { color_primaries: p, transfer_characteristics: x, matrix_coefficients: mx });
        Ok(())
      }),
    ));
  }
  for (a, b) in [(0u16, 0u16), (1000, 400), (u16::MAX, 1), (1, u16::MAX)] {
    v.push((
      format!("light {a} {b}"),
      Box::new(move |c, m| {
        ne("light", unsafe { rav1e_config_set_content_light(c.0, a, b) }, 0)?;
        m.enc.content_light =
          Some(ContentLight { max_content_light_level: a, max_frame_average_light_level: b });
        Ok(())
      }),
    ));
  }
  for k in 0..3u16 {
    v.push((
      format!("mastering {k}"),
      Box::new(move |c, m| {
        let pt = |x: u16, y: u16| ChromaticityPoint { x, y };
        let p = [pt(k, 2), pt(3, 40000 + k), pt(u16::MAX, 6)];
        let (hi, lo) = (u32::MAX - k as u32, 5 + k as u32);
        let w = pt(7, 8 * k);
        ne("mastering", unsafe { rav1e_config_set_mastering_display(c.0, p.as_ptr(), w, hi, lo) }, 0)?;
        m.enc.mastering_display =
          Some(MasteringDisplay { primaries: p, white_point: w, max_luminance: hi, min_luminance: lo });
        Ok(())
      }),
    ));
  }
  for (n, d) in [(1u64, 1u64), (2, 1), (1, 2), (0, 1), (1, 0), (1366, 1), (1001, 1000)] {
    v.push((
      format!("aspect {n}/{d}"),
      Box::new(move |c, m| {
        unsafe { rav1e_config_set_sample_aspect_ratio(c.0, Rational { num: n, den: d }) };
        m.enc.sample_aspect_ratio = Rational { num: n, den: d };
        Ok(())
      }),
    ));
    v.push((
      format!("time {n}/{d}"),
      Box::new(move |c, m| {
        unsafe { rav1e_config_set_time_base(c.0, Rational { num: n, den: d }) };
        m.enc.time_base = Rational { num: n, den: d };
        m.enc.enable_timing_info = true;
        ne("timing", c.set(&Set::I("enable_timing_info", 1)), 0)
      }),
    ));
  }
  let n = v.len();
  par_for(n * (n + 1), |i| {
    let (a, b) = (i / (n + 1), i % (n + 1));
    // Formats with formats only in the deep run.
    let fmt = |k: usize| k < 7 * 24;
    if b < n && (a == b || !t && fmt(a) && (fmt(b) || a % 5 != b % 5)) {
      return;
    }
    let name = format!("set {} then {}", v[a].0, v.get(b).map_or("nothing", |v| &v.0));
    settle(r, &name, || {
      let c = CCfg::new();
      let mut m = Mirror::new();
      set_all(&c, &mut m, &SMALL)?;
      v[a].1(&c, &mut m)?;
      if let Some(x) = v.get(b) {
        x.1(&c, &mut m)?;
      }
      both(&c, &m.case(Content::Noise, 2), b % 3)
    });
  });
}

/// Planes of every small size and format go in and come out unchanged.
fn planes(r: &Report) {
  let mut v = vec![];
  for w in 16..=33usize {
    for h in [16usize, 17, 18, 31] {
      for cs in [CS400, CS420, CS422, CS444] {
        for bd in [8u8, 10, 12] {
          v.push((w, h, cs, bd));
        }
      }
    }
  }
  par_for(v.len(), |i| {
    let (w, h, cs, bd) = v[i];
    for extra in [0usize, 1, 16] {
      let name = format!("planes {w}x{h} {cs:?} {bd} bits stride+{extra}");
      settle(r, &name, || {
        let c = CCfg::new();
        let mut m = Mirror::new();
        set_all(&c, &mut m, &SMALL)?;
        set_all(&c, &mut m, &[Set::I("width", w as i32), Set::I("height", h as i32)])?;
        unsafe {
          rav1e_config_set_pixel_format(c.0, bd, cs, ChromaSamplePosition::Unknown, PixelRange::Full);
        }
        m.enc.bit_depth = bd as usize;
        m.enc.chroma_sampling = cs;
        m.enc.pixel_range = PixelRange::Full;
        let case = m.case(Content::Noise, 1);
        let b = both(&c, &case, extra)?;
        // The picture of the packet is the one that was sent.
        let ctx = CCtx::new(&c).ok_or("context: none")?;
        ctx.send(&ctx.frame(&case.cfg, case.content, 0, extra));
        ctx.flush();
        let p = ctx.receive(&case.cfg, extra).map_err(|e| format!("receive: {e}"))?;
        if p.src != Some(source_planes(&case.cfg, case.content, 0)) {
          return Err("source: not the picture sent".into());
        }
        Ok(b)
      });
    }
  });
}

/// Counts what becomes of opaque data.
#[derive(Default)]
struct Fate {
  destroyed: AtomicU32,
  returned: AtomicU32,
}
extern "C" fn destroy(p: *mut c_void) {
  let f = unsafe { Box::from_raw(p as *mut Arc<Fate>) };
  f.destroyed.fetch_add(1, Ordering::SeqCst);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
  Send,
  Opaque,
  /// Opaque data without a destructor.
  Bare,
  Key,
  T35,
  /// The last frame again.
  Again,
  /// The last frame again with another picture in it.
  Refill,
  /// Opaque data replaced before the frame is sent.
  Replace,
  Flush,
  Receive,
  Drain,
}
const DO: [Do; 11] = [
  Do::Send, Do::Opaque, Do::Key, Do::T35, Do::Again, Do::Receive, Do::Flush, Do::Drain, Do::Refill, Do::Replace,
  Do::Bare,
];

fn history(set: &[Set], ops: &[Do], finish: bool) -> Result<Vec<u8>, String> {
  let c = CCfg::new();
  let mut m = Mirror::new();
  set_all(&c, &mut m, &SMALL)?;
  set_all(&c, &mut m, set)?;
  let case = m.case(Content::Half, 0);
  let cfg = &case.cfg;
  let mut rust = Ctx::new(&case.config(), 8, false)?;
  let ctx = CCtx::new(&c).ok_or("context: none")?;
  let mut fates: Vec<Arc<Fate>> = vec![];
  // By frame number: the fate its packet must return, or none.
  let mut owner: Vec<Option<usize>> = vec![];
  let mut last: Option<(CFrame, usize)> = None;
  let mut out = vec![];
  let mut sent = 0usize;
  let mut bare = 0usize;
  let mut bares = vec![];
  let mut recv = |rust: &mut Ctx, ctx: &CCtx, owner: &[Option<usize>], fates: &[Arc<Fate>], bares: &[(u64, usize)]| {
    match (rust.receive(cfg, WANT), ctx.receive(cfg, 0)) {
      (Ok(p), Ok(q)) => {
        same(&q, &p)?;
        out.extend(&p.data);
        match owner.get(p.no as usize).copied().flatten() {
          None => {
            let b = bares.iter().find(|b| b.0 == p.no).map_or(0, |b| b.1);
            ne("opaque of a packet", q.opaque, b)?
          }
          Some(f) => {
            if q.opaque == 0 {
              return Err("opaque of a packet: none".into());
            }
            let b = unsafe { Box::from_raw(q.opaque as *mut Arc<Fate>) };
            if !Arc::ptr_eq(&b, &fates[f]) {
              std::mem::forget(b);
              return Err("opaque of a packet: of another frame".into());
            }
            b.returned.fetch_add(1, Ordering::SeqCst);
          }
        }
        Ok(0)
      }
      (Err(e), Err(g)) => {
        ne("receive", g, status(e))?;
        ne("last status", ctx.last(), g)?;
        Ok(g)
      }
      (p, q) => Err(format!("receive: {:?}, expected {:?}", q.map(|_| ()), p.map(|_| ()))),
    }
  };
  for op in ops {
    match op {
      Do::Send | Do::Opaque | Do::Bare | Do::Replace | Do::Key | Do::T35 | Do::Again | Do::Refill => {
        let mut fp = FP::default();
        let n = match (op, &last) {
          (Do::Again | Do::Refill, None) => continue,
          (Do::Refill, Some((f, _))) => {
            ctx.fill(f, cfg, case.content, sent, 0);
            sent
          }
          (Do::Again, Some((_, n))) => *n,
          _ => {
            last = Some((ctx.frame(cfg, case.content, sent, 0), sent));
            sent
          }
        };
        last.as_mut().unwrap().1 = n;
        let f = &last.as_ref().unwrap().0;
        let mut fate = None;
        match op {
          Do::Opaque | Do::Replace => {
            for _ in 0..if *op == Do::Replace { 2 } else { 1 } {
              fates.push(Arc::new(Fate::default()));
              fate = Some(fates.len() - 1);
              let p = Box::into_raw(Box::new(fates[fates.len() - 1].clone()));
              unsafe { rav1e_frame_set_opaque(f.0, p as *mut c_void, Some(destroy)) };
            }
            if *op == Do::Replace {
              ne("replaced opaque data destroyed", fates[fates.len() - 2].destroyed.load(Ordering::SeqCst), 1)?;
            }
          }
          Do::Bare => {
            bare += 16;
            unsafe { rav1e_frame_set_opaque(f.0, bare as *mut c_void, None) };
          }
          Do::Key => {
            fp.key = true;
            ne("set type", unsafe { rav1e_frame_set_type(f.0, rr::FrameTypeOverride::Key) }, 0)?;
          }
          Do::T35 => {
            let d = [sent as u8, 1, 2];
            fp.t35 = vec![(0xb5, 0, d.to_vec()), (0xff, 9, vec![7])];
            unsafe {
              rav1e_frame_add_t35_metadata(f.0, 0xb5, 0, d.as_ptr(), 3);
              rav1e_frame_add_t35_metadata(f.0, 0xff, 9, [7u8].as_ptr(), 1);
            }
          }
          // A frame keeps its type, its metadata went with the first send.
          Do::Again | Do::Refill => fp.key = KEY.with(|k| k.get()),
          _ => {}
        }
        if !matches!(op, Do::Again | Do::Refill) {
          KEY.with(|k| k.set(fp.key));
        }
        let want = rust.send(cfg, case.content, n, Some(&fp));
        let got = ctx.send(f);
        ne("send", got, want.err().map_or(0, status))?;
        ne("last status", ctx.last(), got)?;
        if want.is_ok() {
          if *op == Do::Bare {
            bares.push((owner.len() as u64, bare));
          }
          owner.push(fate);
          sent += 1;
        } else if let Some(x) = fate {
          // What was not accepted is destroyed or still with its frame.
          let d = fates[x].destroyed.load(Ordering::SeqCst);
          if d > 1 {
            return Err("destructor: called twice".into());
          }
        }
      }
      Do::Flush => {
        rust.flush();
        ne("flush", ctx.flush(), 0)?;
      }
      Do::Receive => {
        recv(&mut rust, &ctx, &owner, &fates, &bares)?;
      }
      Do::Drain => {
        for _ in 0..64 {
          let s = recv(&mut rust, &ctx, &owner, &fates, &bares)?;
          if s != 0 && s != 4 {
            break;
          }
        }
      }
    }
  }
  if finish {
    rust.flush();
    ne("flush", ctx.flush(), 0)?;
    for i in 0.. {
      if recv(&mut rust, &ctx, &owner, &fates, &bares)? == 3 {
        break;
      }
      if i > 200 {
        return Err("receive: no end".into());
      }
    }
  }
  drop(last);
  drop(ctx);
  for (i, f) in fates.iter().enumerate() {
    let n = (f.returned.load(Ordering::SeqCst), f.destroyed.load(Ordering::SeqCst));
    if n.0 + n.1 != 1 {
      return Err(format!("opaque data {i}: returned {} times, destroyed {} times", n.0, n.1));
    }
    if finish && owner.contains(&Some(i)) {
      ne("accepted opaque data returned", n.0, 1)?;
    }
  }
  Ok(out)
}
thread_local! { static KEY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

fn histories(r: &Report, t: bool) {
  let cfgs: [(&str, Vec<Set>, usize); 4] = [
    ("p", vec![Set::I("low_latency", 1), Set::S("rdo_lookahead_frames", "1")], 4),
    ("pyramid", vec![Set::S("min_key_frame_interval", "0")], 4),
    ("still", vec![Set::I("still_picture", 1)], 4),
    ("rate", vec![Set::S("bitrate", "100000"), Set::S("key_frame_interval", "3"), Set::S("min_key_frame_interval", "0")], 4),
  ];
  for (cn, set, depth) in &cfgs {
    let depth = depth + usize::from(t);
    // The two rarer operations only in shorter histories.
    let sets = [(depth, if t || *cn == "p" { 9usize } else { 8 }), (depth + 1, 6), (3, 11)];
    for (d, n) in sets {
      par_for(n.pow(d as u32), |i| {
        let mut x = i;
        let ops: Vec<Do> = (0..d)
          .map(|_| {
            let o = DO[x % n];
            x /= n;
            o
          })
          .collect();
        for finish in [false, true] {
          if n == 6 && (!finish || *cn != "p" && !t) {
            continue;
          }
          let name = format!("history {cn} {ops:?} {}", if finish { "finish" } else { "drop" });
          settle(r, &name, || history(set, &ops, finish));
        }
      });
    }
  }
}

/// Pass data: framing, both directions, and damaged framing.
fn passes(r: &Report, t: bool) {
  let cfgs: Vec<(&str, Vec<Set>)> = vec![
    ("p", vec![Set::I("low_latency", 1)]),
    ("pyramid", vec![Set::I("quantizer", 80)]),
    ("key", vec![Set::S("key_frame_interval", "4"), Set::S("min_key_frame_interval", "0")]),
    ("la", vec![Set::S("rdo_lookahead_frames", "1"), Set::S("no_scene_detection", "true")]),
  ];
  let mut v = vec![];
  for (i, _) in cfgs.iter().enumerate() {
    for frames in if t { 1..=20usize } else { 1..=7 } {
      for rate in ["20000", "400000"] {
        v.push((i, frames, rate));
      }
    }
  }
  par_for(v.len(), |i| {
    let (k, frames, rate) = v[i];
    let name = format!("passes {} frames={frames} rate={rate}", cfgs[k].0);
    settle(r, &name, || two_passes(&cfgs[k].1, frames, rate));
    if rate == "20000" {
      for sends in [1, 2, frames] {
        for feed in [0, 1, 7, 1 << 20] {
          let name = format!("file {} frames={frames} sends={sends} feed={feed}", cfgs[k].0);
          settle(r, &name, || file_passes(&cfgs[k].1, frames, sends, feed));
        }
      }
    }
  });
}

fn two_passes(set: &[Set], frames: usize, rate: &'static str) -> Result<Vec<u8>, String> {
  let c = CCfg::new();
  let mut m = Mirror::new();
  set_all(&c, &mut m, &SMALL)?;
  set_all(&c, &mut m, set)?;
  set_all(&c, &mut m, &[Set::S("bitrate", rate)])?;
  let mut case = m.case(Content::Cut(3), frames);
  let cfg = case.cfg.clone();
  // The first pass.
  unsafe { rav1e_config_set_emit_data(c.0, 1) };
  case.rc = rr::RateControlConfig::new().with_emit_data(true);
  let mut rust = Ctx::new(&case.config(), 8, false)?;
  let ctx = CCtx::new(&c).ok_or("context: none")?;
  for n in 0..frames {
    ctx.send(&ctx.frame(&cfg, case.content, n, 0));
    rust.send(&cfg, case.content, n, None).map_err(|e| format!("send: {e:?}"))?;
  }
  ctx.flush();
  rust.flush();
  let size = unsafe { rav1e_rc_summary_size(ctx.0) };
  ne("summary size", size, rust.rc_summary_size() + 8)?;
  let mut records: Vec<Vec<u8>> = vec![];
  let mut summary = vec![];
  let mut one = |rust: &mut Ctx| -> Result<bool, String> {
    let mut d: *mut Data = null_mut();
    let k = unsafe { rav1e_rc_receive_pass_data(ctx.0, &mut d) };
    let want = rust.rc_receive();
    let wk = match &want {
      None => RcDataKind::Empty,
      Some((true, _)) => RcDataKind::Summary,
      Some((false, _)) => RcDataKind::Frame,
    };
    ne("kind of pass data", &k, &wk)?;
    let Some((last, payload)) = want else { return Ok(false) };
    let got = unsafe { take(d) }.ok_or("pass data: none")?;
    let mut framed = (payload.len() as u64).to_be_bytes().to_vec();
    framed.extend(&payload);
    ne("pass data", &got, &framed)?;
    if last {
      ne("size of the summary", got.len(), size)?;
      summary = got;
    } else {
      records.push(got);
    }
    Ok(last)
  };
  let mut done = false;
  for _ in 0..frames * 4 + 8 {
    match (rust.receive(&cfg, WANT), ctx.receive(&cfg, 0)) {
      (Ok(p), Ok(q)) => same(&q, &p)?,
      (Err(e), Err(g)) => {
        ne("receive", g, status(e))?;
        if e == EncoderStatus::LimitReached {
          done = one(&mut rust)?;
          // Asking too often is answered with nothing.
          one(&mut rust)?;
          break;
        }
      }
      _ => return Err("receive: one interface has a packet".into()),
    }
    one(&mut rust)?;
  }
  if !done && summary.is_empty() {
    return Err("summary: none".into());
  }
  drop(ctx);
  // The summary arrives in pieces: every prefix is asked to be longer.
  unsafe { rav1e_config_set_emit_data(c.0, 0) };
  for n in 0..summary.len() {
    let (mut p, mut l) = (summary.as_ptr(), n);
    let s = unsafe { rav1e_config_set_rc_summary(c.0, &mut p, &mut l) };
    let need = if n < 8 { 8 } else { summary.len() as i32 };
    ne("summary prefix: needed", s, need)?;
    ne("summary prefix: pointer", (p, l), (summary.as_ptr(), n))?;
  }
  // Lengths that cannot be.
  for bad in [u64::MAX, u64::MAX - 7, u64::MAX - 8, (1 << 63), (1 << 32) - 8, 1 << 32, (1 << 31) - 8, i32::MAX as u64 - 8] {
    let mut d = summary.clone();
    d[..8].copy_from_slice(&bad.to_be_bytes());
    let (mut p, mut l) = (d.as_ptr(), d.len());
    let s = unsafe { rav1e_config_set_rc_summary(c.0, &mut p, &mut l) };
    if s == 0 || s > 0 && s as u64 as u128 != bad as u128 + 8 {
      return Err(format!("damaged length {bad} of the summary: {s}"));
    }
    ne("damaged length: pointer", (p, l), (d.as_ptr(), d.len()))?;
  }
  let mut stream = vec![];
  for round in 0..3 {
    let mut joined = summary.clone();
    joined.extend([1, 2, 3]);
    let (mut p, mut l) = (joined.as_ptr(), joined.len());
    if round == 1 {
      // Reset first.
      ne("reset", unsafe { rav1e_config_set_rc_summary(c.0, null_mut(), null_mut()) }, 0)?;
    }
    ne("summary", unsafe { rav1e_config_set_rc_summary(c.0, &mut p, &mut l) }, 0)?;
    ne("rest after the summary", (p as usize - joined.as_ptr() as usize, l), (summary.len(), 3))?;
    // A summary of another size is refused.
    let mut wrong = (4u64).to_be_bytes().to_vec();
    wrong.extend([0; 4]);
    let (mut p, mut l) = (wrong.as_ptr(), wrong.len());
    if unsafe { rav1e_config_set_rc_summary(c.0, &mut p, &mut l) } >= 0 {
      return Err("short summary: accepted".into());
    }
    case.rc = rr::RateControlConfig::from_summary_slice(&summary[8..]).map_err(|e| format!("summary: {e}"))?;
    let mut rust = Ctx::new(&case.config(), 8, false)?;
    let ctx = CCtx::new(&c).ok_or("context: none")?;
    for n in 0..frames {
      ctx.send(&ctx.frame(&cfg, case.content, n, 0));
      rust.send(&cfg, case.content, n, None).map_err(|e| format!("send: {e:?}"))?;
    }
    ctx.flush();
    rust.flush();
    let mut next = records.iter();
    let mut out = vec![];
    let mut ended = false;
    for _ in 0..frames * 6 + 16 {
      while {
        let need = rust.rc_needed();
        ne("required", unsafe { rav1e_rc_second_pass_data_required(ctx.0) } as usize, need)?;
        need > 0
      } {
        let Some(d) = next.next() else { return Err("required: more than there is".into()) };
        if round == 2 {
          for n in 0..d.len() {
            let (mut p, mut l) = (d.as_ptr(), n);
            let s = unsafe { rav1e_rc_send_pass_data(ctx.0, &mut p, &mut l) };
            ne("record prefix: needed", s, if n < 8 { 8 } else { d.len() as i32 })?;
            ne("record prefix: pointer", (p, l), (d.as_ptr(), n))?;
          }
        }
        let (mut p, mut l) = (d.as_ptr(), d.len());
        let want = rust.rc_send(&d[8..]);
        ne("send pass data", unsafe { rav1e_rc_send_pass_data(ctx.0, &mut p, &mut l) }, want.err().map_or(0, |_| -1))?;
        ne("last status", ctx.last(), want.err().map_or(0, status))?;
        ne("rest of the record", l, 0)?;
      }
      match (rust.receive(&cfg, WANT), ctx.receive(&cfg, 0)) {
        (Ok(p), Ok(q)) => {
          same(&q, &p)?;
          out.extend(p.data);
        }
        (Err(e), Err(g)) => {
          ne("receive", g, status(e))?;
          if e == EncoderStatus::LimitReached {
            ended = true;
            break;
          }
        }
        _ => return Err("receive: one interface has a packet".into()),
      }
    }
    if !ended {
      return Err("second pass: no end".into());
    }
    if round == 0 {
      stream = out;
    } else {
      ne("second pass stream", out == stream, true)?;
    }
  }
  Ok(stream)
}

/// One statistics file, written and read piecewise: `feed` bytes at a time, 0 for
/// as many as are asked for.
fn file_passes(set: &[Set], frames: usize, sends: usize, feed: usize) -> Result<Vec<u8>, String> {
  let mut file: Vec<u8> = vec![];
  let mut at = 0;
  let mut stream = vec![];
  for pass in 1..=2 {
    let c = CCfg::new();
    let mut m = Mirror::new();
    set_all(&c, &mut m, &SMALL)?;
    set_all(&c, &mut m, &[Set::S("bitrate", "60000")])?;
    set_all(&c, &mut m, set)?;
    let mut case = m.case(Content::Cut(2), frames);
    unsafe { rav1e_config_set_emit_data(c.0, i32::from(pass == 1)) };
    case.rc = rr::RateControlConfig::new().with_emit_data(pass == 1);
    let cfg = case.cfg.clone();
    let mut rust = Ctx::new(&case.config(), 8, false)?;
    let ctx = CCtx::new(&c).ok_or("context: none")?;
    let mut sent = 0;
    let mut out = |rust: &mut Ctx, file: &mut Vec<u8>, head: bool| {
      let got = unsafe { take(rav1e_twopass_out(ctx.0)) };
      let want = rust.twopass_out();
      ne("twopass_out", &got, &want)?;
      if let Some(d) = got {
        // The summary takes the place kept for it.
        if head {
          if file.len() < d.len() || file[8..d.len()].iter().any(|b| *b != 0) {
            return Err("placeholder: none".into());
          }
          file[..d.len()].copy_from_slice(&d);
        } else {
          file.extend(d);
        }
      }
      Ok::<(), String>(())
    };
    for step in 0.. {
      if step > 8 * frames + 32 + 2 * file.len() {
        return Err(format!("pass {pass}: no end"));
      }
      if pass == 1 {
        out(&mut rust, &mut file, false)?;
      } else {
        loop {
          let need = rust.twopass_bytes_needed();
          ne("bytes needed", unsafe { rav1e_twopass_bytes_needed(ctx.0) }, need)?;
          let n = if feed == 0 { need } else { feed }.min(file.len() - at);
          let mut piece = file[at..at + n].to_vec();
          let want = rust.twopass_in(&piece).map_or(-1, |n| n as i32);
          ne("twopass_in", unsafe { rav1e_twopass_in(ctx.0, piece.as_mut_ptr(), n) }, want)?;
          if want <= 0 {
            break;
          }
          at += want as usize;
        }
      }
      match (rust.receive(&cfg, WANT), ctx.receive(&cfg, 0)) {
        (Ok(p), Ok(q)) => {
          same(&q, &p)?;
          stream.extend(p.data);
        }
        (Err(e), Err(g)) => {
          ne("receive", g, status(e))?;
          if e == EncoderStatus::NeedMoreData {
            for _ in 0..sends {
              if sent < frames {
                let want = rust.send(&cfg, case.content, sent, None);
                ne("send", ctx.send(&ctx.frame(&cfg, case.content, sent, 0)), want.err().map_or(0, status))?;
                sent += 1;
              }
            }
            if sent == frames {
              rust.flush();
              ne("flush", ctx.flush(), 0)?;
            }
          } else if e == EncoderStatus::LimitReached {
            break;
          }
        }
        _ => return Err("receive: one interface has a packet".into()),
      }
    }
    if pass == 1 {
      out(&mut rust, &mut file, true)?;
      out(&mut rust, &mut file, true)?;
    }
  }
  Ok(stream)
}

fn odds(r: &Report) {
  settle(r, "statuses and versions", || unsafe {
    use rav1e::capi::EncoderStatus as E;
    let mut seen = vec![];
    for (s, v) in [
      (E::Success, 0), (E::NeedMoreData, 1), (E::EnoughData, 2), (E::LimitReached, 3), (E::Encoded, 4),
      (E::Failure, -1), (E::NotReady, -2),
    ] {
      ne("status code", s as i32, v)?;
      let p = rav1e_status_to_str(s);
      if p.is_null() {
        return Err(format!("status {v}: no text"));
      }
      seen.push(CStr::from_ptr(p).to_str().map_err(|e| e.to_string())?.to_string());
    }
    let n = seen.len();
    seen.sort();
    seen.dedup();
    ne("status texts", seen.len(), n)?;
    for p in [rav1e_version_short(), rav1e_version_full()] {
      let v = CStr::from_ptr(p).to_str().map_err(|e| e.to_string())?;
      ne("version", v.split('.').count() >= 3, true)?;
    }
    // Freeing nothing is fine.
    rav1e_config_unref(null_mut());
    rav1e_context_unref(null_mut());
    rav1e_frame_unref(null_mut());
    rav1e_packet_unref(null_mut());
    rav1e_data_unref(null_mut());
    let _: *const u8 = null();
    Ok(vec![])
  });
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("one evaluation is one history of calls made through both interfaces and compared call by call; distinct cases are distinct streams");
  r.assume("the C functions are called from Rust with the C ABI");
  let t = r.thorough();
  odds(r);
  passes(r, t);
  planes(r);
  keys(r, t);
  setters(r, t);
  histories(r, t);
}
