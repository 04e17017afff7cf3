//! Drivers for the real encoder.  Everything generic over the pixel type is
//! instantiated here, behind non-generic functions.
use crate::content::{sample, Content};
use rav1e::config::RateControlConfig;
use rav1e::prelude::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub use rav1e::color::*;
pub use rav1e::config::SpeedSettings;
pub use rav1e::prelude::{
  ChromaSampling, EncoderConfig, EncoderStatus, FrameType, Rational, Tune,
};

pub const CS400: ChromaSampling = ChromaSampling::Cs400;
pub const CS420: ChromaSampling = ChromaSampling::Cs420;
pub const CS422: ChromaSampling = ChromaSampling::Cs422;
pub const CS444: ChromaSampling = ChromaSampling::Cs444;

thread_local! {
  static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
  static FATAL: RefCell<Option<(&'static crate::Report, String)>> = const { RefCell::new(None) };
}

/// As `guarded()`, for calls through a foreign interface: a panic there ends
/// the process, so the verdict is given before it does.
pub fn fatal<R>(r: &crate::Report, case: &str, f: impl FnOnce() -> R) -> Result<R, String> {
  // The report outlives the call, after which it is forgotten again.
  let l: &'static crate::Report = unsafe { &*(r as *const _) };
  FATAL.with(|p| *p.borrow_mut() = Some((l, case.to_string())));
  let v = guarded(f);
  FATAL.with(|p| *p.borrow_mut() = None);
  v
}

/// Keeps panics quiet and remembers where they came from.
pub fn quiet_panics() {
  std::panic::set_hook(Box::new(|i| {
    let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = i.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "?".into()
    };
    let l = i
      .location()
      .map(|l| format!("{}:{}", l.file(), l.line()))
      .unwrap_or_default();
    let l = l.trim_start_matches("/repo/").to_string();
    if m.contains("cannot unwind") {
      if let Some((r, case)) = FATAL.with(|p| p.borrow_mut().take()) {
        let w = LAST_PANIC.with(|p| p.borrow().clone());
        r.violation("capi-abort", &case, &format!("the process is ended by: {w}"));
        std::process::exit(r.finish());
      }
    }
    // What comes after the cause of an abort does not explain it.
    if !m.contains("unwind") {
      if let Ok(mut a) = crate::report::ANY_PANIC.try_lock() {
        *a = format!("{m} at {l}");
      }
    }
    LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    if std::env::var_os("MC_PANICS").is_some() {
      eprintln!("panic: {m} at {l}");
    }
  }));
}

/// Runs `f`, turning a panic into its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
    if mcsched::is_abort(&*e) {
      std::panic::resume_unwind(e);
    }
    LAST_PANIC.with(|p| p.borrow().clone())
  })
}

/// Options of one sent frame.
#[derive(Clone, Default, Debug)]
pub struct FP {
  pub key: bool,
  pub opaque: Option<u64>,
  pub t35: Vec<(u8, u8, Vec<u8>)>,
}
impl FP {
  pub fn is_plain(&self) -> bool {
    !self.key && self.opaque.is_none() && self.t35.is_empty()
  }
  pub fn to_params(&self) -> FrameParameters {
    FrameParameters {
      frame_type_override: if self.key {
        FrameTypeOverride::Key
      } else {
        FrameTypeOverride::No
      },
      opaque: self.opaque.map(Opaque::new),
      t35_metadata: self
        .t35
        .iter()
        .map(|(c, e, d)| T35 {
          country_code: *c,
          country_code_extension_byte: *e,
          data: d.clone().into_boxed_slice(),
        })
        .collect(),
    }
  }
}

#[derive(Clone)]
pub struct Case {
  pub cfg: EncoderConfig,
  pub content: Content,
  pub frames: usize,
  pub threads: usize,
  pub fp: BTreeMap<usize, FP>,
  pub rc: RateControlConfig,
  /// 8-bit video in 16-bit pixels.
  pub wide: bool,
}

/// A small base configuration.
pub fn base(w: usize, h: usize, speed: u8) -> EncoderConfig {
  let mut c = EncoderConfig::with_speed_preset(speed);
  c.width = w;
  c.height = h;
  c.min_key_frame_interval = 0;
  c.max_key_frame_interval = 240;
  c.low_latency = true;
  c.quantizer = 100;
  c.speed_settings.rdo_lookahead_frames = 2;
  c.speed_settings.scene_detection_mode = SceneDetectionSpeed::None;
  c
}

impl Case {
  pub fn new(cfg: EncoderConfig, content: Content, frames: usize) -> Case {
    Case {
      cfg,
      content,
      frames,
      threads: 0,
      fp: BTreeMap::new(),
      wide: false,
      rc: RateControlConfig::default(),
    }
  }
  pub fn config(&self) -> Config {
    Config::new()
      .with_encoder_config(self.cfg.clone())
      .with_threads(self.threads)
      .with_rate_control(self.rc.clone())
  }
}

/// Visible planes at 16 bits per sample.
pub type Planes = Vec<Vec<u16>>;

#[derive(Clone)]
pub struct Pkt {
  pub data: Vec<u8>,
  pub no: u64,
  pub ty: FrameType,
  pub qp: u8,
  pub rec: Option<Planes>,
  pub src: Option<Planes>,
  pub opaque: Option<u64>,
}

pub fn plane_dims(cfg: &EncoderConfig) -> Vec<(usize, usize)> {
  let (w, h) = (cfg.width, cfg.height);
  match cfg.chroma_sampling {
    ChromaSampling::Cs400 => vec![(w, h)],
    ChromaSampling::Cs420 => {
      let c = (w.div_ceil(2), h.div_ceil(2));
      vec![(w, h), c, c]
    }
    ChromaSampling::Cs422 => {
      let c = (w.div_ceil(2), h);
      vec![(w, h), c, c]
    }
    ChromaSampling::Cs444 => vec![(w, h); 3],
  }
}

/// What the client puts in frame `n`.
pub fn source_planes(cfg: &EncoderConfig, k: Content, n: usize) -> Planes {
  plane_dims(cfg)
    .iter()
    .enumerate()
    .map(|(p, &(w, h))| {
      let mut v = Vec::with_capacity(w * h);
      for y in 0..h {
        for x in 0..w {
          v.push(sample(k, n, p, x, y, cfg.bit_depth));
        }
      }
      v
    })
    .collect()
}

pub fn fill<T: Pixel>(
  f: &mut Frame<T>, cfg: &EncoderConfig, k: Content, n: usize,
) {
  for (p, &(w, h)) in plane_dims(cfg).iter().enumerate() {
    let plane = &mut f.planes[p];
    let stride = plane.cfg.stride;
    let d = plane.data_origin_mut();
    for y in 0..h {
      for x in 0..w {
        d[y * stride + x] =
          T::cast_from(sample(k, n, p, x, y, cfg.bit_depth));
      }
    }
  }
}

pub fn read_planes<T: Pixel>(f: &Frame<T>, cfg: &EncoderConfig) -> Planes {
  plane_dims(cfg)
    .iter()
    .enumerate()
    .map(|(p, &(w, h))| {
      let plane = &f.planes[p];
      let stride = plane.cfg.stride;
      let d = plane.data_origin();
      let mut v = Vec::with_capacity(w * h);
      for y in 0..h {
        for x in 0..w {
          v.push(u16::cast_from(d[y * stride + x]));
        }
      }
      v
    })
    .collect()
}

pub fn to_pkt<T: Pixel>(
  mut p: Packet<T>, cfg: &EncoderConfig, want: Want,
) -> Pkt {
  Pkt {
    rec: match (&p.rec, want.rec) {
      (Some(r), true) => Some(read_planes(r, cfg)),
      _ => None,
    },
    src: match (&p.source, want.src) {
      (Some(r), true) => Some(read_planes(r, cfg)),
      _ => None,
    },
    no: p.input_frameno,
    ty: p.frame_type,
    qp: p.qp,
    opaque: p
      .opaque
      .take()
      .and_then(|o| o.downcast::<u64>().ok())
      .map(|b| *b),
    data: std::mem::take(&mut p.data),
  }
}

#[derive(Clone, Copy, Default)]
pub struct Want {
  pub rec: bool,
  pub src: bool,
}

/// A context of either pixel width behind one non-generic interface.
pub enum Ctx {
  B(Context<u8>),
  W(Context<u16>),
}

macro_rules! both {
  ($s:expr, $c:ident => $e:expr) => {
    match $s {
      Ctx::B($c) => $e,
      Ctx::W($c) => $e,
    }
  };
}

/// Frames are kept so that several sends share one buffer.
pub enum AnyFrame {
  B(Arc<Frame<u8>>),
  W(Arc<Frame<u16>>),
}

impl Ctx {
  /// `wide` forces 16-bit storage for 8-bit video.
  pub fn new(c: &Config, bd: usize, wide: bool) -> Result<Ctx, String> {
    if bd > 8 || wide {
      c.new_context::<u16>().map(Ctx::W).map_err(|e| format!("{e:?}"))
    } else {
      c.new_context::<u8>().map(Ctx::B).map_err(|e| format!("{e:?}"))
    }
  }
  pub fn send(
    &mut self, cfg: &EncoderConfig, k: Content, n: usize, fp: Option<&FP>,
  ) -> Result<(), EncoderStatus> {
    both!(self, c => {
      let mut f = c.new_frame();
      fill(&mut f, cfg, k, n);
      match fp {
        Some(fp) if !fp.is_plain() => c.send_frame((f, fp.to_params())),
        _ => c.send_frame(f),
      }
    })
  }
  /// Sends a frame and returns a probe that tells whether it is still alive.
  pub fn send_probed(
    &mut self, cfg: &EncoderConfig, k: Content, n: usize,
  ) -> (Result<(), EncoderStatus>, Box<dyn Fn() -> bool>) {
    match self {
      Ctx::B(c) => {
        let mut f = c.new_frame();
        fill(&mut f, cfg, k, n);
        pad(&mut f, cfg);
        let f = Arc::new(f);
        let w = Arc::downgrade(&f);
        (c.send_frame(f), Box::new(move || w.strong_count() > 0))
      }
      Ctx::W(c) => {
        let mut f = c.new_frame();
        fill(&mut f, cfg, k, n);
        pad(&mut f, cfg);
        let f = Arc::new(f);
        let w = Arc::downgrade(&f);
        (c.send_frame(f), Box::new(move || w.strong_count() > 0))
      }
    }
  }
  /// Sends the same picture from a differently prepared buffer.
  pub fn send_layout(
    &mut self, cfg: &EncoderConfig, k: Content, n: usize, kind: usize,
  ) -> Result<(), EncoderStatus> {
    both!(self, c => {
      let f = layout_frame(c.new_frame(), cfg, k, n, kind);
      match kind {
        0 | 1 => c.send_frame(f),
        2 => {
          let mut f = f;
          pad(&mut f, cfg);
          let a = Arc::new(f);
          let b = a.clone();
          let r = c.send_frame(a);
          drop(b);
          r
        }
        3 => c.send_frame(Arc::new(f)),
        _ => c.send_frame((f, FrameParameters {
          frame_type_override: FrameTypeOverride::No,
          opaque: None,
          t35_metadata: Box::new([]),
        })),
      }
    })
  }
  pub fn send_none(&mut self) -> Result<(), EncoderStatus> {
    both!(self, c => c.send_frame(None))
  }
  pub fn flush(&mut self) {
    both!(self, c => c.flush())
  }
  pub fn receive(
    &mut self, cfg: &EncoderConfig, want: Want,
  ) -> Result<Pkt, EncoderStatus> {
    both!(self, c => c.receive_packet().map(|p| to_pkt(p, cfg, want)))
  }
  pub fn container_header(&self) -> Vec<u8> {
    both!(self, c => c.container_sequence_header())
  }
  pub fn twopass_out(&mut self) -> Option<Vec<u8>> {
    both!(self, c => c.twopass_out().map(|d| d.to_vec()))
  }
  pub fn twopass_in(&mut self, d: &[u8]) -> Result<usize, EncoderStatus> {
    both!(self, c => c.twopass_in(d))
  }
  pub fn twopass_bytes_needed(&mut self) -> usize {
    both!(self, c => c.twopass_bytes_needed())
  }
  pub fn rc_receive(&mut self) -> Option<(bool, Vec<u8>)> {
    both!(self, c => c.rc_receive_pass_data().map(|d| match d {
      RcData::Summary(b) => (true, b.to_vec()),
      RcData::Frame(b) => (false, b.to_vec()),
    }))
  }
  pub fn rc_send(&mut self, d: &[u8]) -> Result<(), EncoderStatus> {
    both!(self, c => c.rc_send_pass_data(d))
  }
  pub fn rc_summary_size(&self) -> usize {
    both!(self, c => c.rc_summary_size())
  }
  pub fn rc_needed(&self) -> usize {
    both!(self, c => c.rc_second_pass_data_required())
  }
}

/// 0: dirty padding; 1: filled row by row through `copy_from_raw_u8`;
/// others: the plain buffer.
fn layout_frame<T: Pixel>(
  mut f: Frame<T>, cfg: &EncoderConfig, k: Content, n: usize, kind: usize,
) -> Frame<T> {
  let dims = plane_dims(cfg);
  if kind == 0 {
    for p in f.planes[..dims.len()].iter_mut() {
      for (i, v) in p.data.iter_mut().enumerate() {
        *v = T::cast_from(((i * 37 + n) & 0xff) as u16);
      }
    }
  }
  if kind == 1 {
    let bytes = if cfg.bit_depth > 8 { 2 } else { 1 };
    for (i, &(w, h)) in dims.iter().enumerate() {
      // A wider source stride than the picture needs.
      let stride = (w + 5) * bytes;
      let mut raw = vec![0xa5u8; stride * h];
      for y in 0..h {
        for x in 0..w {
          let v = sample(k, n, i, x, y, cfg.bit_depth);
          if bytes == 2 {
            raw[y * stride + 2 * x..][..2].copy_from_slice(&v.to_le_bytes());
          } else {
            raw[y * stride + x] = v as u8;
          }
        }
      }
      f.planes[i].copy_from_raw_u8(&raw, stride, bytes);
    }
    return f;
  }
  fill(&mut f, cfg, k, n);
  f
}

fn pad<T: Pixel>(f: &mut Frame<T>, cfg: &EncoderConfig) {
  let n = plane_dims(cfg).len();
  for p in f.planes[..n].iter_mut() {
    p.pad(cfg.width, cfg.height);
  }
}

/// Sends all frames, flushes, receives until the end.
pub fn encode(case: &Case, want: Want) -> Result<Vec<Pkt>, String> {
  guarded(|| encode_inner(case, want))?
}

fn encode_inner(case: &Case, want: Want) -> Result<Vec<Pkt>, String> {
  let mut c = Ctx::new(&case.config(), case.cfg.bit_depth, case.wide)?;
  let mut out = vec![];
  for n in 0..case.frames {
    c.send(&case.cfg, case.content, n, case.fp.get(&n))
      .map_err(|e| format!("send {n}: {e:?}"))?;
  }
  c.flush();
  drain(&mut c, &case.cfg, want, &mut out)?;
  Ok(out)
}

/// Receives until `LimitReached`.
pub fn drain(
  c: &mut Ctx, cfg: &EncoderConfig, want: Want, out: &mut Vec<Pkt>,
) -> Result<(), String> {
  loop {
    match c.receive(cfg, want) {
      Ok(p) => out.push(p),
      Err(EncoderStatus::Encoded) => {}
      Err(EncoderStatus::LimitReached) => return Ok(()),
      Err(e) => return Err(format!("receive after flush: {e:?}")),
    }
  }
}
