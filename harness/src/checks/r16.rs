//! The command line programs do what the library does.
use crate::*;
use rav1e::config::{NoiseGenArgs, RateControlConfig, TransferFunction};
use rav1e::prelude as rr;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

const REC: Want = Want { rec: true, src: false };

fn program(ch: bool) -> PathBuf {
  root().join("target/cli/release").join(if ch { "rav1e-ch" } else { "rav1e" })
}

/// A directory of its own for every run.
struct Dir(PathBuf);
impl Dir {
  fn new() -> Dir {
    static N: AtomicUsize = AtomicUsize::new(0);
    let d = std::env::temp_dir()
      .join(format!("mc-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    Dir(d)
  }
  fn f(&self, n: &str) -> PathBuf {
    self.0.join(n)
  }
  fn put(&self, n: &str, d: &[u8]) -> String {
    std::fs::write(self.f(n), d).unwrap();
    self.s(n)
  }
  fn s(&self, n: &str) -> String {
    self.f(n).to_str().unwrap().into()
  }
  fn get(&self, n: &str) -> Option<Vec<u8>> {
    std::fs::read(self.f(n)).ok()
  }
}
impl Drop for Dir {
  fn drop(&mut self) {
    for f in std::fs::read_dir(&self.0).into_iter().flatten().flatten() {
      let _ = std::fs::remove_file(f.path());
    }
    let _ = std::fs::remove_dir(&self.0);
  }
}

struct Out {
  code: i32,
  err: String,
  out: Vec<u8>,
}

fn spawn(ch: bool, args: &[String]) -> Child {
  Command::new(program(ch))
    .args(args)
    .stdin(Stdio::piped())
    .stdout(Stdio::piped())
    .stderr(Stdio::piped())
    .env_remove("RAV1E_LOG")
    .env("RUST_BACKTRACE", "0")
    .spawn()
    .unwrap_or_else(|e| panic!("{}: {e}", program(ch).display()))
}

/// The end of a process; one that does not end by itself is a violation.
fn end(mut c: Child) -> Result<Out, String> {
  let (mut o, mut e) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
  let o = std::thread::spawn(move || {
    let mut v = vec![];
    let _ = o.read_to_end(&mut v);
    v
  });
  let e = std::thread::spawn(move || {
    let mut v = vec![];
    let _ = e.read_to_end(&mut v);
    v
  });
  let t = Instant::now();
  let status = loop {
    match c.try_wait().unwrap() {
      Some(s) => break s,
      None if t.elapsed() > Duration::from_secs(120) => {
        let _ = c.kill();
        let _ = c.wait();
        return Err("hang: does not end within two minutes".into());
      }
      None => std::thread::sleep(Duration::from_millis(1)),
    }
  };
  use std::os::unix::process::ExitStatusExt;
  let err = String::from_utf8_lossy(&e.join().unwrap()).into_owned();
  if let Some(s) = status.signal() {
    return Err(format!("killed: by signal {s}: {err}"));
  }
  Ok(Out { code: status.code().unwrap(), err, out: o.join().unwrap() })
}

fn run_with(ch: bool, args: &[String], stdin: &[u8]) -> Result<Out, String> {
  let mut c = spawn(ch, args);
  let mut i = c.stdin.take().unwrap();
  let d = stdin.to_vec();
  let w = std::thread::spawn(move || {
    let _ = i.write_all(&d);
  });
  let r = end(c);
  let _ = w.join();
  r
}

/// The video of a y4m file.
#[derive(Clone)]
struct Video {
  cfg: EncoderConfig,
  content: Content,
  frames: usize,
  tag: &'static str,
  rate: (u64, u64),
  aspect: Option<(u64, u64)>,
}

impl Video {
  fn header(&self) -> Vec<u8> {
    let mut s = format!("YUV4MPEG2 W{} H{} F{}:{}", self.cfg.width, self.cfg.height, self.rate.0, self.rate.1);
    if let Some((a, b)) = self.aspect {
      s += &format!(" Ip A{a}:{b}");
    }
    if !self.tag.is_empty() {
      s += &format!(" C{}", self.tag);
    }
    s.push('\n');
    s.into_bytes()
  }
  fn frame(&self, n: usize) -> Vec<u8> {
    let mut v = b"FRAME\n".to_vec();
    v.extend(pixels(&source_planes(&self.cfg, self.content, n), self.cfg.bit_depth));
    v
  }
  fn file(&self) -> Vec<u8> {
    let mut v = self.header();
    for n in 0..self.frames {
      v.extend(self.frame(n));
    }
    v
  }
}

fn pixels(p: &Planes, bd: usize) -> Vec<u8> {
  let mut v = vec![];
  for p in p {
    for s in p {
      if bd > 8 {
        v.extend(s.to_le_bytes());
      } else {
        v.push(*s as u8);
      }
    }
  }
  v
}

use rr::ChromaSamplePosition as Pos;
const TAGS: [(&str, ChromaSampling, usize, Pos); 15] = [
  ("", CS420, 8, Pos::Colocated),
  ("420", CS420, 8, Pos::Colocated),
  ("420jpeg", CS420, 8, Pos::Unknown),
  ("420paldv", CS420, 8, Pos::Unknown),
  ("420mpeg2", CS420, 8, Pos::Vertical),
  ("420p10", CS420, 10, Pos::Colocated),
  ("420p12", CS420, 12, Pos::Colocated),
  ("422", CS422, 8, Pos::Colocated),
  ("422p10", CS422, 10, Pos::Colocated),
  ("422p12", CS422, 12, Pos::Colocated),
  ("444", CS444, 8, Pos::Colocated),
  ("444p10", CS444, 10, Pos::Colocated),
  ("444p12", CS444, 12, Pos::Colocated),
  ("mono", CS400, 8, Pos::Unknown),
  ("mono12", CS400, 12, Pos::Unknown),
];

/// What the arguments mean for the library.
#[derive(Clone)]
struct Mirror {
  video: Video,
  enc: EncoderConfig,
  rc: RateControlConfig,
  noise: u8,
  limit: usize,
  skip: usize,
  wide: bool,
  /// Said to be refused whatever the library says.
  refuse: bool,
}

fn video(w: usize, h: usize, tag: usize, content: Content, frames: usize) -> Video {
  let mut cfg = EncoderConfig::default();
  let (t, cs, bd, pos) = TAGS[tag];
  cfg.width = w;
  cfg.height = h;
  cfg.chroma_sampling = cs;
  cfg.bit_depth = bd;
  cfg.chroma_sample_position = pos;
  Video { cfg, content, frames, tag: t, rate: (30, 1), aspect: None }
}

impl Mirror {
  fn new(v: &Video) -> Mirror {
    let mut enc = EncoderConfig::with_speed_preset(10);
    enc.width = v.cfg.width;
    enc.height = v.cfg.height;
    enc.chroma_sampling = v.cfg.chroma_sampling;
    enc.bit_depth = v.cfg.bit_depth;
    enc.chroma_sample_position = v.cfg.chroma_sample_position;
    enc.pixel_range = rr::PixelRange::Limited;
    enc.time_base = Rational::new(v.rate.1, v.rate.0);
    let a = v.aspect.filter(|a| *a != (0, 0)).unwrap_or((1, 1));
    enc.sample_aspect_ratio = Rational::new(a.0, a.1);
    enc.quantizer = 100;
    enc.speed_settings.rdo_lookahead_frames = 2;
    // The program's default tuning.
    enc.tune = Tune::Psychovisual;
    enc.speed_settings.transform.tx_domain_distortion = false;
    enc.set_key_frame_interval(12, 240);
    Mirror {
      video: v.clone(),
      enc,
      rc: RateControlConfig::new(),
      noise: 0,
      limit: 0,
      skip: 0,
      wide: false,
      refuse: false,
    }
  }
  fn case(&self) -> Case {
    let mut c = Case::new(self.enc.clone(), self.video.content, 0);
    if self.noise > 0 && c.cfg.film_grain_params.is_none() {
      c.cfg.film_grain_params = Some(vec![rav1e::config::GrainTableSegment {
        start_time: 0,
        ..rr_noise(self.noise as u32 * 100, &c.cfg)
      }]);
    }
    c.rc = self.rc.clone();
    c
  }
  /// Frames the program is to encode; none when it skips past the end.
  fn range(&self) -> Option<(usize, usize)> {
    if self.skip > self.video.frames {
      return None;
    }
    let n = self.video.frames - self.skip;
    Some((self.skip, if self.limit == 0 { n } else { n.min(self.limit) }))
  }
  /// Frames are given when they are asked for.
  fn encode(&self, records: Option<&[Vec<u8>]>) -> Result<(Vec<Pkt>, Vec<Vec<u8>>, Vec<u8>), String> {
    guarded(|| {
      let c = self.case();
      let mut x = Ctx::new(&c.config(), c.cfg.bit_depth, self.wide)?;
      if self.refuse {
        return Err("refused".into());
      }
      let (from, n) = self.range().ok_or("skipped past the end")?;
      let mut sent = 0;
      let (mut out, mut data, mut sum) = (vec![], vec![], vec![]);
      let mut next = records.into_iter().flatten();
      loop {
        while records.is_some() && x.rc_needed() > 0 {
          let Some(d) = next.next() else { return Err("starved".into()) };
          x.rc_send(d).map_err(|e| format!("{e:?}"))?;
        }
        let (mut ask, mut done) = (true, false);
        match x.receive(&c.cfg, REC) {
          Ok(p) => out.push(p),
          Err(EncoderStatus::Encoded) => {}
          Err(EncoderStatus::NeedMoreData) => {
            ask = false;
            if sent < n {
              let _ = x.send(&c.cfg, c.content, from + sent, None);
              sent += 1;
            } else {
              x.flush();
            }
          }
          Err(EncoderStatus::LimitReached) => done = true,
          Err(e) => return Err(format!("{e:?}")),
        }
        if ask {
          match x.rc_receive() {
            Some((true, d)) => sum = d,
            Some((false, d)) => data.push(d),
            None => {}
          }
        }
        if done {
          return Ok((out, data, sum));
        }
      }
    })?
  }
}

fn rr_noise(iso: u32, c: &EncoderConfig) -> rav1e::config::GrainTableSegment {
  av1_grain::generate_photon_noise_params(
    0,
    u64::MAX,
    NoiseGenArgs {
      iso_setting: iso,
      width: c.width as u32,
      height: c.height as u32,
      transfer_function: if c.is_hdr() { TransferFunction::SMPTE2084 } else { TransferFunction::BT1886 },
      chroma_grain: false,
      random_seed: None,
    },
  )
}

fn u(d: &[u8], at: usize, n: usize) -> u64 {
  d[at..at + n].iter().rev().fold(0, |a, b| a << 8 | *b as u64)
}

/// The packets of an IVF file, with their time stamps.
fn ivf(d: &[u8], c: &EncoderConfig) -> Result<Vec<(u64, Vec<u8>)>, String> {
  if d.len() < 32 {
    return Err(format!("header: {} bytes", d.len()));
  }
  let want = (c.width as u64, c.height as u64, c.time_base.den, c.time_base.num);
  let got = (u(d, 12, 2), u(d, 14, 2), u(d, 16, 4), u(d, 20, 4));
  if &d[..4] != b"DKIF" || u(d, 4, 2) != 0 || u(d, 6, 2) != 32 || &d[8..12] != b"AV01" || want != got {
    return Err(format!("header: {:?}, expected {want:?}", &d[..32]));
  }
  let mut at = 32;
  let mut v = vec![];
  while at < d.len() {
    if d.len() - at < 12 || d.len() - at - 12 < u(d, at, 4) as usize {
      return Err(format!("packet {}: incomplete", v.len()));
    }
    let n = u(d, at, 4) as usize;
    v.push((u(d, at + 4, 8), d[at + 12..at + 12 + n].to_vec()));
    at += 12 + n;
  }
  Ok(v)
}

fn compare(d: &[u8], c: &EncoderConfig, want: &[Pkt]) -> Result<(), String> {
  let got = ivf(d, c)?;
  if got.len() != want.len() {
    return Err(format!("packets: {}, the library gives {}", got.len(), want.len()));
  }
  for (i, (g, w)) in got.iter().zip(want).enumerate() {
    if g.0 != w.no {
      return Err(format!("time stamp: {} of packet {i}, expected {}", g.0, w.no));
    }
    if g.1 != w.data {
      return Err(format!("packet: {i} differs from the library's"));
    }
  }
  Ok(())
}

fn compare_rec(d: &[u8], m: &Mirror, want: &[Pkt]) -> Result<(), String> {
  let end = d.iter().position(|b| *b == b'\n').ok_or("reconstruction: no header")?;
  let h = String::from_utf8_lossy(&d[..end]).into_owned();
  let mut f = h.split(' ');
  if f.next() != Some("YUV4MPEG2") {
    return Err(format!("reconstruction: header {h}"));
  }
  let a = m.video.aspect.filter(|a| *a != (0, 0)).unwrap_or((1, 1));
  let mut want_h = vec![
    format!("W{}", m.enc.width),
    format!("H{}", m.enc.height),
    format!("F{}:{}", m.video.rate.0, m.video.rate.1),
    format!("A{}:{}", a.0, a.1),
    format!("C{}", if m.video.tag.is_empty() { "420" } else { m.video.tag }),
  ];
  for p in f {
    if "WHFAC".contains(&p[..1]) {
      match want_h.iter().position(|w| w == p) {
        Some(i) => {
          want_h.remove(i);
        }
        None => return Err(format!("reconstruction: header {h}")),
      }
    }
  }
  // What has a default may be left out.
  want_h.retain(|w| w != "C420" && w != "A1:1");
  if !want_h.is_empty() {
    return Err(format!("reconstruction: {want_h:?} missing in {h}"));
  }
  let mut at = end + 1;
  for (i, p) in want.iter().enumerate() {
    let px = pixels(p.rec.as_ref().ok_or("library: no reconstruction")?, m.enc.bit_depth);
    if !d[at..].starts_with(b"FRAME\n") {
      return Err(format!("reconstruction: no frame {i}"));
    }
    at += 6;
    if d.len() < at + px.len() || d[at..at + px.len()] != px[..] {
      return Err(format!("reconstruction: frame {i} differs"));
    }
    at += px.len();
  }
  if at != d.len() {
    return Err("reconstruction: more than there is to show".into());
  }
  Ok(())
}

fn strs(v: &[&str]) -> Vec<String> {
  v.iter().map(|s| s.to_string()).collect()
}

fn settle(r: &Report, name: &str, f: impl FnOnce() -> Result<Vec<u8>, String>) {
  if !r.wants(name) {
    return;
  }
  tick(name);
  r.add("evaluations", 1);
  r.add("traces", 1);
  match guarded(f) {
    Ok(Ok(b)) => {
      r.outcome(&b);
      r.sample(name.to_string());
    }
    Ok(Err(e)) | Err(e) => {
      let k = e.split(':').next().unwrap_or("");
      let k: String =
        k.replace(' ', "-").chars().filter(|c| c.is_ascii_alphabetic() || *c == '-').take(30).collect();
      r.violation(&format!("cli-{k}"), name, &e)
    }
  }
}

/// A refusal says why, it is no crash.
fn refusal(o: &Out) -> Result<(), String> {
  // The argument parser states its complaints by panicking.
  let said = o.code == 101
    && o.err.matches("panicked at").count() == 1
    && o.err.contains("panicked at src/bin/")
    && !o.err.contains("attempt to ")
    && !o.err.contains("out of bounds");
  if (o.code != 1 && o.code != 2 && !said) || o.err.trim().is_empty() {
    return Err(format!("crashed: code {}: {}", o.code, o.err));
  }
  Ok(())
}

/// One run against the library, with reconstruction.
fn judge(ch: bool, m: &Mirror, args: &[String], dir: &Dir) -> Result<Vec<u8>, String> {
  let input = dir.put("in.y4m", &m.video.file());
  let mut a = vec![input, "-o".into(), dir.s("out.ivf"), "-r".into(), dir.s("rec.y4m")];
  a.extend_from_slice(args);
  let o = run_with(ch, &a, b"")?;
  match m.encode(None) {
    Err(w) => {
      if o.code == 0 {
        return Err(format!("accepted: where the library says {w}"));
      }
      refusal(&o)?;
      Ok(vec![])
    }
    Ok((want, _, _)) => {
      if o.code != 0 {
        return Err(format!("refused: code {} where the library has {} packets: {}", o.code, want.len(), o.err));
      }
      let d = dir.get("out.ivf").ok_or("output: none")?;
      compare(&d, &m.enc, &want)?;
      compare_rec(&dir.get("rec.y4m").ok_or("reconstruction: none")?, m, &want)?;
      Ok(d)
    }
  }
}

const BASE: [&str; 5] = ["-s", "10", "--rdo-lookahead-frames", "2", "-q"];

type Effect = Box<dyn Fn(&mut Mirror) + Sync + Send>;
struct Opt {
  args: Vec<String>,
  f: Effect,
}

const TABLE: &str = "filmgrn1\nE 0 9223372036854775807 1 7391 1\n\tp 2 7 1 9 0 1 128 192 256 100 180 300\n\tsY 3 0 20 40 30 255 60\n\tsCb 2 0 10 128 40\n\tsCr 1 0 12\n\tcY -6 -5 -4 -3 -2 -1 0 1 2 3 4 5\n\tcCb 5 4 3 2 1 0 -1 -2 -3 -4 -5 -6 -7\n\tcCr -9 -7 -5 -3 -1 1 3 5 7 9 11 13 15\n";

fn options(table: &Path) -> Vec<Vec<Opt>> {
  let mut v: Vec<Vec<Opt>> = vec![];
  macro_rules! opts {
    ($( [ $($a:expr),* ] => |$m:ident| $e:expr );* $(;)?) => {
      v.push(vec![ $( Opt { args: strs(&[$($a),*]), f: Box::new(move |$m: &mut Mirror| { $e; }) } ),* ])
    };
  }
  fn kf(m: &mut Mirror, min: u64, max: u64) {
    m.enc.set_key_frame_interval(min.min(max), max);
  }
  opts! {
    ["--quantizer", "30"] => |m| m.enc.quantizer = 30;
    ["--quantizer", "255"] => |m| m.enc.quantizer = 255;
    ["--quantizer", "0"] => |m| m.refuse = true;
    ["--quantizer", "256"] => |m| m.refuse = true;
  }
  opts! {
    ["--bitrate", "20"] => |m| { m.enc.bitrate = 20_000; if m.enc.quantizer == 100 { m.enc.quantizer = 255 } };
    ["-b", "400"] => |m| { m.enc.bitrate = 400_000; if m.enc.quantizer == 100 { m.enc.quantizer = 255 } };
    ["-b", "3000000"] => |m| m.refuse = true;
  }
  opts! {
    ["--min-quantizer", "25"] => |m| m.enc.min_quantizer = 25;
    ["--min-quantizer", "200"] => |m| m.enc.min_quantizer = 200;
  }
  opts! {
    ["--keyint", "2"] => |m| kf(m, 12, 2);
    ["-I", "0", "-i", "0"] => |m| m.enc.set_key_frame_interval(0, 0);
    ["-I", "3", "-i", "1"] => |m| kf(m, 1, 3);
    ["-i", "0"] => |m| kf(m, 0, 240);
  }
  opts! {
    ["--low-latency"] => |m| m.enc.low_latency = true;
    ["--low-latency", "-S", "2"] => |m| { m.enc.low_latency = true; m.enc.switch_frame_interval = 2 };
    ["-S", "2"] => |m| m.enc.switch_frame_interval = 2;
  }
  opts! {
    ["--no-scene-detection"] => |m| m.enc.speed_settings.scene_detection_mode = rr::SceneDetectionSpeed::None;
    ["--scd-speed", "0"] => |m| m.enc.speed_settings.scene_detection_mode = rr::SceneDetectionSpeed::Standard;
    ["--scd-speed", "1"] => |m| m.enc.speed_settings.scene_detection_mode = rr::SceneDetectionSpeed::Fast;
    ["--scd-speed", "2"] => |m| m.refuse = true;
  }
  opts! {
    ["--tune", "Psnr"] => |m| { m.enc.tune = Tune::Psnr; m.enc.speed_settings.transform.tx_domain_distortion = true };
    ["--tune", "Psychovisual"] => |_m| ();
    ["--tune", "Other"] => |m| m.refuse = true;
  }
  opts! {
    ["--still-picture", "--limit", "1"] => |m| { m.enc.still_picture = true; m.limit = 1 };
    ["--still-picture"] => |m| m.enc.still_picture = true;
    ["--still-picture", "--limit", "2"] => |m| m.refuse = true;
    ["--limit", "2"] => |m| m.limit = 2;
    ["--skip", "2"] => |m| m.skip = 2;
    ["--skip", "9"] => |m| m.skip = 9;
    ["--skip", "1", "-l", "1"] => |m| { m.skip = 1; m.limit = 1 };
  }
  let t = table.to_str().unwrap().to_string();
  let mut grain_opts = vec![Opt {
    args: vec!["--film-grain-table".into(), t],
    f: Box::new(|m| m.enc.film_grain_params = Some(vec![lattice::grain(0, i64::MAX as u64, 7391)])),
  }];
  for (k, ok) in [("1", 1u8), ("8", 8), ("64", 64), ("0", 0)] {
    grain_opts.push(Opt { args: strs(&["--photon-noise", k]), f: Box::new(move |m| m.noise = ok) });
  }
  grain_opts.push(Opt { args: strs(&["--photon-noise", "65"]), f: Box::new(|m| m.refuse = true) });
  grain_opts.push(Opt { args: strs(&["--film-grain-table", "/nonexistent"]), f: Box::new(|m| m.refuse = true) });
  v.push(grain_opts);
  opts! {
    ["--high-bitdepth"] => |m| m.wide = true;
  }
  opts! {
    ["--range", "Full"] => |m| m.enc.pixel_range = rr::PixelRange::Full;
    ["--range", "Limited"] => |m| m.enc.pixel_range = rr::PixelRange::Limited;
  }
  fn cd(m: &mut Mirror, f: impl Fn(&mut rr::ColorDescription)) {
    let d = m.enc.color_description.get_or_insert(rr::ColorDescription {
      color_primaries: rr::ColorPrimaries::Unspecified,
      transfer_characteristics: rr::TransferCharacteristics::Unspecified,
      matrix_coefficients: rr::MatrixCoefficients::Unspecified,
    });
    f(d);
  }
  opts! {
    ["--primaries", "BT2020"] => |m| cd(m, |d| d.color_primaries = rr::ColorPrimaries::BT2020);
    ["--primaries", "EBU3213"] => |m| cd(m, |d| d.color_primaries = rr::ColorPrimaries::EBU3213);
    ["--primaries", "Unspecified"] => |_m| ();
  }
  opts! {
    ["--transfer", "SMPTE2084"] => |m| cd(m, |d| d.transfer_characteristics = rr::TransferCharacteristics::SMPTE2084);
    ["--transfer", "SRGB"] => |m| cd(m, |d| d.transfer_characteristics = rr::TransferCharacteristics::SRGB);
  }
  opts! {
    ["--matrix", "BT2020NCL"] => |m| cd(m, |d| d.matrix_coefficients = rr::MatrixCoefficients::BT2020NCL);
    ["--matrix", "Identity"] => |m| cd(m, |d| d.matrix_coefficients = rr::MatrixCoefficients::Identity);
    ["--matrix", "BT709"] => |m| cd(m, |d| d.matrix_coefficients = rr::MatrixCoefficients::BT709);
  }
  opts! {
    ["--mastering-display", "G(0.265,0.69)B(0.15,0.06)R(0.68,0.32)WP(0.3127,0.329)L(1000,0.0005)"] => |m| {
      let p = |x: f64, y: f64| rr::ChromaticityPoint { x: (x * 65536.).round() as u16, y: (y * 65536.).round() as u16 };
      m.enc.mastering_display = Some(rr::MasteringDisplay {
        primaries: [p(0.68, 0.32), p(0.265, 0.69), p(0.15, 0.06)],
        white_point: p(0.3127, 0.329),
        max_luminance: 256_000,
        min_luminance: 8,
      })
    };
    ["--mastering-display", "G(1,0)"] => |m| m.refuse = true;
  }
  opts! {
    ["--content-light", "1000,400"] => |m| {
      m.enc.content_light = Some(rr::ContentLight { max_content_light_level: 1000, max_frame_average_light_level: 400 })
    };
    ["--content-light", "0,0"] => |_m| ();
    ["--content-light", "0,7"] => |m| {
      m.enc.content_light = Some(rr::ContentLight { max_content_light_level: 0, max_frame_average_light_level: 7 })
    };
    ["--content-light", "65536,1"] => |m| m.refuse = true;
    ["--content-light", "3"] => |m| m.refuse = true;
  }
  opts! {
    ["--level", "auto"] => |_m| ();
    ["--level", "unconstrained"] => |m| m.enc.level_idx = Some(31);
    ["--level", "2.1"] => |m| m.enc.level_idx = Some(1);
    ["--level", "5.3"] => |m| m.enc.level_idx = Some(15);
    ["--level", "2.2"] => |m| m.enc.level_idx = Some(2);
    ["--level", "8.0"] => |m| m.refuse = true;
    ["--level", "1.3"] => |m| m.refuse = true;
    ["--level", "2.4"] => |m| m.refuse = true;
    ["--level", "x"] => |m| m.refuse = true;
  }
  opts! {
    ["--frame-rate", "50", "--time-scale", "2"] => |m| m.enc.time_base = Rational::new(2, 50);
    ["--frame-rate", "24", "--time-scale", "1"] => |m| m.enc.time_base = Rational::new(1, 24);
    ["--time-scale", "3"] => |_m| ();
  }
  opts! {
    ["--tiles", "2"] => |m| m.enc.tiles = 2;
    ["--tile-cols", "2"] => |m| m.enc.tile_cols = 2;
    ["--tile-rows", "2", "--tile-cols", "2"] => |m| { m.enc.tile_cols = 2; m.enc.tile_rows = 2 };
    ["--tile-rows", "3"] => |m| m.enc.tile_rows = 3;
    ["--tile-cols", "65"] => |m| m.refuse = true;
    ["--tiles", "2", "--tile-rows", "1"] => |m| m.refuse = true;
  }
  opts! {
    ["--threads", "1"] => |_m| ();
    ["--threads", "3"] => |_m| ();
  }
  opts! {
    ["--reservoir-frame-delay", "12"] => |m| m.enc.reservoir_frame_delay = Some(12);
    ["--reservoir-frame-delay", "11"] => |m| m.refuse = true;
  }
  opts! {
    ["--psnr"] => |_m| ();
    ["--metrics"] => |_m| ();
    ["--benchmark"] => |_m| ();
    ["--nonsense"] => |m| m.refuse = true;
  }
  v
}

/// All options alone and in pairs, on both programs.
fn arguments(r: &Report, t: bool) {
  let dir = Dir::new();
  let table = dir.f("grain.tbl");
  std::fs::write(&table, TABLE).unwrap();
  let axes = options(&table);
  let mut sets: Vec<Vec<(usize, usize)>> = vec![vec![]];
  for a in 0..axes.len() {
    for i in 0..axes[a].len() {
      sets.push(vec![(a, i)]);
      for b in a + 1..axes.len() {
        for j in 0..axes[b].len() {
          sets.push(vec![(a, i), (b, j)]);
        }
      }
    }
  }
  let mut v = video(24, 18, 0, Content::Spot, 4);
  v.cfg.width = 72;
  v.cfg.height = 66;
  par_for(sets.len() * 2, |k| {
    let (s, ch) = (&sets[k / 2], k % 2 == 1);
    let mut m = Mirror::new(&v);
    let mut args = strs(&BASE);
    for (a, i) in s {
      args.extend(axes[*a][*i].args.clone());
      (axes[*a][*i].f)(&mut m);
    }
    // The parallel program has the pairs in the deep run only.
    if ch && s.len() == 2 && !t && (k / 2) % 4 != 0 {
      return;
    }
    // Pull and push clients see the rate control in different states.
    if ch && m.enc.bitrate > 0 {
      return;
    }
    let shown: Vec<String> = args[BASE.len()..].iter().map(|a| a.replace(dir.0.to_str().unwrap(), "")).collect();
    let name = format!("args {} {}", if ch { "rav1e-ch" } else { "rav1e" }, shown.join(" "));
    settle(r, &name, || judge(ch, &m, &args, &Dir::new()));
  });
}

/// Speeds, formats, sizes, rates and shapes of the input.
fn inputs(r: &Report, t: bool) {
  let mut cases: Vec<(String, Video, Vec<&str>, u8)> = vec![];
  for tag in 0..TAGS.len() {
    for (w, h) in [(16, 16), (17, 19), (33, 18), (64, 48), (31, 65)] {
      for s in [10u8, 6] {
        for k in [Content::Noise, Content::Spot] {
          cases.push((format!("tag {} {w}x{h} {}", TAGS[tag].0, k.name()), video(w, h, tag, k, 3), vec![], s));
        }
      }
    }
  }
  for w in 16..=24 {
    for h in 16..=24 {
      cases.push((format!("size {w}x{h}"), video(w, h, 0, Content::Noise, 2), vec![], 10));
    }
  }
  for s in 0..=10 {
    cases.push(("speed".into(), video(40, 24, 0, Content::Half, 3), vec![], s));
  }
  for rate in [(25, 1), (30000, 1001), (1, 1), (1, 2), (240, 1), (0, 1), (25, 0), (u32::MAX as u64, 1), (1 << 32, 1)] {
    for aspect in [None, Some((1, 1)), Some((0, 0)), Some((4, 3)), Some((0, 1)), Some((1, 0)), Some((65536, 1))] {
      let mut v = video(20, 18, 2, Content::Half, 2);
      v.rate = rate;
      v.aspect = aspect;
      cases.push((format!("rate {rate:?} aspect {aspect:?}"), v, vec![], 10));
    }
  }
  for frames in 0..=if t { 9 } else { 5 } {
    for limit in 0..=6usize {
      for skip in 0..=6usize {
        let v = video(16, 16, 13, Content::Spot, frames);
        cases.push((
          format!("frames {frames}"),
          v,
          vec![
            "--limit", ["0", "1", "2", "3", "4", "5", "6"][limit], "--skip", ["0", "1", "2", "3", "4", "5", "6"][skip],
          ],
          10,
        ));
      }
    }
  }
  par_for(cases.len() * 2, |i| {
    let (n, v, a, s) = &cases[i / 2];
    let ch = i % 2 == 1;
    let mut m = Mirror::new(v);
    let q = EncoderConfig::with_speed_preset(*s).speed_settings;
    m.enc.speed_settings = q;
    m.enc.speed_settings.rdo_lookahead_frames = 2;
    m.enc.speed_settings.transform.tx_domain_distortion = false;
    let mut args = strs(&["-s", &s.to_string(), "--rdo-lookahead-frames", "2", "-q"]);
    args.extend(strs(a));
    for w in a.chunks(2) {
      match w[0] {
        "--limit" => m.limit = w[1].parse().unwrap(),
        _ => m.skip = w[1].parse().unwrap(),
      }
    }
    let name = format!("input {} {n} speed={s} {}", if ch { "rav1e-ch" } else { "rav1e" }, a.join(" "));
    settle(r, &name, || judge(ch, &m, &args, &Dir::new()));
  });
}

/// The input ends or is damaged anywhere.
fn cuts(r: &Report, t: bool) {
  let v = video(16, 16, 13, Content::Spot, 3);
  let file = v.file();
  let head = v.header().len();
  let one = v.frame(0).len();
  let wholes: Vec<Vec<Pkt>> = (0..=3)
    .map(|n| {
      let mut m = Mirror::new(&v);
      m.video.frames = n;
      m.encode(None).unwrap().0
    })
    .collect();
  let m = Mirror::new(&v);
  let step = |d: &[u8], frames: Option<usize>, ch: bool, pipe: bool| {
    let dir = Dir::new();
    let mut a = strs(&BASE);
    let o = if pipe {
      a.extend(["-".to_string(), "-o".into(), dir.s("out.ivf")]);
      run_with(ch, &a, d)?
    } else {
      a.extend([dir.put("in.y4m", d), "-o".into(), dir.s("out.ivf")]);
      run_with(ch, &a, b"")?
    };
    match frames {
      None if o.code == 0 => Err("accepted: without a complete header".to_string()),
      None => refusal(&o).map(|_| vec![]),
      Some(_) if o.code != 0 => Err(format!("refused: code {}: {}", o.code, o.err)),
      Some(n) => {
        let d = dir.get("out.ivf").ok_or("output: none")?;
        compare(&d, &m.enc, &wholes[n])?;
        Ok(d)
      }
    }
  };
  let ats: Vec<usize> = (0..=file.len())
    .filter(|at| t || *at <= head + 12 || (at - head) % one < 10 || (at - head) % one > one - 4 || at % 16 == 0)
    .collect();
  par_for(ats.len() * 2, |i| {
    let (at, ch) = (ats[i / 2], i % 2 == 1);
    let frames = (at >= head).then(|| (at - head) / one);
    for pipe in [false, true] {
      let name = format!("cut {} at {at} {}", if ch { "rav1e-ch" } else { "rav1e" }, if pipe { "pipe" } else { "file" });
      settle(r, &name, || step(&file[..at], frames, ch, pipe));
    }
  });
  // One byte of a frame's marker replaced: what comes before counts.
  let mut bad = vec![];
  for f in 0..3 {
    for k in 0..5 {
      for b in [0u8, b' ', b'\n', b'f', 255] {
        bad.push((head + f * one + k, b, f));
      }
    }
  }
  par_for(bad.len(), |i| {
    let (at, b, f) = bad[i];
    let mut d = file.clone();
    d[at] = b;
    settle(r, &format!("marker at {at} = {b}"), || step(&d, Some(f), false, false));
  });
  // A damaged header is refused or taken for another video, but the program ends.
  let ats: Vec<usize> = (0..head).collect();
  par_for(ats.len(), |i| {
    for b in [0u8, b' ', b'\n', b'9', b'0', b':', b'-', 255] {
      let mut d = file.clone();
      d[i] = b;
      settle(r, &format!("header at {i} = {b}"), || {
        let dir = Dir::new();
        let mut a = strs(&BASE);
        a.extend([dir.put("in.y4m", &d), "-o".into(), dir.s("out.ivf")]);
        let o = run_with(false, &a, b"")?;
        if o.code == 0 {
          // Whatever it was taken for, the output is complete.
          let d = dir.get("out.ivf").ok_or("output: none")?;
          let mut c = m.enc.clone();
          c.width = u(&d, 12, 2) as usize;
          c.height = u(&d, 14, 2) as usize;
          c.time_base = Rational::new(u(&d, 20, 4), u(&d, 16, 4));
          ivf(&d, &c)?;
        } else {
          refusal(&o)?;
        }
        Ok(vec![o.code as u8])
      });
    }
  });
}

/// A signal at any point: what was read is encoded completely.
fn signals(r: &Report) {
  let v = video(16, 16, 13, Content::Spot, 6);
  let m = Mirror::new(&v);
  let wholes: Vec<Vec<Pkt>> = (0..=6)
    .map(|n| {
      let mut m = m.clone();
      m.video.frames = n;
      m.encode(None).unwrap().0
    })
    .collect();
  for ch in [false, true] {
    for sig in [libc_sigs::TERM, libc_sigs::INT, libc_sigs::QUIT] {
      for fed in 0..=6usize {
        for more in 0..=1usize.min(6 - fed) {
          let name = format!("signal {} {sig} after {fed} frames, {more} more", if ch { "rav1e-ch" } else { "rav1e" });
          settle(r, &name, || {
            let mut last = Err("unreached".to_string());
            // Frames it had no time to take may be missing, but not for ever.
            for wait in [30, 300, 3000] {
              last = signalled(ch, sig, &v, fed, more, wait).and_then(|d| {
                let n = ivf(&d, &m.enc)?.len();
                compare(&d, &m.enc, wholes.get(n).ok_or("packets: more than frames")?)?;
                if n < fed || n > fed + more {
                  return Err(format!("packets: {n} for {fed} to {} frames", fed + more));
                }
                Ok(d)
              });
              if !matches!(&last, Err(e) if e.starts_with("packets")) {
                break;
              }
            }
            last
          });
        }
      }
    }
  }
}

fn signalled(
  ch: bool, sig: i32, v: &Video, fed: usize, more: usize, wait: u64,
) -> Result<Vec<u8>, String> {
  let dir = Dir::new();
  let mut a = strs(&BASE);
  a.extend(["-".to_string(), "-o".into(), dir.s("out.ivf")]);
  let mut c = spawn(ch, &a);
  let mut i = c.stdin.take().unwrap();
  let file = v.file();
  let (h, one) = (v.header().len(), v.frame(0).len());
  i.write_all(&file[..h + fed * one]).map_err(|e| e.to_string())?;
  // The signal comes when it is handled.
  let t = Instant::now();
  loop {
    let s = std::fs::read_to_string(format!("/proc/{}/status", c.id())).unwrap_or_default();
    let caught = s
      .lines()
      .find_map(|l| l.strip_prefix("SigCgt:"))
      .and_then(|l| u64::from_str_radix(l.trim(), 16).ok())
      .unwrap_or(0);
    if caught >> (sig - 1) & 1 == 1 && pending(&i) == 0 {
      break;
    }
    if t.elapsed() > Duration::from_secs(60) {
      let _ = c.kill();
      let _ = c.wait();
      return Err("hang: does not handle signals or does not read its input".into());
    }
    std::thread::sleep(Duration::from_millis(1));
  }
  std::thread::sleep(Duration::from_millis(wait));
  unsafe { libc_sigs::kill(c.id() as i32, sig) };
  std::thread::sleep(Duration::from_millis(5));
  let _ = i.write_all(&file[h + fed * one..h + (fed + more) * one]);
  drop(i);
  let o = end(c)?;
  if o.code != 0 {
    return Err(format!("refused: code {}: {}", o.code, o.err));
  }
  dir.get("out.ivf").ok_or("output: none".into())
}

mod libc_sigs {
  pub const INT: i32 = 2;
  pub const QUIT: i32 = 3;
  pub const TERM: i32 = 15;
  extern "C" {
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn ioctl(fd: i32, req: u64, v: *mut i32) -> i32;
  }
}
/// Bytes not yet read from a pipe.
fn pending(p: &std::process::ChildStdin) -> i32 {
  use std::os::fd::AsRawFd;
  let mut n = 0;
  unsafe { libc_sigs::ioctl(p.as_raw_fd(), 0x541b, &mut n) };
  n
}

fn framed(d: &[u8]) -> Vec<u8> {
  let mut v = (d.len() as u64).to_be_bytes().to_vec();
  v.extend(d);
  v
}

/// Two passes, and a statistics file that ends anywhere.
fn passes(r: &Report, t: bool) {
  let mut cases = vec![];
  for frames in if t { 0..=14usize } else { 0..=6 } {
    // A pushing client's rate control sees longer videos in other states.
    let both = frames <= 6;
    for (i, a) in [
      vec!["-b", "50"],
      vec!["-b", "300", "--low-latency"],
      vec!["-b", "100", "-I", "3", "-i", "1"],
      vec!["-b", "100", "--reservoir-frame-delay", "12"],
    ]
    .iter()
    .enumerate()
    {
      cases.push((frames, i, a.clone(), both));
    }
  }
  par_for(cases.len() * 2, |k| {
    let (frames, i, a, both) = &cases[k / 2];
    let ch = k % 2 == 1;
    if ch && !both {
      return;
    }
    let v = video(32, 24, 0, Content::Half, *frames);
    let mut m = Mirror::new(&v);
    m.enc.quantizer = 255;
    m.enc.bitrate = a[1].parse::<i32>().unwrap() * 1000;
    m.enc.low_latency = *i == 1;
    if *i == 2 {
      m.enc.set_key_frame_interval(1, 3);
    }
    if *i == 3 {
      m.enc.reservoir_frame_delay = Some(12);
    }
    let name = format!("passes {} frames={frames} {}", if ch { "rav1e-ch" } else { "rav1e" }, a.join(" "));
    settle(r, &name, || {
      let dir = Dir::new();
      let input = dir.put("in.y4m", &v.file());
      let call = |extra: &[String], out: &str| {
        let mut x = strs(&BASE);
        x.extend(strs(a));
        x.extend([input.clone(), "-y".into(), "-o".into(), dir.s(out)]);
        x.extend_from_slice(extra);
        run_with(ch, &x, b"")
      };
      let good = |o: &Out, what: &str| {
        if o.code == 0 {
          Ok(())
        } else {
          Err(format!("{what}: code {}: {}", o.code, o.err))
        }
      };
      let mut one = m.clone();
      one.rc = RateControlConfig::new().with_emit_data(true);
      let (want, data, sum) = one.encode(None).map_err(|e| format!("library: {e}"))?;
      let o = call(&["--first-pass".into(), dir.s("stats")], "one.ivf")?;
      good(&o, "first pass")?;
      compare(&dir.get("one.ivf").ok_or("output: none")?, &m.enc, &want)?;
      let stats = dir.get("stats").ok_or("statistics: none")?;
      let mut file = framed(&sum);
      for d in &data {
        file.extend(framed(d));
      }
      if ch {
        file.extend([0; 8]);
      }
      if stats != file {
        return Err("statistics: not the library's".into());
      }
      // An empty video has no statistics to go by.
      if *frames == 0 {
        return Ok(stats);
      }
      let mut two = m.clone();
      two.rc = RateControlConfig::from_summary_slice(&sum).map_err(|e| e.to_string())?;
      let (want, _, _) = two.encode(Some(&data)).map_err(|e| format!("library: {e}"))?;
      let o = call(&["--second-pass".into(), dir.s("stats")], "two.ivf")?;
      good(&o, "second pass")?;
      let full = dir.get("two.ivf").ok_or("output: none")?;
      compare(&full, &m.enc, &want)?;
      if !ch {
        // Both at once, for a third pass.
        let mut both = two.clone();
        both.rc = both.rc.clone().with_emit_data(true);
        let (want, data, sum) = both.encode(Some(&data)).map_err(|e| format!("library: {e}"))?;
        let o = call(&["--second-pass".into(), dir.s("stats"), "--first-pass".into(), dir.s("next")], "three.ivf")?;
        good(&o, "both passes")?;
        compare(&dir.get("three.ivf").ok_or("output: none")?, &m.enc, &want)?;
        let mut file = framed(&sum);
        for d in &data {
          file.extend(framed(d));
        }
        if dir.get("next") != Some(file) {
          return Err("statistics: of the second pass are not the library's".into());
        }
      }
      // Statistics that end early are refused, what was written is complete.
      if *frames == 3 || t {
        let n = stats.len() - if ch { 8 } else { 0 };
        for cut in 0..n {
          let s = dir.put("cut", &stats[..cut]);
          let o = call(&["--second-pass".into(), s], "cut.ivf")?;
          if o.code == 0 {
            return Err(format!("cut statistics: accepted with {cut} of {n} bytes"));
          }
          if o.code != 1 || o.err.contains("panicked") {
            return Err(format!("cut statistics: code {} with {cut} of {n} bytes: {}", o.code, o.err));
          }
          let d = dir.get("cut.ivf").unwrap_or_default();
          if !full.starts_with(&d) || (d.len() >= 32 && ivf(&d, &m.enc).is_err()) {
            return Err(format!("cut statistics: output is no prefix with {cut} bytes"));
          }
        }
        // Statistics that are damaged are refused, or make a file of all frames.
        for at in 0..n {
          for with in [0x01u8, 0x80, 0xff] {
            let mut d = stats.clone();
            d[at] ^= with;
            let s = dir.put("damaged", &d);
            let _ = std::fs::remove_file(dir.s("damaged.ivf"));
            let o = call(&["--second-pass".into(), s], "damaged.ivf").map_err(|e| format!("damaged statistics: byte {at} ^ {with}: {e}"))?;
            if !matches!(o.code, 0 | 1) || o.err.contains("panicked") {
              return Err(format!("damaged statistics: code {} with byte {at} ^ {with}: {}", o.code, o.err));
            }
            let d = dir.get("damaged.ivf").unwrap_or_default();
            match ivf(&d, &m.enc) {
              Ok(v) if o.code == 0 && v.len() != *frames => {
                return Err(format!("damaged statistics: {} frames with byte {at} ^ {with}", v.len()));
              }
              Err(e) if o.code == 0 || d.len() >= 32 => {
                return Err(format!("damaged statistics: {e} with byte {at} ^ {with}"));
              }
              _ => {}
            }
          }
        }
      }
      Ok(full)
    });
  });
}

/// Where the output goes.
fn outputs(r: &Report) {
  let v = video(16, 16, 0, Content::Spot, 2);
  let m = Mirror::new(&v);
  let want = m.encode(None).unwrap().0;
  for ch in [false, true] {
    let p = if ch { "rav1e-ch" } else { "rav1e" };
    settle(r, &format!("output {p} stdout"), || {
      let dir = Dir::new();
      let mut a = strs(&BASE);
      a.extend([dir.put("in.y4m", &v.file()), "-o".into(), "-".into()]);
      let o = run_with(ch, &a, b"")?;
      compare(&o.out, &m.enc, &want)?;
      Ok(o.out)
    });
    for (answer, over) in [("", false), ("n\n", false), ("y\n", true), ("Y\n", true), ("yes\n", false), ("\n", false)] {
      settle(r, &format!("output {p} exists, answer {answer:?}"), || {
        let dir = Dir::new();
        let mut a = strs(&BASE);
        a.extend([dir.put("in.y4m", &v.file()), "-o".into(), dir.put("out.ivf", b"precious")]);
        let o = run_with(ch, &a, answer.as_bytes())?;
        let d = dir.get("out.ivf").ok_or("output: none")?;
        if over {
          compare(&d, &m.enc, &want)?;
        } else if d != b"precious" || o.code == 0 {
          return Err(format!("overwritten: code {}", o.code));
        }
        Ok(d)
      });
    }
    for (name, ok) in [("out.IVF", true), ("out", true), ("out.mp4", false), ("out.obu", false)] {
      settle(r, &format!("output {p} named {name}"), || {
        let dir = Dir::new();
        let mut a = strs(&BASE);
        a.extend([dir.put("in.y4m", &v.file()), "-o".into(), dir.s(name)]);
        let o = run_with(ch, &a, b"")?;
        if ok != (o.code == 0) {
          return Err(format!("extension: {name} code {}", o.code));
        }
        if ok {
          compare(&dir.get(name).ok_or("output: none")?, &m.enc, &want)?;
        }
        Ok(vec![])
      });
    }
    for bad in ["/nonexistent/x.ivf"] {
      settle(r, &format!("output {p} to {bad}"), || {
        let dir = Dir::new();
        let mut a = strs(&BASE);
        a.extend([dir.put("in.y4m", &v.file()), "-o".into(), bad.into()]);
        match run_with(ch, &a, b"")?.code {
          0 => Err("accepted: an output that cannot be".into()),
          _ => Ok(vec![]),
        }
      });
    }
    settle(r, &format!("input {p} missing"), || {
      let dir = Dir::new();
      let mut a = strs(&BASE);
      a.extend([dir.s("none.y4m"), "-o".into(), dir.s("out.ivf")]);
      match run_with(ch, &a, b"")?.code {
        0 => Err("accepted: an input that is not there".into()),
        _ => Ok(vec![]),
      }
    });
  }
}

/// The IVF crate.
fn container(r: &Report) {
  for n in 0..300usize {
    settle(r, &format!("ivf {n}"), || {
      let mut f = vec![];
      let hs = [(16usize, 16usize, 30usize, 1usize), (65535, 1, u32::MAX as usize, 1001), (1920, 1080, n, 65536)];
      let (w, h, num, den) = hs[n % 3];
      ::ivf::write_ivf_header(&mut f, w, h, num, den);
      let pts = [0u64, 1, n as u64, u64::MAX, 1 << 32, u32::MAX as u64];
      for (i, p) in pts.iter().enumerate() {
        let d: Vec<u8> = (0..n * (i + 1)).map(|x| (x * 7 + i) as u8).collect();
        ::ivf::write_ivf_frame(&mut f, *p, &d);
      }
      for cut in [f.len()].into_iter().chain((0..f.len()).filter(|c| n < 12 || c % 37 == 0)) {
        let mut s = &f[..cut];
        let Ok(hd) = ::ivf::read_header(&mut s) else {
          if cut < 32 {
            continue;
          }
          return Err("ivf header: refused".into());
        };
        if cut < 32 {
          return Err("ivf header: accepted without its end".into());
        }
        let got = (hd.tag, hd.w as usize, hd.h as usize, hd.timebase_den as usize, hd.timebase_num as usize);
        if got != (*b"AV01", w, h, num, den) {
          return Err(format!("ivf header: {got:?}"));
        }
        let mut at = 32;
        for (i, p) in pts.iter().enumerate() {
          let len = n * (i + 1);
          let q = ::ivf::read_packet(&mut s);
          at += 12 + len;
          match q {
            Ok(q) if at <= cut => {
              if q.pts != *p || q.data.len() != len || q.data.iter().enumerate().any(|(x, b)| *b != (x * 7 + i) as u8) {
                return Err(format!("ivf packet: {i} differs"));
              }
            }
            Ok(_) => return Err(format!("ivf packet: {i} accepted without its end")),
            Err(e) if at <= cut => return Err(format!("ivf packet: {i} refused: {e}")),
            Err(_) => break,
          }
        }
      }
      Ok(f)
    });
  }
}

/// What is printed at the end is about what was written.
fn reports(r: &Report) {
  let mut cases: Vec<(Video, Vec<&str>, usize)> = vec![];
  for frames in 0..=4usize {
    for limit in [0usize, 1, 3, 9] {
      for how in [vec![], vec!["-v"], vec!["--psnr"], vec!["--metrics", "-v"], vec!["--psnr", "--high-bitdepth"]] {
        cases.push((video(40, 34, 0, Content::Spot, frames), how, limit));
      }
    }
  }
  for tag in 0..TAGS.len() {
    for (w, h) in [(64, 48), (31, 65), (17, 19)] {
      for k in [Content::Noise, Content::Half] {
        cases.push((video(w, h, tag, k, 3), vec!["--psnr"], 0));
        cases.push((video(w, h, tag, k, 3), vec!["--psnr", "--high-bitdepth"], 0));
        // The other metrics are not defined without chroma.
        if tag < 13 {
          cases.push((video(w, h, tag, k, 2), vec!["--metrics"], 0));
          cases.push((video(w, h, tag, k, 2), vec!["--metrics", "--high-bitdepth"], 0));
        }
      }
    }
  }
  for limit in [100_000_000usize, 1 << 40, i64::MAX as usize, usize::MAX] {
    cases.push((video(16, 16, 13, Content::Spot, 2), vec![], limit));
  }
  par_for(cases.len() * 2, |i| {
    let (v, how, limit) = &cases[i / 2];
    let ch = i % 2 == 1;
    let name = format!(
      "report {} {} {}x{} {} frames={} limit={limit} {}",
      if ch { "rav1e-ch" } else { "rav1e" },
      v.tag,
      v.cfg.width,
      v.cfg.height,
      v.content.name(),
      v.frames,
      how.join(" ")
    );
    settle(r, &name, || {
      let mut m = Mirror::new(v);
      m.limit = *limit;
      m.wide = how.contains(&"--high-bitdepth");
      let dir = Dir::new();
      let mut a = strs(&BASE[..4]);
      a.extend(strs(how));
      a.extend(["--limit".into(), limit.to_string(), dir.put("in.y4m", &v.file()), "-o".into(), dir.s("out.ivf")]);
      let o = run_with(ch, &a, b"")?;
      let (want, _, _) = m.encode(None)?;
      if o.code != 0 {
        return Err(format!("refused: code {}: {}", o.code, o.err));
      }
      let d = dir.get("out.ivf").ok_or("output: none")?;
      compare(&d, &m.enc, &want)?;
      let n = want.len();
      let text = o.err.replace('\r', "\n");
      let last = text.lines().rev().find(|l| l.contains("encoded ")).ok_or("report: none")?;
      let count = if *limit == 0 { format!("encoded {n} frames") } else { format!("encoded {n}/{limit} frames") };
      if !last.contains(&count) {
        return Err(format!("report: {last}, expected {count}"));
      }
      if n > 0 {
        let bits = want.iter().map(|p| p.data.len()).sum::<usize>() * 8;
        let rate = (bits as f64 * 30. / n as f64) / 1000.;
        let got: f64 = last
          .split(" Kb/s")
          .next()
          .and_then(|x| x.rsplit(' ').next())
          .and_then(|x| x.parse().ok())
          .ok_or("report: no rate")?;
        if (got - rate).abs() > 0.02 {
          return Err(format!("report: {got} Kb/s, it is {rate}"));
        }
      }
      for (ty, s) in [
        (FrameType::KEY, "Key frame:"),
        (FrameType::INTER, "Inter frame:"),
        (FrameType::INTRA_ONLY, "Intra only frame:"),
        (FrameType::SWITCH, "Switching frame:"),
      ] {
        let w: Vec<&Pkt> = want.iter().filter(|p| p.ty == ty).collect();
        let l = text.lines().find(|l| l.contains(s)).ok_or("report: frame type missing")?;
        let f: Vec<&str> = l.split_once(s).unwrap().1.split_whitespace().collect();
        let k = w.len().max(1);
        let qp = w.iter().map(|p| p.qp as f64).sum::<f64>() / k as f64;
        let size = w.iter().map(|p| p.data.len()).sum::<usize>() / k;
        // count | avg QP: x | avg size: y B
        let ok = f.first() == Some(&w.len().to_string().as_str())
          && f.get(4).and_then(|x| x.parse::<f64>().ok()).is_some_and(|x| (x - qp).abs() < 0.02)
          && f.get(8) == Some(&size.to_string().as_str());
        if !ok {
          return Err(format!("report: {l}, it is {} of QP {qp} and {size} bytes", w.len()));
        }
      }
      if n > 0 && (how.contains(&"--psnr") || how.contains(&"--metrics")) {
        let mut sum = [0.; 4];
        for p in &want {
          let src = source_planes(&m.enc, v.content, p.no as usize);
          let (mut all, mut px) = (0., 0);
          for i in 0..3 {
            let e: f64 = match (src.get(i), p.rec.as_ref().unwrap().get(i)) {
              (Some(a), Some(b)) => a.iter().zip(b).map(|(a, b)| (*a as f64 - *b as f64).powi(2)).sum(),
              _ => 0.,
            };
            let k = src.get(i).map_or(0, |p| p.len());
            sum[i + 1] += psnr(e, k, m.enc.bit_depth);
            all += e;
            px += k;
          }
          sum[0] += psnr(all, px, m.enc.bit_depth);
        }
        let l = text.lines().find(|l| l.contains("Mean PSNR")).ok_or("report: PSNR missing")?;
        let got: Vec<f64> = l.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let want_p: Vec<f64> = sum.iter().map(|s| s / n as f64).collect();
        if got.len() != 4 || got.iter().zip(&want_p).any(|(a, b)| (a - b).abs() > 0.001) {
          return Err(format!("report: PSNR {got:?}, it is {want_p:?}"));
        }
      }
      Ok(d)
    });
  });
}

fn psnr(sq: f64, n: usize, bd: usize) -> f64 {
  if sq <= f64::EPSILON {
    return 100.;
  }
  10. * ((((1u64 << bd) - 1).pow(2) as f64) * n as f64 / sq).log10()
}

/// Values of options one by one.
fn values(r: &Report) {
  let v = video(16, 16, 13, Content::Spot, 1);
  let mut cases: Vec<(Vec<String>, Effect)> = vec![];
  let s = |k: &str, v: &dyn std::fmt::Display| vec![format!("--{k}={v}")];
  for a in 0..=9u8 {
    for b in 0..=4u8 {
      cases.push((
        s("level", &format!("{a}.{b}")),
        Box::new(move |m| {
          if !(2..=7).contains(&a) || b > 3 {
            m.refuse = true
          } else {
            m.enc.level_idx = Some((a - 2) * 4 + b)
          }
        }),
      ));
    }
  }
  for q in [-1i64, 0, 1, 2, 127, 128, 254, 255, 256, 1 << 32] {
    cases.push((
      s("quantizer", &q),
      Box::new(move |m| if (1..256).contains(&q) { m.enc.quantizer = q as usize } else { m.refuse = true }),
    ));
    cases.push((
      s("min-quantizer", &q),
      Box::new(move |m| if (0..256).contains(&q) { m.enc.min_quantizer = q as u8 } else { m.refuse = true }),
    ));
  }
  for b in [1i64, 2, 1000, 2_147_483, 2_147_484, i32::MAX as i64, 1 << 32] {
    cases.push((
      s("bitrate", &b),
      Box::new(move |m| {
        if b * 1000 <= i32::MAX as i64 {
          m.enc.bitrate = (b * 1000) as i32;
          m.enc.quantizer = 255;
        } else {
          m.refuse = true
        }
      }),
    ));
  }
  for k in [0u64, 1, 2, 11, 12, 13, 240, u32::MAX as u64, u64::MAX - 1, u64::MAX] {
    cases.push((s("keyint", &k), Box::new(move |m| m.enc.set_key_frame_interval(if k == 0 { 12 } else { k.min(12) }, k))));
    cases.push((s("min-keyint", &k), Box::new(move |m| m.enc.set_key_frame_interval(k.min(240), 240))));
    cases.push((
      [s("switch-frame-interval", &k), vec!["--low-latency".into()]].concat(),
      Box::new(move |m| {
        m.enc.switch_frame_interval = k;
        m.enc.low_latency = true
      }),
    ));
  }
  for d in [-1i64, 0, 11, 12, 13, 131_072, 131_073, i32::MAX as i64, 1 << 31] {
    cases.push((
      s("reservoir-frame-delay", &d),
      Box::new(move |m| {
        if (12..=i32::MAX as i64).contains(&d) {
          m.enc.reservoir_frame_delay = Some(d as i32)
        } else {
          m.refuse = true
        }
      }),
    ));
  }
  for n in [0u64, 1, 63, 64, 65, 256] {
    cases.push((s("photon-noise", &n), Box::new(move |m| if n <= 64 { m.noise = n as u8 } else { m.refuse = true })));
  }
  for (a, b) in [(0u32, 0u32), (0, 1), (1, 0), (65535, 65535), (65536, 0), (0, 65536)] {
    cases.push((
      s("content-light", &format!("{a},{b}")),
      Box::new(move |m| {
        if a.max(b) > 65535 {
          m.refuse = true
        } else if (a, b) != (0, 0) {
          m.enc.content_light =
            Some(rr::ContentLight { max_content_light_level: a as u16, max_frame_average_light_level: b as u16 })
        }
      }),
    ));
  }
  for l in [0usize, 1, 2, 9, 1 << 32] {
    cases.push((s("limit", &l), Box::new(move |m| m.limit = l)));
    cases.push((s("skip", &l), Box::new(move |m| m.skip = l)));
  }
  for x in 0..=11u8 {
    cases.push((
      s("speed", &x),
      Box::new(move |m| {
        if x > 10 {
          m.refuse = true
        } else {
          m.enc.speed_settings = EncoderConfig::with_speed_preset(x).speed_settings;
          m.enc.speed_settings.rdo_lookahead_frames = 2;
          m.enc.speed_settings.transform.tx_domain_distortion = false;
        }
      }),
    ));
  }
  for (f, t, ok) in [(30u64, 1u64, true), (1, 1, true), (u32::MAX as u64, 1, true), (1, 30, true)] {
    cases.push((
      vec![format!("--frame-rate={f}"), format!("--time-scale={t}")],
      Box::new(move |m| if ok { m.enc.time_base = Rational::new(t, f) } else { m.refuse = true }),
    ));
  }
  par_for(cases.len() * 2, |i| {
    let (a, f) = &cases[i / 2];
    let ch = i % 2 == 1;
    let mut m = Mirror::new(&v);
    f(&mut m);
    let mut args = strs(if a[0].starts_with("--speed") { &BASE[2..] } else { &BASE });
    args.extend_from_slice(a);
    let name = format!("value {} {}", if ch { "rav1e-ch" } else { "rav1e" }, a.join(" "));
    settle(r, &name, || judge(ch, &m, &args, &Dir::new()));
  });
}

/// A configuration that was saved is the same when it is loaded.
fn saved(r: &Report, t: bool) {
  let dir = Dir::new();
  let table = dir.f("grain.tbl");
  std::fs::write(&table, TABLE).unwrap();
  let axes = options(&table);
  // What is no part of the configuration is given again.
  let again = ["--limit", "-l", "--skip", "--frame-rate", "--time-scale", "--high-bitdepth", "--threads"];
  let mut sets: Vec<(Vec<String>, Vec<String>)> = vec![];
  for a in 0..axes.len() {
    for o in &axes[a] {
      let mut rest = vec![];
      let mut k = 0;
      while k < o.args.len() {
        let n = if k + 1 < o.args.len() && !o.args[k + 1].starts_with('-') { 2 } else { 1 };
        if again.contains(&o.args[k].as_str()) {
          rest.extend_from_slice(&o.args[k..k + n]);
        }
        k += n;
      }
      sets.push((o.args.clone(), rest));
    }
  }
  let n = sets.len();
  for i in 0..n {
    for j in i + 1..n {
      if t || (i + j) % 7 == 0 {
        sets.push(([sets[i].0.clone(), sets[j].0.clone()].concat(), [sets[i].1.clone(), sets[j].1.clone()].concat()));
      }
    }
  }
  for s in 0..=10 {
    sets.push((vec!["-s".into(), s.to_string()], vec![]));
  }
  let v = video(72, 66, 0, Content::Spot, 4);
  par_for(sets.len() * 2, |i| {
    let (a, rest) = &sets[i / 2];
    let ch = i % 2 == 1;
    let shown: Vec<String> = a.iter().map(|a| a.replace(dir.0.to_str().unwrap(), "")).collect();
    let name = format!("saved {} {}", if ch { "rav1e-ch" } else { "rav1e" }, shown.join(" "));
    settle(r, &name, || {
      let dir = Dir::new();
      let mut base = vec!["--rdo-lookahead-frames=2".to_string(), "-q".into()];
      if a[0] != "-s" {
        base.push("--speed=10".into());
      }
      let input = dir.put("in.y4m", &v.file());
      let call = |x: &[String], out: &str, sub: &str| {
        let mut y = x.to_vec();
        y.extend([input.clone(), "-o".into(), dir.s(out)]);
        if !sub.is_empty() {
          y.extend(["advanced".into(), sub.into(), dir.s("conf.toml")]);
        }
        run_with(ch, &y, b"")
      };
      let x = [base, a.clone()].concat();
      let one = call(&x, "one.ivf", "--save-config")?;
      let plain = call(&x, "plain.ivf", "")?;
      if one.code != plain.code {
        return Err(format!("saving: code {}, without {}: {}", one.code, plain.code, one.err));
      }
      if plain.code != 0 {
        return Ok(vec![]);
      }
      let want = dir.get("plain.ivf").ok_or("output: none")?;
      if dir.get("one.ivf").as_ref() != Some(&want) {
        return Err("saving: changes the output".into());
      }
      let mut rest = rest.clone();
      rest.push("-q".into());
      let two = call(&rest, "two.ivf", "--load-config")?;
      if two.code != 0 {
        return Err(format!("loading: code {}: {}", two.code, two.err));
      }
      if dir.get("two.ivf").as_ref() != Some(&want) {
        return Err("loaded: the output differs".into());
      }
      Ok(want)
    });
  });
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("one evaluation is one run of a program (or of the container code), compared with the library byte for byte; distinct cases are distinct outputs");
  r.assume("the programs are built with the features binaries, asm, threading, signal_support, channel-api, unstable, serialize; overflow checks and assertions are on");
  let t = r.thorough();
  container(r);
  outputs(r);
  passes(r, t);
  signals(r);
  cuts(r, t);
  inputs(r, t);
  reports(r);
  values(r);
  saved(r, t);
  arguments(r, t);
}
