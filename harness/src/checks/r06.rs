//! The channel interface: the same packets as the polled interface, under
//! every schedule of the encoder's and the client's tasks.
use crate::checks::r03::*;
use crate::sched::*;
use crate::*;
use rav1e::config::RateControlConfig;
use rav1e::prelude::*;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Client {
  /// Sends everything, drops the sender, then receives.
  SendThenReceive,
  /// Sends on one thread, receives on another.
  TwoThreads,
  /// Polls for packets between sends.
  Polling,
  /// Sends with `try_send` only.
  TrySend,
  /// Drops the packet receiver after this many packets, keeps sending.
  DropReceiver(usize),
  /// Drops the receiver from another thread at any time.
  DropReceiverAnytime,
  /// Drops the receiver of the first pass data at once.
  DropPassData,
  /// The first pass: its statistics are compared as well.
  FirstPass,
  /// The second pass, with the statistics of the first.
  SecondPass,
  /// The second pass, the statistics come from another thread.
  SecondPassThreads,
  /// The statistics end after this many frames.
  SecondPassShort(usize),
  /// One of the records is damaged in this way.
  SecondPassBad(usize),
  /// A byte of the summary is another one.
  SecondPassSummary(usize, u8),
  /// A second pass that is the first of a third.
  MultiPass,
  MultiPassSummary(usize, u8),
}

#[derive(Clone)]
pub struct Job {
  pub name: String,
  pub case: Case,
  pub slots: usize,
  /// Asks for the parallel channel itself.
  pub direct: bool,
  pub client: Client,
  pub b: (usize, usize, bool, bool, u64),
}

#[derive(Default)]
struct Got {
  pkts: Vec<Seen>,
  srcs: Vec<Planes>,
  opaque: Vec<Option<u64>>,
  pass: Vec<(bool, Vec<u8>)>,
  sends_failed: usize,
}

/// Runs two client tasks at once.
fn two<A, B: Send + 'static>(
  a: impl FnOnce() -> A, b: impl FnOnce() -> B + Send + 'static,
) -> (A, B) {
  let slot = Arc::new(Mutex::new(None));
  let s2 = slot.clone();
  let key = (Arc::as_ptr(&slot) as usize) | 1;
  mcsched::spawn_task("client-2", mcsched::NO_POOL, key, true, Box::new(move || {
    let v = b();
    *s2.lock().unwrap() = Some(v);
  }));
  mcsched::point(mcsched::Kind::Fork);
  let ra = a();
  loop {
    if let Some(v) = slot.lock().unwrap().take() {
      return (ra, v);
    }
    mcsched::block(key);
  }
}

fn frame<T: Pixel>(s: &FrameSender<T>, case: &Case, n: usize) -> Frame<T> {
  let mut f = s.new_frame();
  fill(&mut f, &case.cfg, case.content, n);
  f
}
fn sent<T: Pixel>(s: &mut FrameSender<T>, case: &Case, n: usize) -> bool {
  let f = frame(s, case, n);
  match case.fp.get(&n) {
    Some(p) if !p.is_plain() => s.send((f, p.to_params())).is_ok(),
    _ => s.send(f).is_ok(),
  }
}
fn note<T: Pixel>(g: &mut Got, case: &Case, p: Packet<T>) {
  let mut k = to_pkt(p, &case.cfg, Want { rec: true, src: true });
  g.opaque.push(k.opaque);
  g.srcs.push(k.src.take().unwrap_or_default());
  g.pkts.push(seen(k));
}
fn drain_ch<T: Pixel>(
  g: &mut Got, case: &Case, r: &PacketReceiver<T>,
) -> Result<(), String> {
  while let Ok(p) = r.recv() {
    note(g, case, p);
    if g.pkts.len() > case.frames + 8 {
      return Err("more packets than frames".into());
    }
  }
  // The end stays the end.
  if r.recv().is_ok() || r.try_recv() != Err2::Disconnected {
    return Err("a packet after the end".into());
  }
  Ok(())
}
enum Err2 {
  Disconnected,
}
impl<T: Pixel> PartialEq<Err2> for Result<Packet<T>, TryRecvError> {
  fn eq(&self, _: &Err2) -> bool {
    matches!(self, Err(TryRecvError::Disconnected))
  }
}
fn rcdata(d: RcData) -> (bool, Vec<u8>) {
  match d {
    RcData::Summary(b) => (true, b.to_vec()),
    RcData::Frame(b) => (false, b.to_vec()),
  }
}

fn client<T: Pixel>(
  j: &Job, pass1: &Arc<Vec<(bool, Vec<u8>)>>,
) -> Result<Got, String> {
  let case = &j.case;
  let n = case.frames;
  let cfg = case.config().with_parallel_gops(j.slots);
  let mut g = Got::default();
  match j.client {
    Client::SendThenReceive | Client::Polling | Client::TrySend | Client::DropReceiver(_)
    | Client::TwoThreads | Client::DropReceiverAnytime => {
      let (mut s, r) =
        if j.direct { cfg.new_by_gop_channel::<T>(j.slots) } else { cfg.new_channel::<T>() }
          .map_err(|e| format!("{e:?}"))?;
      match j.client {
        Client::SendThenReceive => {
          for i in 0..n {
            if !sent(&mut s, case, i) {
              g.sends_failed += 1;
            }
          }
          drop(s);
          drain_ch(&mut g, case, &r)?;
        }
        Client::Polling => {
          for i in 0..n {
            if !sent(&mut s, case, i) {
              g.sends_failed += 1;
            }
            while let Ok(p) = r.try_recv() {
              note(&mut g, case, p);
            }
          }
          drop(s);
          drain_ch(&mut g, case, &r)?;
        }
        Client::TrySend => {
          for i in 0..n {
            let mut f = Some(frame(&s, case, i));
            let mut tries = 0;
            while let Some(x) = f.take() {
              let p = case.fp.get(&i).cloned().unwrap_or_default();
              let r = if p.is_plain() {
                s.try_send(Arc::new(x))
              } else {
                s.try_send((x, p.to_params()))
              };
              match r {
                Ok(()) => {}
                Err(TrySendError::Full((Some(x), fp))) => {
                  tries += 1;
                  if tries > 3 {
                    // Blocks instead of polling for ever.
                    let r = match fp {
                      Some(fp) => s.send((x, fp)),
                      None => s.send(x),
                    };
                    if r.is_err() {
                      g.sends_failed += 1;
                    }
                  } else {
                    f = Some(Arc::try_unwrap(x).map_err(|_| "the frame given back is shared")?);
                  }
                }
                Err(_) => g.sends_failed += 1,
              }
            }
          }
          drop(s);
          drain_ch(&mut g, case, &r)?;
        }
        Client::DropReceiver(k) => {
          let mut r = Some(r);
          for i in 0..n {
            if i == k {
              r = None;
            }
            if !sent(&mut s, case, i) {
              g.sends_failed += 1;
            }
          }
          drop(r);
          drop(s);
        }
        Client::DropReceiverAnytime => {
          let (_, ()) = two(
            || {
              for i in 0..n {
                if !sent(&mut s, case, i) {
                  g.sends_failed += 1;
                }
              }
              drop(s);
            },
            move || {
              let _ = r.recv();
              drop(r);
            },
          );
        }
        _ => {
          let c2 = case.clone();
          let (_, g2) = two(
            || {
              for i in 0..n {
                if !sent(&mut s, case, i) {
                  g.sends_failed += 1;
                }
              }
              drop(s);
            },
            move || {
              let mut g = Got::default();
              drain_ch(&mut g, &c2, &r).map(|_| g)
            },
          );
          let f = g.sends_failed;
          g = g2?;
          g.sends_failed = f;
        }
      }
    }
    Client::FirstPass | Client::DropPassData => {
      let ((mut s, r), p) =
        cfg.new_firstpass_channel::<T>().map_err(|e| format!("{e:?}"))?;
      let p = if j.client == Client::DropPassData {
        drop(p);
        None
      } else {
        Some(p)
      };
      for i in 0..n {
        if !sent(&mut s, case, i) {
          g.sends_failed += 1;
        }
      }
      drop(s);
      drain_ch(&mut g, case, &r)?;
      if let Some(p) = p {
        while let Ok(d) = p.recv() {
          g.pass.push(rcdata(d));
        }
      }
    }
    Client::MultiPass | Client::MultiPassSummary(..) => {
      let ((mut s, r), (mut p, q)) =
        cfg.new_multipass_channel::<T>().map_err(|e| format!("{e:?}"))?;
      for (_, d) in pass1.iter().filter(|d| !d.0) {
        let _ = p.send(RcData::Frame(d.clone().into_boxed_slice()));
      }
      drop(p);
      for i in 0..n {
        if !sent(&mut s, case, i) {
          g.sends_failed += 1;
        }
      }
      drop(s);
      drain_ch(&mut g, case, &r)?;
      while let Ok(d) = q.recv() {
        g.pass.push(rcdata(d));
      }
    }
    Client::SecondPass | Client::SecondPassThreads | Client::SecondPassShort(_) | Client::SecondPassBad(_) | Client::SecondPassSummary(..) => {
      let ((mut s, r), mut p) =
        cfg.new_secondpass_channel::<T>().map_err(|e| format!("{e:?}"))?;
      let upto = match j.client {
        Client::SecondPassShort(k) => k,
        _ => usize::MAX,
      };
      let mut data = pass1.as_ref().clone();
      if let Client::SecondPassBad(k) = j.client {
        damage(&mut data, k);
      }
      let mut feed = move || {
        for (_, d) in data.iter().filter(|d| !d.0).take(upto) {
          let _ = p.send(RcData::Frame(d.clone().into_boxed_slice()));
        }
      };
      let mut push = || {
        for i in 0..n {
          if !sent(&mut s, case, i) {
            g.sends_failed += 1;
          }
        }
        drop(s);
      };
      if j.client == Client::SecondPassThreads {
        two(push, feed);
      } else {
        feed();
        drop(feed);
        push();
      }
      drain_ch(&mut g, case, &r)?;
    }
  }
  Ok(g)
}

/// The same encode through the polled interface.
fn polled(
  case: &Case, emit: bool, pass1: Option<&[(bool, Vec<u8>)]>,
) -> Result<(Vec<Seen>, Vec<(bool, Vec<u8>)>), String> {
  guarded(|| {
    let mut c = Ctx::new(&case.config(), case.cfg.bit_depth, case.wide)?;
    let mut out = vec![];
    let mut pass = vec![];
    let mut feed: Vec<Vec<u8>> = pass1
      .unwrap_or(&[])
      .iter()
      .filter(|d| !d.0)
      .map(|d| d.1.clone())
      .rev()
      .collect();
    for n in 0..=case.frames {
      if n == case.frames {
        c.flush();
      } else {
        match c.send(&case.cfg, case.content, n, case.fp.get(&n)) {
          // A still picture is one frame, further frames are refused.
          Err(EncoderStatus::EnoughData) if case.cfg.still_picture && n > 0 => (),
          e => e.map_err(|e| format!("send {n}: {e:?}"))?,
        }
      }
      loop {
        while c.rc_needed() > 0 {
          let Some(d) = feed.pop() else { break };
          c.rc_send(&d).map_err(|e| format!("pass data: {e:?}"))?;
        }
        let end = match c.receive(&case.cfg, REC) {
          Ok(p) => {
            out.push(seen(p));
            false
          }
          Err(EncoderStatus::Encoded) => false,
          Err(EncoderStatus::LimitReached) => true,
          Err(EncoderStatus::NeedMoreData) => break,
          Err(e) => return Err(format!("receive: {e:?}")),
        };
        if emit {
          if let Some(d) = c.rc_receive() {
            pass.push(d);
          }
        }
        if end {
          break;
        }
      }
    }
    Ok((out, pass))
  })?
}

pub fn explore_job(r: &Report, j: &Job) {
  if r.only().is_some_and(|o| !o.starts_with(&j.name)) && !r.wants(&j.name) {
    return;
  }
  let mut j = j.clone();
  let mut pass1 = Arc::new(vec![]);
  let mut want_pass = vec![];
  let mut emit = false;
  if let Client::SecondPass | Client::SecondPassThreads | Client::MultiPass | Client::MultiPassSummary(..) | Client::SecondPassShort(_) | Client::SecondPassBad(_) | Client::SecondPassSummary(..) = j.client {
    let mut first = j.case.clone();
    first.rc = first.rc.with_emit_data(true);
    match polled(&first, true, None) {
      Ok((_, p)) => pass1 = Arc::new(p),
      Err(e) => return r.violation("encode-fails", &j.name, &e),
    }
    let Some(s) = pass1.iter().find(|d| d.0) else {
      return r.violation("no-summary", &j.name, "the first pass gave no summary");
    };
    let mut sum = s.1.clone();
    if let Client::SecondPassSummary(at, x) | Client::MultiPassSummary(at, x) = j.client {
      sum[at] ^= x;
    }
    match RateControlConfig::from_summary_slice(&sum) {
      Ok(rc) => j.case.rc = rc,
      // Refused.
      Err(_) if matches!(j.client, Client::SecondPassSummary(..) | Client::MultiPassSummary(..)) => return,
      Err(e) => return r.violation("summary-rejected", &j.name, &format!("{e}")),
    }
  }
  if let Client::FirstPass | Client::DropPassData | Client::MultiPass | Client::MultiPassSummary(..) = j.client {
    emit = true;
    j.case.rc = j.case.rc.clone().with_emit_data(true);
  }
  let want = if j.slots > 1 || j.direct || matches!(j.client, Client::SecondPassSummary(..) | Client::MultiPassSummary(..)) {
    None
  } else {
    match polled(&j.case, emit, Some(&pass1)) {
      Ok((w, p)) => {
        want_pass = p;
        Some(w)
      }
      Err(e) => return r.violation("encode-fails", &j.name, &e),
    }
  };
  let mut first: Option<Vec<Seen>> = want.clone();
  if let Some(w) = &want {
    r.outcome(w);
  }
  let srcs: Vec<Planes> = (0..j.case.frames)
    .map(|n| source_planes(&j.case.cfg, j.case.content, n))
    .collect();
  let b = Bounds {
    deviations: j.b.0,
    free_when_blocked: false,
    fun_points: j.b.2,
    explore_forks: j.b.3,
    threads: j.b.1,
    max_execs: j.b.4,
  };
  let st = explore(
    &b,
    || {
      if j.case.cfg.bit_depth > 8 {
        client::<u16>(&j, &pass1)
      } else {
        client::<u8>(&j, &pass1)
      }
    },
    |sch, res, out| {
      let name = format!("{} schedule={}", j.name, fmt_schedule(sch));
      tick(&name);
      r.add("evaluations", 1);
      r.add("traces", 1);
      if let Some(d) = &out.deadlock {
        // Every slot and three more tasks block for good on a thread.
        let few = if j.case.threads == 0 { j.b.1 } else { j.case.threads };
        if j.slots > 1 && few < j.slots + 3 {
          r.violation(&format!("deadlock-threads-{few}-slots-{}", j.slots), &name, d);
        } else {
          r.violation("deadlock", &name, d);
        }
        return false;
      }
      if let Some(p) = out.detached_panics.first() {
        r.violation("worker-panics", &name, p);
        return false;
      }
      let g = match res {
        Ok(Ok(g)) => g,
        Ok(Err(e)) | Err(e) => {
          r.violation("client-fails", &name, &e);
          return false;
        }
      };
      if matches!(j.client, Client::DropReceiver(_) | Client::DropReceiverAnytime | Client::SecondPassShort(_) | Client::SecondPassBad(_) | Client::SecondPassSummary(..) | Client::MultiPassSummary(..)) {
        return true;
      }
      let refused = if j.case.cfg.still_picture { j.case.frames.saturating_sub(1) } else { 0 };
      if g.sends_failed != refused {
        r.violation("send-fails", &name, &format!("{} sends failed", g.sends_failed));
        return false;
      }
      if g.pkts.len() != j.case.frames - refused {
        r.violation(
          "packet-count",
          &name,
          &format!("{} packets for {} frames", g.pkts.len(), j.case.frames),
        );
        return false;
      }
      for (i, p) in g.pkts.iter().enumerate() {
        if p.no != i as u64 {
          r.violation("order", &name, &format!("packet {i} is numbered {}", p.no));
          return false;
        }
      }
      if g.srcs != srcs[..srcs.len() - refused] {
        r.violation("wrong-picture", &name, "a packet's source is not its frame's picture");
        return false;
      }
      for (i, p) in g.pkts.iter().enumerate() {
        let fp = j.case.fp.get(&i).cloned().unwrap_or_default();
        if g.opaque[i] != fp.opaque {
          r.violation("opaque", &name, &format!("packet {i} carries {:?}", g.opaque[i]));
          return false;
        }
        if fp.key && p.ty != FrameType::KEY as u8 {
          r.violation("forced-key", &name, &format!("frame {i} is not a key frame"));
          return false;
        }
        for (_, _, d) in &fp.t35 {
          if !p.data.windows(d.len()).any(|w| w == &d[..]) {
            r.violation("t35", &name, &format!("packet {i} lacks its metadata"));
            return false;
          }
        }
      }
      match &first {
        Some(w) => {
          if let Some(d) = diff(w, &g.pkts) {
            r.violation("differs", &name, &d);
            return false;
          }
        }
        None => {
          // The first schedule's stream is judged by a decoder, the others
          // have to give the same bytes.
          let d: Vec<Vec<u8>> = g.pkts.iter().map(|p| p.data.clone()).collect();
          let pics = match decode_all(&d) {
            Ok(o) => o,
            Err(e) => {
              r.violation("undecodable", &name, &e);
              return false;
            }
          };
          // The grain table speaks of the whole video, and so do the
          // key frame intervals.
          let mut last_key = 0;
          for (i, p) in pics.iter().enumerate().take(g.pkts.len()) {
            let key = g.pkts[i].ty == FrameType::KEY as u8;
            if let Err(e) = crate::checks::r09::check_grain(&j.case.cfg, i, key, &p.r) {
              r.violation("grain", &name, &format!("packet {i}: {e}"));
              return false;
            }
            let forced = j.case.fp.get(&i).is_some_and(|f| f.key);
            let cfg = &j.case.cfg;
            if key {
              let gap = (i - last_key) as u64;
              let free = cfg.speed_settings.scene_detection_mode != SceneDetectionSpeed::None;
              let wanted = if free { gap >= cfg.min_key_frame_interval } else { gap == cfg.max_key_frame_interval };
              // Groups end where they do, whatever the parameters say.
              let any = j.case.fp.values().any(|f| f.key);
              if i > 0 && !any && !wanted {
                r.violation("key-early", &name, &format!("packet {i} is a key frame, the last one was {last_key}"));
                return false;
              }
              last_key = i;
            } else if i == 0 || forced || (i - last_key) as u64 >= cfg.max_key_frame_interval {
              r.violation("key-interval", &name, &format!("packet {i} is not a key frame, the last one was {last_key}"));
              return false;
            }
          }
          let out: Vec<Planes> = pics.into_iter().map(|p| p.planes).collect();
          let recs: Vec<Planes> =
            g.pkts.iter().filter_map(|p| p.rec.clone()).collect();
          if out != recs {
            r.violation("decodes-differently", &name, "decoder output and reconstruction differ");
            return false;
          }
          r.outcome(&g.pkts);
          first = Some(g.pkts);
        }
      }
      if matches!(j.client, Client::FirstPass | Client::MultiPass) && g.pass != want_pass {
        r.violation(
          "pass-data-differs",
          &name,
          &format!("{} and {} records", want_pass.len(), g.pass.len()),
        );
        return false;
      }
      true
    },
  );
  r.add("states", st.points);
  r.add("transitions", st.points);
  r.add("schedules", st.execs);
  if st.capped {
    r.capped(&format!("{}: {} schedules", j.name, st.execs));
  }
  r.sample(format!(
    "{}: {} schedules, up to {} scheduling points",
    j.name, st.execs, st.max_points
  ));
}

const DAMAGES: usize = 6;
fn damage(d: &mut [(bool, Vec<u8>)], k: usize) {
  let f = &mut d[k / 3].1;
  match k % 3 {
    0 => f.clear(),
    1 => {
      f.pop();
    }
    _ => f.fill(0xff),
  }
}

fn decode_all(d: &[Vec<u8>]) -> Result<Vec<dec::Pic>, String> {
  let mut c = dec::Decoder::new(dec::Which::Dav1d);
  let mut v = vec![];
  for p in d {
    v.extend(c.feed(p)?);
  }
  Ok(v)
}

pub fn jobs(t: bool) -> Vec<Job> {
  let mut v = vec![];
  let mk = |w, h, frames: usize| {
    let mut cfg = base(w, h, 10);
    cfg.speed_settings.rdo_lookahead_frames = 1;
    cfg.quantizer = 160;
    Case::new(cfg, Content::Half, frames)
  };
  let mut one = |name: &str, case: Case, client: Client, slots: usize, b| {
    v.push(Job { name: format!("{name} {client:?} slots={slots}"), case, slots, direct: name.contains("direct"), client, b });
  };
  let d = if t { 3 } else { 2 };
  let cap = if t { 60_000 } else { 4_000 };
  use Client::*;
  // Slots 0 and 1: one encoder task.
  for frames in 0..=5 {
    for cl in [SendThenReceive, TwoThreads, Polling, TrySend, DropReceiverAnytime] {
      for threads in [0, 1, 2] {
        if !t && threads == 2 && frames != 3 {
          continue;
        }
        let mut c = mk(16, 16, frames);
        c.threads = threads;
        one(&format!("low-latency frames={frames} threads={threads}"), c, cl, frames % 2, (d, 8, false, false, cap));
      }
    }
  }
  for frames in [6, 9] {
    for cl in [SendThenReceive, TwoThreads, Polling, TrySend] {
      let mut c = mk(16, 16, frames);
      c.cfg.low_latency = false;
      c.cfg.max_key_frame_interval = 6;
      c.fp.insert(4, FP { key: true, opaque: Some(7), t35: vec![] });
      one(&format!("pyramid frames={frames}"), c, cl, 1, (d - 1, 8, false, false, cap));
    }
  }
  for (n, f) in [
    ("10bit-444", (|c: &mut Case| {
      c.cfg.bit_depth = 10;
      c.cfg.chroma_sampling = CS444;
    }) as fn(&mut Case)),
    ("tiles", |c| {
      c.cfg.width = 80;
      c.cfg.tile_cols = 2;
    }),
    ("still", |c| {
      c.cfg.still_picture = true;
      c.frames = 1;
    }),
    ("still-extra", |c| {
      c.cfg.still_picture = true;
      c.frames = 3;
    }),
    ("scene-detection", |c| {
      c.cfg.speed_settings.scene_detection_mode = SceneDetectionSpeed::Fast;
      c.content = Content::Cut(2);
    }),
    ("lookahead-4", |c| c.cfg.speed_settings.rdo_lookahead_frames = 4),
  ] {
    for cl in [SendThenReceive, TwoThreads] {
      let mut c = mk(16, 16, 4);
      f(&mut c);
      one(n, c, cl, 1, (1, 4, false, n == "tiles", cap));
    }
  }
  for k in 0..=3 {
    for threads in [0, 1] {
      let mut c = mk(16, 16, 3);
      c.threads = threads;
      one(&format!("threads={threads}"), c, DropReceiver(k), 1, (d, 8, false, false, cap));
    }
  }
  // Two-pass rate control.
  for frames in [0, 1, 3, 5] {
    for cl in [FirstPass, DropPassData, SecondPass, SecondPassThreads, MultiPass] {
      if frames == 0 && cl != FirstPass {
        continue;
      }
      for ll in [true, false] {
        let mut c = mk(16, 16, frames);
        c.cfg.low_latency = ll;
        c.cfg.bitrate = 100_000;
        one(&format!("rate frames={frames} low-latency={ll}"), c, cl, 1, (d - 1, 8, false, false, cap));
      }
    }
  }
  for k in 0..3 {
    let mut c = mk(16, 16, 4);
    c.cfg.bitrate = 100_000;
    one("rate", c, SecondPassShort(k), 1, (1, 8, false, false, cap));
  }
  for k in 0..DAMAGES {
    let mut c = mk(16, 16, 4);
    c.cfg.bitrate = 100_000;
    one("rate", c, SecondPassBad(k), 1, (1, 8, false, false, cap));
  }
  // Any byte of the summary.
  for at in 0..68 {
    for x in if t { (0..8).map(|k| 1u8 << k).chain([0xff]).collect() } else { vec![0x01u8, 0x80, 0xff] } {
      for delay in [None, Some(12)] {
        for frames in if t { vec![1, 4, 14] } else { vec![4, 14] } {
          for ll in [true, false] {
            if !t && ll != delay.is_none() {
              continue;
            }
            let mut c = mk(16, 16, frames);
            c.cfg.low_latency = ll;
            c.cfg.bitrate = 100_000;
            c.cfg.reservoir_frame_delay = delay;
            one(
              &format!("rate frames={frames} low-latency={ll} delay={delay:?}"),
              c.clone(),
              MultiPassSummary(at, x),
              1,
              (0, 8, false, false, cap),
            );
            one(
              &format!("rate frames={frames} low-latency={ll} delay={delay:?}"),
              c,
              SecondPassSummary(at, x),
              1,
              (if frames == 4 || t { 1 } else { 0 }, 8, false, false, cap),
            );
          }
        }
      }
    }
  }
  // Several groups of pictures at once.
  for slots in [2usize, 3] {
    for frames in 0..=8 {
      for (ll, max) in [(true, 240), (true, 2), (true, 3), (false, 240), (false, 5)] {
        for cl in [SendThenReceive, TwoThreads, DropReceiver(1)] {
          if frames == 0 && cl == DropReceiver(1) {
            continue;
          }
          if !t && (slots == 3 || cl != TwoThreads) && frames % 3 != 1 {
            continue;
          }
          let mut c = mk(16, 16, frames);
          c.cfg.low_latency = ll;
          c.cfg.max_key_frame_interval = max;
          let deep = usize::from(t) + usize::from(slots == 2 && frames == 0 && cl == TwoThreads && (ll, max) == (true, 240));
          one(
            &format!("gops low-latency={ll} max={max} frames={frames}"),
            c,
            cl,
            slots,
            (1 + deep.min(1), 8, false, false, 10 * cap),
          );
        }
      }
    }
  }
  // Frame parameters reach the right packet from any group.
  for ll in [true, false] {
    for mask in 0..32u32 {
      if !t && mask.count_ones() > 2 {
        continue;
      }
      let mut c = mk(16, 16, 5);
      c.cfg.low_latency = ll;
      c.cfg.max_key_frame_interval = 3;
      for i in (0..5).filter(|i| mask >> i & 1 == 1) {
        c.fp.insert(
          i,
          FP { key: true, opaque: Some(i as u64), t35: vec![(1, 2, vec![0xd5, i as u8, 0xd5, 0x5d])] },
        );
      }
      one(&format!("gops params={mask:05b} low-latency={ll}"), c, TwoThreads, 2, (1, 8, false, false, cap));
    }
  }
  // The parallel channel with one slot, or without any.
  for slots in 0..=2 {
    for frames in 0..=5 {
      for (ll, max) in [(true, 2), (true, 3), (false, 3)] {
        for cl in [SendThenReceive, TwoThreads, Polling, DropReceiver(1)] {
          if frames == 0 && cl == DropReceiver(1) {
            continue;
          }
          let mut c = mk(16, 16, frames);
          c.cfg.low_latency = ll;
          c.cfg.max_key_frame_interval = max;
          one(&format!("gops direct low-latency={ll} max={max} frames={frames}"), c, cl, slots, (1, 8, false, false, cap));
        }
      }
    }
  }
  // Groups of other kinds of video.
  for (n, f) in [
    ("10bit-444", (|c: &mut Case| {
      c.cfg.bit_depth = 10;
      c.cfg.chroma_sampling = CS444;
    }) as fn(&mut Case)),
    ("mono", |c| c.cfg.chroma_sampling = CS400),
    ("wide-8bit", |c| c.wide = true),
    ("tiles", |c| {
      c.cfg.width = 80;
      c.cfg.tile_cols = 2;
    }),
    ("still", |c| c.cfg.still_picture = true),
    ("bitrate", |c| c.cfg.bitrate = 60_000),
    ("reservoir", |c| {
      c.cfg.bitrate = 60_000;
      c.cfg.reservoir_frame_delay = Some(12);
    }),
    ("error-resilient", |c| c.cfg.error_resilient = true),
    ("lookahead-4", |c| c.cfg.speed_settings.rdo_lookahead_frames = 4),
    ("speed-6", |c| c.cfg.speed_settings = SpeedSettings::from_preset(6)),
    ("speed-2", |c| c.cfg.speed_settings = SpeedSettings::from_preset(2)),
    ("psy", |c| c.cfg.tune = Tune::Psychovisual),
    ("odd", |c| {
      c.cfg.width = 33;
      c.cfg.height = 17;
      c.content = Content::Noise;
    }),
  ] {
    for ll in [true, false] {
      for (frames, max) in [(7, 3), (9, 4)] {
        let mut c = mk(16, 16, frames);
        c.cfg.max_key_frame_interval = max;
        c.cfg.low_latency = ll;
        f(&mut c);
        for slots in [2, 3] {
          one(&format!("gops {n} low-latency={ll} frames={frames}"), c.clone(), TwoThreads, slots, (1, 8, false, false, 40));
        }
      }
    }
  }
  // Scene detection keeps its distances in any group.
  for sd in [SceneDetectionSpeed::Fast, SceneDetectionSpeed::Standard] {
    for ll in [true, false] {
      for (min, max) in [(0, 240), (2, 240), (3, 5), (5, 5), (4, 7)] {
        for cut in [1, 2, 3, 4] {
          for frames in [6, 13] {
            let mut c = mk(16, 16, frames);
            c.cfg.low_latency = ll;
            c.cfg.speed_settings.scene_detection_mode = sd;
            c.cfg.min_key_frame_interval = min;
            c.cfg.max_key_frame_interval = max;
            c.content = Content::Cut(cut);
            one(
              &format!("gops {sd:?} low-latency={ll} min={min} max={max} cut={cut} frames={frames}"),
              c, TwoThreads, 2, (1, 8, false, false, 10),
            );
          }
        }
      }
    }
  }
  // A grain table's times are the video's in every group.
  for ll in [true, false] {
    for max in [2, 3, 240] {
      for at in 0..=6u64 {
        for shape in 0..3 {
          let mut c = mk(16, 16, 7);
          c.cfg.low_latency = ll;
          c.cfg.max_key_frame_interval = max;
          c.cfg.time_base = Rational::new(1, 30);
          let time = |n: u64| n * 10_000_000 / 30;
          let g = |a, b, seed| lattice::grain(a, b, seed);
          c.cfg.film_grain_params = Some(match shape {
            0 => vec![g(0, time(at), 7)],
            1 => vec![g(time(at), u64::MAX, 8)],
            _ => vec![g(0, time(at), 9), g(time(at), time(at + 1), 10), g(time(at + 2), u64::MAX, 11)],
          });
          one(&format!("gops grain={shape}@{at} low-latency={ll} max={max}"), c, TwoThreads, 2, (1, 8, false, false, 20));
        }
      }
    }
  }
  for threads in 1..=6 {
    for (slots, frames) in [(2, 5), (2, 20), (3, 20)] {
      let mut c = mk(16, 16, frames);
      c.cfg.max_key_frame_interval = 2;
      c.threads = threads;
      let d = usize::from(frames == 5 || t);
      one(&format!("gops threads={threads} frames={frames}"), c, TwoThreads, slots, (d, 8, false, false, cap));
    }
  }
  v
}

/// Every kind of channel with every kind of rate control: which are refused.
fn refusals(r: &Report) {
  let mut first = Case::new(base(16, 16, 10), Content::Half, 2);
  first.cfg.bitrate = 100_000;
  first.rc = first.rc.with_emit_data(true);
  let summary = match polled(&first, true, None) {
    Ok((_, p)) => p.into_iter().find(|d| d.0).map(|d| d.1).unwrap_or_default(),
    Err(e) => return r.violation("encode-fails", "refusals", &e),
  };
  for slots in 0..=3 {
    for emit in [false, true] {
      for have in [false, true] {
        for bad in [false, true] {
          for kind in ["plain", "by-gop", "first", "second", "both"] {
            let name = format!("refusals {kind} slots={slots} emit={emit} summary={have} invalid={bad}");
            if !r.wants(&name) {
              continue;
            }
            r.add("evaluations", 1);
            r.add("states", 1);
            r.add("traces", 1);
            let mut rc = RateControlConfig::new();
            if have {
              rc = match RateControlConfig::from_summary_slice(&summary) {
                Ok(rc) => rc,
                Err(e) => return r.violation("summary-rejected", &name, &format!("{e}")),
              };
            }
            let mut cfg = first.cfg.clone();
            if bad {
              cfg.width = 15;
            }
            let c = Config::new()
              .with_encoder_config(cfg)
              .with_threads(1)
              .with_parallel_gops(slots)
              .with_rate_control(rc.with_emit_data(emit));
            let rate = Err("RateControlConfigurationMismatch".to_string());
            let want = match kind {
              "plain" | "by-gop" if emit || have => rate,
              "first" if !emit => rate,
              "second" if emit || !have => rate,
              "both" if !emit || !have => rate,
              _ if bad => Err("InvalidWidth(15)".to_string()),
              _ => Ok(()),
            };
            let got: Result<(), String> = match guarded(|| {
              fn e<A>(r: Result<A, InvalidConfig>) -> Result<(), String> {
                r.map(|_| ()).map_err(|e| format!("{e:?}"))
              }
              match kind {
                "plain" => e(c.new_channel::<u8>()),
                "by-gop" => e(c.new_by_gop_channel::<u8>(slots)),
                "first" => e(c.new_firstpass_channel::<u8>()),
                "second" => e(c.new_secondpass_channel::<u8>()),
                _ => e(c.new_multipass_channel::<u8>()),
              }
            }) {
              Ok(g) => g,
              Err(e) => Err(format!("panics: {e}")),
            };
            r.outcome(&(kind, &got));
            if got != want {
              r.violation("refusal", &name, &format!("{got:?}, expected {want:?}"));
            }
          }
        }
      }
    }
  }
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("one evaluation is one complete schedule of the client's and the encoder's tasks");
  refusals(r);
  let j = jobs(r.thorough());
  par_for(j.len(), |i| explore_job(r, &j[i]));
}
