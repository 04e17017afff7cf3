//! The send / receive / flush protocol: every operation history.
use crate::lattice::*;
use crate::*;
use rav1e::prelude::{EncoderStatus as S, FrameType};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
  /// Send one frame.
  Send,
  /// Send five frames.
  Burst,
  /// Receive once.
  Recv,
  /// Receive until the encoder wants something.
  RecvAll,
  /// Signal the end of the stream.
  Flush,
}
fn letter(o: Op) -> char {
  match o {
    Op::Send => 's',
    Op::Burst => 'B',
    Op::Recv => 'r',
    Op::RecvAll => 'R',
    Op::Flush => 'f',
  }
}

/// The reference model: what a client may rely on.
pub struct Model {
  pub still: bool,
  /// Frames the encoder may hold back while it waits for more input.
  pub lag: usize,
  pub sent: usize,
  pub got: usize,
  pub flushed: bool,
  pub idle: usize,
}

fn opaque_of(n: usize) -> u64 {
  0x5eed_0000 + n as u64 * 7
}

pub struct Driver<'a> {
  pub c: Ctx,
  pub case: &'a Case,
  pub m: Model,
  /// What a plain run delivers.
  pub steps: u64,
  pub packets: Vec<(u64, FrameType, u64)>,
}

impl Driver<'_> {
  pub fn send(&mut self) -> Result<(), String> {
    self.steps += 1;
    let n = self.m.sent;
    let fp = FP { opaque: Some(opaque_of(n)), ..FP::default() };
    let r = self.c.send(&self.case.cfg, self.case.content, n, Some(&fp));
    let full = self.m.flushed || (self.m.still && n > 0);
    match (r, full) {
      (Ok(()), false) => {
        self.m.sent += 1;
        self.m.idle = 0;
        Ok(())
      }
      (Err(S::EnoughData), true) => Ok(()),
      (r, _) => Err(format!(
        "sending frame {n} (flushed: {}) returned {r:?}",
        self.m.flushed
      )),
    }
  }
  pub fn flush(&mut self) -> Result<(), String> {
    self.steps += 1;
    match self.c.send_none() {
      Ok(()) => {
        self.m.flushed = true;
        self.m.idle = 0;
        Ok(())
      }
      e => Err(format!("flush returned {e:?}")),
    }
  }
  /// Returns whether receiving again can make sense.
  pub fn recv(&mut self) -> Result<bool, String> {
    self.steps += 1;
    let r = self.c.receive(&self.case.cfg, Want { rec: true, src: true });
    let m = &mut self.m;
    match r {
      Ok(p) => {
        let n = m.got;
        if n >= m.sent {
          return Err(format!("packet {n} arrived after {} frames were sent", m.sent));
        }
        if p.no != n as u64 {
          return Err(format!("packet {n} carries frame number {}", p.no));
        }
        if p.opaque != Some(opaque_of(n)) {
          return Err(format!("packet {n} carries opaque {:x?}", p.opaque));
        }
        if n == 0 && p.ty != FrameType::KEY {
          return Err(format!("the first packet is {:?}", p.ty));
        }
        let want = source_planes(&self.case.cfg, self.case.content, n);
        if p.src.as_ref() != Some(&want) {
          return Err(format!("packet {n} does not carry its source frame"));
        }
        if p.rec.is_none() {
          return Err(format!("packet {n} has no reconstruction"));
        }
        if p.data.len() < 4 {
          return Err(format!("packet {n} has {} bytes", p.data.len()));
        }
        m.got += 1;
        m.idle = 0;
        self.packets.push((p.no, p.ty, hash_of(&p.data)));
        Ok(true)
      }
      Err(S::Encoded) => {
        if m.got == m.sent {
          return Err("Encoded although every frame was already delivered".into());
        }
        m.idle += 1;
        if m.idle > 16 {
          return Err("16 times Encoded without a packet".into());
        }
        Ok(true)
      }
      Err(S::LimitReached) => {
        if m.flushed && m.got == m.sent {
          Ok(false)
        } else {
          Err(format!(
            "LimitReached with {} of {} packets delivered (flushed: {})",
            m.got, m.sent, m.flushed
          ))
        }
      }
      Err(S::NeedMoreData) => {
        if m.flushed {
          return Err(format!(
            "NeedMoreData after the flush with {} of {} packets delivered",
            m.got, m.sent
          ));
        }
        if m.still && m.sent > 0 {
          // A still picture is complete once it is flushed.
        } else if m.sent > m.got + m.lag {
          return Err(format!(
            "NeedMoreData with {} frames pending; the lag is at most {}",
            m.sent - m.got,
            m.lag
          ));
        }
        Ok(false)
      }
      Err(e) => Err(format!("receive returned {e:?}")),
    }
  }
  pub fn finish(&mut self) -> Result<(), String> {
    self.flush()?;
    while self.recv()? {}
    if self.m.got != self.m.sent {
      return Err(format!("{} frames in, {} packets out", self.m.sent, self.m.got));
    }
    // The end is stable.
    for _ in 0..2 {
      if self.recv()? {
        return Err("something after LimitReached".into());
      }
      self.send()?;
      self.flush()?;
    }
    Ok(())
  }
}

/// Input lag: the frames the lookahead was configured to see, the look-ahead
/// of the keyframe decision and the frames of one reordering group.
pub fn lag(cfg: &EncoderConfig) -> usize {
  let group = if cfg.low_latency { 1 } else { 4 };
  cfg.speed_settings.rdo_lookahead_frames + 2 * group + 1
}

fn history(r: &Report, name: &str, case: &Case, ops: &[Op]) {
  r.add("evaluations", 1);
  let res = guarded(|| -> Result<(u64, u64, Vec<(u64, FrameType, u64)>), (usize, String)> {
    let mut d = Driver {
      c: Ctx::new(&case.config(), case.cfg.bit_depth, case.wide).map_err(|e| (0, e))?,
      case,
      m: Model {
        still: case.cfg.still_picture,
        lag: lag(&case.cfg),
        sent: 0,
        got: 0,
        flushed: false,
        idle: 0,
      },
      steps: 0,
      packets: vec![],
    };
    for (i, op) in ops.iter().enumerate() {
      let e = match op {
        Op::Send => d.send(),
        Op::Burst => (0..5).try_for_each(|_| d.send()),
        Op::Recv => d.recv().map(|_| ()),
        Op::RecvAll => loop {
          match d.recv() {
            Ok(true) => {}
            Ok(false) => break Ok(()),
            Err(e) => break Err(e),
          }
        },
        Op::Flush => d.flush(),
      };
      e.map_err(|e| (i, e))?;
    }
    d.finish().map_err(|e| (ops.len(), e))?;
    Ok((d.steps, d.m.sent as u64, d.packets.clone()))
  });
  match res {
    Ok(Ok((steps, sent, p))) => {
      r.add("transitions", steps);
      r.add("states", steps + 1);
      r.add("traces", 1);
      r.add("frames", sent);
      if sent > 0 {
        r.outcome(&(name.to_string(), p.iter().map(|p| p.2).collect::<Vec<_>>()));
      }
    }
    Ok(Err((i, e))) => r.violation("protocol", name, &format!("step {i}: {e}")),
    Err(e) => r.violation("panic", name, &e),
  }
}

pub fn sequences(alpha: &[Op], depth: usize) -> Vec<Vec<Op>> {
  let mut out = vec![vec![]];
  let mut level = vec![vec![]];
  for _ in 0..depth {
    let mut next = vec![];
    for s in &level {
      for &o in alpha {
        let mut t: Vec<Op> = s.clone();
        t.push(o);
        next.push(t);
      }
    }
    out.extend(next.iter().cloned());
    level = next;
  }
  out
}

/// Frames given back: the encoder must not hoard what it was sent.
fn soak(r: &Report, name: &str, case: &Case, n: usize) {
  if !r.wants(name) {
    return;
  }
  r.add("evaluations", 1);
  let res = guarded(|| -> Result<usize, String> {
    let mut c = Ctx::new(&case.config(), case.cfg.bit_depth, case.wide)?;
    let mut probes: Vec<Box<dyn Fn() -> bool>> = vec![];
    let mut got = 0;
    let mut worst = 0;
    for i in 0..n {
      let (s, p) = c.send_probed(&case.cfg, case.content, i);
      s.map_err(|e| format!("send {i}: {e:?}"))?;
      probes.push(p);
      loop {
        match c.receive(&case.cfg, Want::default()) {
          Ok(_) => got += 1,
          Err(S::Encoded) => {}
          Err(S::NeedMoreData) => break,
          Err(e) => return Err(format!("receive: {e:?}")),
        }
      }
      r.add("transitions", 1);
      let live = probes.iter().filter(|p| p()).count();
      worst = worst.max(live);
      // Pending input, one reordering group, eight references.
      let allowed = lag(&case.cfg) + 16;
      if live > allowed {
        return Err(format!(
          "{live} of {} frames are still held after {got} packets; at most {allowed} are pending or referenced",
          i + 1
        ));
      }
    }
    c.flush();
    let mut out = vec![];
    drain(&mut c, &case.cfg, Want::default(), &mut out)?;
    drop(c);
    let live = probes.iter().filter(|p| p()).count();
    if live > 0 {
      return Err(format!("{live} frames outlive the encoder"));
    }
    Ok(worst)
  });
  match res {
    Ok(Ok(w)) => {
      r.add("traces", 1);
      r.sample(format!("{name}: at most {w} frames held"));
    }
    Ok(Err(e)) => r.violation("retention", name, &e),
    Err(e) => r.violation("panic", name, &e),
  }
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("a history is every operation sequence up to the depth, run to the end against the reference model on the real encoder; non-trivial when it encodes at least one frame");
  let t = r.thorough();
  let axes = vec![
    axis("order").v("pyramid", |c| c.cfg.low_latency = false),
    ax_lookahead(&[1, 3]),
    axis("still").v("on", |c| c.cfg.still_picture = true),
    axis("rate").v("60k", |c| c.cfg.bitrate = 60_000),
    ax_keyint(&[(0, 1), (0, 3), (2, 4)]),
    ax_scene(),
    axis("txdist").v("off", |c| {
      c.cfg.speed_settings.transform.tx_domain_distortion = false
    }),
    axis("multiref").v("on", |c| c.cfg.speed_settings.multiref = true),
    axis("er").v("on", |c| c.cfg.error_resilient = true),
    axis("sframe").v(2, |c| {
      c.cfg.switch_frame_interval = 2;
      c.cfg.low_latency = true;
    }),
    ax_bd(&[10]),
    ax_cs(&[CS400, CS444]),
  ];
  let base_case = Case::new(base(16, 16, 10), Content::Cut(3), 0);
  use Op::*;
  let single = sequences(&[Send, Recv, Flush], if t { 11 } else { 8 });
  let macros = sequences(&[Send, Burst, Recv, RecvAll, Flush], if t { 6 } else { 4 });
  let mut jobs: Vec<(String, Case, &Vec<Op>)> = vec![];
  for (k, d) in deviations(&axes, 2).into_iter().enumerate() {
    let mut c = base_case.clone();
    apply(&axes, &d, &mut c);
    let n = lattice::name(&axes, &d);
    // Deep single-step histories for the first deviations, macro steps for all.
    if (t && d.len() <= 1) || k < 5 {
      for s in &single {
        jobs.push((n.clone(), c.clone(), s));
      }
    }
    let cap = if d.len() < 2 || t { usize::MAX } else { 3 };
    for s in macros.iter().filter(|s| s.len() <= cap) {
      jobs.push((n.clone(), c.clone(), s));
    }
  }
  par_for(jobs.len(), |i| {
    let (n, c, s) = &jobs[i];
    let name = format!("{n} ops={}", s.iter().map(|o| letter(*o)).collect::<String>());
    if r.wants(&name) {
      history(r, &name, c, s);
    }
  });
  // Long runs.
  let ds = deviations(&axes, 1);
  par_for(ds.len(), |i| {
    let mut c = base_case.clone();
    apply(&axes, &ds[i], &mut c);
    if !c.cfg.still_picture {
      soak(r, &format!("soak {}", lattice::name(&axes, &ds[i])), &c, if t { 300 } else { 70 });
    }
  });
}
