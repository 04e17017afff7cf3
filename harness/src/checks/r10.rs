//! Two-pass statistics: any chunking, either interface, any damage.
use crate::checks::r01::judge;
use crate::checks::r03::{diff, seen, Seen};
use crate::checks::r14::{first_pass, second_pass};
use crate::lattice::*;
use crate::*;
use rav1e::config::RateControlConfig;

const HEAD: usize = 68;
const REC: Want = Want { rec: true, src: false };

/// How the client hands over the bytes of the statistics file.
#[derive(Clone, Debug)]
enum Feed {
  /// Asks how much is needed and gives exactly that.
  Needed,
  /// Chunks of this size until nothing is consumed or needed.
  Chunks(usize),
  /// Alternating chunk sizes.
  Alternate(usize, usize),
  /// Everything left, every time.
  All,
}

/// The end of a second pass that was fed arbitrary data.
#[derive(Debug, PartialEq, Eq, Hash, Clone)]
enum End {
  Finished,
  /// The encoder refused the data.
  Refused,
  /// The encoder waits for data the client does not have.
  Starved,
}

/// Second pass through `twopass_in`.
fn pass2_bytes(
  c: &Case, file: &[u8], feed: &Feed, sends: usize,
) -> Result<(Vec<Pkt>, End, usize), String> {
  guarded(|| {
    let mut x = Ctx::new(&c.config(), c.cfg.bit_depth, c.wide)?;
    let mut at = 0;
    let mut out = vec![];
    let mut sent = 0;
    let mut k = 0usize;
    // Frames come `sends` at a time.
    let mut steps = 0;
    loop {
      steps += 1;
      if steps > 50 * (c.frames + 4) + 16 * file.len() {
        return Err("no end in sight".to_string());
      }
      // The documented loop before each receive.
      loop {
        let n = match feed {
          Feed::Needed => x.twopass_bytes_needed(),
          Feed::Chunks(n) => *n,
          Feed::Alternate(a, b) => {
            k += 1;
            if k % 2 == 0 { *a } else { *b }
          }
          Feed::All => usize::MAX,
        };
        if n == 0 || at >= file.len() {
          break;
        }
        let end = at.saturating_add(n).min(file.len());
        match x.twopass_in(&file[at..end]) {
          Ok(0) => break,
          Ok(m) => {
            if m > end - at {
              return Err(format!("{m} bytes consumed of {}", end - at));
            }
            at += m;
          }
          Err(EncoderStatus::Failure) => return Ok((out, End::Refused, at)),
          Err(e) => return Err(format!("twopass_in: {e:?}")),
        }
      }
      match x.receive(&c.cfg, REC) {
        Ok(p) => out.push(p),
        Err(EncoderStatus::Encoded) => {}
        Err(EncoderStatus::NeedMoreData) => {
          if sent == c.frames {
            return Err("needs more frames after the flush".into());
          }
          for _ in 0..sends {
            if sent < c.frames {
              x.send(&c.cfg, c.content, sent, c.fp.get(&sent))
                .map_err(|e| format!("send: {e:?}"))?;
              sent += 1;
            }
          }
          if sent == c.frames {
            x.flush();
          }
        }
        Err(EncoderStatus::LimitReached) => return Ok((out, End::Finished, at)),
        Err(EncoderStatus::NotReady) => {
          if at >= file.len() {
            return Ok((out, End::Starved, at));
          }
          if x.twopass_bytes_needed() == 0 {
            // More frames than the summary announced.
            return Ok((out, End::Starved, at));
          }
        }
        Err(EncoderStatus::Failure) => return Ok((out, End::Refused, at)),
        Err(e) => return Err(format!("receive: {e:?}")),
      }
    }
  })?
}

/// Second pass through `rc_send_pass_data` with arbitrary records.
/// `ahead`: before the first frame is sent.
fn pass2_records(
  c: &Case, summary: &[u8], rec: &[Vec<u8>], ahead: bool,
) -> Result<(Vec<Pkt>, End), String> {
  guarded(|| {
    let mut c = c.clone();
    c.rc = match RateControlConfig::from_summary_slice(summary) {
      Ok(v) => v,
      Err(_) => return Ok((vec![], End::Refused)),
    };
    let mut x = Ctx::new(&c.config(), c.cfg.bit_depth, c.wide)?;
    let mut it = rec.iter();
    let mut out = vec![];
    while ahead && x.rc_needed() > 0 {
      let Some(d) = it.next() else { return Ok((out, End::Starved)) };
      if x.rc_send(d).is_err() {
        return Ok((out, End::Refused));
      }
    }
    for n in 0..c.frames {
      x.send(&c.cfg, c.content, n, c.fp.get(&n)).map_err(|e| format!("{e:?}"))?;
    }
    x.flush();
    loop {
      while x.rc_needed() > 0 {
        let Some(d) = it.next() else { return Ok((out, End::Starved)) };
        match x.rc_send(d) {
          Ok(()) => {}
          Err(EncoderStatus::Failure) => return Ok((out, End::Refused)),
          Err(e) => return Err(format!("rc_send: {e:?}")),
        }
      }
      match x.receive(&c.cfg, REC) {
        Ok(p) => out.push(p),
        Err(EncoderStatus::Encoded) => {}
        Err(EncoderStatus::LimitReached) => return Ok((out, End::Finished)),
        Err(EncoderStatus::NotReady) => return Ok((out, End::Starved)),
        Err(EncoderStatus::Failure) => return Ok((out, End::Refused)),
        Err(e) => return Err(format!("receive: {e:?}")),
      }
    }
  })?
}

/// First pass through `twopass_out`; `early` retrieves before every receive as
/// documented, otherwise after.
fn pass1_bytes(c: &Case, sends: usize) -> Result<(Vec<Pkt>, Vec<Vec<u8>>), String> {
  guarded(|| {
    let mut c = c.clone();
    c.rc = RateControlConfig::new().with_emit_data(true);
    let mut x = Ctx::new(&c.config(), c.cfg.bit_depth, c.wide)?;
    let mut sent = 0;
    let mut out = vec![];
    let mut data = vec![];
    loop {
      if let Some(d) = x.twopass_out() {
        data.push(d);
        if sent > 0 && out.len() < c.frames && x.twopass_out().is_some() {
          return Err("statistics handed out twice".into());
        }
      }
      match x.receive(&c.cfg, REC) {
        Ok(p) => out.push(p),
        Err(EncoderStatus::Encoded) => {}
        Err(EncoderStatus::NeedMoreData) => {
          for _ in 0..sends {
            if sent < c.frames {
              x.send(&c.cfg, c.content, sent, c.fp.get(&sent))
                .map_err(|e| format!("send: {e:?}"))?;
              sent += 1;
            }
          }
          if sent == c.frames {
            x.flush();
          }
        }
        Err(EncoderStatus::LimitReached) => break,
        Err(e) => return Err(format!("receive: {e:?}")),
      }
    }
    match x.twopass_out() {
      Some(d) => data.push(d),
      None => return Err("no summary after the end".into()),
    }
    if x.twopass_out().is_some() {
      return Err("a second summary".into());
    }
    // The space kept at the start of the file is that of the summary.
    let head = data.remove(0);
    if head.len() != data[data.len() - 1].len() {
      return Err(format!("{} bytes at the start, but {} to overwrite", head.len(), data[data.len() - 1].len()));
    }
    Ok((out, data))
  })?
}

fn le(d: &[u8]) -> u64 {
  d.iter().rev().fold(0, |a, &b| a << 8 | b as u64)
}

fn axes() -> Vec<Axis> {
  vec![
    ax_latency(),
    axis("delay")
      .v(12, |c| c.cfg.reservoir_frame_delay = Some(12))
      .v(13, |c| c.cfg.reservoir_frame_delay = Some(13)),
    axis("bitrate")
      .v(1, |c| c.cfg.bitrate = 1)
      .v("2M", |c| c.cfg.bitrate = 2_000_000)
      .v("max", |c| c.cfg.bitrate = i32::MAX),
    ax_frames(&[1, 2, 12, 13, 14, 30]),
    ax_keyint(&[(0, 1), (0, 5)]),
    ax_lookahead(&[1, 6]),
    ax_content(&[Content::Noise, Content::Flat(130), Content::Cut(3)]),
    axis("bd").v(10, |c| c.cfg.bit_depth = 10),
    axis("quant").v("60-200", |c| {
      c.cfg.quantizer = 200;
      c.cfg.min_quantizer = 60;
    }),
    axis("forced").v("2,3", |c| {
      c.fp.insert(2, FP { key: true, ..Default::default() });
      c.fp.insert(3, FP { key: true, ..Default::default() });
    }),
    ax_scene(),
    ax_tiles(),
  ]
}

fn seen_all(v: Vec<Pkt>) -> Vec<Seen> {
  v.into_iter().map(seen).collect()
}

/// Streams longer than the ring of a finite window of statistics (twice the
/// delay and eight), so that its head and tail wrap around.
fn windows(thorough: bool) -> Vec<Axis> {
  vec![
    axis("window").v("13", |c| c.cfg.reservoir_frame_delay = Some(13)),
    ax_latency(),
    ax_frames(if thorough { &[33, 47, 71, 100, 150] } else { &[41, 75] }),
    ax_keyint(&[(0, 5), (0, 9), (3, 12)]),
    axis("bitrate").v("2M", |c| c.cfg.bitrate = 2_000_000),
    axis("forced").v("11,12,40", |c| {
      for n in [11, 12, 40] {
        c.fp.insert(n, FP { key: true, ..Default::default() });
      }
    }),
  ]
}

fn sound(r: &Report) {
  let ax = axes();
  let dev = deviations(&ax, if r.thorough() { 3 } else { 2 });
  let mut cfg = base(16, 16, 10);
  cfg.bitrate = 30_000;
  cfg.quantizer = 255;
  let b = Case::new(cfg, Content::Pan(3, 1), 7);
  sound_over(r, "", &b, &ax, &dev, dev.len());
  let ax = windows(r.thorough());
  let dev = product(&ax);
  let mut b = b;
  b.cfg.reservoir_frame_delay = Some(12);
  b.frames = 35;
  sound_over(r, "window ", &b, &ax, &dev, 0);
}

/// The first `full` deviations are fed in every way.
fn sound_over(r: &Report, pre: &str, b: &Case, ax: &[Axis], dev: &[Vec<(usize, usize)>], full: usize) {
  par_for(dev.len(), |i| {
    let nm = format!("{pre}{}", lattice::name(ax, &dev[i]));
    if r.only().is_some_and(|o| !o.starts_with(&nm)) {
      return;
    }
    let mut c = b.clone();
    apply(ax, &dev[i], &mut c);
    let all = i < full && dev[i].len() < 2;
    if c.config().validate().is_err() {
      return;
    }
    tick(&nm);
    let bad = |key: &str, sub: &str, what: &str| r.violation(key, &format!("{nm}{sub}"), what);
    // First pass.
    let (rec, sum) = match first_pass(&c) {
      Ok(v) => v,
      Err(e) => return bad("first-pass", "", &e),
    };
    r.add("evaluations", 1);
    let mut p1 = None;
    for sends in [1, 3, c.frames] {
      let (p, d) = match pass1_bytes(&c, sends) {
        Ok(v) => v,
        Err(e) => return bad("first-pass", &format!(" twopass_out sends={sends}"), &e),
      };
      r.add("evaluations", 1);
      r.add("states", d.len() as u64);
      if d[..d.len() - 1] != rec[..] || d[d.len() - 1] != sum {
        return bad(
          "interfaces",
          &format!(" sends={sends}"),
          "twopass_out and rc_receive_pass_data deliver different statistics",
        );
      }
      if let Err((k, e)) = judge(r, &c.cfg, &p) {
        return bad(k, " first pass", &e);
      }
      let s = seen_all(p);
      if s.len() != c.frames {
        return bad("frame-count", " first pass", &format!("{} packets", s.len()));
      }
      match &p1 {
        None => p1 = Some(s),
        Some(w) => {
          if let Some(e) = diff(w, &s) {
            return bad("interleaving", &format!(" first pass sends={sends}"), &e);
          }
        }
      }
    }
    // The summary agrees with the records.
    if sum.len() != HEAD || rec.iter().any(|d| d.len() != 8) {
      return bad("size", "", "unexpected size of the statistics");
    }
    let shown = rec.iter().filter(|d| d[3] & 0x80 != 0).count() as u64;
    if shown != c.frames as u64 || le(&sum[8..12]) != shown {
      return bad("summary", "", &format!("{} temporal units, {shown} records of shown frames", le(&sum[8..12])));
    }
    for ty in 0..5u64 {
      let n = rec.iter().filter(|d| (le(&d[..4]) & 0x7fff_ffff) == ty).count() as u64;
      let at = 12 + 4 * ty as usize;
      if le(&sum[at..at + 4]) != n {
        return bad(
          "summary",
          "",
          &format!("type {ty}: {} frames in the summary, {n} records", le(&sum[at..at + 4])),
        );
      }
    }
    // Second pass, every way to feed it.
    let mut file = sum.clone();
    for d in &rec {
      file.extend_from_slice(d);
    }
    let want = match second_pass(&c, &rec, &sum, REC) {
      Ok(p) => p,
      Err(e) => return bad("second-pass", " records", &e),
    };
    r.add("evaluations", 1);
    if want.len() != c.frames {
      return bad("frame-count", " second pass", &format!("{} packets", want.len()));
    }
    if let Err((k, e)) = judge(r, &c.cfg, &want) {
      return bad(k, " second pass", &e);
    }
    r.outcome(&seen_all(want));
    // The same with the statistics ahead of the frames, as `twopass_in` gets
    // them below.
    let want = match pass2_records(&c, &sum, &rec, true) {
      Ok((p, End::Finished)) => seen_all(p),
      Ok((_, e)) => return bad("second-pass", " records ahead", &format!("{e:?}")),
      Err(e) => return bad("second-pass", " records ahead", &e),
    };
    let mut feeds = vec![Feed::Needed, Feed::Chunks(7), Feed::Alternate(3, HEAD + 5)];
    if all || i < full && r.thorough() {
      feeds.extend([Feed::All, Feed::Chunks(1)]);
    }
    if all || i < full && r.thorough() {
      for n in 2..=HEAD + 12 {
        feeds.push(Feed::Chunks(n));
      }
      for n in [1, 2, 5, 8, 9] {
        feeds.push(Feed::Alternate(n, 1));
        feeds.push(Feed::Alternate(n, 67));
      }
    }
    // With rate control, frames that arrive in other histories may be coded
    // otherwise: compare equal ones.
    let mut drip = None;
    for f in &feeds {
      for sends in [1, c.frames] {
        if sends == 1 && !all && !matches!(f, Feed::Needed | Feed::Chunks(7)) {
          continue;
        }
        let sub = format!(" feed={f:?} sends={sends}");
        if !r.wants(&format!("{nm}{sub}")) {
          continue;
        }
        r.add("evaluations", 1);
        r.add("traces", 1);
        match pass2_bytes(&c, &file, f, sends) {
          Err(e) => return bad("second-pass", &sub, &e),
          Ok((p, end, at)) => {
            r.add("transitions", p.len() as u64);
            if end != End::Finished {
              return bad("second-pass", &sub, &format!("{end:?} after {} packets, {at} of {} bytes", p.len(), file.len()));
            }
            if at != file.len() {
              return bad("unread", &sub, &format!("{at} of {} bytes consumed", file.len()));
            }
            if sends == 1 && drip.is_none() {
              if let Err((k, e)) = judge(r, &c.cfg, &p) {
                return bad(k, &sub, &e);
              }
              if p.len() != c.frames {
                return bad("frame-count", &sub, &format!("{} packets", p.len()));
              }
              drip = Some(seen_all(p));
              continue;
            }
            let want = if sends == 1 { drip.as_ref().unwrap() } else { &want };
            if let Some(e) = diff(want, &seen_all(p)) {
              return bad("chunking", &sub, &e);
            }
          }
        }
      }
    }
  });
}

/// Every damage to the statistics: refused or survived, and what comes out
/// still decodes.
fn damaged(r: &Report) {
  let t = r.thorough();
  let mut cases = vec![];
  for low in [true, false] {
    for delay in [None, Some(12)] {
      for frames in [5usize, 16] {
        for bitrate in [30_000, i32::MAX] {
          if !t && frames == 16 && bitrate != 30_000 {
            continue;
          }
          cases.push((low, delay, frames, bitrate));
        }
      }
    }
  }
  let mut jobs = vec![];
  for (ci, &(_, _, frames, _)) in cases.iter().enumerate() {
    let len = HEAD + 8 * (frames * 2);
    for at in 0..len {
      jobs.push((ci, at));
    }
  }
  let made: Vec<_> = cases
    .iter()
    .map(|&(low, delay, frames, bitrate)| {
      let mut cfg = base(16, 16, 10);
      cfg.bitrate = bitrate;
      cfg.quantizer = 255;
      cfg.low_latency = low;
      cfg.reservoir_frame_delay = delay;
      let c = Case::new(cfg, Content::Pan(3, 1), frames);
      let d = first_pass(&c);
      (c, d)
    })
    .collect();
  par_for(jobs.len(), |j| {
    let (ci, at) = jobs[j];
    let (low, delay, frames, bitrate) = cases[ci];
    let (c, d) = &made[ci];
    let nm = format!(
      "damage {} delay={delay:?} frames={frames} bitrate={bitrate}",
      if low { "p" } else { "pyramid" }
    );
    let (rec, sum) = match d {
      Ok(v) => v,
      Err(e) => return r.violation("first-pass", &nm, e),
    };
    let mut file = sum.clone();
    for d in rec {
      file.extend_from_slice(d);
    }
    if at >= file.len() {
      return;
    }
    let mut tries: Vec<(String, Vec<u8>)> = vec![(format!("cut@{at}"), file[..at].to_vec())];
    for (k, v) in [0u8, 0xff, 0x7f, file[at].wrapping_add(1), 1, 0x80, file[at] ^ 1, file[at].wrapping_sub(1)]
      .into_iter()
      .enumerate()
    {
      if v != file[at] && (t || k < 4) {
        let mut f = file.clone();
        f[at] = v;
        tries.push((format!("byte@{at}={v}"), f));
      }
    }
    // Whole fields.
    if at % 4 == 0 {
      for (n, v) in [("0", [0u8; 4]), ("max", [0xff, 0xff, 0xff, 0x7f]), ("min", [0, 0, 0, 0x80]), ("-1", [0xff; 4])] {
        if at + 4 <= file.len() {
          let mut f = file.clone();
          f[at..at + 4].copy_from_slice(&v);
          tries.push((format!("field@{at}={n}"), f));
        }
      }
    }
    if at >= HEAD && (at - HEAD) % 8 == 0 {
      let mut f = file.clone();
      f.drain(at..at + 8);
      tries.push((format!("drop@{at}"), f));
      let mut f = file.clone();
      let d: Vec<u8> = f[at..at + 8].to_vec();
      f.splice(at..at, d);
      tries.push((format!("twice@{at}"), f));
      if at + 16 <= file.len() {
        let mut f = file.clone();
        for k in 0..8 {
          f.swap(at + k, at + 8 + k);
        }
        tries.push((format!("swap@{at}"), f));
      }
    }
    for (k, f) in tries {
      let name = format!("{nm} {k}");
      if !r.wants(&name) {
        continue;
      }
      tick(&name);
      for records in [false, true] {
        r.add("evaluations", 1);
        r.add("traces", 1);
        let got = if records {
          if f.len() < HEAD {
            continue;
          }
          let v: Vec<Vec<u8>> = f[HEAD..].chunks(8).map(|d| d.to_vec()).collect();
          pass2_records(c, &f[..HEAD], &v, at % 8 < 4)
        } else {
          pass2_bytes(c, &f, &Feed::All, frames).map(|(p, e, _)| (p, e))
        };
        let how = if records { "records" } else { "bytes" };
        match got {
          Err(e) => r.violation("damaged", &name, &format!("{how}: {e}")),
          Ok((p, end)) => {
            r.add("states", p.len() as u64);
            r.add("transitions", 1);
            r.outcome(&(p.len(), &end, p.iter().map(|x| x.qp).collect::<Vec<_>>()));
            r.add(
              match end {
                End::Finished => "damage_survived",
                End::Refused => "damage_refused",
                End::Starved => "damage_starved",
              },
              1,
            );
            if end == End::Finished && p.len() != frames {
              r.violation("frame-count", &name, &format!("{how}: {} packets", p.len()));
            }
            if p.len() > 0 && (t || at % 4 == 0) {
              if let Err((k, e)) = judge(r, &c.cfg, &p) {
                r.violation(k, &name, &format!("{how}: {e}"));
              }
            }
          }
        }
      }
    }
  });
}

/// Two damaged fields at once.
fn damaged_twice(r: &Report) {
  let mut jobs = vec![];
  for low in [true, false] {
    for delay in [None, Some(12)] {
      if !r.thorough() && low && delay.is_none() {
        continue;
      }
      let mut cfg = base(16, 16, 10);
      cfg.bitrate = if low { i32::MAX } else { 30_000 };
      cfg.quantizer = 255;
      cfg.low_latency = low;
      cfg.reservoir_frame_delay = delay;
      let c = Case::new(cfg, Content::Pan(3, 1), 5);
      let (rec, sum) = match first_pass(&c) {
        Ok(v) => v,
        Err(e) => return r.violation("first-pass", "damage twice", &e),
      };
      let mut file = sum;
      for d in &rec {
        file.extend_from_slice(d);
      }
      let nm = format!("damage2 {} delay={delay:?}", if low { "p" } else { "pyramid" });
      // Fields: counts, exponents one by one, sums, records.
      let mut fields: Vec<(usize, usize)> = (2..8).map(|i| (i * 4, 4)).collect();
      fields.extend((32..36).map(|i| (i, 1)));
      fields.extend((0..4).map(|i| (36 + 8 * i, 8)));
      fields.extend((HEAD..file.len()).step_by(4).map(|i| (i, 4)));
      let mut muts = vec![];
      for &(at, n) in &fields {
        for (k, v) in [("0", 0u64), ("1", 1), ("max", u64::MAX >> 1), ("-1", u64::MAX), ("min", 1 << 63)] {
          let top = v >> 63;
          let mut b = v.to_le_bytes()[..n].to_vec();
          if k == "max" {
            b[n - 1] = 0x7f;
          }
          if k == "min" {
            b[n - 1] = (top as u8) << 7;
          }
          muts.push((format!("@{at}={k}"), at, b));
        }
      }
      jobs.push((nm, c, file, muts));
    }
  }
  let all: Vec<(usize, usize)> =
    jobs.iter().enumerate().flat_map(|(j, x)| (0..x.3.len()).map(move |a| (j, a))).collect();
  par_for(all.len(), |k| {
    let (j, a) = all[k];
    let (nm, c, file, muts) = &jobs[j];
    for b in a + 1..muts.len() {
      if muts[a].1 == muts[b].1 {
        continue;
      }
      let name = format!("{nm} {} {}", muts[a].0, muts[b].0);
      if !r.wants(&name) {
        continue;
      }
      tick(&name);
      let mut f = file.clone();
      for m in [a, b] {
        let (_, at, v) = &muts[m];
        f[*at..*at + v.len()].copy_from_slice(v);
      }
      r.add("evaluations", 1);
      r.add("traces", 1);
      match pass2_bytes(c, &f, &Feed::All, c.frames) {
        Err(e) => r.violation("damaged", &name, &e),
        Ok((p, end, _)) => {
          r.add("states", p.len() as u64);
          r.outcome(&(p.len(), &end));
          if end == End::Finished && p.len() != c.frames {
            r.violation("frame-count", &name, &format!("{} packets", p.len()));
          }
        }
      }
    }
  });
}

/// Statistics of another video or configuration.
fn mixed(r: &Report) {
  let mut v = vec![];
  for frames in [1usize, 4, 9, 20] {
    for low in [true, false] {
      for key in [240, 3] {
        for delay in [None, Some(12)] {
          let mut cfg = base(16, 16, 10);
          cfg.bitrate = 30_000;
          cfg.quantizer = 255;
          cfg.low_latency = low;
          cfg.max_key_frame_interval = key;
          cfg.reservoir_frame_delay = delay;
          v.push((
            format!("{frames}{}{key}{delay:?}", if low { "p" } else { "b" }),
            Case::new(cfg, Content::Pan(3, 1), frames),
          ));
        }
      }
    }
  }
  let made: Vec<_> = v.iter().map(|(_, c)| first_pass(c)).collect();
  par_for(v.len() * v.len(), |k| {
    let (i, j) = (k / v.len(), k % v.len());
    let name = format!("mixed stats={} video={}", v[i].0, v[j].0);
    if !r.wants(&name) {
      return;
    }
    tick(&name);
    let (rec, sum) = match &made[i] {
      Ok(v) => v,
      Err(e) => return r.violation("first-pass", &name, e),
    };
    let c = &v[j].1;
    let mut file = sum.clone();
    for d in rec {
      file.extend_from_slice(d);
    }
    for records in [false, true] {
      r.add("evaluations", 1);
      r.add("traces", 1);
      let got = if records {
        pass2_records(c, sum, rec, (i + j) % 2 == 0)
      } else {
        pass2_bytes(c, &file, &Feed::Needed, 2).map(|(p, e, _)| (p, e))
      };
      match got {
        Err(e) => r.violation("mixed", &name, &format!("records={records}: {e}")),
        Ok((p, end)) => {
          r.outcome(&(p.len(), &end));
          if end == End::Finished && p.len() != c.frames {
            r.violation("frame-count", &name, &format!("{} packets", p.len()));
          }
          if let Err((k, e)) = judge(r, &c.cfg, &p) {
            r.violation(k, &name, &e);
          }
        }
      }
    }
  });
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("one evaluation is one first or second pass");
  sound(r);
  damaged(r);
  damaged_twice(r);
  mixed(r);
}
