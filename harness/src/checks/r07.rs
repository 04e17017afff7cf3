//! Where key frames are, and that decoding can start at each of them.
use crate::dec::*;
use crate::lattice::*;
use crate::*;
use rav1e::prelude::SceneDetectionSpeed as SD;

fn judge(r: &Report, name: &str, case: &Case, two: bool) {
  if !r.wants(name) {
    return;
  }
  r.add("evaluations", 1);
  tick(name);
  let p = match encode(case, Want { rec: true, src: false }) {
    Ok(p) => p,
    Err(e) => return r.violation("encode-fails", name, &e),
  };
  let (min, max) =
    (case.cfg.min_key_frame_interval as usize, case.cfg.max_key_frame_interval as usize);
  let max = if max == 0 { usize::MAX } else { max };
  let exact = case.cfg.speed_settings.scene_detection_mode == SD::None;
  if p.len() != case.frames {
    return r.violation("frame-count", name, &format!("{} packets", p.len()));
  }
  // Placement.
  let mut last = 0;
  for (i, x) in p.iter().enumerate() {
    let key = x.ty == FrameType::KEY;
    let forced = case.fp.get(&i).is_some_and(|f| f.key);
    let dist = i - last;
    let due = i == 0 || forced || dist >= max;
    if due && !key {
      let why = if i == 0 {
        "the first frame"
      } else if forced {
        "a forced frame"
      } else {
        "the maximum interval"
      };
      return r.violation("missing-key", name, &format!("frame {i} is {:?}: {why}", x.ty));
    }
    if key && !due && (exact || dist < min) {
      return r.violation(
        "unexpected-key",
        name,
        &format!("frame {i} is a key frame, {dist} after the last (minimum {min})"),
      );
    }
    if key {
      last = i;
    }
    if exact && case.cfg.switch_frame_interval > 0 && case.cfg.low_latency {
      let sw = !key && dist as u64 % case.cfg.switch_frame_interval == 0;
      if sw != (x.ty == FrameType::SWITCH) {
        return r.violation("switch", name, &format!("frame {i} is {:?}", x.ty));
      }
    }
  }
  // Every key packet carries all a decoder needs.
  let which: &[Which] = if two { &[Which::Dav1d, Which::Aom] } else { &[Which::Dav1d] };
  for &w in which {
    let mut transitions = 0;
    for k in (0..p.len()).filter(|&k| p[k].ty == FrameType::KEY) {
      let mut d = Decoder::new(w);
      for (i, x) in p.iter().enumerate().skip(k) {
        transitions += 1;
        let pics = match d.feed(&x.data) {
          Ok(v) => v,
          Err(e) => {
            return r.violation(
              "random-access",
              name,
              &format!("decoding from packet {k}: packet {i}: {e}"),
            )
          }
        };
        if pics.len() != 1 {
          return r.violation(
            "random-access",
            name,
            &format!("decoding from packet {k}: packet {i} shows {} frames", pics.len()),
          );
        }
        if Some(&pics[0].planes) != x.rec.as_ref() {
          return r.violation(
            "random-access",
            name,
            &format!("decoding from packet {k}: frame {i} differs from the reconstruction"),
          );
        }
        if w == Which::Dav1d {
          let h = pics[0].r.frame_type;
          // KEY 0, INTER 1, INTRA_ONLY 2, SWITCH 3
          let e = match x.ty {
            FrameType::KEY => 0,
            FrameType::INTER => 1,
            FrameType::INTRA_ONLY => 2,
            FrameType::SWITCH => 3,
          };
          if h != e {
            return r.violation(
              "frame-type",
              name,
              &format!("packet {i} is announced as {:?}, the stream has type {h}", x.ty),
            );
          }
        }
        // Later key frames are starting points of their own.
        if i > k + 12 {
          break;
        }
      }
    }
    r.add("transitions", transitions);
  }
  for x in &p {
    let has = match obu::split(&x.data) {
      Ok(o) => o.iter().any(|o| o.ty == obu::SEQ),
      Err(e) => return r.violation("obu", name, &e),
    };
    if has != (x.ty == FrameType::KEY) {
      return r.violation(
        "sequence-header",
        name,
        &format!("packet {}: {:?}, sequence header: {has}", x.no, x.ty),
      );
    }
  }
  r.add("states", p.len() as u64);
  r.add("traces", 1);
  let sig: Vec<u8> = p.iter().map(|x| x.ty as u8).collect();
  r.outcome(&(sig, case.cfg.low_latency, case.cfg.speed_settings.rdo_lookahead_frames));
  r.sample(name.to_string());
}

pub fn plan(t: bool) -> Vec<(String, Case)> {
  let mut v = vec![];
  let n = if t { 12 } else { 10 };
  // All subsets of forced frames x intervals x order x lookahead.
  for (ll, multiref) in [(true, true), (true, false), (false, true)] {
    for max in [1u64, 2, 3, 5, 6, 0] {
      for min in [0u64, 2, 4] {
        if min > max && max != 0 || (min > 0 && multiref != ll && !t) {
          continue;
        }
        for la in [1usize, 4] {
          if !t && la == 4 && !(max == 3 || max == 0 || max == 6) {
            continue;
          }
          for mask in 0..1u32 << n {
            if mask & 1 == 1 && mask != 1 && mask != 3 && !t {
              continue;
            }
            let mut cfg = base(16, 16, 10);
            cfg.speed_settings.rdo_lookahead_frames = la;
            cfg.speed_settings.multiref = multiref;
            cfg.low_latency = ll;
            cfg.min_key_frame_interval = min;
            cfg.max_key_frame_interval = max;
            cfg.quantizer = 180;
            let mut c = Case::new(cfg, Content::Half, n);
            for i in (0..n).filter(|i| mask >> i & 1 == 1) {
              c.fp.insert(i, FP { key: true, ..FP::default() });
            }
            v.push((
              format!("low-latency={ll} multiref={multiref} max={max} min={min} lookahead={la} forced={mask:b}"),
              c,
            ));
          }
        }
      }
    }
  }
  // All lengths against all intervals: the tail of the video.
  for ll in [true, false] {
    for frames in 1..=if t { 40 } else { 20 } {
      for max in 1..=if t { 20 } else { 11 } {
        for sd in [SD::None, SD::Fast] {
          let mut cfg = base(16, 16, 10);
          cfg.speed_settings.rdo_lookahead_frames = 1 + frames % 3;
          cfg.speed_settings.scene_detection_mode = sd;
          cfg.low_latency = ll;
          cfg.max_key_frame_interval = max;
          cfg.min_key_frame_interval = (max / 2).min(frames as u64 / 3);
          cfg.quantizer = 200;
          v.push((
            format!("tail low-latency={ll} frames={frames} max={max} detection={sd:?}"),
            Case::new(cfg, Content::Cut(3), frames),
          ));
        }
      }
    }
  }
  // Scene detection with every kind of content.
  let axes = vec![
    axis("detection").v("standard", |c: &mut Case| {
      c.cfg.speed_settings.scene_detection_mode = SD::Standard
    }),
    axis("order").v("low-latency", |c: &mut Case| c.cfg.low_latency = true),
    axis("min").v(3, |c: &mut Case| c.cfg.min_key_frame_interval = 3),
    axis("max").v(5, |c: &mut Case| c.cfg.max_key_frame_interval = 5),
    axis("force").v("5", |c: &mut Case| {
      c.fp.insert(5, FP { key: true, ..FP::default() });
    }),
    ax_bd(&[10, 16]),
    ax_cs(&[CS400, CS444]),
    axis("size").v("40x24", |c: &mut Case| {
      c.cfg.width = 40;
      c.cfg.height = 24;
    }),
    {
      let mut a = ax_content(&CONTENTS);
      for k in [1u8, 3, 4, 5, 6, 7] {
        a = a.v(format!("cut{k}"), move |c: &mut Case| c.content = Content::Cut(k));
      }
      a
    },
  ];
  let mut cfg = base(32, 32, 10);
  cfg.speed_settings.scene_detection_mode = SD::Fast;
  cfg.low_latency = false;
  cfg.max_key_frame_interval = 9;
  cfg.quantizer = 150;
  for d in if t { product(&axes) } else { deviations(&axes, 3) } {
    let mut c = Case::new(cfg.clone(), Content::Cut(4), 14);
    apply(&axes, &d, &mut c);
    v.push((format!("detect {}", lattice::name(&axes, &d)), c));
  }
  // Switch frames.
  for sw in 1..=5u64 {
    for max in [2u64, 4, 7, 0] {
      for mask in [0u32, 0b1000, 0b101000, 0b110010] {
        let mut cfg = base(16, 16, 10);
        cfg.speed_settings.rdo_lookahead_frames = 1;
        cfg.switch_frame_interval = sw;
        cfg.max_key_frame_interval = max;
        let mut c = Case::new(cfg, Content::Half, 9);
        for i in (0..9).filter(|i| mask >> i & 1 == 1) {
          c.fp.insert(i, FP { key: true, ..FP::default() });
        }
        v.push((format!("switch={sw} max={max} forced={mask:b}"), c));
      }
    }
  }
  v
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("a case is one history of frames and forced key frames; distinct cases differ in the types of the packets");
  r.assume("libdav1d (strict) implements the AV1 decoding process");
  let p = plan(r.thorough());
  par_for(p.len(), |i| judge(r, &p[i].0, &p[i].1, r.thorough()));
}
