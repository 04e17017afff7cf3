//! Tile layouts: legal, as requested, and what the stream says.
use crate::dec::*;
use crate::*;
use rav1e::prelude::*;

/// The tile limits of the standard for a picture, in 64x64 superblocks.
struct Limits {
  cols: usize,
  rows: usize,
  min_cols_log2: usize,
  max_cols_log2: usize,
  max_rows_log2: usize,
  min_log2: usize,
}
fn log2(blk: usize, target: usize) -> usize {
  (0..).find(|&k| blk << k >= target).unwrap()
}
fn limits(w: usize, h: usize) -> Limits {
  let cols = (2 * w.div_ceil(8)).div_ceil(16);
  let rows = (2 * h.div_ceil(8)).div_ceil(16);
  let min_cols_log2 = log2(4096 / 64, cols);
  Limits {
    cols,
    rows,
    min_cols_log2,
    max_cols_log2: log2(1, cols.min(64)),
    max_rows_log2: log2(1, rows.min(64)),
    min_log2: min_cols_log2.max(log2(4096 * 2304 / 4096, rows * cols)),
  }
}

/// Whether a stream can describe tiles of this size.
fn describable(l: &Limits, tw: usize, th: usize) -> Result<bool, String> {
  let cols = l.cols.div_ceil(tw);
  let rows = l.rows.div_ceil(th);
  if cols > 64 || rows > 64 {
    return Err(format!("{cols}x{rows} tiles"));
  }
  if tw.min(l.cols) > 64 {
    return Err(format!("a tile is {} samples wide", tw * 64));
  }
  for cl in l.min_cols_log2..=l.max_cols_log2 {
    let lo = l.min_log2.saturating_sub(cl);
    for rl in lo..=l.max_rows_log2 {
      let (uw, uh) = ((l.cols + (1 << cl) - 1) >> cl, (l.rows + (1 << rl) - 1) >> rl);
      if (uw, uh) == (tw.min(l.cols), th.min(l.rows)) {
        return Ok(true);
      }
    }
  }
  // Explicit sizes.
  let area = l.cols * l.rows;
  let max_area = if l.min_log2 > 0 { area >> (l.min_log2 + 1) } else { area };
  let widest = tw.min(l.cols);
  let max_h = (max_area / widest).max(1);
  if th.min(l.rows) > max_h {
    return Err(format!(
      "tiles of {tw}x{th} superblocks can be described neither as uniform nor, being more than {max_h} high, explicitly"
    ));
  }
  Ok(false)
}

struct Req {
  w: usize,
  h: usize,
  tc: usize,
  tr: usize,
  tiles: usize,
  cs: ChromaSampling,
  base: (u64, u64),
}
fn config(q: &Req) -> EncoderConfig {
  let mut c = base(q.w, q.h, 10);
  c.tile_cols = q.tc;
  c.tile_rows = q.tr;
  c.tiles = q.tiles;
  c.chroma_sampling = q.cs;
  c.time_base = Rational { num: q.base.0, den: q.base.1 };
  c.quantizer = 255;
  c.still_picture = true;
  c
}
fn name(q: &Req) -> String {
  format!(
    "{}x{} cols={} rows={} tiles={} {:?} base={}/{}",
    q.w, q.h, q.tc, q.tr, q.tiles, q.cs, q.base.0, q.base.1
  )
}

fn layout(r: &Report, q: &Req) {
  let n = name(q);
  if !r.wants(&n) {
    return;
  }
  r.add("evaluations", 1);
  let ti = match guarded(|| Config::new().with_encoder_config(config(q)).tiling_info()) {
    Ok(Ok(t)) => t,
    Ok(Err(e)) => {
      // The level limits may reject sizes, none is set here.
      return r.violation("rejected", &n, &format!("{e:?}"));
    }
    Err(e) => return r.violation("panic", &n, &e),
  };
  let l = limits(q.w, q.h);
  let bad = |k: &str, e: String| r.violation(k, &n, &e);
  let uniform = match describable(&l, ti.tile_width_sb, ti.tile_height_sb) {
    Ok(u) => u,
    Err(e) => return bad("not-describable", e),
  };
  let cols = l.cols.div_ceil(ti.tile_width_sb);
  let rows = l.rows.div_ceil(ti.tile_height_sb);
  if (ti.cols, ti.rows) != (cols, rows) {
    return bad("count", format!("{}x{} tiles announced, {cols}x{rows} cover the picture", ti.cols, ti.rows));
  }
  if (ti.tile_cols_log2, ti.tile_rows_log2) != (log2(1, cols), log2(1, rows)) {
    return bad("log2", format!("{cols}x{rows} tiles, log2 {} {}", ti.tile_cols_log2, ti.tile_rows_log2));
  }
  let f = (ti.min_tile_cols_log2, ti.max_tile_cols_log2, ti.max_tile_rows_log2, ti.min_tiles_log2);
  if f != (l.min_cols_log2, l.max_cols_log2, l.max_rows_log2, l.min_log2) {
    return bad("limits", format!("{f:?}"));
  }
  if ti.min_tile_rows_log2 != l.min_log2.saturating_sub(ti.tile_cols_log2) {
    return bad("limits", format!("min_tile_rows_log2 {}", ti.min_tile_rows_log2));
  }
  // Tiles the sample rate of the highest level calls for.
  let rate = (q.w.next_multiple_of(8) * q.h.next_multiple_of(8)) as f64 * q.base.1 as f64
    / q.base.0 as f64
    / (4096.0 * 2176.0 * 60.0 * 1.1);
  let rate_log2 = rate.ceil().log2().ceil() as usize;
  let max = 1usize << (l.max_cols_log2 + l.max_rows_log2).min(60);
  let is422 = q.cs == CS422;
  if q.tiles == 0 {
    // As requested, within the limits.
    let want = log2(1, q.tc.max(1)).clamp(l.min_cols_log2, l.max_cols_log2);
    let even = |w: usize| if is422 { w.next_multiple_of(2) } else { w };
    let tw = even((l.cols + (1 << want) - 1) >> want);
    // Explicit sizes may need narrower tiles to keep to the tile limits.
    let area = l.cols * l.rows;
    let max_area = if l.min_log2 > 0 { area >> (l.min_log2 + 1) } else { area };
    let hard = is422 && l.rows.div_ceil((max_area / tw).max(1)) > 64;
    if ti.tile_width_sb != tw && !(hard && ti.tile_width_sb < tw) {
      return bad("cols", format!("tiles are {} superblocks wide, not {tw}", ti.tile_width_sb));
    }
    let lo = l.min_log2.max(rate_log2).saturating_sub(ti.tile_cols_log2);
    let want = log2(1, q.tr.max(1)).max(lo).min(l.max_rows_log2);
    let th = (l.rows + (1 << want) - 1) >> want;
    // Tiles whose sizes must be listed may need to be lower.
    if ti.tile_height_sb != th && (uniform || ti.tile_height_sb > th) {
      return bad("rows", format!("tiles are {} superblocks high, not {th}", ti.tile_height_sb));
    }
  } else {
    let got = cols * rows;
    let most = l.cols.min(64) * l.rows.min(64);
    let evens = l.cols.div_ceil(2).min(64) * l.rows.min(64);
    // Powers of two of whole superblocks per tile are all there is.
    let finest = l.cols.div_ceil((l.cols + (1 << l.max_cols_log2) - 1) >> l.max_cols_log2)
      * l.rows.div_ceil((l.rows + (1 << l.max_rows_log2) - 1) >> l.max_rows_log2);
    let cap = if is422 { evens.min(finest) } else { most.min(finest) };
    if got < q.tiles.min(cap) && !is422 || (is422 && got < q.tiles.min(cap) / 2) {
      return bad("tiles", format!("{got} tiles, {} requested, {cap} possible", q.tiles));
    }
    // Doubling until there are enough overshoots at most fourfold.
    let floor = 1usize << l.min_log2.max(rate_log2).min(20);
    if uniform && got > 2 * q.tiles.max(floor) && got > 4 {
      return bad("tiles", format!("{got} tiles, {} requested", q.tiles));
    }
    let _ = max;
  }
  r.outcome(&(l.cols, l.rows, ti.tile_width_sb, ti.tile_height_sb, is422));
  r.add("states", 1);
}

/// The stream has the announced tiles, and decodes.
fn stream(r: &Report, q: &Req, two: bool) {
  let n = format!("stream {}", name(q));
  if !r.wants(&n) {
    return;
  }
  r.add("evaluations", 1);
  let cfg = config(q);
  let ti = match guarded(|| Config::new().with_encoder_config(cfg.clone()).tiling_info()) {
    Ok(Ok(t)) => t,
    Ok(Err(e)) => return r.violation("rejected", &n, &format!("{e:?}")),
    Err(e) => return r.violation("panic", &n, &e),
  };
  let c = Case::new(cfg, Content::Ramp, 1);
  let p = match encode(&c, Want { rec: true, src: false }) {
    Ok(p) => p,
    Err(e) => return r.violation("encode-fails", &n, &e),
  };
  let l = limits(q.w, q.h);
  let mut which = vec![Which::Dav1d];
  if two {
    which.push(Which::Aom);
  }
  for w in which {
    let mut d = Decoder::new(w);
    let pics = match d.feed(&p[0].data) {
      Ok(v) => v,
      Err(e) => return r.violation("decode", &n, &e),
    };
    if pics.len() != 1 || Some(&pics[0].planes) != p[0].rec.as_ref() {
      return r.violation("decode", &n, &format!("{w:?} shows something else"));
    }
    if w == Which::Dav1d {
      let h = &pics[0].r;
      let starts = |size: usize, total: usize| -> Vec<u16> {
        (0..total.div_ceil(size)).map(|i| (i * size) as u16).collect()
      };
      let (gc, gr) = (
        h.col_start[..h.tile_cols as usize].to_vec(),
        h.row_start[..h.tile_rows as usize].to_vec(),
      );
      let (wc, wr) = (starts(ti.tile_width_sb, l.cols), starts(ti.tile_height_sb, l.rows));
      if gc != wc || gr != wr {
        return r.violation(
          "header",
          &n,
          &format!("the stream has tiles at {gc:?} x {gr:?}, announced were {wc:?} x {wr:?}"),
        );
      }
    }
  }
  r.add("traces", 1);
  r.add("transitions", 1);
  r.sample(n);
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("a layout case is one picture size and tile request; distinct cases differ in picture size in superblocks or in the tiles; stream cases bind the layout to real packets");
  r.assume("libdav1d (strict) parses tile descriptions as the standard says");
  let t = r.thorough();
  let logs: Vec<usize> = vec![0, 1, 2, 4, 8, 16, 32, 64];
  let (css, base) = ([CS420, CS422], (1, 30));
  // All sizes in superblocks.
  let m = if t { 192 } else { 80 };
  par_for(m * m, |i| {
    let (a, b) = (i % m + 1, i / m + 1);
    for cs in css {
      for &tc in &logs {
        for &tr in &logs {
          if tc == 0 && tr > 1 || tr == 0 && tc > 1 {
            continue;
          }
          layout(r, &Req { w: a * 64, h: b * 64, tc, tr, tiles: 0, cs, base });
        }
      }
    }
  });
  // Long and large pictures.
  let big = [1, 2, 3, 31, 33, 63, 64, 65, 70, 96, 127, 128, 129, 130, 191, 193, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1022, 1023];
  par_for(big.len() * big.len(), |i| {
    let (a, b) = (big[i % big.len()], big[i / big.len()]);
    for cs in css {
      for &tc in &logs {
        for &tr in &logs {
          layout(r, &Req { w: a * 64, h: b * 64, tc, tr, tiles: 0, cs, base });
        }
      }
      for tiles in [1, 2, 3, 5, 8, 16, 33, 64, 100, 128, 1000, 4096, 5000] {
        layout(r, &Req { w: a * 64, h: b * 64, tc: 0, tr: 0, tiles, cs, base });
      }
    }
  });
  // Sizes that are no multiple of anything.
  let odd = [16, 17, 23, 56, 57, 63, 65, 71, 72, 73, 120, 121, 127, 129, 185, 193, 4095, 4097, 8185, 8193, 65535];
  par_for(odd.len() * odd.len(), |i| {
    let (w, h) = (odd[i % odd.len()], odd[i / odd.len()]);
    for cs in [CS400, CS420, CS422, CS444] {
      for &tc in &logs {
        for &tr in &logs {
          layout(r, &Req { w, h, tc, tr, tiles: 0, cs, base });
        }
      }
    }
  });
  // Every number of tiles.
  let m = if t { 64 } else { 32 };
  par_for(m * m, |i| {
    let (a, b) = (i % m + 1, i / m + 1);
    for cs in css {
      for tiles in 1..=if t { 300 } else { 70 } {
        layout(r, &Req { w: a * 64 - 8, h: b * 64 - 30, tc: 0, tr: 0, tiles, cs, base });
      }
    }
  });
  // Frame rates: level limits ask for more tiles.
  let rates = [(1u64, 1u64), (1, 60), (1, 120), (1001, 60000), (1, 240), (1, 1000), (1, 10_000), (1, 100_000), (1, 10_000_000), (1, u32::MAX as u64), (u32::MAX as u64, 1)];
  let m = if t { 40 } else { 20 };
  par_for(rates.len() * m * m, |i| {
    let base = rates[i % rates.len()];
    let (a, b) = (i / rates.len() % m + 1, i / rates.len() / m + 1);
    for f in [1, 3] {
      for (tc, tr) in [(0, 0), (2, 1), (1, 2), (8, 8), (64, 1)] {
        layout(r, &Req { w: a * 64 * f, h: b * 64 * f, tc, tr, tiles: 0, cs: CS420, base });
      }
      for tiles in [1, 7, 32] {
        layout(r, &Req { w: a * 64 * f, h: b * 64 * f, tc: 0, tr: 0, tiles, cs: CS420, base });
      }
    }
  });
  // Real streams.
  let mut v = vec![];
  let (mw, mh) = if t { (20, 12) } else { (10, 6) };
  for a in 1..=mw {
    for b in 1..=mh {
      for (cs, tc, tr) in [
        (CS420, 2, 1), (CS420, 1, 2), (CS420, 4, 4), (CS420, 64, 64), (CS420, 8, 2), (CS422, 2, 2),
        (CS422, 4, 1), (CS422, 8, 4), (CS422, 64, 64), (CS444, 2, 4), (CS400, 4, 2),
      ] {
        if !t && (a * b > 24 && !(tc == 4 && tr == 4) && cs != CS422) {
          continue;
        }
        v.push(Req { w: a * 64 - 9 * (b % 2), h: b * 64 - 17 * (a % 3), tc, tr, tiles: 0, cs, base });
      }
      if a * b <= 24 {
        for tiles in [2, 3, 5, 8, 13] {
          v.push(Req { w: a * 64, h: b * 64, tc: 0, tr: 0, tiles, cs: if a % 2 == 0 { CS420 } else { CS422 }, base });
        }
      }
    }
  }
  // Pictures that need several tiles.
  for (w, h, tc, tr, cs) in [
    (4160, 16, 0, 0, CS420), (4160, 16, 1, 1, CS422), (4480, 40, 2, 1, CS422), (8256, 16, 4, 1, CS420),
    (4288, 64, 64, 1, CS420), (4352, 24, 64, 1, CS422), (16, 4352, 1, 64, CS420), (16, 8200, 1, 1, CS422),
    (4480, 2304, 1, 1, CS422), (4096, 2368, 1, 1, CS420),
  ] {
    v.push(Req { w, h, tc, tr, tiles: 0, cs, base });
  }
  if t {
    for (w, h, tc, tr, cs) in [
      (4224, 4480, 1, 1, CS422), (5000, 2304, 2, 2, CS422), (8192, 1280, 1, 1, CS420), (2112, 5000, 2, 1, CS422),
      (2880, 4096, 1, 1, CS422), (65535, 16, 1, 1, CS420), (16, 65535, 1, 64, CS420), (2200, 4608, 1, 1, CS422),
    ] {
      v.push(Req { w, h, tc, tr, tiles: 0, cs, base });
    }
  }
  v.reverse();
  par_for(v.len(), |i| stream(r, &v[i], t));
}
