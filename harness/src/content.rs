//! The content alphabet: deterministic pictures, one per encoder shortcut.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Content {
  /// One level everywhere.
  Flat(u8),
  /// Smooth ramp that drifts one sample per frame.
  Ramp,
  /// Independent full-range noise in every frame.
  Noise,
  /// The same texture translated by a fixed vector per frame.
  Pan(i16, i16),
  /// Hard-edged rectangles and stripes, one of them moving.
  Screen,
  /// Checkerboard of the extreme levels, inverted every frame.
  Extreme,
  /// A texture whose scene changes completely every `n` frames.
  Cut(u8),
  /// Flat left half, noisy right half, alternating per frame.
  Half,
  /// A texture that brightens by a step per frame.
  Fade,
  /// Mostly static texture with one moving block.
  Spot,
  /// Noise whose strength differs a little from tile to tile and frame to
  /// frame.
  Tiers,
  /// Cells in four groups, each with its own walk; two and two groups share
  /// their columns.
  Flock(u8),
  /// Cells of four samples, each at its own level of the whole range.
  Quilt,
  /// Cells of eight luma samples, each at its own level, and chroma planes
  /// that follow the luma plane (the shifts are the format's).
  Tint(u8, u8),
}

impl Content {
  pub fn name(&self) -> String {
    match self {
      Content::Flat(v) => format!("flat{v}"),
      Content::Pan(a, b) => format!("pan{a},{b}"),
      Content::Cut(n) => format!("cut{n}"),
      Content::Flock(n) => format!("flock{n}"),
      Content::Tint(a, b) => format!("tint{a}{b}"),
      o => format!("{o:?}").to_lowercase(),
    }
  }
}

#[inline]
fn h(mut x: u64) -> u64 {
  x ^= x >> 33;
  x = x.wrapping_mul(0xff51_afd7_ed55_8ccd);
  x ^= x >> 33;
  x = x.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
  x ^ (x >> 33)
}

/// Smooth value noise in 0..=255 at a cell size of 8 samples plus detail.
fn texture(seed: u64, x: i64, y: i64) -> i64 {
  let c = |cx: i64, cy: i64, s: u64| {
    (h((cx as u64).wrapping_mul(0x9e37_79b9).wrapping_add((cy as u64) << 32) ^ s)
      & 0xff) as i64
  };
  let (cx, cy) = (x.div_euclid(8), y.div_euclid(8));
  let (fx, fy) = (x.rem_euclid(8), y.rem_euclid(8));
  let s = seed.wrapping_mul(77_777);
  let a = c(cx, cy, s) * (8 - fx) + c(cx + 1, cy, s) * fx;
  let b = c(cx, cy + 1, s) * (8 - fx) + c(cx + 1, cy + 1, s) * fx;
  let v = (a * (8 - fy) + b * fy) / 64;
  (v * 7 + c(x, y, s ^ 0x55)) / 8
}

/// Sample value at bit depth `bd` for frame `n`, plane `p`.
pub fn sample(k: Content, n: usize, p: usize, x: usize, y: usize, bd: usize) -> u16 {
  let max = (1i64 << bd) - 1;
  let (xi, yi, ni, pi) = (x as i64, y as i64, n as i64, p as i64);
  let up = |v8: i64, extra: i64| -> i64 {
    // Scale an 8-bit value, filling the extra low bits from `extra`.
    let sh = bd - 8;
    (v8 << sh) | (extra & ((1 << sh) - 1))
  };
  let v = match k {
    Content::Flat(v) => up(v as i64, 0),
    Content::Ramp => {
      let t = (xi + ni) * (2 + pi) + yi * (3 - pi);
      up(t.rem_euclid(256), t)
    }
    Content::Noise => {
      (h((n as u64) << 48 | (p as u64) << 40 | (y as u64) << 20 | x as u64)
        & max as u64) as i64
    }
    Content::Pan(mx, my) => {
      let (sx, sy) = if p > 0 { (1, 1) } else { (0, 0) };
      let v = texture(
        pi as u64,
        xi + ((ni * mx as i64) >> sx),
        yi + ((ni * my as i64) >> sy),
      );
      up(v, v)
    }
    Content::Screen => {
      let m = 4 + ni * 3;
      let r = xi >= m && xi < m + 9 && yi >= 5 && yi < 14;
      let v = if r {
        235
      } else if (xi / 6 + pi) % 2 == 0 && yi % 11 < 2 {
        16
      } else if xi % 29 == 0 {
        200
      } else {
        128
      };
      up(v, 0)
    }
    Content::Extreme => {
      if (xi / 4 + yi / 4 + ni + pi) % 2 == 0 {
        max
      } else {
        0
      }
    }
    Content::Cut(c) => {
      let scene = ni / c as i64;
      let v = texture(scene as u64 * 31 + pi as u64, xi + ni, yi);
      let v = if scene % 2 == 0 { v / 2 } else { 128 + v / 2 };
      up(v, v)
    }
    Content::Half => {
      if (xi / 16 + yi / 16 + ni) % 2 == 0 {
        up(90 + pi * 20, 0)
      } else {
        (h((n as u64) << 40 ^ (p as u64) << 33 ^ (y as u64) << 16 ^ x as u64)
          & max as u64) as i64
      }
    }
    Content::Tiers => {
      let tile = (x >> 6) as u64 | (((y >> 6) as u64) << 8);
      let amp = 24 + (h(tile ^ ((n as u64) << 32)) % 24) as i64;
      let v = (h((n as u64) << 40 ^ (p as u64) << 33 ^ (y as u64) << 16 ^ x as u64)
        & 0xff) as i64;
      up(128 + (v - 128) * amp / 96, v)
    }
    Content::Flock(seed) => {
      let s = seed as u64 * 1000;
      // 8, 16 or 32 luma samples wide cells, in the same places in all planes.
      let cell = (4 << (seed % 3)) * if p == 0 { 2 } else { 1 };
      let g = h(s ^ ((xi / cell) as u64) << 32 ^ (yi / cell) as u64) % 4;
      let (mut ox, mut oy) = (0, 0);
      for t in 1..=n as u64 {
        ox += (h(s ^ t << 8 ^ (g / 2) << 50) % 7) as i64 - 3;
        oy += (h(s ^ t << 8 ^ (g + 5) << 50) % 7) as i64 - 3;
      }
      if p > 0 {
        (ox, oy) = (ox >> 1, oy >> 1);
      }
      let v = texture(pi as u64 + 10 * g, xi + ox, yi + oy);
      up(v, v)
    }
    Content::Quilt => {
      let c = h((n as u64) << 50 ^ (p as u64) << 40 ^ (y as u64 / 4) << 20 ^ x as u64 / 4);
      let c = [0, 0, max / 4, max / 2, 3 * max / 4, max, max, c as i64 & max];
      let k = h((n as u64 / 2) << 50 ^ (p as u64) << 40 ^ (y as u64 / 4) << 20 ^ (x as u64 / 4) ^ 7) % 8;
      (c[k as usize] + (h((y as u64) << 20 ^ x as u64) % 5) as i64 * max / 64).min(max)
    }
    Content::Tint(sx, sy) => {
      let (lx, ly) = if p > 0 { (x << sx, y << sy) } else { (x, y) };
      let c = h((n as u64 / 2) << 50 ^ (ly as u64 / 8) << 20 ^ lx as u64 / 8);
      let v = (c % 160) as i64 - 80 + (h((ly as u64) << 20 ^ lx as u64) % 7) as i64;
      up(128 + [v, v * 3 / 4, -v / 2][p], 0)
    }
    Content::Fade => {
      let v = (texture(pi as u64, xi, yi) / 2 + ni * 9).min(255);
      up(v, v)
    }
    Content::Spot => {
      let (ox, oy) = (8 + ni * 5, 6 + ni * 2);
      let v = if xi >= ox && xi < ox + 12 && yi >= oy && yi < oy + 12 {
        texture(99, xi - ox, yi - oy)
      } else {
        texture(pi as u64, xi, yi)
      };
      up(v, v)
    }
  };
  v.clamp(0, max) as u16
}
