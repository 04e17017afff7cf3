//! A minimal OBU splitter, written from the AV1 specification.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obu {
  pub ty: u8,
  pub ext: bool,
  pub payload: Vec<u8>,
  /// The whole OBU with header and size.
  pub total: usize,
}
pub const SEQ: u8 = 1;
pub const TD: u8 = 2;
pub const FRAME_HEADER: u8 = 3;
pub const TILE_GROUP: u8 = 4;
pub const METADATA: u8 = 5;
pub const FRAME: u8 = 6;
pub const PADDING: u8 = 15;

pub fn leb128(d: &[u8], at: &mut usize) -> Result<u64, String> {
  let mut v = 0u64;
  for i in 0..8 {
    let b = *d.get(*at).ok_or("leb128 runs past the end")?;
    *at += 1;
    v |= ((b & 0x7f) as u64) << (7 * i);
    if b & 0x80 == 0 {
      return Ok(v);
    }
  }
  Err("leb128 longer than 8 bytes".into())
}

pub fn split(d: &[u8]) -> Result<Vec<Obu>, String> {
  let mut at = 0;
  let mut v = vec![];
  while at < d.len() {
    let start = at;
    let hd = d[at];
    at += 1;
    if hd & 0x80 != 0 {
      return Err("forbidden bit set".into());
    }
    let ty = (hd >> 3) & 15;
    let ext = hd & 4 != 0;
    if hd & 1 != 0 {
      return Err("reserved bit set".into());
    }
    if ext {
      at += 1;
    }
    if hd & 2 == 0 {
      return Err("OBU without a size field".into());
    }
    let sz = leb128(d, &mut at)? as usize;
    if at + sz > d.len() {
      return Err(format!("OBU type {ty} of {sz} bytes overruns the packet"));
    }
    v.push(Obu { ty, ext, payload: d[at..at + sz].to_vec(), total: at + sz - start });
    at += sz;
  }
  Ok(v)
}

/// Bit reader for the uncompressed headers.
pub struct Bits<'a> {
  d: &'a [u8],
  pub pos: usize,
}
impl<'a> Bits<'a> {
  pub fn new(d: &'a [u8]) -> Self {
    Bits { d, pos: 0 }
  }
  pub fn f(&mut self, n: usize) -> Result<u64, String> {
    let mut v = 0;
    for _ in 0..n {
      let b = *self.d.get(self.pos / 8).ok_or("header is too short")?;
      v = v << 1 | ((b >> (7 - self.pos % 8)) & 1) as u64;
      self.pos += 1;
    }
    Ok(v)
  }
}
