//! The symbol coder: whatever is written is read back by the decoding process
//! of the standard, through any mix of codes, adaptation, recording and
//! rollback.
use crate::*;
use bitstream_io::{BigEndian, BitWriter};
use rav1e::bench::context::*;
use rav1e::bench::ec::{update_cdf, BCodeWriter, Writer, WriterCounter, WriterEncoder, WriterRecorder};
use rav1e::bench::tiling::*;
use rav1e::prelude::ChromaSampling;

/// The decoding process of the standard (8.2), written from its text.
struct Dec<'a> {
  data: &'a [u8],
  pos: usize,
  value: u32,
  range: u32,
  max_bits: i64,
  consumed: u32,
  reads: u32,
}

impl<'a> Dec<'a> {
  fn f(&mut self, n: u32) -> u32 {
    let mut v = 0;
    for _ in 0..n {
      v = v << 1 | (self.data[self.pos >> 3] >> (7 - (self.pos & 7)) & 1) as u32;
      self.pos += 1;
    }
    v
  }
  fn new(data: &'a [u8]) -> Self {
    let mut d = Dec {
      data,
      pos: 0,
      value: 0,
      range: 1 << 15,
      max_bits: 8 * data.len() as i64 - 15,
      consumed: 0,
      reads: 0,
    };
    let n = (data.len() * 8).min(15) as u32;
    let buf = d.f(n);
    d.value = ((1 << 15) - 1) ^ (buf << (15 - n));
    d
  }
  /// `cdf` as in the standard: increasing, the counter after 32768.
  fn symbol(&mut self, cdf: &[u16]) -> u32 {
    let n = cdf.len() - 1;
    let mut cur = self.range;
    let mut s = 0;
    let prev = loop {
      let prev = cur;
      let f = (1 << 15) - cdf[s] as u32;
      cur = (((self.range >> 8) * (f >> 6)) >> 1) + 4 * (n - s - 1) as u32;
      if self.value >= cur {
        break prev;
      }
      s += 1;
    };
    self.range = prev - cur;
    self.value -= cur;
    let bits = 15 - self.range.ilog2();
    self.range <<= bits;
    let n = (bits as i64).min(self.max_bits.max(0)) as u32;
    let data = self.f(n);
    self.value = (data << (bits - n)) ^ (((self.value + 1) << bits) - 1);
    self.max_bits -= bits as i64;
    self.consumed += bits;
    s as u32
  }
  fn adapt(&mut self, cdf: &mut [u16]) -> u32 {
    let s = self.symbol(cdf);
    let n = cdf.len() - 1;
    let c = cdf[n];
    let rate = 3 + u32::from(c > 15) + u32::from(c > 31) + (n.ilog2()).min(2);
    let mut tmp = 0u16;
    for i in 0..n - 1 {
      if i as u32 == s {
        tmp = 1 << 15;
      }
      if tmp < cdf[i] {
        cdf[i] -= (cdf[i] - tmp) >> rate;
      } else {
        cdf[i] += (tmp - cdf[i]) >> rate;
      }
    }
    cdf[n] += u16::from(c < 32);
    s
  }
  fn l(&mut self, n: u32) -> u32 {
    let mut v = 0;
    for _ in 0..n {
      self.reads += 1;
      v = v << 1 | self.symbol(&[1 << 14, 1 << 15, 0]);
    }
    v
  }
  fn golomb(&mut self) -> Result<u32, String> {
    let mut len = 0;
    while {
      len += 1;
      self.l(1) == 0
    } {
      if len > 20 {
        return Err("Golomb code longer than the standard allows".into());
      }
    }
    let mut x = 1u32;
    for _ in 0..len - 1 {
      x = x << 1 | self.l(1);
    }
    Ok(x - 1)
  }
  fn exit(&mut self) -> Result<(), String> {
    if self.max_bits < -14 {
      return Err(format!("too little data: SymbolMaxBits is {}", self.max_bits));
    }
    let p = self.pos as i64 - 15.min(self.max_bits + 15);
    let bit = |i: usize| self.data[i >> 3] >> (7 - (i & 7)) & 1;
    if p < 0 || p as usize >= 8 * self.data.len() || bit(p as usize) != 1 {
      return Err(format!("no trailing bit at {p}"));
    }
    for i in p as usize + 1..8 * self.data.len() {
      if bit(i) != 0 {
        return Err(format!("padding bit {i} is not zero"));
      }
    }
    Ok(())
  }
}

/// Where the fixed-length and the adaptive parts of the codes read bits from.
trait Bits {
  fn bits(&mut self, n: u32) -> u32;
  fn ns(&mut self, n: u32) -> u32 {
    let w = n.ilog2() + 1;
    let m = (1u32 << w) - n;
    let v = self.bits(w - 1);
    if v < m {
      return v;
    }
    let e = self.bits(1);
    (v << 1) - m + e
  }
  fn subexp(&mut self, n: u32, k: u32) -> u32 {
    let (mut i, mut mk) = (0, 0);
    loop {
      let b2 = if i != 0 { k + i - 1 } else { k };
      let a = 1 << b2;
      if n <= mk + 3 * a {
        return self.ns(n - mk) + mk;
      }
      if self.bits(1) == 0 {
        return self.bits(b2) + mk;
      }
      i += 1;
      mk += a;
    }
  }
  fn unsigned_ref(&mut self, mx: u32, k: u32, r: u32) -> u32 {
    let inv = |r: u32, v: u32| {
      if v > 2 * r {
        v
      } else if v & 1 == 1 {
        r - ((v + 1) >> 1)
      } else {
        r + (v >> 1)
      }
    };
    let v = self.subexp(mx, k);
    if r << 1 <= mx {
      inv(r, v)
    } else {
      mx - 1 - inv(mx - 1 - r, v)
    }
  }
  fn signed_ref(&mut self, low: i32, high: i32, k: u32, r: i32) -> i32 {
    self.unsigned_ref((high - low) as u32, k, (r - low) as u32) as i32 + low
  }
}
impl Bits for Dec<'_> {
  fn bits(&mut self, n: u32) -> u32 {
    self.l(n)
  }
}
impl Bits for obu::Bits<'_> {
  fn bits(&mut self, n: u32) -> u32 {
    self.f(n as usize).unwrap_or(u32::MAX as _) as u32
  }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
  /// A symbol of a fixed distribution.
  Sym(&'static [u16], u32),
  /// A symbol of an adaptive one: offset, length, symbol.
  Upd(usize, usize, u32),
  /// The same many times.
  Run(usize, usize, u32, u32),
  Bool(bool, u16),
  Literal(u8, u32),
  Golomb(u32),
  Quni(u32, u32),
  Subexp(u32, u8, u32),
  Uref(u32, u8, u32, u32),
  Sref(i32, i32, u8, i32, i32),
  Save,
  Restore,
}

macro_rules! by_len {
  ($n:expr, $N:ident => $e:expr, [$($l:literal)*]) => {
    match $n { $($l => { const $N: usize = $l; $e })* _ => unreachable!() }
  };
  ($n:expr, $N:ident => $e:expr) => {
    by_len!($n, $N => $e, [2 3 4 5 6 7 8 9 10 11 12 13 14 15 16])
  };
}

fn upd<W: Writer>(w: &mut W, cw: &mut ContextWriter, off: usize, n: usize, s: u32) {
  by_len!(n, N => {
    // The offset of one of the arrays inside the context.
    let p = unsafe { (&*cw.fc as *const CDFContext as *const u8).add(off) } as *const [u16; N];
    let o = cw.fc.offset::<N>(p);
    w.symbol_with_update(s, o, &mut cw.fc_log, cw.fc);
  })
}

fn write<W: Writer>(w: &mut W, cw: &mut ContextWriter, op: Op) {
  match op {
    Op::Sym(cdf, s) => by_len!(cdf.len(), N => w.symbol::<N>(s, cdf.try_into().unwrap())),
    Op::Upd(off, n, s) => upd(w, cw, off, n, s),
    Op::Run(off, n, s, times) => {
      for _ in 0..times {
        upd(w, cw, off, n, s)
      }
    }
    Op::Bool(v, f) => w.bool(v, f),
    Op::Literal(b, v) => w.literal(b, v),
    Op::Golomb(v) => w.write_golomb(v),
    Op::Quni(n, v) => w.write_quniform(n, v),
    Op::Subexp(n, k, v) => w.write_subexp(n, k, v),
    Op::Uref(n, k, r, v) => w.write_unsigned_subexp_with_ref(v, n, k, r),
    Op::Sref(lo, hi, k, r, v) => w.write_signed_subexp_with_ref(v, lo, hi, k, r),
    Op::Save | Op::Restore => {}
  }
}

fn count<W: Writer>(w: &W, op: Op) -> Option<u32> {
  Some(match op {
    Op::Quni(n, v) => w.count_quniform(n, v),
    Op::Subexp(n, k, v) => w.count_subexp(n, k, v),
    Op::Uref(n, k, r, v) => w.count_unsigned_subexp_with_ref(v, n, k, r),
    Op::Sref(lo, hi, k, r, v) => w.count_signed_subexp_with_ref(v, lo, hi, k, r),
    _ => return None,
  })
}

fn ne<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Result<(), String> {
  if got == want {
    Ok(())
  } else {
    Err(format!("{what}: {got:?}, expected {want:?}"))
  }
}

/// The distributions in the form of the standard.
fn spec_cdf(inv: &[u16]) -> Vec<u16> {
  let n = inv.len();
  let mut v: Vec<u16> = inv[..n - 1].iter().map(|x| 32768 - x).collect();
  v.extend([32768, inv[n - 1]]);
  v
}

fn words(fc: &CDFContext) -> &[u16] {
  // A repr(C) struct of u16 arrays.
  unsafe {
    std::slice::from_raw_parts(fc as *const _ as *const u16, std::mem::size_of::<CDFContext>() / 2)
  }
}

/// Reads the operations back.
fn read_back(data: &[u8], ops: &[Op], fc: &CDFContext, counts: &[(usize, u32)]) -> Result<(Vec<u16>, u32), String> {
  let mut w = words(fc).to_vec();
  let mut d = Dec::new(data);
  let mut counts = counts.iter();
  for (i, op) in ops.iter().enumerate() {
    let at = |e: String| format!("operation {i} {op:?}: {e}");
    let r0 = d.reads;
    match *op {
      Op::Sym(c, s) => ne("symbol", d.symbol(&spec_cdf(c)), s).map_err(at)?,
      Op::Upd(off, n, s) | Op::Run(off, n, s, _) => {
        let times = if let Op::Run(.., t) = *op { t } else { 1 };
        for _ in 0..times {
          let mut c = spec_cdf(&w[off / 2..][..n]);
          ne("symbol", d.adapt(&mut c), s).map_err(at)?;
          for j in 0..n - 1 {
            w[off / 2 + j] = 32768 - c[j];
          }
          w[off / 2 + n - 1] = c[n];
        }
      }
      Op::Bool(v, f) => ne("bool", d.symbol(&[32768 - f, 32768, 0]), v as u32).map_err(at)?,
      Op::Literal(n, v) => ne("literal", d.l(n as u32), v).map_err(at)?,
      Op::Golomb(v) => ne("golomb", d.golomb().map_err(at)?, v).map_err(at)?,
      Op::Quni(n, v) => ne("quniform", if n > 1 { d.ns(n) } else { 0 }, v).map_err(at)?,
      Op::Subexp(n, k, v) => ne("subexp", d.subexp(n, k as u32), v).map_err(at)?,
      Op::Uref(n, k, r, v) => ne("unsigned", d.unsigned_ref(n, k as u32, r), v).map_err(at)?,
      Op::Sref(lo, hi, k, r, v) => ne("signed", d.signed_ref(lo, hi, k as u32, r), v).map_err(at)?,
      Op::Save | Op::Restore => {}
    }
    if let Op::Quni(..) | Op::Subexp(..) | Op::Uref(..) | Op::Sref(..) = op {
      let c = counts.next().ok_or_else(|| at("not counted".into()))?;
      ne("counted bits", c.1, (d.reads - r0) << 3).map_err(at)?;
    }
  }
  d.exit()?;
  Ok((w, d.consumed))
}

struct Arena<'a> {
  fc0: CDFContext,
  cw: [ContextWriter<'a>; 3],
}

/// Runs `f` with three writers' contexts.
fn with_arena<T>(f: impl FnOnce(&mut Arena) -> T) -> T {
  with_tables(100, f)
}

fn with_tables<T>(q: u8, f: impl FnOnce(&mut Arena) -> T) -> T {
  let fc0 = CDFContext::new(q);
  let mut fb: Vec<FrameBlocks> = (0..3).map(|_| FrameBlocks::new(16, 16)).collect();
  let mut tb: Vec<TileBlocksMut> = fb.iter_mut().map(|b| b.as_tile_blocks_mut()).collect();
  let mut fc = [fc0; 3];
  let [f0, f1, f2] = &mut fc;
  let mut t = tb.iter_mut();
  let mut bc = || BlockContext::new(t.next().unwrap());
  let mut a = Arena {
    fc0,
    cw: [
      ContextWriter::new(f0, bc()),
      ContextWriter::new(f1, bc()),
      ContextWriter::new(f2, bc()),
    ],
  };
  f(&mut a)
}

const BO: TileBlockOffset = TileBlockOffset(BlockOffset { x: 0, y: 0 });

fn counts_of<W: Writer>(w: &W, ops: &[Op]) -> Vec<(usize, u32)> {
  ops.iter().enumerate().filter_map(|(i, o)| count(w, *o).map(|c| (i, c))).collect()
}

/// Writes the operations in every way there is and reads them back.
fn round_trip(a: &mut Arena, ops: &[Op]) -> Result<u64, String> {
  for cw in &mut a.cw {
    *cw.fc = a.fc0;
    cw.fc_log.clear();
  }
  let mut enc = WriterEncoder::new();
  let mut rec = WriterRecorder::new();
  let mut cnt = WriterCounter::new();
  let mut live: Vec<Op> = vec![];
  let mut saves = vec![];
  for (i, &op) in ops.iter().enumerate() {
    let at = |e: String| format!("operation {i} {op:?}: {e}");
    match op {
      Op::Save => {
        saves.push((
          live.len(),
          enc.checkpoint(),
          rec.checkpoint(),
          cnt.checkpoint(),
          a.cw.each_ref().map(|c| c.checkpoint(&BO, ChromaSampling::Cs420)),
          words(a.cw[0].fc).to_vec(),
          enc.tell_frac(),
        ));
      }
      Op::Restore => {
        if let Some((n, e, r, c, cws, before, tell)) = saves.pop() {
          live.truncate(n);
          enc.rollback(&e);
          rec.rollback(&r);
          cnt.rollback(&c);
          for (cw, k) in a.cw.iter_mut().zip(&cws) {
            cw.rollback(k);
          }
          ne("length after the rollback", enc.tell_frac(), tell).map_err(at)?;
          if words(a.cw[0].fc) != before {
            return Err(at("the distributions are not those of the checkpoint".into()));
          }
        }
      }
      _ => {
        let bits = match op {
          Op::Sym(c, s) => Some((enc.symbol_bits(s, c), enc.tell_frac())),
          _ => None,
        };
        write(&mut enc, &mut a.cw[0], op);
        write(&mut rec, &mut a.cw[1], op);
        write(&mut cnt, &mut a.cw[2], op);
        live.push(op);
        if let Some((b, t)) = bits {
          ne("predicted cost", b, enc.tell_frac() - t).map_err(at)?;
        }
      }
    }
    let t = (enc.tell(), enc.tell_frac());
    ne("length while recording", (rec.tell(), rec.tell_frac()), t).map_err(at)?;
    ne("length while counting", (cnt.tell(), cnt.tell_frac()), t).map_err(at)?;
  }
  let counts = counts_of(&enc, &live);
  let tell = enc.tell();
  let data = enc.done();
  // A recording replayed directly and through another recording.
  let mut e2 = WriterEncoder::new();
  let mut r2 = rec.clone();
  r2.replay(&mut e2);
  ne("length of the replay", e2.tell(), tell)?;
  ne("replayed bytes", e2.done(), data.clone())?;
  let (mut r3, mut e3) = (WriterRecorder::new(), WriterEncoder::new());
  rec.replay(&mut r3);
  ne("length of a recorder after its replay", rec.tell(), 1)?;
  ne("length of the replay into a recorder", r3.tell(), tell)?;
  r3.replay(&mut e3);
  ne("twice replayed bytes", e3.done(), data.clone())?;
  let (w, consumed) = read_back(&data, &live, &a.fc0, &counts)?;
  for cw in &a.cw {
    if words(cw.fc) != w {
      return Err("the distributions of writer and reader differ".into());
    }
  }
  ne("length", tell, consumed + 1)?;
  if data.len() as u32 > (tell + 7) / 8 + 1 {
    return Err(format!("{} bytes for {tell} bits", data.len()));
  }
  Ok(hash_of(&data))
}

fn check(r: &Report, a: &mut Arena, name: &dyn Fn() -> String, ops: &[Op]) {
  r.add("evaluations", 1);
  r.add("transitions", ops.len() as u64);
  r.add("traces", 1);
  let n = name();
  let key = |e: &str| {
    let e = e.rsplit(": ").nth(1).unwrap_or(e);
    e.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(40).collect::<String>().trim().replace(' ', "-")
  };
  match guarded(|| round_trip(a, ops)) {
    Ok(Ok(h)) => r.outcome(&h),
    Ok(Err(e)) => r.violation(&format!("coder-{}", key(&e)), &n, &e),
    Err(e) => r.violation("coder-panics", &n, &e),
  }
}

trait Flat {
  fn flat(&self, base: usize, v: &mut Vec<(usize, usize)>);
}
impl<const N: usize> Flat for [u16; N] {
  fn flat(&self, base: usize, v: &mut Vec<(usize, usize)>) {
    v.push((self.as_ptr() as usize - base, N));
  }
}
macro_rules! nest {
  ($($t:ty, [$($g:ident)*];)*) => { $(
    impl<const N: usize, $(const $g: usize),*> Flat for $t {
      fn flat(&self, base: usize, v: &mut Vec<(usize, usize)>) {
        self.iter().for_each(|x| x.flat(base, v));
      }
    }
  )* };
}
nest! {
  [[u16; N]; A], [A];
  [[[u16; N]; A]; B], [A B];
  [[[[u16; N]; A]; B]; C], [A B C];
}

/// Every adaptive distribution: its offset and length.
fn all_cdfs(f: &CDFContext) -> Vec<(usize, usize)> {
  let mut v = vec![];
  let base = f as *const _ as usize;
  macro_rules! go { ($($x:ident)*) => { $(f.$x.flat(base, &mut v);)* } }
  go!(comp_bwd_ref_cdf comp_mode_cdf comp_ref_cdf comp_ref_type_cdf dc_sign_cdf drl_cdfs
    eob_extra_cdf filter_intra_cdfs intra_inter_cdfs lrf_sgrproj_cdf lrf_wiener_cdf newmv_cdf
    palette_uv_mode_cdfs palette_y_mode_cdfs refmv_cdf single_ref_cdfs skip_cdfs txb_skip_cdf
    txfm_partition_cdf zeromv_cdf tx_size_8x8_cdf inter_tx_3_cdf coeff_base_eob_cdf
    lrf_switchable_cdf tx_size_cdf coeff_base_cdf coeff_br_cdf deblock_delta_cdf
    deblock_delta_multi_cdf partition_w8_cdf eob_flag_cdf16 intra_tx_2_cdf eob_flag_cdf32
    angle_delta_cdf eob_flag_cdf64 intra_tx_1_cdf cfl_sign_cdf compound_mode_cdf eob_flag_cdf128
    spatial_segmentation_cdfs partition_w128_cdf eob_flag_cdf256 eob_flag_cdf512 partition_cdf
    eob_flag_cdf1024 inter_tx_2_cdf kf_y_cdf y_mode_cdf uv_mode_cdf uv_mode_cfl_cdf cfl_alpha_cdf
    inter_tx_1_cdf);
  f.nmv_context.joints_cdf.flat(base, &mut v);
  for c in &f.nmv_context.comps {
    c.sign_cdf.flat(base, &mut v);
    c.class0_hp_cdf.flat(base, &mut v);
    c.hp_cdf.flat(base, &mut v);
    c.class0_cdf.flat(base, &mut v);
    c.bits_cdf.flat(base, &mut v);
    c.class0_fp_cdf.flat(base, &mut v);
    c.fp_cdf.flat(base, &mut v);
    c.classes_cdf.flat(base, &mut v);
  }
  v.sort();
  v
}

const U2: &[u16] = &[16384, 0];
const S2: &[u16] = &[32704, 0];
const T2: &[u16] = &[64, 0];
const U3: &[u16] = &[21845, 10922, 0];
const S4: &[u16] = &[32767, 32767, 32767, 0];
const T5: &[u16] = &[63, 62, 1, 1, 0];
const U8: &[u16] = &[28672, 24576, 20480, 16384, 12288, 8192, 4096, 0];
const U13: &[u16] = &[30247, 27726, 25206, 22685, 20164, 17644, 15123, 12603, 10082, 7561, 5041, 2520, 0];
const S16: &[u16] = &[32700, 32600, 32500, 32400, 32300, 32200, 32100, 32000, 31900, 31800, 31700, 31600, 31500, 31400, 31300, 0];
const T16: &[u16] = &[1500, 1400, 1300, 1200, 1100, 1000, 900, 800, 700, 600, 500, 400, 300, 200, 100, 0];

fn off<T>(f: &CDFContext, x: &T) -> usize {
  x as *const T as usize - f as *const CDFContext as usize
}

fn alphabet() -> Vec<Op> {
  let b = Box::new(CDFContext::new(100));
  let f = &*b;
  let two = off(f, &f.skip_cdfs[1]);
  let three = off(f, &f.lrf_switchable_cdf);
  let four = off(f, &f.coeff_base_cdf[1][0][3]);
  let eleven = off(f, &f.nmv_context.comps[0].classes_cdf);
  let sixteen = off(f, &f.cfl_alpha_cdf[2]);
  vec![
    Op::Save,
    Op::Restore,
    Op::Sym(U2, 1),
    Op::Sym(S2, 0),
    Op::Sym(T2, 0),
    Op::Sym(U3, 1),
    Op::Sym(S4, 0),
    Op::Sym(S4, 3),
    Op::Sym(T5, 4),
    Op::Sym(U13, 12),
    Op::Sym(S16, 15),
    Op::Sym(T16, 7),
    Op::Upd(two, 2, 0),
    Op::Upd(two, 2, 1),
    Op::Upd(three, 3, 2),
    Op::Upd(four, 4, 0),
    Op::Upd(four, 4, 3),
    Op::Upd(eleven, 11, 10),
    Op::Upd(sixteen, 16, 0),
    Op::Upd(sixteen, 16, 15),
    Op::Run(four, 4, 1, 34),
    Op::Run(sixteen, 16, 8, 17),
    Op::Bool(true, 1),
    Op::Bool(false, 32767),
    Op::Bool(false, 1),
    Op::Literal(5, 19),
    Op::Golomb(0),
    Op::Golomb(300),
    Op::Quni(5, 3),
    Op::Sref(-96, 32, 4, -32, 31),
  ]
}

/// All sequences over the alphabet.
fn sequences(r: &Report, depth: usize) {
  let al = alphabet();
  let n = al.len();
  par_for(n * n, |i| {
    with_arena(|a| {
      let tail = depth - 2;
      for k in 0..n.pow(tail as u32) {
        let mut ops = vec![al[i / n], al[i % n]];
        let mut x = k;
        for _ in 0..tail {
          ops.push(al[x % n]);
          x /= n;
        }
        let name = || format!("sequence {i} {k} depth {depth}");
        if r.only().is_some() && !r.wants(&name()) {
          continue;
        }
        check(r, a, &name, &ops);
      }
    })
  });
}

/// Sequences that keep the interval around a carry boundary as long as
/// wanted, then go to either side of it.
fn carries(r: &Report, depth: usize, run: usize) {
  let al: Vec<Op> = alphabet().into_iter().filter(|o| matches!(o, Op::Sym(..))).collect();
  let cdfs: [&'static [u16]; 8] = [U2, U3, U8, U13, S16, T16, S4, T5];
  let n = al.len();
  // The interval after a fixed symbol, as offset and width.
  let step = |rng: u32, c: &[u16], s: usize| -> (u32, u32) {
    let nms = (c.len() - s) as u32;
    let u = if s == 0 { rng } else { (((rng >> 8) * (c[s - 1] as u32 >> 6)) >> 1) + 4 * nms };
    let v = (((rng >> 8) * (c[s] as u32 >> 6)) >> 1) + 4 * (nms - 1);
    (rng - u, u - v)
  };
  let total = n.pow(depth as u32);
  par_for(total, |i| {
    with_arena(|a| {
      let (mut pre, mut x) = (vec![], i);
      let (mut low, mut rng) = (0u128, 1u32 << 15);
      for _ in 0..depth {
        let op = al[x % n];
        x /= n;
        let Op::Sym(c, s) = op else { unreachable!() };
        let (l, w) = step(rng, c, s as usize);
        let d = w.leading_zeros() - 16;
        low = (low + l as u128) << d;
        rng = w << d;
        pre.push(op);
      }
      for cycle in 0..4usize {
        // The boundary: the next multiple of 2^15 inside of the interval.
        let mut t = (1u32 << 15) - (low & 0x7fff) as u32;
        let mut rng = rng;
        let mut ops = pre.clone();
        for len in 0..=run {
          if t == 0 || t >= rng {
            break;
          }
          // End on either side of the boundary, in two ways.
          for side in 0..4 {
            let name = || format!("carry {i} cycle {cycle} length {len} side {side} depth {depth}");
            if r.only().is_some() && !r.wants(&name()) {
              continue;
            }
            let c = cdfs[(len + side / 2) % 8];
            let s = (0..c.len())
              .filter(|s| {
                let (l, w) = step(rng, c, *s);
                if side % 2 == 0 { l + w <= t } else { l >= t }
              })
              .max_by_key(|s| if side % 2 == 0 { *s } else { c.len() - s });
            let mut o = ops.clone();
            o.extend(s.map(|s| Op::Sym(c, s as u32)));
            o.push(Op::Sym(U2, (side % 2) as u32));
            check(r, a, &name, &o);
          }
          let c = match cycle {
            0 => U2,
            1 => cdfs[len % 8],
            2 => cdfs[(len / 3 + 4) % 8],
            _ => [U13, U3][len % 2],
          };
          let Some(s) = (0..c.len()).find(|s| {
            let (l, w) = step(rng, c, *s);
            l < t && t < l + w
          }) else {
            break;
          };
          let (l, w) = step(rng, c, s);
          let d = w.leading_zeros() - 16;
          t = (t - l) << d;
          rng = w << d;
          ops.push(Op::Sym(c, s as u32));
        }
      }
    })
  });
}

/// Rollback of every pair of distributions that could share storage.
fn rollbacks(r: &Report) {
  let b = Box::new(CDFContext::new(100));
  let all = all_cdfs(&b);
  r.add("distributions", all.len() as u64);
  par_for(all.len(), |i| {
    with_arena(|a| {
      for j in 0..all.len() {
        let (x, y) = (all[i], all[j]);
        let near = x.0.abs_diff(y.0) <= 2 * 64;
        // The far ones by one representative of each length.
        if !near && (i + j) % 97 != 0 {
          continue;
        }
        let sym = |c: (usize, usize), k: usize| Op::Upd(c.0, c.1, (k % c.1) as u32);
        for k in 0..if near { 8 } else { 1 } {
          let name = || format!("rollback {x:?} {y:?} word {k}");
          if r.only().is_some() && !r.wants(&name()) {
            continue;
          }
          let (p, q, s) = match k % 4 {
            0 => (x, y, x),
            1 => (x, x, y),
            2 => (y, x, y),
            _ => (x, y, y),
          };
          let ops = if k < 4 {
            vec![Op::Save, sym(p, k), sym(q, 1), sym(s, 0), Op::Restore, sym(x, 1), sym(y, 0)]
          } else {
            vec![
              sym(p, 1), Op::Save, sym(q, 0), Op::Save, sym(s, k), sym(p, 0), Op::Restore, sym(y, 1),
              Op::Restore, sym(x, 0),
            ]
          };
          check(r, a, &name, &ops);
        }
      }
    })
  });
}

/// Every distribution of every set of tables, from the start to saturation.
fn tables(r: &Report) {
  for q in [0u8, 20, 21, 60, 61, 120, 121, 255] {
    let b = Box::new(CDFContext::new(q));
    let all = all_cdfs(&b);
    par_for(all.len(), |i| {
      let (o, n) = all[i];
      with_tables(q, |a| {
        for s in 0..n as u32 {
          let name = || format!("table {q} {:?} symbol {s}", all[i]);
          if r.only().is_some() && !r.wants(&name()) {
            continue;
          }
          let mut ops = vec![Op::Run(o, n, s, 40)];
          ops.extend((0..n as u32).map(|x| Op::Upd(o, n, x)));
          ops.push(Op::Run(o, n, (s + 1) % n as u32, 3));
          check(r, a, &name, &ops);
        }
      })
    });
  }
}

/// All values of the integer codes.
fn codes(r: &Report, t: bool) {
  let top = if t { 160 } else { 64u32 };
  par_for(top as usize, |n| {
    let n = n as u32 + 1;
    with_arena(|a| {
      for k in 0..=5u8 {
        // All values in one stream, per reference.
        for rf in 0..n {
          let name = || format!("codes n={n} k={k} r={rf}");
          if r.only().is_some() && !r.wants(&name()) {
            continue;
          }
          let mut ops = vec![];
          for v in 0..n {
            if rf == 0 && n > 1 {
              ops.push(Op::Subexp(n, k, v));
            }
            if n > 1 {
              ops.push(Op::Uref(n, k, rf, v));
              let lo = -(n as i32 / 2) - k as i32;
              ops.push(Op::Sref(lo, lo + n as i32, k, lo + rf as i32, lo + v as i32));
            }
            if k == 0 && rf == 0 {
              ops.push(Op::Quni(n, v));
            }
          }
          if !ops.is_empty() {
            check(r, a, &name, &ops);
          }
        }
      }
    })
  });
  // The restoration coefficients: the real ranges of Wiener taps and
  // self-guided weights, all values against all references.
  let real = [(-5, 11, 1u8), (-23, 9, 2), (-17, 47, 3), (-96, 32, 4), (-32, 96, 4)];
  for (lo, hi, k) in real {
    par_for((hi - lo) as usize, |rf| {
      let rf = lo + rf as i32;
      let name = || format!("restoration {lo}..{hi} k={k} r={rf}");
      if !r.wants(&name()) {
        return;
      }
      with_arena(|a| {
        let ops: Vec<_> = (lo..hi).map(|v| Op::Sref(lo, hi, k, rf, v)).collect();
        check(r, a, &name, &ops);
      })
    });
  }
  // Literals and Golomb codes.
  par_for(64, |i| {
    with_arena(|a| {
      let i = i as u32;
      let name = || format!("golomb {i}");
      if r.wants(&name()) {
        let mut ops = vec![];
        for v in i * 256..(i + 1) * 256 {
          ops.push(Op::Golomb(v));
          ops.push(Op::Literal(14, v));
        }
        for b in 0..20 {
          ops.push(Op::Golomb(((1 << b) - 1 + i % 3).min((1 << 20) - 2)));
        }
        check(r, a, &name, &ops);
      }
      let name = || format!("literal {i}");
      if r.wants(&name()) && i < 32 {
        let ops: Vec<_> = [0u32, u32::MAX, 0x5555_5555, 0x8000_0001, 1 << i]
          .iter()
          .map(|v| Op::Literal(i as u8 + 1, v & (u32::MAX >> (31 - i))))
          .collect();
        check(r, a, &name, &ops);
      }
      // All bool probabilities.
      let name = || format!("bools {i}");
      if r.wants(&name()) {
        let ops: Vec<_> = (0..512)
          .map(|k| Op::Bool((k * 7 + i) % 3 == 0, ((i * 512 + k).clamp(1, 32767)) as u16))
          .collect();
        check(r, a, &name, &ops);
      }
    })
  });
  // Large alphabets with and without recentering, at the edges.
  par_for(17, |b| {
    with_arena(|a| {
      for d in [-1i64, 0, 1] {
        let n = (1i64 << b) + d;
        if n < 2 {
          continue;
        }
        let n = n as u32;
        let vs: Vec<u32> = [0, 1, 2, n / 3, n / 2, n / 2 + 1, n - 2, n - 1].into_iter().filter(|v| *v < n).collect();
        let name = || format!("wide codes {n}");
        if !r.wants(&name()) {
          continue;
        }
        let mut ops = vec![];
        for &v in &vs {
          ops.push(Op::Quni(n, v));
          for k in 0..=8 {
            ops.push(Op::Subexp(n, k, v));
            for &rf in &vs {
              ops.push(Op::Uref(n, k, rf, v));
            }
          }
        }
        check(r, a, &name, &ops);
      }
    })
  });
}

/// The codes of frame headers, all values.
fn header_codes(r: &Report, t: bool) {
  let mut ns: Vec<u16> = (1..=if t { 200 } else { 80 }).collect();
  ns.extend([255, 256, 257, 511, 513, 1023, 1025, 2049, 4095, 4096, 4097]);
  par_for(ns.len(), |i| {
    let n = ns[i];
    let name = format!("header code {n}");
    if !r.wants(&name) {
      return;
    }
    tick(&name);
    let m = n as i32 - 1;
    let refs: Vec<i32> = if n <= 80 {
      (-m..=m).collect()
    } else {
      let mut v = vec![-m, -m + 1, -m / 2, -1, 0, 1, m / 3, m / 2, m - 1, m];
      v.dedup();
      v
    };
    for k in if n > 300 { 3..=3 } else { 0..=4u16 } {
      for &rf in &refs {
        r.add("evaluations", 1);
        r.add("traces", 1);
        r.add("transitions", 2 * m as u64 + 1);
        let res = guarded(|| -> Result<u64, String> {
          let mut buf = vec![];
          {
            let mut bw = BitWriter::endian(&mut buf, BigEndian);
            for v in -m..=m {
              bw.write_s_refsubexpfin(n, k, rf as i16, v as i16).map_err(|e| e.to_string())?;
            }
            for v in 0..n {
              bw.write_quniform(n, v).map_err(|e| e.to_string())?;
            }
            use bitstream_io::BitWrite;
            bw.write_bit(true).unwrap();
            bw.byte_align().unwrap();
          }
          let mut b = obu::Bits::new(&buf);
          for v in -m..=m {
            // decode_signed_subexp_with_ref(-m, m + 1, r)
            let g = if m == 0 { 0 } else { b.signed_ref(-m, m + 1, k as u32, rf) };
            ne("value", g, v).map_err(|e| format!("k={k} r={rf} v={v}: {e}"))?;
          }
          for v in 0..n {
            let g = if n > 1 { b.ns(n as u32) } else { 0 };
            ne("ns(n)", g, v as u32).map_err(|e| format!("v={v}: {e}"))?;
          }
          ne("end", b.bits(1), 1)?;
          Ok(hash_of(&buf))
        });
        match res {
          Ok(Ok(h)) => r.outcome(&h),
          Ok(Err(e)) | Err(e) => r.violation("header-code", &name, &e),
        }
      }
    }
  });
}

/// The adaptation of every length at every value and counter.
fn adaptation(r: &Report) {
  for n in 2..=16usize {
    par_for(33, |count| {
      let name = format!("adaptation of {n} symbols, counter {count}");
      if !r.wants(&name) {
        return;
      }
      tick(&name);
      r.add("evaluations", 1);
      let mut bad = None;
      for v in 1..32768u32 {
        for s in 0..n as u32 {
          by_len!(n, N => {
            let mut c = [0u16; N];
            for (j, x) in c[..N - 1].iter_mut().enumerate() {
              // Every lane sees every value, lanes differ.
              *x = ((v + 9973 * j as u32) % 32767 + 1) as u16;
            }
            c[N - 1] = count as u16;
            let old = c;
            update_cdf(&mut c, s);
            let rate = 3 + u32::from(count > 15) + u32::from(count > 31) + (N as u32).ilog2().min(2);
            for j in 0..N - 1 {
              // In the form of the standard.
              let x = 32768 - old[j] as u32;
              let tmp = if j as u32 >= s { 32768 } else { 0 };
              let y = if tmp < x { x - ((x - tmp) >> rate) } else { x + ((tmp - x) >> rate) };
              if c[j] as u32 != 32768 - y {
                bad = Some(format!("{old:?} after {s} becomes {c:?}"));
              }
            }
            if c[N - 1] as usize != count + usize::from(count < 32) {
              bad = Some(format!("counter {count} becomes {}", c[N - 1]));
            }
          })
        }
      }
      r.add("states", 32767 * n as u64);
      if let Some(b) = bad {
        r.violation("adaptation", &name, &b);
      }
    });
  }
  // What a frame hands on has its counters cleared and nothing else changed.
  let name = "reset of the counters";
  if r.wants(name) {
    r.add("evaluations", 1);
    let mut f = Box::new(CDFContext::new(100));
    let all = all_cdfs(&f);
    let w = words(&f).to_vec();
    // Fill every counter.
    let p = &mut *f as *mut CDFContext as *mut u16;
    for (o, n) in &all {
      unsafe { *p.add(o / 2 + n - 1) = 17 };
    }
    f.reset_counts();
    let mut want = w;
    for (o, n) in &all {
      want[o / 2 + n - 1] = 0;
    }
    if words(&f) != want {
      let d = all.iter().find(|(o, n)| words(&f)[o / 2..][..*n] != want[o / 2..][..*n]);
      r.violation("reset", name, &format!("distribution at {d:?} is not reset"));
    }
  }
}

pub fn run(r: &Report) {
  r.level("model_checking");
  r.rule("one evaluation is one sequence of writes, rollbacks and replays, read back by the decoding process of the standard; distinct cases are distinct byte strings");
  let t = r.thorough();
  adaptation(r);
  codes(r, t);
  header_codes(r, t);
  rollbacks(r);
  tables(r);
  sequences(r, 2);
  sequences(r, 3);
  sequences(r, 4);
  carries(r, 1, 64);
  carries(r, 2, 48);
  if t {
    sequences(r, 5);
    carries(r, 3, 64);
  } else {
    carries(r, 3, 24);
  }
}
