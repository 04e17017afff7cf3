//! libdav1d / libaom as oracles of what a stream means.
use std::os::raw::{c_int, c_void};

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Raw {
  pub w: i32, pub h: i32, pub bpc: i32, pub layout: i32,
  pub pw: [i32; 3], pub ph: [i32; 3],
  px: [*mut u16; 3],
  pub profile: i32, pub max_w: i32, pub max_h: i32, pub pri: i32, pub trc: i32,
  pub mtrx: i32, pub chr: i32, pub full_range: i32, pub hbd: i32,
  pub major_level: i32, pub minor_level: i32, pub tier: i32,
  pub still: i32, pub reduced_still: i32, pub timing_info: i32,
  pub equal_pic: i32, pub color_desc: i32,
  pub num_units: u32, pub time_scale: u32, pub ticks_per_pic: u32,
  pub ss_hor: i32, pub ss_ver: i32, pub mono: i32, pub cdef: i32,
  pub restoration: i32, pub film_grain_present: i32,
  pub order_hint_bits: i32, pub sb128: i32,
  pub frame_type: i32, pub fw: i32, pub fh: i32, pub rw: i32, pub rh: i32,
  pub frame_offset: i32, pub sef: i32, pub show_frame: i32, pub showable: i32,
  pub error_res: i32, pub primary_ref: i32, pub refresh: i32, pub yac: i32,
  pub ydc_delta: i32, pub seg_enabled: i32, pub tx_reduced: i32, pub hp: i32,
  pub refidx: [i32; 7],
  pub tile_cols: i32, pub tile_rows: i32, pub log2_cols: i32,
  pub log2_rows: i32, pub tile_uniform: i32,
  pub col_start: [u16; 65], pub row_start: [u16; 65],
  pub seg_qidx: [i32; 8],
  pub qdelta: [i32; 5],
  pub lf: [i32; 4],
  pub cdef_n_bits: i32,
  pub lr_type: [i32; 3],
  pub fg_present: i32, pub fg_update: i32, pub fg_seed: i32, pub fg_ny: i32,
  pub fg_nuv: [i32; 2], pub fg_cfl: i32, pub fg_scaling_shift: i32,
  pub fg_lag: i32, pub fg_ar_shift: i32, pub fg_overlap: i32,
  pub fg_clip: i32, pub fg_grain_scale_shift: i32,
  pub fg_mult: [i32; 2], pub fg_luma_mult: [i32; 2], pub fg_offset: [i32; 2],
  pub fg_y: [[u8; 2]; 14], pub fg_uv: [[[u8; 2]; 10]; 2],
  pub fg_ary: [i8; 24], pub fg_aruv: [[i8; 28]; 2],
  pub has_cll: i32, pub cll_max: i32, pub cll_avg: i32,
  pub has_mdcv: i32,
  pub prim: [[u16; 2]; 3], pub wp: [u16; 2],
  pub max_lum: u32, pub min_lum: u32,
  n_t35: u64,
  t35_cc: [u8; 16], t35_ext: [u8; 16],
  t35_len: [u64; 16],
  t35_data: [*mut u8; 16],
}

extern "C" {
  fn mc_dav1d_open(strict: c_int, invisible: c_int) -> *mut c_void;
  fn mc_dav1d_close(c: *mut c_void);
  fn mc_dav1d_feed(
    c: *mut c_void, d: *const u8, n: usize, out: *mut Raw, cap: c_int,
  ) -> c_int;
  fn mc_aom_open() -> *mut c_void;
  fn mc_aom_close(c: *mut c_void);
  fn mc_aom_feed(
    c: *mut c_void, d: *const u8, n: usize, out: *mut Raw, cap: c_int,
  ) -> c_int;
  fn mc_pic_free(p: *mut Raw);
}

pub struct Pic {
  pub planes: Vec<Vec<u16>>,
  pub t35: Vec<(u8, u8, Vec<u8>)>,
  pub r: Box<Raw>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Which {
  Dav1d,
  Dav1dInvisible,
  Aom,
}

pub struct Decoder {
  c: *mut c_void,
  w: Which,
}

impl Decoder {
  pub fn new(w: Which) -> Decoder {
    let c = unsafe {
      match w {
        Which::Dav1d => mc_dav1d_open(1, 0),
        Which::Dav1dInvisible => mc_dav1d_open(1, 1),
        Which::Aom => mc_aom_open(),
      }
    };
    assert!(!c.is_null(), "cannot open decoder");
    Decoder { c, w }
  }
  /// Decodes one temporal unit.
  pub fn feed(&mut self, d: &[u8]) -> Result<Vec<Pic>, String> {
    const CAP: usize = 16;
    let mut raws: Vec<Raw> = vec![unsafe { std::mem::zeroed() }; CAP];
    let n = unsafe {
      match self.w {
        Which::Aom => {
          mc_aom_feed(self.c, d.as_ptr(), d.len(), raws.as_mut_ptr(), CAP as c_int)
        }
        _ => {
          mc_dav1d_feed(self.c, d.as_ptr(), d.len(), raws.as_mut_ptr(), CAP as c_int)
        }
      }
    };
    if n < 0 {
      for r in raws.iter_mut() {
        unsafe { mc_pic_free(r) };
      }
      return Err(format!("{:?} rejects the packet (error {n})", self.w));
    }
    let mut v = vec![];
    for r in raws.iter_mut().take((n as usize).min(CAP)) {
      let mut planes = vec![];
      for i in 0..3 {
        if !r.px[i].is_null() {
          let len = r.pw[i] as usize * r.ph[i] as usize;
          planes
            .push(unsafe { std::slice::from_raw_parts(r.px[i], len) }.to_vec());
        }
      }
      let mut t35 = vec![];
      for i in 0..(r.n_t35 as usize).min(16) {
        let d = unsafe {
          std::slice::from_raw_parts(r.t35_data[i], r.t35_len[i] as usize)
        };
        t35.push((r.t35_cc[i], r.t35_ext[i], d.to_vec()));
      }
      v.push(Pic { planes, t35, r: Box::new(*r) });
      unsafe { mc_pic_free(r) };
    }
    Ok(v)
  }
}
impl Drop for Decoder {
  fn drop(&mut self) {
    unsafe {
      match self.w {
        Which::Aom => mc_aom_close(self.c),
        _ => mc_dav1d_close(self.c),
      }
    }
  }
}
