// Thin wrappers over the system's libdav1d and libaom, used as independent
// oracles of what an AV1 stream means.
#include <aom/aom_decoder.h>
#include <aom/aomdx.h>
#include <dav1d/dav1d.h>
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
  int32_t w, h, bpc, layout;
  int32_t pw[3], ph[3];
  uint16_t *px[3];
  // sequence header
  int32_t profile, max_w, max_h, pri, trc, mtrx, chr, full_range, hbd;
  int32_t major_level, minor_level, tier;
  int32_t still, reduced_still, timing_info, equal_pic, color_desc;
  uint32_t num_units, time_scale, ticks_per_pic;
  int32_t ss_hor, ss_ver, mono, cdef, restoration, film_grain_present;
  int32_t order_hint_bits, sb128;
  // frame header
  int32_t frame_type, fw, fh, rw, rh, frame_offset, sef, show_frame,
      showable, error_res, primary_ref, refresh, yac, ydc_delta, seg_enabled,
      tx_reduced, hp;
  int32_t refidx[7];
  int32_t tile_cols, tile_rows, log2_cols, log2_rows, tile_uniform;
  uint16_t col_start[65], row_start[65];
  int32_t seg_qidx[8];
  int32_t qdelta[5];
  int32_t lf[4];
  int32_t cdef_n_bits;
  int32_t lr_type[3];
  // film grain
  int32_t fg_present, fg_update, fg_seed, fg_ny, fg_nuv[2], fg_cfl,
      fg_scaling_shift, fg_lag, fg_ar_shift, fg_overlap, fg_clip,
      fg_grain_scale_shift;
  int32_t fg_mult[2], fg_luma_mult[2], fg_offset[2];
  uint8_t fg_y[14][2], fg_uv[2][10][2];
  int8_t fg_ary[24], fg_aruv[2][28];
  // metadata
  int32_t has_cll, cll_max, cll_avg;
  int32_t has_mdcv;
  uint16_t prim[3][2], wp[2];
  uint32_t max_lum, min_lum;
  uint64_t n_t35;
  uint8_t t35_cc[16], t35_ext[16];
  uint64_t t35_len[16];
  uint8_t *t35_data[16];
} mc_pic;

static void nolog(void *c, const char *f, va_list a) { (void)c; (void)f; (void)a; }

void *mc_dav1d_open(int strict, int invisible) {
  Dav1dSettings s;
  dav1d_default_settings(&s);
  s.n_threads = 1;
  s.max_frame_delay = 1;
  s.apply_grain = 0;
  s.strict_std_compliance = strict;
  s.output_invisible_frames = invisible;
  s.logger.callback = nolog;
  Dav1dContext *c = NULL;
  if (dav1d_open(&c, &s) < 0) return NULL;
  return c;
}
void mc_dav1d_close(void *c) {
  Dav1dContext *d = c;
  dav1d_close(&d);
}

static void take(Dav1dPicture *p, mc_pic *o) {
  memset(o, 0, sizeof *o);
  o->w = p->p.w; o->h = p->p.h; o->bpc = p->p.bpc; o->layout = p->p.layout;
  int np = p->p.layout == DAV1D_PIXEL_LAYOUT_I400 ? 1 : 3;
  for (int i = 0; i < np; i++) {
    int sx = i && p->p.layout != DAV1D_PIXEL_LAYOUT_I444;
    int sy = i && p->p.layout == DAV1D_PIXEL_LAYOUT_I420;
    int w = (p->p.w + sx) >> sx, h = (p->p.h + sy) >> sy;
    o->pw[i] = w; o->ph[i] = h;
    o->px[i] = malloc((size_t)w * h * 2);
    for (int y = 0; y < h; y++) {
      uint8_t *r = (uint8_t *)p->data[i] + (ptrdiff_t)y * p->stride[i > 0];
      if (p->p.bpc == 8)
        for (int x = 0; x < w; x++) o->px[i][(size_t)y * w + x] = r[x];
      else
        memcpy(o->px[i] + (size_t)y * w, r, (size_t)w * 2);
    }
  }
  Dav1dSequenceHeader *q = p->seq_hdr;
  o->profile = q->profile; o->max_w = q->max_width; o->max_h = q->max_height;
  o->pri = q->pri; o->trc = q->trc; o->mtrx = q->mtrx; o->chr = q->chr;
  o->full_range = q->color_range; o->hbd = q->hbd;
  o->major_level = q->operating_points[0].major_level;
  o->minor_level = q->operating_points[0].minor_level;
  o->tier = q->operating_points[0].tier;
  o->still = q->still_picture; o->reduced_still = q->reduced_still_picture_header;
  o->timing_info = q->timing_info_present; o->equal_pic = q->equal_picture_interval;
  o->color_desc = q->color_description_present;
  o->num_units = q->num_units_in_tick; o->time_scale = q->time_scale;
  o->ticks_per_pic = q->num_ticks_per_picture;
  o->ss_hor = q->ss_hor; o->ss_ver = q->ss_ver; o->mono = q->monochrome;
  o->cdef = q->cdef; o->restoration = q->restoration;
  o->film_grain_present = q->film_grain_present;
  o->order_hint_bits = q->order_hint_n_bits; o->sb128 = q->sb128;
  Dav1dFrameHeader *f = p->frame_hdr;
  o->frame_type = f->frame_type; o->fw = f->width[1]; o->fh = f->height;
  o->rw = f->render_width; o->rh = f->render_height;
  o->frame_offset = f->frame_offset; o->sef = f->show_existing_frame;
  o->show_frame = f->show_frame; o->showable = f->showable_frame;
  o->error_res = f->error_resilient_mode; o->primary_ref = f->primary_ref_frame;
  o->refresh = f->refresh_frame_flags; o->yac = f->quant.yac;
  o->ydc_delta = f->quant.ydc_delta; o->seg_enabled = f->segmentation.enabled;
  o->tx_reduced = f->reduced_txtp_set; o->hp = f->hp;
  for (int i = 0; i < 7; i++) o->refidx[i] = f->refidx[i];
  o->tile_cols = f->tiling.cols; o->tile_rows = f->tiling.rows;
  o->log2_cols = f->tiling.log2_cols; o->log2_rows = f->tiling.log2_rows;
  o->tile_uniform = f->tiling.uniform;
  for (int i = 0; i <= 64; i++) {
    o->col_start[i] = f->tiling.col_start_sb[i];
    o->row_start[i] = f->tiling.row_start_sb[i];
  }
  for (int i = 0; i < 8; i++) o->seg_qidx[i] = f->segmentation.qidx[i];
  o->qdelta[0] = f->quant.ydc_delta; o->qdelta[1] = f->quant.udc_delta;
  o->qdelta[2] = f->quant.uac_delta; o->qdelta[3] = f->quant.vdc_delta;
  o->qdelta[4] = f->quant.vac_delta;
  o->lf[0] = f->loopfilter.level_y[0]; o->lf[1] = f->loopfilter.level_y[1];
  o->lf[2] = f->loopfilter.level_u; o->lf[3] = f->loopfilter.level_v;
  o->cdef_n_bits = f->cdef.n_bits;
  for (int i = 0; i < 3; i++) o->lr_type[i] = f->restoration.type[i];
  Dav1dFilmGrainData *g = &f->film_grain.data;
  o->fg_present = f->film_grain.present; o->fg_update = f->film_grain.update;
  o->fg_seed = g->seed; o->fg_ny = g->num_y_points;
  o->fg_nuv[0] = g->num_uv_points[0]; o->fg_nuv[1] = g->num_uv_points[1];
  o->fg_cfl = g->chroma_scaling_from_luma; o->fg_scaling_shift = g->scaling_shift;
  o->fg_lag = g->ar_coeff_lag; o->fg_ar_shift = (int)g->ar_coeff_shift;
  o->fg_overlap = g->overlap_flag; o->fg_clip = g->clip_to_restricted_range;
  o->fg_grain_scale_shift = g->grain_scale_shift;
  for (int i = 0; i < 2; i++) {
    o->fg_mult[i] = g->uv_mult[i]; o->fg_luma_mult[i] = g->uv_luma_mult[i];
    o->fg_offset[i] = g->uv_offset[i];
  }
  memcpy(o->fg_y, g->y_points, sizeof o->fg_y);
  memcpy(o->fg_uv, g->uv_points, sizeof o->fg_uv);
  memcpy(o->fg_ary, g->ar_coeffs_y, sizeof o->fg_ary);
  memcpy(o->fg_aruv, g->ar_coeffs_uv, sizeof o->fg_aruv);
  if (p->content_light) {
    o->has_cll = 1; o->cll_max = p->content_light->max_content_light_level;
    o->cll_avg = p->content_light->max_frame_average_light_level;
  }
  if (p->mastering_display) {
    o->has_mdcv = 1;
    memcpy(o->prim, p->mastering_display->primaries, sizeof o->prim);
    memcpy(o->wp, p->mastering_display->white_point, sizeof o->wp);
    o->max_lum = p->mastering_display->max_luminance;
    o->min_lum = p->mastering_display->min_luminance;
  }
  o->n_t35 = p->n_itut_t35;
  for (size_t i = 0; i < p->n_itut_t35 && i < 16; i++) {
    o->t35_cc[i] = p->itut_t35[i].country_code;
    o->t35_ext[i] = p->itut_t35[i].country_code_extension_byte;
    o->t35_len[i] = p->itut_t35[i].payload_size;
    o->t35_data[i] = malloc(p->itut_t35[i].payload_size + 1);
    memcpy(o->t35_data[i], p->itut_t35[i].payload, p->itut_t35[i].payload_size);
  }
}

void mc_pic_free(mc_pic *o) {
  for (int i = 0; i < 3; i++) free(o->px[i]);
  for (int i = 0; i < 16; i++) free(o->t35_data[i]);
}

// Feeds one temporal unit; writes up to `cap` pictures. Returns the number of
// pictures or a negative error.
int mc_dav1d_feed(void *c, const uint8_t *d, size_t n, mc_pic *out, int cap) {
  Dav1dContext *ctx = c;
  Dav1dData data = {0};
  int got = 0;
  if (n) {
    uint8_t *p = dav1d_data_create(&data, n);
    if (!p) return -1000;
    memcpy(p, d, n);
  }
  do {
    if (data.sz) {
      int r = dav1d_send_data(ctx, &data);
      if (r < 0 && r != DAV1D_ERR(EAGAIN)) {
        dav1d_data_unref(&data);
        return r ? r : -1;
      }
    }
    for (;;) {
      Dav1dPicture p = {0};
      int r = dav1d_get_picture(ctx, &p);
      if (r == DAV1D_ERR(EAGAIN)) break;
      if (r < 0) {
        dav1d_data_unref(&data);
        return r;
      }
      if (got < cap) take(&p, &out[got]);
      got++;
      dav1d_picture_unref(&p);
    }
  } while (data.sz);
  return got;
}

// ------------------------------------------------------------------ libaom
void *mc_aom_open(void) {
  aom_codec_ctx_t *c = calloc(1, sizeof *c);
  aom_codec_dec_cfg_t cfg = {0};
  cfg.threads = 1;
  cfg.allow_lowbitdepth = 1;
  if (aom_codec_dec_init(c, aom_codec_av1_dx(), &cfg, 0)) {
    free(c);
    return NULL;
  }
  aom_codec_control(c, AV1D_SET_SKIP_FILM_GRAIN, 1);
  return c;
}
void mc_aom_close(void *v) {
  aom_codec_destroy(v);
  free(v);
}
int mc_aom_feed(void *v, const uint8_t *d, size_t n, mc_pic *out, int cap) {
  aom_codec_ctx_t *c = v;
  if (aom_codec_decode(c, d, n, NULL)) return -1;
  int got = 0;
  aom_codec_iter_t it = NULL;
  aom_image_t *im;
  while ((im = aom_codec_get_frame(c, &it))) {
    if (got < cap) {
      mc_pic *o = &out[got];
      memset(o, 0, sizeof *o);
      o->w = im->d_w; o->h = im->d_h; o->bpc = im->bit_depth;
      int np = im->monochrome ? 1 : 3;
      for (int i = 0; i < np; i++) {
        int sx = i ? im->x_chroma_shift : 0, sy = i ? im->y_chroma_shift : 0;
        int w = (im->d_w + sx) >> sx, h = (im->d_h + sy) >> sy;
        o->pw[i] = w; o->ph[i] = h;
        o->px[i] = malloc((size_t)w * h * 2);
        for (int y = 0; y < h; y++) {
          uint8_t *r = im->planes[i] + (ptrdiff_t)y * im->stride[i];
          if (im->fmt & AOM_IMG_FMT_HIGHBITDEPTH)
            memcpy(o->px[i] + (size_t)y * w, r, (size_t)w * 2);
          else
            for (int x = 0; x < w; x++) o->px[i][(size_t)y * w + x] = r[x];
        }
      }
    }
    got++;
  }
  return got;
}
