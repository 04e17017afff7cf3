From 91836304524d0be77315d2a560a97010e173f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:31 +0000
Subject: [PATCH 01/43] fix: apply the self-guided restoration filter when CDEF
 is disabled

The loop restoration search selects and signals self-guided units whether
or not CDEF is enabled, but the reconstruction skipped them without CDEF, so
the encoder's reference frames drifted from every decoder's.
---
 src/lrf.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/lrf.rs b/src/lrf.rs
index 7a3d083..1e2c4f9 100644
--- a/src/lrf.rs
+++ b/src/lrf.rs
@@ -1542,10 +1542,6 @@ impl RestorationState {
               );
             }
             RestorationFilter::Sgrproj { set, xqd } => {
-              if !fi.sequence.enable_cdef {
-                continue;
-              }
-
               setup_integral_image(
                 &mut stripe_filter_buffer,
                 STRIPE_IMAGE_STRIDE,
-- 
2.43.0


From 251c9bb2f235310125efb8691b523f6f78eb5284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:31 +0000
Subject: [PATCH 02/43] fix: do not write chroma film grain fields the decoder
 infers as absent

With monochrome video, chroma scaling from luma, or 4:2:0 without luma
points, num_cb_points and num_cr_points are inferred to be 0, so the chroma
coefficients and multipliers that depend on them must not be written.
---
 src/header.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 4217285..e3fc927 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -861,11 +861,17 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
           } else {
             false
           };
-        if !(fi.sequence.chroma_sampling == ChromaSampling::Cs400
-          || chroma_scaling_from_luma
-          || (fi.sequence.chroma_sampling == ChromaSampling::Cs420
-            && grain_params.scaling_points_y.is_empty()))
-        {
+        // Otherwise the decoder infers that there are no chroma points.
+        let chroma_points_coded =
+          !(fi.sequence.chroma_sampling == ChromaSampling::Cs400
+            || chroma_scaling_from_luma
+            || (fi.sequence.chroma_sampling == ChromaSampling::Cs420
+              && grain_params.scaling_points_y.is_empty()));
+        let has_cb_points =
+          chroma_points_coded && !grain_params.scaling_points_cb.is_empty();
+        let has_cr_points =
+          chroma_points_coded && !grain_params.scaling_points_cr.is_empty();
+        if chroma_points_coded {
           self.write::<4, u8>(grain_params.scaling_points_cb.len() as u8)?;
           for point in &grain_params.scaling_points_cb {
             self.write::<8, u8>(point[0])?;
@@ -896,18 +902,14 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
           num_pos_chroma = num_pos_luma;
         }
 
-        if chroma_scaling_from_luma
-          || !grain_params.scaling_points_cb.is_empty()
-        {
+        if chroma_scaling_from_luma || has_cb_points {
           for i in 0..num_pos_chroma {
             self.write::<8, u8>(
               (grain_params.ar_coeffs_cb[i] as i16 + 128) as u8,
             )?;
           }
         }
-        if chroma_scaling_from_luma
-          || !grain_params.scaling_points_cr.is_empty()
-        {
+        if chroma_scaling_from_luma || has_cr_points {
           for i in 0..num_pos_chroma {
             self.write::<8, u8>(
               (grain_params.ar_coeffs_cr[i] as i16 + 128) as u8,
@@ -917,12 +919,12 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
 
         self.write::<2, u8>(grain_params.ar_coeff_shift - 6)?;
         self.write::<2, u8>(grain_params.grain_scale_shift)?;
-        if !grain_params.scaling_points_cb.is_empty() {
+        if has_cb_points {
           self.write::<8, u8>(grain_params.cb_mult)?;
           self.write::<8, u8>(grain_params.cb_luma_mult)?;
           self.write::<9, u16>(grain_params.cb_offset)?;
         }
-        if !grain_params.scaling_points_cr.is_empty() {
+        if has_cr_points {
           self.write::<8, u8>(grain_params.cr_mult)?;
           self.write::<8, u8>(grain_params.cr_luma_mult)?;
           self.write::<9, u16>(grain_params.cr_offset)?;
-- 
2.43.0


From 68f3db74627a36d3bbbc23eb6d9a135af5c9605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:31 +0000
Subject: [PATCH 03/43] fix: disable temporal RDO with transform domain rate
 estimation

It computes distortion per transform block, so blocks larger than 8x8 hit
the assertion in distortion_scale().
---
 src/api/config/encoder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/config/encoder.rs b/src/api/config/encoder.rs
index be33370..6bd19b1 100644
--- a/src/api/config/encoder.rs
+++ b/src/api/config/encoder.rs
@@ -225,7 +225,9 @@ impl EncoderConfig {
     // multiple partition sizes properly. Unfortunately, when tx domain
     // distortion is used, distortion is only known at the tx block level which
     // might be bigger than 8x8. So temporal RDO is always disabled in that case.
+    // Transform domain rate estimation implies transform domain distortion.
     !self.speed_settings.transform.tx_domain_distortion
+      && !self.speed_settings.transform.tx_domain_rate
   }
 
   /// Describes whether the output is targeted as HDR
-- 
2.43.0


From b879666d65a276243719105bc743ce80286573b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:29 +0000
Subject: [PATCH 04/43] fix: do not panic when a channel receiver is dropped
 before the encoder is done

---
 src/api/channel/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index d81ccb9..e57e656 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -189,7 +189,8 @@ impl RcFirstPass for Sender<RcData> {
   fn send_pass_data(&mut self, rc_state: &mut RCState) {
     if let Some(data) = rc_state.emit_frame_data() {
       let data = data.to_vec().into_boxed_slice();
-      self.send(RcData::Frame(data)).unwrap();
+      // The client may not be interested in the pass data.
+      let _ = self.send(RcData::Frame(data));
     } else {
       unreachable!(
         "The encoder received more frames than its internal
@@ -200,7 +201,7 @@ impl RcFirstPass for Sender<RcData> {
   fn send_pass_summary(&mut self, rc_state: &mut RCState) {
     let data = rc_state.emit_summary();
     let data = data.to_vec().into_boxed_slice();
-    self.send(RcData::Summary(data)).unwrap();
+    let _ = self.send(RcData::Summary(data));
   }
 }
 
@@ -315,7 +316,10 @@ impl Config {
           // this call should return either Ok or Err(Encoded)
           let has_pass_data = match inner.receive_packet() {
             Ok(p) => {
-              send_packet.send(p).unwrap();
+              if send_packet.send(p).is_err() {
+                // Nobody is going to receive the packets.
+                return;
+              }
               true
             }
             Err(EncoderStatus::Encoded) => true,
@@ -340,7 +344,10 @@ impl Config {
         let has_pass_data = match r {
           Ok(p) => {
             // warn!("Sending out {}", p.input_frameno);
-            send_packet.send(p).unwrap();
+            if send_packet.send(p).is_err() {
+              // Nobody is going to receive the packets.
+              return;
+            }
             true
           }
           Err(EncoderStatus::LimitReached) => break,
-- 
2.43.0


From cb2a7f84e976e0ff61da9d735458d08517fa6435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:00 +0000
Subject: [PATCH 05/43] fix: second pass channel of a single frame video

---
 src/api/channel/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index e57e656..d72bdc7 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -323,6 +323,8 @@ impl Config {
               true
             }
             Err(EncoderStatus::Encoded) => true,
+            // With a single frame to encode the lookahead never needs more.
+            Err(EncoderStatus::NeedMoreData) => break,
             Err(EncoderStatus::NotReady) => todo!("Error reporting"),
             _ => unreachable!(),
           };
-- 
2.43.0


From 0eb70f0b0604bb9c260cd52b8af68e7f17294a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:53 +0000
Subject: [PATCH 06/43] fix: close the second pass channel when the pass data
 is missing or invalid

---
 src/api/channel/mod.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index d72bdc7..7080f95 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -225,13 +225,12 @@ impl RcSecondPass for Receiver<RcData> {
     while inner.rc_state.twopass_in_frames_needed() > 0
       && !inner.done_processing()
     {
-      if let Ok(RcData::Frame(data)) = self.recv() {
-        inner
+      match self.recv() {
+        Ok(RcData::Frame(data)) => inner
           .rc_state
           .parse_frame_data_packet(data.as_ref())
-          .unwrap_or_else(|_| todo!("Error reporting"));
-      } else {
-        todo!("Error reporting");
+          .map_err(|_| ())?,
+        _ => return Err(()),
       }
     }
 
@@ -309,7 +308,10 @@ impl Config {
       for f in receive_frame.iter() {
         // info!("frame in {}", inner.frame_count);
         while !inner.needs_more_fi_lookahead() {
-          receive_rc_pass2.feed_pass_data(&mut inner).unwrap();
+          if receive_rc_pass2.feed_pass_data(&mut inner).is_err() {
+            // Closing the channels is the only way to report the error.
+            return;
+          }
           // needs_more_fi_lookahead() should guard for missing output_frameno
           // already.
           //
@@ -341,7 +343,10 @@ impl Config {
       let _ = inner.send_frame(None, None);
 
       loop {
-        receive_rc_pass2.feed_pass_data(&mut inner).unwrap();
+        if receive_rc_pass2.feed_pass_data(&mut inner).is_err() {
+          // Closing the channels is the only way to report the error.
+          return;
+        }
         let r = inner.receive_packet();
         let has_pass_data = match r {
           Ok(p) => {
-- 
2.43.0


From 5e274d3e9bb891aa81fbc35e26f8fbd8dde7aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:31 +0000
Subject: [PATCH 07/43] fix: keep the frame parameters in the by-gop channel

---
 src/api/channel/by_gop.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index 342c7c0..bfcf0e8 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -24,6 +24,7 @@ use std::sync::Arc;
 
 struct SubGop<T: Pixel> {
   frames: Vec<Arc<Frame<T>>>,
+  params: Vec<Option<FrameParameters>>,
   end_gop: bool,
 }
 
@@ -172,7 +173,7 @@ fn workerpool<T: Pixel>(
           Some(wl) => {
             let mut inner = cfg.new_inner().unwrap();
             for s in wl.s_recv.iter() {
-              for f in s.frames {
+              for (f, params) in s.frames.into_iter().zip(s.params) {
                 while !inner.needs_more_fi_lookahead() {
                   let r = inner.receive_packet();
                   match r {
@@ -183,7 +184,7 @@ fn workerpool<T: Pixel>(
                     _ => todo!("Error management {:?}", r),
                   }
                 }
-                let _ = inner.send_frame(Some(f), None);
+                let _ = inner.send_frame(Some(f), params);
               }
             }
 
@@ -269,10 +270,12 @@ impl Config {
 
     s.spawn_fifo(move |_| {
       let mut lookahead = Vec::new();
+      let mut lookahead_params = Vec::new();
       for f in r.iter() {
-        let (frame, _params) = f;
+        let (frame, params) = f;
 
         lookahead.push(frame.unwrap());
+        lookahead_params.push(params);
 
         // we need at least lookahead_distance frames to reason
         if lookahead.len() < lookahead_distance {
@@ -281,23 +284,39 @@ impl Config {
 
         if let Some((split_pos, end_gop)) = sc.split(&lookahead) {
           let rem = lookahead.split_off(split_pos);
-          let _ = send.send(SubGop { frames: lookahead, end_gop });
+          let rem_params = lookahead_params.split_off(split_pos);
+          let _ = send.send(SubGop {
+            frames: lookahead,
+            params: lookahead_params,
+            end_gop,
+          });
 
           lookahead = rem;
+          lookahead_params = rem_params;
         }
       }
 
       while lookahead.len() > lookahead_distance {
         if let Some((split_pos, end_gop)) = sc.split(&lookahead) {
           let rem = lookahead.split_off(split_pos);
-          let _ = send.send(SubGop { frames: lookahead, end_gop });
+          let rem_params = lookahead_params.split_off(split_pos);
+          let _ = send.send(SubGop {
+            frames: lookahead,
+            params: lookahead_params,
+            end_gop,
+          });
 
           lookahead = rem;
+          lookahead_params = rem_params;
         }
       }
 
       if !lookahead.is_empty() {
-        let _ = send.send(SubGop { frames: lookahead, end_gop: true });
+        let _ = send.send(SubGop {
+          frames: lookahead,
+          params: lookahead_params,
+          end_gop: true,
+        });
       }
     });
 
-- 
2.43.0


From e99e7bac72906cb5cc6b5772166ed53844f58271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:03 +0000
Subject: [PATCH 08/43] fix: send T.35 metadata with the packet that shows its
 frame

---
 src/api/internal.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/api/internal.rs b/src/api/internal.rs
index 153610c..1873f3a 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -538,12 +538,6 @@ impl<T: Pixel> ContextInner<T> {
       return Err(EncoderStatus::NeedMoreData);
     }
 
-    let t35_metadata = if let Some(t35) = self.t35_q.remove(&input_frameno) {
-      t35
-    } else {
-      Box::new([])
-    };
-
     if output_frameno_in_gop > 0 {
       let next_keyframe_input_frameno = self.next_keyframe_input_frameno(
         self.gop_input_frameno_start[&output_frameno],
@@ -579,7 +573,7 @@ impl<T: Pixel> ContextInner<T> {
             output_frameno_in_gop,
             next_keyframe_input_frameno,
             self.config.error_resilient,
-            t35_metadata,
+            Box::new([]),
           );
           assert!(fi.is_none());
           return Ok(fi);
@@ -594,6 +588,10 @@ impl<T: Pixel> ContextInner<T> {
       }
     }
 
+    // The metadata stays queued until the packet that shows the frame is out.
+    let t35_metadata =
+      self.t35_q.get(&input_frameno).cloned().unwrap_or_default();
+
     // Now that we know the input_frameno, look up the correct frame type
     let frame_type = if self.keyframes.contains(&input_frameno) {
       FrameType::KEY
@@ -1531,6 +1529,7 @@ impl<T: Pixel> ContextInner<T> {
     if let Ok(ref mut pkt) = ret {
       self.garbage_collect(pkt.input_frameno);
       pkt.opaque = self.opaque_q.remove(&pkt.input_frameno);
+      self.t35_q.remove(&pkt.input_frameno);
     }
 
     ret
-- 
2.43.0


From 81d12468203571511be6bbf9f9da27d87758ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:21 +0000
Subject: [PATCH 09/43] fix: level, subsampling and sample position in the
 container header

---
 src/api/channel/data.rs | 13 ++++++++++---
 src/api/context.rs      | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/api/channel/data.rs b/src/api/channel/data.rs
index 6b3f65c..6e68e0b 100644
--- a/src/api/channel/data.rs
+++ b/src/api/channel/data.rs
@@ -355,14 +355,21 @@ impl<T: Pixel> PacketReceiver<T> {
         bw.write_bit(true)?; // marker
         bw.write::<7, u8>(1)?; // version
         bw.write::<3, u8>(seq.profile)?;
-        bw.write::<5, u8>(31)?; // level
+        bw.write::<5, u8>(seq.level_idx[0])?; // level
         bw.write_bit(false)?; // tier
         bw.write_bit(seq.bit_depth > 8)?; // high_bitdepth
         bw.write_bit(seq.bit_depth == 12)?; // twelve_bit
         bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs400)?; // monochrome
         bw.write_bit(seq.chroma_sampling != ChromaSampling::Cs444)?; // chroma_subsampling_x
-        bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs420)?; // chroma_subsampling_y
-        bw.write::<2, u8>(0)?; // chroma_sample_position
+        bw.write_bit(matches!(
+          seq.chroma_sampling,
+          ChromaSampling::Cs400 | ChromaSampling::Cs420
+        ))?; // chroma_subsampling_y
+        if seq.chroma_sampling == ChromaSampling::Cs420 {
+          bw.write::<2, u8>(seq.chroma_sample_position as u8)?; // chroma_sample_position
+        } else {
+          bw.write::<2, u8>(0)?; // chroma_sample_position
+        }
         bw.write::<3, u8>(0)?; // reserved
         bw.write_bit(false)?; // initial_presentation_delay_present
 
diff --git a/src/api/context.rs b/src/api/context.rs
index 6aa6a8b..85ae468 100644
--- a/src/api/context.rs
+++ b/src/api/context.rs
@@ -347,14 +347,21 @@ impl<T: Pixel> Context<T> {
         bw.write_bit(true)?; // marker
         bw.write::<7, u8>(1)?; // version
         bw.write::<3, u8>(seq.profile)?;
-        bw.write::<5, u8>(31)?; // level
+        bw.write::<5, u8>(seq.level_idx[0])?; // level
         bw.write_bit(false)?; // tier
         bw.write_bit(seq.bit_depth > 8)?; // high_bitdepth
         bw.write_bit(seq.bit_depth == 12)?; // twelve_bit
         bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs400)?; // monochrome
         bw.write_bit(seq.chroma_sampling != ChromaSampling::Cs444)?; // chroma_subsampling_x
-        bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs420)?; // chroma_subsampling_y
-        bw.write::<2, u8>(0)?; // chroma_sample_position
+        bw.write_bit(matches!(
+          seq.chroma_sampling,
+          ChromaSampling::Cs400 | ChromaSampling::Cs420
+        ))?; // chroma_subsampling_y
+        if seq.chroma_sampling == ChromaSampling::Cs420 {
+          bw.write::<2, u8>(seq.chroma_sample_position as u8)?; // chroma_sample_position
+        } else {
+          bw.write::<2, u8>(0)?; // chroma_sample_position
+        }
         bw.write::<3, u8>(0)?; // reserved
         bw.write_bit(false)?; // initial_presentation_delay_present
 
-- 
2.43.0


From ae97a57d3c9d9fa261b5ef20a1385bc801bfe42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:09 +0000
Subject: [PATCH 10/43] fix: report the quantizer of the frame a show-existing
 packet shows

---
 src/api/internal.rs | 8 +++++++-
 src/encoder.rs      | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/api/internal.rs b/src/api/internal.rs
index 1873f3a..b5912da 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -740,6 +740,7 @@ impl<T: Pixel> ContextInner<T> {
         frame_me_stats: fs.frame_me_stats.clone(),
         output_frameno,
         segmentation: fs.segmentation,
+        base_q_idx: fi.base_q_idx,
       });
       for i in 0..REF_FRAMES {
         if (fi.refresh_frame_flags & (1 << i)) != 0 {
@@ -822,6 +823,7 @@ impl<T: Pixel> ContextInner<T> {
       frame_me_stats: fs.frame_me_stats.clone(),
       output_frameno,
       segmentation: fs.segmentation,
+      base_q_idx: fi.base_q_idx,
     });
     for i in 0..REF_FRAMES {
       if (fi.refresh_frame_flags & (1 << i)) != 0 {
@@ -1324,7 +1326,11 @@ impl<T: Pixel> ContextInner<T> {
 
     let input_frameno = frame_data.fi.input_frameno;
     let frame_type = frame_data.fi.frame_type;
-    let qp = frame_data.fi.base_q_idx;
+    // The quantizer is the one of the frame that gets shown.
+    let map_idx = frame_data.fi.frame_to_show_map_idx as usize;
+    let qp = frame_data.fi.rec_buffer.frames[map_idx]
+      .as_ref()
+      .map_or(frame_data.fi.base_q_idx, |rec| rec.base_q_idx);
     let enc_stats = frame_data.fs.enc_stats.clone();
     self.finalize_packet(rec, source, input_frameno, frame_type, qp, enc_stats)
   }
diff --git a/src/encoder.rs b/src/encoder.rs
index 5c85320..2ea0f49 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -86,6 +86,7 @@ pub struct ReferenceFrame<T: Pixel> {
   pub frame_me_stats: RefMEStats,
   pub output_frameno: u64,
   pub segmentation: SegmentationState,
+  pub base_q_idx: u8,
 }
 
 #[derive(Debug, Clone, Default)]
@@ -3835,6 +3836,7 @@ pub fn update_rec_buffer<T: Pixel>(
     frame_me_stats: fs.frame_me_stats.clone(),
     output_frameno,
     segmentation: fs.segmentation,
+    base_q_idx: fi.base_q_idx,
   });
   for i in 0..REF_FRAMES {
     if (fi.refresh_frame_flags & (1 << i)) != 0 {
-- 
2.43.0


From 9afb400514619dd97bf599fc3577f6c29812416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:18 +0000
Subject: [PATCH 11/43] fix: reject the identity matrix with subsampled chroma

---
 src/api/config/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index aef2c45..9c107d9 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -12,6 +12,7 @@ use thiserror::Error;
 use rayon::{ThreadPool, ThreadPoolBuilder};
 use std::sync::Arc;
 
+use crate::api::color::MatrixCoefficients;
 use crate::api::{ChromaSampling, Context, ContextInner, PixelRange};
 use crate::util::Pixel;
 
@@ -391,13 +392,17 @@ impl Config {
 
     // <https://aomediacodec.github.io/av1-spec/#color-config-syntax>
     if let Some(color_description) = config.color_description {
-      if config.chroma_sampling != ChromaSampling::Cs400
-        && color_description.is_srgb_triple()
-      {
-        if config.pixel_range != PixelRange::Full {
+      if config.chroma_sampling != ChromaSampling::Cs400 {
+        if color_description.is_srgb_triple()
+          && config.pixel_range != PixelRange::Full
+        {
           return Err(ColorConfigurationMismatch);
         }
-        if config.chroma_sampling != ChromaSampling::Cs444 {
+        // The identity matrix requires planes of the same size.
+        if color_description.matrix_coefficients
+          == MatrixCoefficients::Identity
+          && config.chroma_sampling != ChromaSampling::Cs444
+        {
           return Err(ColorConfigurationMismatch);
         }
       }
-- 
2.43.0


From 5ac438ecdff5cab32cac353ec6e2e837c1ddf6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:19 +0000
Subject: [PATCH 12/43] fix: tile count of small frames at very high frame
 rates

---
 src/tiling/tiler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tiling/tiler.rs b/src/tiling/tiler.rs
index 9d6b28a..35babe1 100644
--- a/src/tiling/tiler.rs
+++ b/src/tiling/tiler.rs
@@ -124,9 +124,11 @@ impl TilingInfo {
     let min_tile_rows_log2 = min_tiles_log2.saturating_sub(tile_cols_log2);
     let min_tile_rows_ratelimit_log2 =
       min_tiles_ratelimit_log2.saturating_sub(tile_cols_log2);
+    // The frame may have too few superblock rows for the rate limit.
     let tile_rows_log2 = tile_rows_log2
       .max(min_tile_rows_log2)
-      .clamp(min_tile_rows_ratelimit_log2, max_tile_rows_log2);
+      .max(min_tile_rows_ratelimit_log2)
+      .min(max_tile_rows_log2);
     let tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
 
     let rows = frame_height_sb.div_ceil(tile_height_sb);
-- 
2.43.0


From 418d37b2a63567da61525a74e60dc41a5128566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:19 +0000
Subject: [PATCH 13/43] fix: allow metadata in rate controlled show-existing
 packets

---
 src/rate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rate.rs b/src/rate.rs
index 365e0a4..7e30ccf 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -1095,7 +1095,8 @@ impl RCState {
         droppable = false;
       }
       if fti == FRAME_SUBTYPE_SEF {
-        debug_assert!(bits == SEF_BITS);
+        // Metadata of the shown frame may come with it.
+        debug_assert!(bits >= SEF_BITS);
         debug_assert!(show_frame);
         // Please don't make trial encodes of a SEF.
         debug_assert!(!trial);
-- 
2.43.0


From 0f5d8df9324a695a02a8c80379e5f532c380268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:31 +0000
Subject: [PATCH 14/43] fix: keep explicitly sized 4:2:2 tiles within the
 limits of their coding

---
 src/header.rs       |  2 +-
 src/tiling/tiler.rs | 32 +++++++++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index e3fc927..ede7477 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -668,7 +668,7 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
     let ti = &fi.sequence.tiling;
 
     if fi.sb_width.align_power_of_two_and_shift(ti.tile_cols_log2)
-      == ti.tile_width_sb
+      == ti.tile_width_sb.min(fi.sb_width)
       && fi.sb_height.align_power_of_two_and_shift(ti.tile_rows_log2)
         == ti.tile_height_sb
     {
diff --git a/src/tiling/tiler.rs b/src/tiling/tiler.rs
index 35babe1..7e93f91 100644
--- a/src/tiling/tiler.rs
+++ b/src/tiling/tiler.rs
@@ -125,13 +125,43 @@ impl TilingInfo {
     let min_tile_rows_ratelimit_log2 =
       min_tiles_ratelimit_log2.saturating_sub(tile_cols_log2);
     // The frame may have too few superblock rows for the rate limit.
+    let target_rows_log2 = tile_rows_log2;
     let tile_rows_log2 = tile_rows_log2
       .max(min_tile_rows_log2)
       .max(min_tile_rows_ratelimit_log2)
       .min(max_tile_rows_log2);
-    let tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
+    let mut tile_height_sb =
+      sb_rows.align_power_of_two_and_shift(tile_rows_log2);
+
+    // Tiles that are not uniformly spaced are coded with explicit sizes,
+    // for which the height limit is tighter.
+    if cols > 1
+      && sb_cols.align_power_of_two_and_shift(tile_cols_log2) != tile_width_sb
+    {
+      let max_tile_area_sb = if min_tiles_log2 > 0 {
+        (sb_cols * sb_rows) >> (min_tiles_log2 + 1)
+      } else {
+        sb_cols * sb_rows
+      };
+      let max_tile_height_sb = (max_tile_area_sb / tile_width_sb).max(1);
+      tile_height_sb = tile_height_sb.min(max_tile_height_sb);
+
+      if frame_height_sb.div_ceil(tile_height_sb) > MAX_TILE_ROWS {
+        // More columns allow for higher tiles.
+        return Self::from_target_tiles(
+          sb_size_log2,
+          frame_width,
+          frame_height,
+          frame_rate,
+          tile_cols_log2 + 1,
+          target_rows_log2,
+          is_422_p,
+        );
+      }
+    }
 
     let rows = frame_height_sb.div_ceil(tile_height_sb);
+    let tile_rows_log2 = Self::tile_log2(1, rows).unwrap();
 
     Self {
       frame_width,
-- 
2.43.0


From 74a946de6e86465691239a7bcd499f30055571a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:10 +0000
Subject: [PATCH 15/43] fix: apply the last step of the split into the
 requested number of tiles

---
 src/encoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 2ea0f49..cb8b160 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -249,9 +249,7 @@ impl Sequence {
     if config.tiles > 0 {
       let mut tile_rows_log2 = 0;
       let mut tile_cols_log2 = 0;
-      while (tile_rows_log2 < tiling.max_tile_rows_log2)
-        || (tile_cols_log2 < tiling.max_tile_cols_log2)
-      {
+      loop {
         tiling = TilingInfo::from_target_tiles(
           sb_size_log2,
           config.width,
@@ -262,7 +260,10 @@ impl Sequence {
           config.chroma_sampling == ChromaSampling::Cs422,
         );
 
-        if tiling.rows * tiling.cols >= config.tiles {
+        if tiling.rows * tiling.cols >= config.tiles
+          || (tile_rows_log2 >= tiling.max_tile_rows_log2
+            && tile_cols_log2 >= tiling.max_tile_cols_log2)
+        {
           break;
         };
 
-- 
2.43.0


From 376412f5e2bf5604851cefd8742e520d6b881a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:47 +0000
Subject: [PATCH 16/43] fix: picture size limit of level 4.1

---
 src/levels.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/levels.rs b/src/levels.rs
index 63fbff0..9f88956 100644
--- a/src/levels.rs
+++ b/src/levels.rs
@@ -32,7 +32,7 @@ pub static AV1_LEVEL_MAX_PIC_SIZE: [usize; 32] = [
   0, 0, 665856,  // 3.0
   1065024, // 3.1
   0, 0, 2359296,  // 4.0
-  23592960, // 4.1
+  2359296, // 4.1
   0, 0, 8912896,  // 5.0
   8912896,  // 5.1
   8912896,  // 5.2
-- 
2.43.0


From 9c25582968e4d0e9d320186e9a0d1c57458cb331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:47 +0000
Subject: [PATCH 17/43] fix: check the display rate of a level with the frame
 rate, not its inverse

---
 src/api/config/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index 9c107d9..79399f1 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -427,8 +427,8 @@ impl Config {
         if config.height > AV1_LEVEL_MAX_V_SIZE[level_idx as usize] {
           return Err(LevelConstraintsExceeded);
         }
-        if ((config.width * config.height) as u64 * config.time_base.num)
-          .div_ceil(config.time_base.den)
+        if ((config.width * config.height) as u64 * config.time_base.den)
+          .div_ceil(config.time_base.num)
           > AV1_LEVEL_MAX_DISPLAY_RATE[level_idx as usize] as u64
         {
           return Err(LevelConstraintsExceeded);
-- 
2.43.0


From b19cae234de50e6fa3bbc2b89e2d45d5fde89f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:10 +0000
Subject: [PATCH 18/43] fix: refuse bit depths the encoder does not support

---
 src/api/config/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index 79399f1..7f66b94 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -42,6 +42,9 @@ pub enum InvalidConfig {
   /// The height is invalid.
   #[error("invalid height {0} (expected >= 16, <= 65535)")]
   InvalidHeight(usize),
+  /// The bit depth is invalid.
+  #[error("invalid bit depth {0} (expected 8, 10 or 12)")]
+  InvalidBitDepth(usize),
   /// Aspect ratio numerator is invalid.
   #[error("invalid aspect ratio numerator {0} (expected > 0)")]
   InvalidAspectRatioNum(usize),
@@ -216,6 +219,8 @@ impl Config {
   pub(crate) fn new_inner<T: Pixel>(
     &self,
   ) -> Result<ContextInner<T>, InvalidConfig> {
+    self.validate()?;
+
     assert!(
       8 * std::mem::size_of::<T>() >= self.enc.bit_depth,
       "The Pixel u{} does not match the Config bit_depth {}",
@@ -223,8 +228,6 @@ impl Config {
       self.enc.bit_depth
     );
 
-    self.validate()?;
-
     let mut config = self.enc.clone();
     config.set_key_frame_interval(
       config.min_key_frame_interval,
@@ -321,6 +324,10 @@ impl Config {
       return Err(InvalidHeight(config.height));
     }
 
+    if !matches!(config.bit_depth, 8 | 10 | 12) {
+      return Err(InvalidBitDepth(config.bit_depth));
+    }
+
     if config.sample_aspect_ratio.num == 0 {
       return Err(InvalidAspectRatioNum(
         config.sample_aspect_ratio.num as usize,
-- 
2.43.0


From 4d2f3f18b5b225126ee46fe1dcd76fc55a2f3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:34 +0000
Subject: [PATCH 19/43] fix: quantizers above 255 must not wrap around to small
 ones

---
 src/rate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rate.rs b/src/rate.rs
index 7e30ccf..ac32efe 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -730,8 +730,9 @@ impl RCState {
       // Derive quantizer directly from frame type.
       let bit_depth = ctx.config.bit_depth;
       let chroma_sampling = ctx.config.chroma_sampling;
+      let base_qi = ctx.config.quantizer.min(255) as u8;
       let (log_base_q, log_q) =
-        Self::calc_flat_quantizer(ctx.config.quantizer as u8, bit_depth, fti);
+        Self::calc_flat_quantizer(base_qi, bit_depth, fti);
       QuantizerParameters::new_from_log_q(
         log_base_q,
         log_q,
-- 
2.43.0


From 54d9c03704d988ba4daa6071f717ccbe22886442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:05 +0000
Subject: [PATCH 20/43] fix: refuse two-pass statistics that make the rate
 control divide by zero or overflow

---
 src/rate.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/rate.rs b/src/rate.rs
index ac32efe..b94f8b4 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -44,6 +44,9 @@ const TWOPASS_VERSION: i32 = 1;
 pub(crate) const TWOPASS_HEADER_SZ: usize = 16 + FRAME_NSUBTYPES * (4 + 1 + 8);
 // 4 byte frame type (show_frame and fti jointly coded) + 4 byte log_scale_q24
 const TWOPASS_PACKET_SZ: usize = 8;
+// The smallest rate exponent (Q6) a summary may contain. All those in
+//  RCState::new() are larger.
+const TWOPASS_MIN_EXP: u8 = 32;
 
 const SEF_BITS: i64 = 24;
 
@@ -306,6 +309,10 @@ impl RCDeserialize {
       return Err("Invalid frame type".to_string());
     }
     let log_scale_q24 = self.unbuffer_val(4) as i32;
+    // Make sure the scale is one update_state() can produce.
+    if log_scale_q24 > 16 << 24 || log_scale_q24 < -64 << 24 {
+      return Err("Invalid frame scale".to_string());
+    }
     Ok(RCFrameMetrics { log_scale_q24, fti, show_frame })
   }
 
@@ -349,6 +356,9 @@ impl RCDeserialize {
 
     for exp in s.exp.iter_mut() {
       *exp = self.unbuffer_val(1) as u8;
+      if *exp < TWOPASS_MIN_EXP {
+        return Err("Invalid rate exponent".to_string());
+      }
     }
 
     for scale_sum in s.scale_sum.iter_mut() {
@@ -864,9 +874,11 @@ impl RCState {
           //  frames of each type we need to add compared to the actual sums in
           //  our window.
           for ftj in 0..FRAME_NSUBTYPES {
-            let scale = scale_window_sum[ftj]
-              + bexp_q24(self.scalefilter[ftj].y[0])
-                * (nframes[ftj] - scale_window_nframes[ftj]) as i64;
+            let scale = scale_window_sum[ftj].saturating_add(
+              bexp_q24(self.scalefilter[ftj].y[0]).saturating_mul(
+                (nframes[ftj] - scale_window_nframes[ftj]) as i64,
+              ),
+            );
             log_scale[ftj] = if nframes[ftj] > 0 {
               blog64(scale) - blog64(nframes[ftj] as i64) - q57(24)
             } else {
-- 
2.43.0


From 282dc7f06fb90ca1448a4b4229a1ea9d49269848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:14 +0000
Subject: [PATCH 21/43] fix: refuse pass data lengths the C interface cannot
 express

---
 src/capi.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index 44011d7..75bee86 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -460,7 +460,12 @@ unsafe fn decode_slice<'a>(
 
   let buf = slice::from_raw_parts(*data, *len as usize);
   let (len_bytes, rest) = buf.split_at(std::mem::size_of::<u64>());
-  let buf_len = u64::from_be_bytes(len_bytes.try_into().unwrap()) as usize;
+  let buf_len = u64::from_be_bytes(len_bytes.try_into().unwrap());
+  // The full size must fit the return value.
+  if buf_len > c_int::MAX as u64 - 8 {
+    return (-1, None);
+  }
+  let buf_len = buf_len as usize;
   let full_len = buf_len + 8;
   if buf_len > rest.len() {
     return (full_len as c_int, None);
-- 
2.43.0


From 32d52cfc699818a17a80d031ec7e1be7f7ab13b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:14 +0000
Subject: [PATCH 22/43] fix: refuse levels below 2.0 instead of wrapping around

---
 src/capi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index 75bee86..73e3fa0 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -737,7 +737,7 @@ unsafe fn option_match(
         _ => {
           let (major, minor) =
             scan_fmt!(value, "{}.{}", u8, u8).map_err(|_| ())?;
-          if major > 7 || minor > 3 {
+          if !(2..=7).contains(&major) || minor > 3 {
             return Err(());
           }
           Some(((major - 2) << 2) + minor)
-- 
2.43.0


From 65f351229241e0a802139d6fd68fff4685c11218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:25 +0000
Subject: [PATCH 23/43] fix: twopass_out emits the documented placeholder for
 the summary

Clients that follow the documentation reserve the start of the stats file for
the placeholder and overwrite it in the end; without a placeholder they
overwrite the data of the first frames.
---
 src/rate.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/rate.rs b/src/rate.rs
index b94f8b4..36f0f5e 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -447,6 +447,9 @@ pub struct RCState {
   //  frame is encoded, and must be set to true by calling twopass_out() before
   //  the next frame can be encoded.
   pub pass1_data_retrieved: bool,
+  // Marks whether or not the user has retrieved the placeholder for the summary
+  //  data at the start of the encode.
+  pass1_placeholder_retrieved: bool,
   // Marks whether or not the user has retrieved the summary data at the end of
   //  the encode.
   pass1_summary_retrieved: bool,
@@ -690,6 +693,7 @@ impl RCState {
       nsef_frames: 0,
       pass1_buffer: [0; TWOPASS_HEADER_SZ],
       pass1_data_retrieved: true,
+      pass1_placeholder_retrieved: false,
       pass1_summary_retrieved: false,
       pass2_data_ready: false,
       prev_metrics: RCFrameMetrics::new(),
@@ -1300,7 +1304,7 @@ impl RCState {
     cur_pos = self.buffer_val(TWOPASS_VERSION as i64, 4, cur_pos);
     cur_pos = self.buffer_val(0, TWOPASS_HEADER_SZ - 8, cur_pos);
     debug_assert!(cur_pos == TWOPASS_HEADER_SZ);
-    self.pass1_data_retrieved = true;
+    self.pass1_placeholder_retrieved = true;
     &self.pass1_buffer[..cur_pos]
   }
 
@@ -1357,11 +1361,14 @@ impl RCState {
     &mut self, done_processing: bool,
   ) -> Option<&[u8]> {
     if !self.pass1_data_retrieved {
-      if self.twopass_state != PASS_1 && self.twopass_state != PASS_2_PLUS_1 {
-        Some(self.emit_placeholder_summary())
-      } else {
-        self.emit_frame_data()
-      }
+      self.emit_frame_data()
+    } else if (self.twopass_state == PASS_1
+      || self.twopass_state == PASS_2_PLUS_1)
+      && self.nencoded_frames + self.nsef_frames == 0
+      && !self.pass1_placeholder_retrieved
+    {
+      // Nothing has been encoded yet, reserve the space for the summary.
+      Some(self.emit_placeholder_summary())
     } else if done_processing && !self.pass1_summary_retrieved {
       Some(self.emit_summary())
     } else {
-- 
2.43.0


From cbf4cef063f59e3e62393ce61a0da373e58595d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:42 +0000
Subject: [PATCH 24/43] fix: a still picture takes one frame through the
 channels too

The context refuses further frames in still picture mode, the channels
encoded them, which ends in an assertion while writing their headers.
---
 src/api/channel/data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/channel/data.rs b/src/api/channel/data.rs
index 6e68e0b..8c52bcb 100644
--- a/src/api/channel/data.rs
+++ b/src/api/channel/data.rs
@@ -222,6 +222,8 @@ impl<T: Pixel> FrameSender<T> {
   pub(crate) fn new(
     limit: u64, sender: Sender<FrameInput<T>>, config: Arc<EncoderConfig>,
   ) -> FrameSender<T> {
+    // A still picture is a single frame
+    let limit = if config.still_picture { limit.min(1) } else { limit };
     Self { sender, config, limit, count: 0 }
   }
 
-- 
2.43.0


From 47368d853408dc2b7e88887510b227e0875c7506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:36 +0000
Subject: [PATCH 25/43] fix: metrics of 8-bit video encoded with 16-bit pixels

--high-bitdepth together with --psnr or --metrics panicked since the
metrics refuse 8-bit content that is not in 8-bit pixels.
---
 src/bin/stats.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/bin/stats.rs b/src/bin/stats.rs
index 7a592cb..a26d6fb 100644
--- a/src/bin/stats.rs
+++ b/src/bin/stats.rs
@@ -739,10 +739,40 @@ pub enum MetricsEnabled {
   All,
 }
 
+/// The metrics take 8-bit content in 8-bit pixels only.
+fn to_8bit_pixels<T: Pixel>(frame: &Frame<T>) -> Frame<u8> {
+  let planes = std::array::from_fn(|i| {
+    let plane = &frame.planes[i];
+    let cfg = &plane.cfg;
+    let mut out =
+      Plane::new(cfg.width, cfg.height, cfg.xdec, cfg.ydec, 0, 0);
+    for (dst, src) in out.rows_iter_mut().zip(plane.rows_iter()) {
+      for (d, s) in dst.iter_mut().zip(src) {
+        *d = u8::cast_from(*s);
+      }
+    }
+    out
+  });
+  Frame { planes }
+}
+
 pub fn calculate_frame_metrics<T: Pixel>(
   frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, cs: ChromaSampling,
   metrics: MetricsEnabled,
 ) -> QualityMetrics {
+  if bit_depth == 8
+    && T::type_enum() == PixelType::U16
+    && metrics != MetricsEnabled::None
+  {
+    return calculate_frame_metrics(
+      &to_8bit_pixels(frame1),
+      &to_8bit_pixels(frame2),
+      bit_depth,
+      cs,
+      metrics,
+    );
+  }
+
   match metrics {
     MetricsEnabled::None => QualityMetrics::default(),
     MetricsEnabled::Psnr => QualityMetrics {
-- 
2.43.0


From beac5ce979ea0e8ec242037d2931e9919a511e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:34 +0000
Subject: [PATCH 26/43] fix: refuse levels below 2.0 on the command line

The level index wrapped around, or the subtraction panicked in debug builds.
---
 src/bin/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/common.rs b/src/bin/common.rs
index 7fa0ed4..282adce 100644
--- a/src/bin/common.rs
+++ b/src/bin/common.rs
@@ -562,7 +562,7 @@ fn parse_config(matches: &CliOptions) -> Result<EncoderConfig, CliError> {
       _ => {
         let (major, minor) = scan_fmt!(level_str, "{}.{}", u8, u8)
           .expect("Could not parse AV1 level");
-        if major > 7 || minor > 3 {
+        if !(2..=7).contains(&major) || minor > 3 {
           panic!("Invalid AV1 level")
         }
         Some(((major - 2) << 2) + minor)
-- 
2.43.0


From 172bc70986d9bf0585e231550d92799c20187b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:34 +0000
Subject: [PATCH 27/43] fix: name the argument that load-config conflicts with

The conflict was not detected, and any misspelt option made clap's
assertions panic in debug builds.
---
 src/bin/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/common.rs b/src/bin/common.rs
index 282adce..a1f20ba 100644
--- a/src/bin/common.rs
+++ b/src/bin/common.rs
@@ -322,7 +322,7 @@ pub enum Commands {
     #[clap(long, short, value_parser)]
     save_config: Option<PathBuf>,
     /// Load the encoder configuration from a toml file
-    #[clap(long, short, value_parser, conflicts_with = "save-config")]
+    #[clap(long, short, value_parser, conflicts_with = "save_config")]
     load_config: Option<PathBuf>,
   },
 }
-- 
2.43.0


From f5691ddf002d488fa08bda0be4484cd7171114b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:10 +0000
Subject: [PATCH 28/43] fix: keep the pixel range of a loaded configuration

A configuration saved with --range Full was encoded as limited range.
---
 src/bin/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/common.rs b/src/bin/common.rs
index a1f20ba..1afdbec 100644
--- a/src/bin/common.rs
+++ b/src/bin/common.rs
@@ -464,6 +464,8 @@ pub fn parse_cli() -> Result<ParsedCliOptions, CliError> {
     rec,
   };
 
+  // A loaded configuration comes with its pixel range.
+  let color_range_specified = matches.range.is_some() || enc.is_some();
   let enc = enc.map_or_else(|| parse_config(&matches), Ok)?;
 
   let verbose = if matches.quiet {
@@ -494,7 +496,7 @@ pub fn parse_cli() -> Result<ParsedCliOptions, CliError> {
     io,
     enc,
     limit,
-    color_range_specified: matches.range.is_some(),
+    color_range_specified,
     override_time_base: matches.frame_rate.is_some(),
     metrics_enabled,
     skip: matches.skip,
-- 
2.43.0


From 65ccd77daff69ce3914822ef72183995f58ef292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:10 +0000
Subject: [PATCH 29/43] fix: save configurations with photon noise

TOML integers are signed, the end of the grain segment did not fit and
--photon-noise with --save-config panicked.
---
 src/bin/rav1e-ch.rs | 3 ++-
 src/bin/rav1e.rs    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin/rav1e-ch.rs b/src/bin/rav1e-ch.rs
index 00eb393..639e796 100644
--- a/src/bin/rav1e-ch.rs
+++ b/src/bin/rav1e-ch.rs
@@ -446,7 +446,8 @@ fn run() -> Result<(), error::CliError> {
   if cli.photon_noise > 0 && cli.enc.film_grain_params.is_none() {
     cli.enc.film_grain_params = Some(vec![generate_photon_noise_params(
       0,
-      u64::MAX,
+      // The configuration file holds no larger number
+      i64::MAX as u64,
       NoiseGenArgs {
         iso_setting: cli.photon_noise as u32 * 100,
         width: video_info.width as u32,
diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index bf1e970..ecd8a35 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -431,7 +431,8 @@ fn run() -> Result<(), error::CliError> {
   if cli.photon_noise > 0 && cli.enc.film_grain_params.is_none() {
     cli.enc.film_grain_params = Some(vec![generate_photon_noise_params(
       0,
-      u64::MAX,
+      // The configuration file holds no larger number
+      i64::MAX as u64,
       NoiseGenArgs {
         iso_setting: cli.photon_noise as u32 * 100,
         width: video_info.width as u32,
-- 
2.43.0


From c546e74fb403b636c91febdeb7e4cdeb97fac90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 30/43] fix: report on a limited encode of an empty video

With --limit and no frame in the input the estimated size was divided by
zero when the summary was printed.
---
 src/bin/stats.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/stats.rs b/src/bin/stats.rs
index a26d6fb..94d4025 100644
--- a/src/bin/stats.rs
+++ b/src/bin/stats.rs
@@ -135,7 +135,10 @@ impl ProgressInfo {
   pub fn estimated_size(&self) -> usize {
     self
       .total_frames
-      .map(|frames| self.encoded_size * frames / self.frames_encoded())
+      .map(|frames| {
+        self.encoded_size.saturating_mul(frames)
+          / self.frames_encoded().max(1)
+      })
       .unwrap_or_default()
   }
 
-- 
2.43.0


From 38f0eab640fe39df8d9a5157d3348453124365a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 31/43] fix: do not reserve memory for every frame up to the
 limit

A large --limit aborted the programs with the allocation it asked for.
---
 src/bin/stats.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/stats.rs b/src/bin/stats.rs
index 94d4025..ddf054a 100644
--- a/src/bin/stats.rs
+++ b/src/bin/stats.rs
@@ -99,7 +99,8 @@ impl ProgressInfo {
       frame_rate,
       total_frames,
       time_started: Instant::now(),
-      frame_info: Vec::with_capacity(total_frames.unwrap_or_default()),
+      // The limit may be far above what the input has
+      frame_info: Vec::new(),
       encoded_size: 0,
       metrics_enabled,
     }
-- 
2.43.0


From afa07f940113a5c7a7317b3d52e29ed7fbf690b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:41 +0000
Subject: [PATCH 32/43] fix: measure the visible part of the frames

The metrics library goes through the whole of the planes with their
padding, so the PSNR of anything small or not padded alike was far off.
---
 src/bin/stats.rs | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/bin/stats.rs b/src/bin/stats.rs
index ddf054a..a5c28db 100644
--- a/src/bin/stats.rs
+++ b/src/bin/stats.rs
@@ -137,8 +137,7 @@ impl ProgressInfo {
     self
       .total_frames
       .map(|frames| {
-        self.encoded_size.saturating_mul(frames)
-          / self.frames_encoded().max(1)
+        self.encoded_size.saturating_mul(frames) / self.frames_encoded().max(1)
       })
       .unwrap_or_default()
   }
@@ -743,16 +742,18 @@ pub enum MetricsEnabled {
   All,
 }
 
-/// The metrics take 8-bit content in 8-bit pixels only.
-fn to_8bit_pixels<T: Pixel>(frame: &Frame<T>) -> Frame<u8> {
+/// Copies the visible part of a frame: the metrics go through the whole of the
+/// planes, and take 8-bit content in 8-bit pixels only.
+fn visible_part<T: Pixel, U: Pixel>(
+  frame: &Frame<T>, cast: impl Fn(T) -> U,
+) -> Frame<U> {
   let planes = std::array::from_fn(|i| {
     let plane = &frame.planes[i];
     let cfg = &plane.cfg;
-    let mut out =
-      Plane::new(cfg.width, cfg.height, cfg.xdec, cfg.ydec, 0, 0);
+    let mut out = Plane::new(cfg.width, cfg.height, cfg.xdec, cfg.ydec, 0, 0);
     for (dst, src) in out.rows_iter_mut().zip(plane.rows_iter()) {
       for (d, s) in dst.iter_mut().zip(src) {
-        *d = u8::cast_from(*s);
+        *d = cast(*s);
       }
     }
     out
@@ -764,19 +765,31 @@ pub fn calculate_frame_metrics<T: Pixel>(
   frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, cs: ChromaSampling,
   metrics: MetricsEnabled,
 ) -> QualityMetrics {
-  if bit_depth == 8
-    && T::type_enum() == PixelType::U16
-    && metrics != MetricsEnabled::None
-  {
-    return calculate_frame_metrics(
-      &to_8bit_pixels(frame1),
-      &to_8bit_pixels(frame2),
+  if metrics == MetricsEnabled::None {
+    QualityMetrics::default()
+  } else if bit_depth == 8 {
+    calculate_visible_metrics(
+      &visible_part(frame1, u8::cast_from),
+      &visible_part(frame2, u8::cast_from),
       bit_depth,
       cs,
       metrics,
-    );
+    )
+  } else {
+    calculate_visible_metrics(
+      &visible_part(frame1, u16::cast_from),
+      &visible_part(frame2, u16::cast_from),
+      bit_depth,
+      cs,
+      metrics,
+    )
   }
+}
 
+fn calculate_visible_metrics<T: Pixel>(
+  frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, cs: ChromaSampling,
+  metrics: MetricsEnabled,
+) -> QualityMetrics {
   match metrics {
     MetricsEnabled::None => QualityMetrics::default(),
     MetricsEnabled::Psnr => QualityMetrics {
-- 
2.43.0


From db52bc14716699e78e159733a0b57ef193d8a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:27 +0000
Subject: [PATCH 33/43] fix: inverse transforms of 8-bit content in 16-bit
 pixels

They went to the 12-bit assembly, which clips at 4095: reconstructions
left the 8-bit range and differed from what a decoder shows.
---
 src/asm/x86/transform/inverse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/asm/x86/transform/inverse.rs b/src/asm/x86/transform/inverse.rs
index 31bcefc..ede2efd 100644
--- a/src/asm/x86/transform/inverse.rs
+++ b/src/asm/x86/transform/inverse.rs
@@ -47,7 +47,7 @@ pub fn inverse_transform_add<T: Pixel>(
         );
       }
     }
-    PixelType::U16 => {
+    PixelType::U16 if bd == 12 => {
       if let Some(func) = INV_TXFM_HBD_FNS_12[cpu.as_index()][tx_size][tx_type]
       {
         return call_inverse_hbd_func(
@@ -61,6 +61,8 @@ pub fn inverse_transform_add<T: Pixel>(
         );
       }
     }
+    // There is no assembly for 8-bit content in 16-bit pixels.
+    PixelType::U16 => {}
   };
 
   rust::inverse_transform_add(input, output, eob, tx_size, tx_type, bd, cpu);
-- 
2.43.0


From 244a78f4fbefc6ae565be51e82a5cec06bac4c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:10 +0000
Subject: [PATCH 34/43] fix: intra prediction of 8-bit content in 16-bit pixels

The assembly is for 10 and 12 bits: a block without neighbours was
predicted as 512, which no decoder does.
---
 src/asm/x86/predict.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/asm/x86/predict.rs b/src/asm/x86/predict.rs
index 4db6955..7dfcf3c 100644
--- a/src/asm/x86/predict.rs
+++ b/src/asm/x86/predict.rs
@@ -550,7 +550,7 @@ pub fn dispatch_predict_intra<T: Pixel>(
           call_rust(dst)
         }
       }
-      PixelType::U16 => {
+      PixelType::U16 if bit_depth > 8 => {
         let dst_ptr = dst.data_ptr_mut() as *mut _;
         let edge_ptr = edge_buf.top_left_ptr() as *const _;
         let bd_max = (1 << bit_depth) - 1;
@@ -864,6 +864,8 @@ pub fn dispatch_predict_intra<T: Pixel>(
           call_rust(dst)
         }
       }
+      // The assembly is for 10 and 12 bits only.
+      PixelType::U16 => call_rust(dst),
     }
   }
 }
-- 
2.43.0


From 223ee181d5ed4386fe64092f1f44d195564412fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:04 +0000
Subject: [PATCH 35/43] fix: leave the alignment of the planes out of the
 metrics too

The planes cover whole 8x8 blocks: rows and columns that are not part of
the video counted in its PSNR.
---
 src/bin/rav1e-ch.rs |  2 ++
 src/bin/rav1e.rs    |  2 ++
 src/bin/stats.rs    | 27 ++++++++++++++++-----------
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/bin/rav1e-ch.rs b/src/bin/rav1e-ch.rs
index 639e796..c06ca3d 100644
--- a/src/bin/rav1e-ch.rs
+++ b/src/bin/rav1e-ch.rs
@@ -242,6 +242,8 @@ fn do_encode<T: Pixel, D: Decoder>(
         }
         let summary = build_frame_summary(
           pkt,
+          y4m_details.width,
+          y4m_details.height,
           y4m_details.bit_depth,
           y4m_details.chroma_sampling,
           metrics_enabled,
diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index ecd8a35..454277c 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -155,6 +155,8 @@ fn process_frame<T: Pixel, D: Decoder>(
       }
       frame_summaries.push(build_frame_summary(
         pkt,
+        y4m_details.width,
+        y4m_details.height,
         y4m_details.bit_depth,
         y4m_details.chroma_sampling,
         metrics_cli,
diff --git a/src/bin/stats.rs b/src/bin/stats.rs
index a5c28db..1260c27 100644
--- a/src/bin/stats.rs
+++ b/src/bin/stats.rs
@@ -29,14 +29,16 @@ pub struct FrameSummary {
 
 #[profiling::function]
 pub fn build_frame_summary<T: Pixel>(
-  packets: Packet<T>, bit_depth: usize, chroma_sampling: ChromaSampling,
-  metrics_cli: MetricsEnabled,
+  packets: Packet<T>, width: usize, height: usize, bit_depth: usize,
+  chroma_sampling: ChromaSampling, metrics_cli: MetricsEnabled,
 ) -> FrameSummary {
   let metrics_input_frame: &Frame<T> = packets.source.as_ref().unwrap();
   let metrics_output_frame: &Frame<T> = packets.rec.as_ref().unwrap();
   let encode_metrics: QualityMetrics = calculate_frame_metrics(
     metrics_input_frame,
     metrics_output_frame,
+    width,
+    height,
     bit_depth,
     chroma_sampling,
     metrics_cli,
@@ -745,12 +747,15 @@ pub enum MetricsEnabled {
 /// Copies the visible part of a frame: the metrics go through the whole of the
 /// planes, and take 8-bit content in 8-bit pixels only.
 fn visible_part<T: Pixel, U: Pixel>(
-  frame: &Frame<T>, cast: impl Fn(T) -> U,
+  frame: &Frame<T>, width: usize, height: usize, cast: impl Fn(T) -> U,
 ) -> Frame<U> {
   let planes = std::array::from_fn(|i| {
     let plane = &frame.planes[i];
-    let cfg = &plane.cfg;
-    let mut out = Plane::new(cfg.width, cfg.height, cfg.xdec, cfg.ydec, 0, 0);
+    let (xdec, ydec) = (plane.cfg.xdec, plane.cfg.ydec);
+    // The planes cover whole 8x8 blocks, and there is no chroma in 4:0:0.
+    let width = plane.cfg.width.min((width + xdec) >> xdec);
+    let height = plane.cfg.height.min((height + ydec) >> ydec);
+    let mut out = Plane::new(width, height, xdec, ydec, 0, 0);
     for (dst, src) in out.rows_iter_mut().zip(plane.rows_iter()) {
       for (d, s) in dst.iter_mut().zip(src) {
         *d = cast(*s);
@@ -762,23 +767,23 @@ fn visible_part<T: Pixel, U: Pixel>(
 }
 
 pub fn calculate_frame_metrics<T: Pixel>(
-  frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, cs: ChromaSampling,
-  metrics: MetricsEnabled,
+  frame1: &Frame<T>, frame2: &Frame<T>, width: usize, height: usize,
+  bit_depth: usize, cs: ChromaSampling, metrics: MetricsEnabled,
 ) -> QualityMetrics {
   if metrics == MetricsEnabled::None {
     QualityMetrics::default()
   } else if bit_depth == 8 {
     calculate_visible_metrics(
-      &visible_part(frame1, u8::cast_from),
-      &visible_part(frame2, u8::cast_from),
+      &visible_part(frame1, width, height, u8::cast_from),
+      &visible_part(frame2, width, height, u8::cast_from),
       bit_depth,
       cs,
       metrics,
     )
   } else {
     calculate_visible_metrics(
-      &visible_part(frame1, u16::cast_from),
-      &visible_part(frame2, u16::cast_from),
+      &visible_part(frame1, width, height, u16::cast_from),
+      &visible_part(frame2, width, height, u16::cast_from),
       bit_depth,
       cs,
       metrics,
-- 
2.43.0


From 72137c2f9c5009f93245d08f91760c7c6127a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 36/43] fix: count the last rows and columns of clipped blocks
 in the weighted SSE

The chunks of four rows or columns that a clipped block does not fill were
left out of the distortion, so skipping their residue was free and the right
and bottom edges of pictures whose size is not a multiple of eight were left
uncoded.
---
 src/dist.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/dist.rs b/src/dist.rs
index 3fa3c11..e48c84a 100644
--- a/src/dist.rs
+++ b/src/dist.rs
@@ -236,7 +236,6 @@ pub(crate) mod rust {
     scale_stride: usize, w: usize, h: usize, _bit_depth: usize,
     _cpu: CpuFeatureLevel,
   ) -> u64 {
-    let src1 = src1.subregion(Area::Rect { x: 0, y: 0, width: w, height: h });
     // Always chunk and apply scaling on the sse of squares the size of
     // decimated/sub-sampled importance block sizes.
     // Warning: Changing this will require changing/disabling assembly.
@@ -245,18 +244,23 @@ pub(crate) mod rust {
     // Iterator of a row of scales, stretched out to be per row
     let scales = scale.chunks_exact(scale_stride);
 
-    let sse = src1
-      .vert_windows(chunk_size)
+    let sse = (0..h)
       .step_by(chunk_size)
-      .zip(src2.vert_windows(chunk_size).step_by(chunk_size))
       .zip(scales)
-      .map(|((row1, row2), scales)| {
-        row1
-          .horz_windows(chunk_size)
+      .map(|(y, scales)| {
+        (0..w)
           .step_by(chunk_size)
-          .zip(row2.horz_windows(chunk_size).step_by(chunk_size))
           .zip(scales)
-          .map(|((chunk1, chunk2), &scale)| {
+          .map(|(x, &scale)| {
+            // The last chunks are partial when the block is clipped.
+            let area = Area::Rect {
+              x: x as isize,
+              y: y as isize,
+              width: chunk_size.min(w - x),
+              height: chunk_size.min(h - y),
+            };
+            let chunk1 = src1.subregion(area);
+            let chunk2 = src2.subregion(area);
             let sum = chunk1
               .rows_iter()
               .zip(chunk2.rows_iter())
-- 
2.43.0


From bc635a6cb7a9e1e3c1e0c52e67312bc3e6e2d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 37/43] fix: count visible chroma of blocks whose luma is
 outside the frame

The chroma of sub-8x8 blocks is coded with the last of them, which may lie
outside the frame while the chroma samples do not.
---
 src/rdo.rs | 82 +++++++++++++++++++++++++++---------------------------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/src/rdo.rs b/src/rdo.rs
index 3f6bfb4..bc574fa 100644
--- a/src/rdo.rs
+++ b/src/rdo.rs
@@ -269,42 +269,44 @@ fn compute_distortion<T: Pixel>(
     frame_bo.0.y << MI_SIZE_LOG2,
   );
 
-  if visible_w == 0 || visible_h == 0 {
-    return ScaledDistortion::zero();
-  }
-
-  let mut distortion = match fi.config.tune {
-    Tune::Psychovisual => cdef_dist_wxh(
-      &input_region,
-      &rec_region,
-      visible_w,
-      visible_h,
-      fi.sequence.bit_depth,
-      |bias_area, bsize| {
-        distortion_scale(
-          fi,
-          input_region.subregion(bias_area).frame_block_offset(),
-          bsize,
-        )
-      },
-      fi.cpu_feature_level,
-    ),
-    Tune::Psnr => sse_wxh(
-      &input_region,
-      &rec_region,
-      visible_w,
-      visible_h,
-      |bias_area, bsize| {
-        distortion_scale(
-          fi,
-          input_region.subregion(bias_area).frame_block_offset(),
-          bsize,
-        )
-      },
-      fi.sequence.bit_depth,
-      fi.cpu_feature_level,
-    ),
-  } * fi.dist_scale[0];
+  // The chroma of sub8x8 blocks may be visible where their luma is not.
+  let mut distortion = if visible_w == 0 || visible_h == 0 {
+    ScaledDistortion::zero()
+  } else {
+    let luma = match fi.config.tune {
+      Tune::Psychovisual => cdef_dist_wxh(
+        &input_region,
+        &rec_region,
+        visible_w,
+        visible_h,
+        fi.sequence.bit_depth,
+        |bias_area, bsize| {
+          distortion_scale(
+            fi,
+            input_region.subregion(bias_area).frame_block_offset(),
+            bsize,
+          )
+        },
+        fi.cpu_feature_level,
+      ),
+      Tune::Psnr => sse_wxh(
+        &input_region,
+        &rec_region,
+        visible_w,
+        visible_h,
+        |bias_area, bsize| {
+          distortion_scale(
+            fi,
+            input_region.subregion(bias_area).frame_block_offset(),
+            bsize,
+          )
+        },
+        fi.sequence.bit_depth,
+        fi.cpu_feature_level,
+      ),
+    };
+    luma * fi.dist_scale[0]
+  };
 
   if is_chroma_block
     && !luma_only
@@ -369,11 +371,9 @@ fn compute_tx_distortion<T: Pixel>(
     )
   };
 
-  if visible_w == 0 || visible_h == 0 {
-    return ScaledDistortion::zero();
-  }
-
-  let mut distortion = if skip {
+  let mut distortion = if visible_w == 0 || visible_h == 0 {
+    ScaledDistortion::zero()
+  } else if skip {
     sse_wxh(
       &input_region,
       &rec_region,
-- 
2.43.0


From f6457e3575a1b4a2d87c40606688342a25975c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 38/43] fix: refill a frame the encoder still holds through the
 C interface

rav1e_send_frame() may be called several times with one frame, but filling
it again before the encoder let go of it ended the process.
---
 src/capi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index 73e3fa0..9135894 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -1265,7 +1265,8 @@ fn rav1e_frame_fill_plane_internal<T: rav1e::Pixel>(
   f: &mut Arc<rav1e::Frame<T>>, plane: c_int, data_slice: &[u8],
   stride: ptrdiff_t, bytewidth: c_int,
 ) {
-  let input = Arc::get_mut(f).unwrap();
+  // The encoder may still hold the picture of a frame that was sent.
+  let input = Arc::make_mut(f);
   input.planes[plane as usize].copy_from_raw_u8(
     data_slice,
     stride as usize,
-- 
2.43.0


From a355adba1f901422d43baedf8685620663ad6ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:24 +0000
Subject: [PATCH 39/43] fix: film grain tables in parallel groups of pictures

Each group's encoder numbers its frames from 0, so a table was applied from
its start in every group.  Shift the table to the group's first frame.
---
 src/api/channel/by_gop.rs | 15 +++++++++++----
 src/api/config/encoder.rs | 19 +++++++++++++++++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index bfcf0e8..0e77691 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -109,6 +109,8 @@ impl<T: Pixel> SceneChange<T> {
 }
 
 struct WorkLoad<T: Pixel> {
+  /// The number of the Gop's first frame in the whole video
+  first_frameno: u64,
   s_recv: Receiver<SubGop<T>>,
   send: Sender<Packet<T>>,
 }
@@ -120,14 +122,14 @@ struct WorkerPoolSend<T: Pixel> {
 }
 
 impl<T: Pixel> WorkerPoolSend<T> {
-  fn get_worker(&mut self) -> Option<Sender<SubGop<T>>> {
+  fn get_worker(&mut self, first_frameno: u64) -> Option<Sender<SubGop<T>>> {
     self.recv_workers.recv().ok().map(|sender| {
       let (s_send, s_recv) = unbounded();
       let (send, recv) = unbounded();
 
       let _ = self.send_reassemble.send((self.count, recv));
 
-      let wl = WorkLoad { s_recv, send };
+      let wl = WorkLoad { first_frameno, s_recv, send };
 
       let _ = sender.send(Some(wl));
 
@@ -171,6 +173,9 @@ fn workerpool<T: Pixel>(
       for wl in recv_workload.iter() {
         match wl {
           Some(wl) => {
+            // The worker numbers its frames from 0
+            let mut cfg = cfg.clone();
+            cfg.enc.skip_film_grain(wl.first_frameno);
             let mut inner = cfg.new_inner().unwrap();
             for s in wl.s_recv.iter() {
               for (f, params) in s.frames.into_iter().zip(s.params) {
@@ -331,13 +336,15 @@ impl Config {
     let (mut workers, recv) = workerpool(s, workers, self.clone());
 
     s.spawn_fifo(move |_| {
-      let mut sg_send = workers.get_worker().unwrap();
+      let mut frameno = 0;
+      let mut sg_send = workers.get_worker(frameno).unwrap();
       for sb in r.iter() {
         let end_gop = sb.end_gop;
+        frameno += sb.frames.len() as u64;
         let _ = sg_send.send(sb);
 
         if end_gop {
-          sg_send = workers.get_worker().unwrap();
+          sg_send = workers.get_worker(frameno).unwrap();
         }
       }
     });
diff --git a/src/api/config/encoder.rs b/src/api/config/encoder.rs
index 6bd19b1..537a0cc 100644
--- a/src/api/config/encoder.rs
+++ b/src/api/config/encoder.rs
@@ -259,6 +259,25 @@ impl EncoderConfig {
       })
     })
   }
+
+  /// Shifts the film grain table for an encoder that starts at
+  /// `first_frameno`: the segments keep the frames they apply to.
+  #[cfg(all(feature = "channel-api", feature = "unstable"))]
+  pub(crate) fn skip_film_grain(&mut self, first_frameno: u64) {
+    // The units of the table are 1/10000000 of a second.
+    let num = self.time_base.num as u128 * 10_000_000;
+    let den = self.time_base.den as u128;
+    let shift = |time: u64| {
+      // The first frame that is not before `time`
+      let frameno = (time as u128 * den).div_ceil(num);
+      let frameno = frameno.saturating_sub(first_frameno as u128);
+      (frameno * num / den).min(u64::MAX as u128) as u64
+    };
+    for entry in self.film_grain_params.iter_mut().flatten() {
+      entry.start_time = shift(entry.start_time);
+      entry.end_time = shift(entry.end_time);
+    }
+  }
 }
 
 impl fmt::Display for EncoderConfig {
-- 
2.43.0


From 79133e4e394af5ba376a4c5014dadc92a7a05c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:01 +0000
Subject: [PATCH 40/43] fix: parallel-GOP channels with one slot or none

With one slot the dispatcher waited for a free worker while it still held
the only worker's queue, with none it ended the process.
---
 src/api/channel/by_gop.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index 0e77691..26928d9 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -344,6 +344,8 @@ impl Config {
         let _ = sg_send.send(sb);
 
         if end_gop {
+          // Let the worker finish, it may be the only one
+          drop(sg_send);
           sg_send = workers.get_worker(frameno).unwrap();
         }
       }
@@ -385,7 +387,7 @@ impl Config {
     let run = move || {
       let _ = rayon::scope_fifo(|s| {
         let sg_recv = cfg.scenechange(s, receive_frame);
-        cfg.encode(s, slots, sg_recv, send_packet);
+        cfg.encode(s, slots.max(1), sg_recv, send_packet);
       });
     };
 
-- 
2.43.0


From 14437c9c872fa84353f235b940a5209cbf40403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:31 +0000
Subject: [PATCH 41/43] fix: do not trust the lengths in the two-pass data file
 with memory

---
 src/bin/common.rs   | 12 ++++++++++++
 src/bin/rav1e-ch.rs | 23 +++++++++--------------
 src/bin/rav1e.rs    | 10 ++--------
 3 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/bin/common.rs b/src/bin/common.rs
index 1afdbec..49b8df3 100644
--- a/src/bin/common.rs
+++ b/src/bin/common.rs
@@ -400,6 +400,18 @@ fn build_speed_long_help() -> Option<&'static str> {
 #[allow(unused_mut)]
 /// Only call this once at the start of the app,
 /// otherwise bad things will happen.
+/// Reads `len` bytes of two-pass data, without trusting `len` (it may be
+/// damaged) with an allocation.
+pub fn read_pass_data(file: &mut File, len: u64) -> io::Result<Vec<u8>> {
+  let mut data = Vec::new();
+  file.take(len).read_to_end(&mut data)?;
+  if data.len() as u64 == len {
+    Ok(data)
+  } else {
+    Err(io::ErrorKind::UnexpectedEof.into())
+  }
+}
+
 pub fn parse_cli() -> Result<ParsedCliOptions, CliError> {
   let matches = CliOptions::parse();
 
diff --git a/src/bin/rav1e-ch.rs b/src/bin/rav1e-ch.rs
index c06ca3d..d5e6a6a 100644
--- a/src/bin/rav1e-ch.rs
+++ b/src/bin/rav1e-ch.rs
@@ -200,11 +200,10 @@ fn do_encode<T: Pixel, D: Decoder>(
           .read_exact(&mut buflen)
           .map_err(|e| e.context("Unable to read the two-pass data file."))?;
 
-        let mut data = vec![0u8; u64::from_be_bytes(buflen) as usize];
-
-        passfile
-          .read_exact(&mut data)
-          .map_err(|e| e.context("Unable to read the two-pass data file."))?;
+        let mut data =
+          read_pass_data(&mut passfile, u64::from_be_bytes(buflen)).map_err(
+            |e| e.context("Unable to read the two-pass data file."),
+          )?;
 
         while send_rc.send(RcData::Frame(data.into_boxed_slice())).is_ok() {
           passfile.read_exact(&mut buflen).map_err(|e| {
@@ -215,11 +214,10 @@ fn do_encode<T: Pixel, D: Decoder>(
             break;
           }
 
-          data = vec![0u8; u64::from_be_bytes(buflen) as usize];
-
-          passfile.read_exact(&mut data).map_err(|e| {
-            e.context("Unable to read the two-pass data file.")
-          })?;
+          data = read_pass_data(&mut passfile, u64::from_be_bytes(buflen))
+            .map_err(|e| {
+              e.context("Unable to read the two-pass data file.")
+            })?;
         }
       }
 
@@ -475,10 +473,7 @@ fn run() -> Result<(), error::CliError> {
       let mut buflen = [0u8; 8];
       f.read_exact(&mut buflen)
         .map_err(|e| e.context("Summary data too short"))?;
-      let len = i64::from_be_bytes(buflen);
-      let mut buf = vec![0u8; len as usize];
-
-      f.read_exact(&mut buf)
+      let buf = read_pass_data(&mut f, u64::from_be_bytes(buflen))
         .map_err(|e| e.context("Summary data too short"))?;
 
       rc = RateControlConfig::from_summary_slice(&buf)
diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index 454277c..3a2f54d 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -128,10 +128,7 @@ fn process_frame<T: Pixel, D: Decoder>(
       passfile
         .read_exact(&mut buflen)
         .map_err(|e| e.context("Unable to read the two-pass data file."))?;
-      let mut data = vec![0u8; u64::from_be_bytes(buflen) as usize];
-
-      passfile
-        .read_exact(&mut data)
+      let data = read_pass_data(passfile, u64::from_be_bytes(buflen))
         .map_err(|e| e.context("Unable to read the two-pass data file."))?;
 
       ctx
@@ -460,10 +457,7 @@ fn run() -> Result<(), error::CliError> {
       let mut buflen = [0u8; 8];
       f.read_exact(&mut buflen)
         .map_err(|e| e.context("Summary data too short"))?;
-      let len = i64::from_be_bytes(buflen);
-      let mut buf = vec![0u8; len as usize];
-
-      f.read_exact(&mut buf)
+      let buf = read_pass_data(&mut f, u64::from_be_bytes(buflen))
         .map_err(|e| e.context("Summary data too short"))?;
 
       rc = RateControlConfig::from_summary_slice(&buf)
-- 
2.43.0


From 513f23939eeaf25324420702663d20b30618bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:50 +0000
Subject: [PATCH 42/43] fix: report frames that rav1e-ch did not encode

---
 src/bin/rav1e-ch.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/bin/rav1e-ch.rs b/src/bin/rav1e-ch.rs
index d5e6a6a..5dad95d 100644
--- a/src/bin/rav1e-ch.rs
+++ b/src/bin/rav1e-ch.rs
@@ -184,11 +184,11 @@ fn do_encode<T: Pixel, D: Decoder>(
     });
 
     // Send frames
-    let send_frames = s.spawn(move |_| -> Result<(), CliError> {
+    let send_frames = s.spawn(move |_| -> Result<usize, CliError> {
       while source.read_frame(&mut send_frame, y4m_details) {}
 
       // send_frame.result()
-      Ok(())
+      Ok(source.count)
     });
 
     // Send pass data
@@ -225,8 +225,10 @@ fn do_encode<T: Pixel, D: Decoder>(
     });
 
     // Receive Packets
-    let receive_packets = s.spawn(move |_| -> Result<(), CliError> {
+    let receive_packets = s.spawn(move |_| -> Result<usize, CliError> {
+      let mut received = 0;
       for pkt in receive_packet.iter() {
+        received += 1;
         output.write_frame(
           pkt.input_frameno as u64,
           pkt.data.as_ref(),
@@ -267,15 +269,20 @@ fn do_encode<T: Pixel, D: Decoder>(
       }
 
       // receive_packet.result()
-      Ok(())
+      Ok(received)
     });
 
     send_pass_data.join().expect("The send pass data thread panicked ")?;
     receive_pass_data
       .join()
       .expect("The receive pass data thread panicked")?;
-    send_frames.join().expect("The send frames thread panicked")?;
-    receive_packets.join().expect("The receive packets thread panicked")?;
+    let sent = send_frames.join().expect("The send frames thread panicked")?;
+    let received =
+      receive_packets.join().expect("The receive packets thread panicked")?;
+
+    if received < sent {
+      return Err(CliError::new("Failed to encode video"));
+    }
 
     Ok(())
   })
@@ -563,7 +570,9 @@ fn run() -> Result<(), error::CliError> {
     };
   }
 
-  let source = Source::new(cli.limit, y4m_dec);
+  // A still picture is a single frame
+  let limit = if cli.enc.still_picture { 1 } else { cli.limit };
+  let source = Source::new(limit, y4m_dec);
 
   if video_info.bit_depth == 8 && !cli.force_highbitdepth {
     do_encode::<u8, y4m::Decoder<Box<dyn Read + Send>>>(
-- 
2.43.0


From f8225b5537f27aea473758e6c22583dd2961b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 43/43] fix: end the channel when the pass data do not agree
 with the summary

---
 src/api/channel/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index 7080f95..02c078f 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -327,7 +327,9 @@ impl Config {
             Err(EncoderStatus::Encoded) => true,
             // With a single frame to encode the lookahead never needs more.
             Err(EncoderStatus::NeedMoreData) => break,
-            Err(EncoderStatus::NotReady) => todo!("Error reporting"),
+            // The pass data do not agree with the summary. Closing the
+            // channels is the only way to report the error.
+            Err(EncoderStatus::NotReady) => return,
             _ => unreachable!(),
           };
           if has_pass_data {
@@ -359,7 +361,9 @@ impl Config {
           }
           Err(EncoderStatus::LimitReached) => break,
           Err(EncoderStatus::Encoded) => true,
-          Err(EncoderStatus::NotReady) => todo!("Error reporting"),
+          // The pass data do not agree with the summary. Closing the
+          // channels is the only way to report the error.
+          Err(EncoderStatus::NotReady) => return,
           _ => unreachable!(),
         };
 
-- 
2.43.0

