From 0ae26e13d5d7c2814d221c95bde12119442b4f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:18 +0000
Subject: [PATCH 1/8] verif: cfg-guarded hooks for contract verification

---
 src/activity.rs                      |  6 ++++++
 src/api/config/mod.rs                |  6 ++++++
 src/api/config/rate.rs               |  6 ++++++
 src/api/config/speedsettings.rs      |  6 ++++++
 src/api/internal.rs                  |  6 ++++++
 src/api/lookahead.rs                 |  6 ++++++
 src/api/util.rs                      |  6 ++++++
 src/cdef.rs                          |  6 ++++++
 src/context/block_unit.rs            |  6 ++++++
 src/context/cdf_context.rs           |  6 ++++++
 src/context/frame_header.rs          |  6 ++++++
 src/context/mod.rs                   | 10 ++++++++++
 src/context/partition_unit.rs        |  6 ++++++
 src/context/superblock_unit.rs       |  6 ++++++
 src/context/transform_unit.rs        |  6 ++++++
 src/deblock.rs                       |  6 ++++++
 src/dist.rs                          |  6 ++++++
 src/ec.rs                            | 16 ++++++++++++++++
 src/encoder.rs                       |  6 ++++++
 src/entropymode.rs                   |  6 ++++++
 src/frame/mod.rs                     |  6 ++++++
 src/header.rs                        |  6 ++++++
 src/levels.rs                        |  6 ++++++
 src/lib.rs                           |  7 +++++++
 src/lrf.rs                           |  6 ++++++
 src/mc.rs                            |  6 ++++++
 src/me.rs                            |  6 ++++++
 src/partition.rs                     |  6 ++++++
 src/predict.rs                       |  6 ++++++
 src/quantize/mod.rs                  |  6 ++++++
 src/rate.rs                          |  6 ++++++
 src/rdo.rs                           |  6 ++++++
 src/recon_intra.rs                   |  6 ++++++
 src/scan_order.rs                    |  6 ++++++
 src/segmentation.rs                  |  6 ++++++
 src/stats.rs                         |  6 ++++++
 src/tiling/plane_region.rs           |  6 ++++++
 src/tiling/tile_blocks.rs            |  6 ++++++
 src/tiling/tile_restoration_state.rs |  6 ++++++
 src/tiling/tile_state.rs             |  6 ++++++
 src/tiling/tiler.rs                  |  6 ++++++
 src/transform/forward.rs             |  6 ++++++
 src/transform/inverse.rs             |  6 ++++++
 src/transform/mod.rs                 |  6 ++++++
 src/util/kmeans.rs                   |  6 ++++++
 src/util/logexp.rs                   |  6 ++++++
 src/util/mod.rs                      |  6 ++++++
 47 files changed, 297 insertions(+)

diff --git a/src/activity.rs b/src/activity.rs
index 3398dea..bf3a64d 100644
--- a/src/activity.rs
+++ b/src/activity.rs
@@ -273,3 +273,9 @@ mod ssim_boost_tests {
     );
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_activity {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/activity.rs"));
+}
diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index aef2c45..8a9e2b0 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -456,3 +456,9 @@ impl Config {
     Ok(seq.tiling)
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_api_config {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/api_config.rs"));
+}
diff --git a/src/api/config/rate.rs b/src/api/config/rate.rs
index 7dee501..b608121 100644
--- a/src/api/config/rate.rs
+++ b/src/api/config/rate.rs
@@ -76,3 +76,9 @@ impl RateControlConfig {
     self
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_rate_config {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/rate_config.rs"));
+}
diff --git a/src/api/config/speedsettings.rs b/src/api/config/speedsettings.rs
index 3d04580..3ce19e7 100644
--- a/src/api/config/speedsettings.rs
+++ b/src/api/config/speedsettings.rs
@@ -449,3 +449,9 @@ impl fmt::Display for SegmentationLevel {
     )
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_speedsettings {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/speedsettings.rs"));
+}
diff --git a/src/api/internal.rs b/src/api/internal.rs
index 153610c..5e0461a 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -1733,3 +1733,9 @@ impl<T: Pixel> ContextInner<T> {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_api_internal {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/api_internal.rs"));
+}
diff --git a/src/api/lookahead.rs b/src/api/lookahead.rs
index 177f6ad..c04b565 100644
--- a/src/api/lookahead.rs
+++ b/src/api/lookahead.rs
@@ -282,3 +282,9 @@ pub(crate) fn compute_motion_vectors<T: Pixel>(
       estimate_tile_motion(fi, ts, inter_cfg);
     });
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_lookahead {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/lookahead.rs"));
+}
diff --git a/src/api/util.rs b/src/api/util.rs
index 9480be2..7fe3c84 100644
--- a/src/api/util.rs
+++ b/src/api/util.rs
@@ -299,3 +299,9 @@ impl<T: Pixel> IntoFrame<T> for (Frame<T>, Option<FrameParameters>) {
     (Some(Arc::new(self.0)), self.1)
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_api_util {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/api_util.rs"));
+}
diff --git a/src/cdef.rs b/src/cdef.rs
index ff1d0fa..28029a5 100644
--- a/src/cdef.rs
+++ b/src/cdef.rs
@@ -623,3 +623,9 @@ pub fn cdef_filter_tile<T: Pixel>(
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_cdef {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/cdef.rs"));
+}
diff --git a/src/context/block_unit.rs b/src/context/block_unit.rs
index 410953a..1aeaac6 100644
--- a/src/context/block_unit.rs
+++ b/src/context/block_unit.rs
@@ -2015,3 +2015,9 @@ impl ContextWriter<'_> {
     new_cul_level
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_block_unit {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/block_unit.rs"));
+}
diff --git a/src/context/cdf_context.rs b/src/context/cdf_context.rs
index 18d93ac..fa7b489 100644
--- a/src/context/cdf_context.rs
+++ b/src/context/cdf_context.rs
@@ -743,3 +743,9 @@ impl<'a> ContextWriter<'a> {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_cdf_context {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/cdf_context.rs"));
+}
diff --git a/src/context/frame_header.rs b/src/context/frame_header.rs
index 391057d..acb0d6a 100644
--- a/src/context/frame_header.rs
+++ b/src/context/frame_header.rs
@@ -273,3 +273,9 @@ impl ContextWriter<'_> {
     w.literal(bits, strength_index as u32);
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_frame_header {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/frame_header.rs"));
+}
diff --git a/src/context/mod.rs b/src/context/mod.rs
index 700fd66..cf88acb 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -33,7 +33,11 @@ use crate::util::*;
 use arrayvec::*;
 use std::default::Default;
 use std::ops::{Add, Index, IndexMut};
+#[cfg(not(kani))]
 use std::*;
+// Kani replaces `std`'s macros, which makes the glob above ambiguous.
+#[cfg(kani)]
+use std::{cmp, fmt, mem, ops, slice};
 
 const MAX_REF_MV_STACK_SIZE: usize = 8;
 pub const REF_CAT_LEVEL: u32 = 640;
@@ -244,3 +248,9 @@ impl ContextWriter<'_> {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_context_mod {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/context_mod.rs"));
+}
diff --git a/src/context/partition_unit.rs b/src/context/partition_unit.rs
index 64f4a57..e1e9c44 100644
--- a/src/context/partition_unit.rs
+++ b/src/context/partition_unit.rs
@@ -548,3 +548,9 @@ mod test {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_partition_unit {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/partition_unit.rs"));
+}
diff --git a/src/context/superblock_unit.rs b/src/context/superblock_unit.rs
index 4200f87..0058c49 100644
--- a/src/context/superblock_unit.rs
+++ b/src/context/superblock_unit.rs
@@ -125,3 +125,9 @@ impl Add for TileSuperBlockOffset {
     TileSuperBlockOffset(self.0 + rhs.0)
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_superblock_unit {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/superblock_unit.rs"));
+}
diff --git a/src/context/transform_unit.rs b/src/context/transform_unit.rs
index 09013d3..3d70f80 100644
--- a/src/context/transform_unit.rs
+++ b/src/context/transform_unit.rs
@@ -984,3 +984,9 @@ impl ContextWriter<'_> {
     mag + 14
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_transform_unit {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/transform_unit.rs"));
+}
diff --git a/src/deblock.rs b/src/deblock.rs
index 2f39bd5..8fdc57e 100644
--- a/src/deblock.rs
+++ b/src/deblock.rs
@@ -1666,3 +1666,9 @@ pub fn deblock_filter_optimize<T: Pixel, U: Pixel>(
     )
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_deblock {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/deblock.rs"));
+}
diff --git a/src/dist.rs b/src/dist.rs
index 3fa3c11..684e7e5 100644
--- a/src/dist.rs
+++ b/src/dist.rs
@@ -532,3 +532,9 @@ pub mod test {
     get_satd_same_inner::<u16>();
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_dist {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/dist.rs"));
+}
diff --git a/src/ec.rs b/src/ec.rs
index f5de3d8..5db10c7 100644
--- a/src/ec.rs
+++ b/src/ec.rs
@@ -331,6 +331,16 @@ impl<S> WriterBase<S> {
   }
 
   /// Compute low and range values from token cdf values and local state
+  #[cfg_attr(kani, kani::requires(self.rng >= 0x8000
+    && fl <= 32768 && fh < 32768 && (fh >> 6) <= (fl >> 6)
+    && nms >= 1 && nms <= 16))]
+  #[cfg_attr(kani, kani::ensures(|lr: &(ec_window, u16)| {
+    // AV1 specification 8.2.6
+    let r = self.rng as u32;
+    let cur = |f: u16, n: u16| (((r >> 8) * (f as u32 >> 6)) >> 1) + 4 * n as u32;
+    let prev = if fl == 32768 { r } else { cur(fl, nms) };
+    lr.0 == r - prev && lr.1 as u32 == prev - cur(fh, nms - 1) && lr.1 >= 4
+  }))]
   const fn lr_compute(&self, fl: u16, fh: u16, nms: u16) -> (ec_window, u16) {
     let r = self.rng as u32;
     debug_assert!(32768 <= r);
@@ -1150,3 +1160,9 @@ mod test {
     assert_eq!(r.symbol(&cdf), 2);
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_ec {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/ec.rs"));
+}
diff --git a/src/encoder.rs b/src/encoder.rs
index 5c85320..04fbeef 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -3856,3 +3856,9 @@ mod test {
     );
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_encoder {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/encoder.rs"));
+}
diff --git a/src/entropymode.rs b/src/entropymode.rs
index f1c07c4..526ea1c 100644
--- a/src/entropymode.rs
+++ b/src/entropymode.rs
@@ -1081,3 +1081,9 @@ pub static default_tx_size_cdf: [[[u16; MAX_TX_DEPTH + 1]; TX_SIZE_CONTEXTS];
   [[12986, 15180], [12986, 15180], [24302, 25602]],
   [[5782, 11475], [5782, 11475], [16803, 22759]],
 ]);
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_entropymode {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/entropymode.rs"));
+}
diff --git a/src/frame/mod.rs b/src/frame/mod.rs
index 0e3248a..b3cbcee 100644
--- a/src/frame/mod.rs
+++ b/src/frame/mod.rs
@@ -102,3 +102,9 @@ impl<T: Pixel> AsTile<T> for Frame<T> {
     TileMut::new(self, TileRect { x: 0, y: 0, width, height })
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_frame {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/frame.rs"));
+}
diff --git a/src/header.rs b/src/header.rs
index 4217285..158d30a 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -1242,3 +1242,9 @@ mod tests {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_header {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/header.rs"));
+}
diff --git a/src/levels.rs b/src/levels.rs
index 63fbff0..f3cef7a 100644
--- a/src/levels.rs
+++ b/src/levels.rs
@@ -114,3 +114,9 @@ pub static AV1_LEVEL_MAX_DISPLAY_RATE: [usize; 32] = [
   0,
   0,
 ];
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_levels {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/levels.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 670416e..d8cc766 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -36,6 +36,7 @@
 
 #![allow(missing_abi)]
 #![allow(unused_unsafe)]
+#![allow(unexpected_cfgs)]
 
 #[cfg(test)]
 #[macro_use]
@@ -327,3 +328,9 @@ pub mod bench {
 
 #[cfg(fuzzing)]
 pub mod fuzzing;
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub mod verif {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/lib.rs"));
+}
diff --git a/src/lrf.rs b/src/lrf.rs
index 7a3d083..db7f091 100644
--- a/src/lrf.rs
+++ b/src/lrf.rs
@@ -1584,3 +1584,9 @@ impl RestorationState {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_lrf {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/lrf.rs"));
+}
diff --git a/src/mc.rs b/src/mc.rs
index d442322..3ebbfa5 100644
--- a/src/mc.rs
+++ b/src/mc.rs
@@ -478,3 +478,9 @@ pub(crate) mod rust {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_mc {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/mc.rs"));
+}
diff --git a/src/me.rs b/src/me.rs
index 8ebe154..9b7a375 100644
--- a/src/me.rs
+++ b/src/me.rs
@@ -1521,3 +1521,9 @@ fn get_mv_rate(
   diff_to_rate(a.row - b.row, allow_high_precision_mv)
     + diff_to_rate(a.col - b.col, allow_high_precision_mv)
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_me {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/me.rs"));
+}
diff --git a/src/partition.rs b/src/partition.rs
index 880d7f7..2e6de96 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -1059,3 +1059,9 @@ mod tests {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_partition {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/partition.rs"));
+}
diff --git a/src/predict.rs b/src/predict.rs
index 8da121d..447dfbb 100644
--- a/src/predict.rs
+++ b/src/predict.rs
@@ -1692,3 +1692,9 @@ mod test {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_predict {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/predict.rs"));
+}
diff --git a/src/quantize/mod.rs b/src/quantize/mod.rs
index 0501915..01504f4 100644
--- a/src/quantize/mod.rs
+++ b/src/quantize/mod.rs
@@ -383,3 +383,9 @@ pub mod rust {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_quantize {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/quantize.rs"));
+}
diff --git a/src/rate.rs b/src/rate.rs
index 365e0a4..87fd4eb 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -1644,3 +1644,9 @@ impl RCState {
     Ok(consumed)
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_rate {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/rate.rs"));
+}
diff --git a/src/rdo.rs b/src/rdo.rs
index 3f6bfb4..24a2dbc 100644
--- a/src/rdo.rs
+++ b/src/rdo.rs
@@ -2750,3 +2750,9 @@ pub fn rdo_loop_decision<T: Pixel, W: Writer>(
 fn estimate_rate_test() {
   assert_eq!(estimate_rate(0, TxSize::TX_4X4, 0), RDO_RATE_TABLE[0][0][0]);
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_rdo {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/rdo.rs"));
+}
diff --git a/src/recon_intra.rs b/src/recon_intra.rs
index 5e31130..cc668a4 100644
--- a/src/recon_intra.rs
+++ b/src/recon_intra.rs
@@ -448,3 +448,9 @@ pub fn has_bottom_left(
     ((has_bl_table[idx1] >> idx2) & 1) != 0
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_recon_intra {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/recon_intra.rs"));
+}
diff --git a/src/scan_order.rs b/src/scan_order.rs
index 7b55531..2c94acb 100644
--- a/src/scan_order.rs
+++ b/src/scan_order.rs
@@ -1319,3 +1319,9 @@ pub static av1_scan_orders: [[SCAN_ORDER; TX_TYPES]; TxSize::TX_SIZES_ALL] = [
 		SCAN_ORDER { scan: &mcol_scan_32x16, iscan: &mcol_iscan_32x16 },
 	],
 ];
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_scan_order {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/scan_order.rs"));
+}
diff --git a/src/segmentation.rs b/src/segmentation.rs
index a733398..a1b69ca 100644
--- a/src/segmentation.rs
+++ b/src/segmentation.rs
@@ -194,3 +194,9 @@ fn segment_idx_from_distortion(
 ) -> u8 {
   threshold.partition_point(|&t| s.0 < t.0) as u8
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_segmentation {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/segmentation.rs"));
+}
diff --git a/src/stats.rs b/src/stats.rs
index 88612ff..1217ff8 100644
--- a/src/stats.rs
+++ b/src/stats.rs
@@ -85,3 +85,9 @@ impl AddAssign<&Self> for EncoderStats {
     self.skip_block_count += rhs.skip_block_count;
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_stats {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/stats.rs"));
+}
diff --git a/src/tiling/plane_region.rs b/src/tiling/plane_region.rs
index 6f43b9d..0c1ca29 100644
--- a/src/tiling/plane_region.rs
+++ b/src/tiling/plane_region.rs
@@ -785,3 +785,9 @@ fn frame_block_offset() {
     );
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_plane_region {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/plane_region.rs"));
+}
diff --git a/src/tiling/tile_blocks.rs b/src/tiling/tile_blocks.rs
index 5bcf42a..495f46b 100644
--- a/src/tiling/tile_blocks.rs
+++ b/src/tiling/tile_blocks.rs
@@ -308,3 +308,9 @@ impl IndexMut<TileBlockOffset> for TileBlocksMut<'_> {
     &mut self[bo.0.y][bo.0.x]
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_tile_blocks {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/tile_blocks.rs"));
+}
diff --git a/src/tiling/tile_restoration_state.rs b/src/tiling/tile_restoration_state.rs
index 4ef8152..9ae276f 100644
--- a/src/tiling/tile_restoration_state.rs
+++ b/src/tiling/tile_restoration_state.rs
@@ -424,3 +424,9 @@ impl TileRestorationStateMut<'_> {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_tile_restoration {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/tile_restoration.rs"));
+}
diff --git a/src/tiling/tile_state.rs b/src/tiling/tile_state.rs
index 31d70b0..adfaf15 100644
--- a/src/tiling/tile_state.rs
+++ b/src/tiling/tile_state.rs
@@ -263,3 +263,9 @@ impl<'a, T: Pixel> TileStateMut<'a, T> {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_tile_state {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/tile_state.rs"));
+}
diff --git a/src/tiling/tiler.rs b/src/tiling/tiler.rs
index 9d6b28a..bdb627d 100644
--- a/src/tiling/tiler.rs
+++ b/src/tiling/tiler.rs
@@ -872,3 +872,9 @@ pub mod test {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_tiler {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/tiler.rs"));
+}
diff --git a/src/transform/forward.rs b/src/transform/forward.rs
index 1ca1c8f..5b3d101 100644
--- a/src/transform/forward.rs
+++ b/src/transform/forward.rs
@@ -160,3 +160,9 @@ pub mod rust {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_tx_forward {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/tx_forward.rs"));
+}
diff --git a/src/transform/inverse.rs b/src/transform/inverse.rs
index 7b19506..309c5c3 100644
--- a/src/transform/inverse.rs
+++ b/src/transform/inverse.rs
@@ -1710,3 +1710,9 @@ pub(crate) mod rust {
   const INV_INTERMEDIATE_SHIFTS: [usize; TxSize::TX_SIZES_ALL] =
     [0, 1, 2, 2, 2, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2];
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_tx_inverse {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/tx_inverse.rs"));
+}
diff --git a/src/transform/mod.rs b/src/transform/mod.rs
index 649e6f5..fdcbbbf 100644
--- a/src/transform/mod.rs
+++ b/src/transform/mod.rs
@@ -617,3 +617,9 @@ mod test {
     roundtrips::<u16>();
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_transform {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/transform.rs"));
+}
diff --git a/src/util/kmeans.rs b/src/util/kmeans.rs
index 58398f6..3a53e12 100644
--- a/src/util/kmeans.rs
+++ b/src/util/kmeans.rs
@@ -121,3 +121,9 @@ mod test {
     assert_eq!(centroids, [2, 11, 21, 31]);
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_kmeans {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/kmeans.rs"));
+}
diff --git a/src/util/logexp.rs b/src/util/logexp.rs
index b538336..ee8bd5d 100644
--- a/src/util/logexp.rs
+++ b/src/util/logexp.rs
@@ -358,3 +358,9 @@ mod test {
     }
   }
 }
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_logexp {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/logexp.rs"));
+}
diff --git a/src/util/mod.rs b/src/util/mod.rs
index 6ad399a..db73ebb 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -22,3 +22,9 @@ pub use uninit::*;
 
 pub use kmeans::*;
 pub(crate) use logexp::*;
+
+#[cfg(any(kani, rav1e_verif))]
+#[doc(hidden)]
+pub(crate) mod verif_util {
+  include!(concat!(env!("RAV1E_VERIF_DIR"), "/util.rs"));
+}
-- 
2.43.0


From 7b66513617636074e217dca14b9715c843422028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:18 +0000
Subject: [PATCH 2/8] verif: resolve bitstream_io to the contract writer under
 the verifier

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d8cc766..bee66cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -329,6 +329,16 @@ pub mod bench {
 #[cfg(fuzzing)]
 pub mod fuzzing;
 
+// Under the verifier `bitstream_io` resolves to this crate, whose writer obeys
+// the contract assumed of the dependency.
+#[cfg(kani)]
+extern crate bitstream_io as bitstream_io_dep;
+#[cfg(kani)]
+extern crate self as bitstream_io;
+#[cfg(kani)]
+#[doc(hidden)]
+pub use verif::bits::{BigEndian, BitWrite, BitWriter, LittleEndian};
+
 #[cfg(any(kani, rav1e_verif))]
 #[doc(hidden)]
 pub mod verif {
-- 
2.43.0


From 713e5ffeefe425321ebccf121908fb414e65fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 3/8] fix: keep the rate-limited tile row count within the
 maximum

TilingInfo::from_target_tiles() clamped the number of tile rows between the
minimum for the frame rate and the maximum for the frame size; at very high
frame rates (a time base of 1/1000000000 is accepted) the former exceeds the
latter and clamp() panics.
---
 src/tiling/tiler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tiling/tiler.rs b/src/tiling/tiler.rs
index bdb627d..3226b93 100644
--- a/src/tiling/tiler.rs
+++ b/src/tiling/tiler.rs
@@ -126,7 +126,8 @@ impl TilingInfo {
       min_tiles_ratelimit_log2.saturating_sub(tile_cols_log2);
     let tile_rows_log2 = tile_rows_log2
       .max(min_tile_rows_log2)
-      .clamp(min_tile_rows_ratelimit_log2, max_tile_rows_log2);
+      .max(min_tile_rows_ratelimit_log2)
+      .min(max_tile_rows_log2);
     let tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
 
     let rows = frame_height_sb.div_ceil(tile_height_sb);
-- 
2.43.0


From 7e374e21a645f3be781558261117668cb9ba3942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:04 +0000
Subject: [PATCH 4/8] fix: write unsigned segmentation features as unsigned
 values

write_var() with a signed type writes two's complement, which fails for
the upper half of the reference feature's range and for zero-bit features.
---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 158d30a..6c1a533 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -1188,7 +1188,7 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
               if seg_feature_is_signed[j] {
                 self.write_signed_var(bits + 1, data)?;
               } else {
-                self.write_var(bits, data)?;
+                self.write_var(bits, data as u16)?;
               }
             }
           }
-- 
2.43.0


From 9ee926dc1a6f56e7de6ba8cbdd3815fb27d1e7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:07 +0000
Subject: [PATCH 5/8] fix: keep explicitly coded tile heights within their
 limit

4:2:2 rounds the tile width up to an even number of superblocks; where that
makes the columns uneven, the tile sizes are coded explicitly and the height
must not exceed the limit derived from the largest tile area.
---
 src/tiling/tiler.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/tiling/tiler.rs b/src/tiling/tiler.rs
index 3226b93..ba3ba3c 100644
--- a/src/tiling/tiler.rs
+++ b/src/tiling/tiler.rs
@@ -124,11 +124,30 @@ impl TilingInfo {
     let min_tile_rows_log2 = min_tiles_log2.saturating_sub(tile_cols_log2);
     let min_tile_rows_ratelimit_log2 =
       min_tiles_ratelimit_log2.saturating_sub(tile_cols_log2);
-    let tile_rows_log2 = tile_rows_log2
+    let mut tile_rows_log2 = tile_rows_log2
       .max(min_tile_rows_log2)
       .max(min_tile_rows_ratelimit_log2)
       .min(max_tile_rows_log2);
-    let tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
+    let mut tile_height_sb =
+      sb_rows.align_power_of_two_and_shift(tile_rows_log2);
+
+    // If rounding left the columns unevenly spaced, the tile sizes are coded
+    // explicitly, which has a lower limit on the tile height.
+    if tile_width_sb != sb_cols.align_power_of_two_and_shift(tile_cols_log2) {
+      let max_tile_area_sb = if min_tiles_log2 > 0 {
+        (sb_rows * sb_cols) >> (min_tiles_log2 + 1)
+      } else {
+        sb_rows * sb_cols
+      };
+      let max_tile_height_sb =
+        (max_tile_area_sb / tile_width_sb.min(sb_cols)).max(1);
+      while tile_height_sb > max_tile_height_sb
+        && tile_rows_log2 < max_tile_rows_log2
+      {
+        tile_rows_log2 += 1;
+        tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
+      }
+    }
 
     let rows = frame_height_sb.div_ceil(tile_height_sb);
 
-- 
2.43.0


From 16493325c70e3c9eba190f99f2c9c360bc76c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:35 +0000
Subject: [PATCH 6/8] fix: correct the maximum picture size of level 4.1

---
 src/levels.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/levels.rs b/src/levels.rs
index f3cef7a..0872eff 100644
--- a/src/levels.rs
+++ b/src/levels.rs
@@ -31,8 +31,8 @@ pub static AV1_LEVEL_MAX_PIC_SIZE: [usize; 32] = [
   278784, // 2.1
   0, 0, 665856,  // 3.0
   1065024, // 3.1
-  0, 0, 2359296,  // 4.0
-  23592960, // 4.1
+  0, 0, 2359296, // 4.0
+  2359296, // 4.1
   0, 0, 8912896,  // 5.0
   8912896,  // 5.1
   8912896,  // 5.2
-- 
2.43.0


From 2cd9c23473fd20a3f516578dfe03201fcefff75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:35 +0000
Subject: [PATCH 7/8] fix: compute the display rate from the frame rate, not
 its reciprocal, in level validation

---
 src/api/config/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index 8a9e2b0..69a81e5 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -422,8 +422,8 @@ impl Config {
         if config.height > AV1_LEVEL_MAX_V_SIZE[level_idx as usize] {
           return Err(LevelConstraintsExceeded);
         }
-        if ((config.width * config.height) as u64 * config.time_base.num)
-          .div_ceil(config.time_base.den)
+        if ((config.width * config.height) as u64 * config.time_base.den)
+          .div_ceil(config.time_base.num)
           > AV1_LEVEL_MAX_DISPLAY_RATE[level_idx as usize] as u64
         {
           return Err(LevelConstraintsExceeded);
-- 
2.43.0


From f4b56ddaa7c0e20f1944e14bdf52ce4f516be702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:08 +0000
Subject: [PATCH 8/8] fix: measure horizontal edges with the filter length that
 will be used

The deblocking level search took the transform width instead of its height
for the filter length of horizontal edges, measuring another filter than the
one applied afterwards (and reading above the plane for 16x4 blocks in the
second row).
---
 src/deblock.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deblock.rs b/src/deblock.rs
index 8fdc57e..8e4d7b1 100644
--- a/src/deblock.rs
+++ b/src/deblock.rs
@@ -1254,7 +1254,7 @@ fn sse_h_edge<T: Pixel>(
     let prev_block = deblock_up(blocks, bo, rec_plane);
     let block_edge = bo.0.y & (block.n4_h as usize - 1) == 0;
     let filter_size =
-      deblock_size(block, prev_block, rec_plane, pli, true, block_edge);
+      deblock_size(block, prev_block, rec_plane, pli, false, block_edge);
     if filter_size > 0 {
       let po = bo.plane_offset(rec_plane.plane_cfg); // rec and src have identical subsampling
       let rec_region = rec_plane.subregion(Area::Rect {
-- 
2.43.0

