use crate::api::config::EncoderConfig;
use crate::api::internal::InterConfig;
use crate::encoder::{CodedFrameData, ReferenceFrame, ReferenceFramesSet};
use crate::mc::FilterMode;
use crate::tiling::TilingInfo;
use crate::verif::{Bits, Syntax};
use std::mem::{ManuallyDrop, MaybeUninit};
use std::sync::Arc;
use v_frame::prelude::ChromaSampling;

/// An arbitrary value whose fields are written before they are read.
#[cfg(kani)]
#[allow(invalid_value)]
fn junk<T>() -> ManuallyDrop<T> {
  ManuallyDrop::new(unsafe { MaybeUninit::uninit().assume_init() })
}
#[cfg(not(kani))]
fn junk<T>() -> ManuallyDrop<T> {
  unsafe { std::mem::transmute_copy(&MaybeUninit::<T>::zeroed()) }
}
/// What an Arc points at, as a local of the real type (rather than heap bytes).
#[repr(C)]
struct Shared<T> {
  counts: [usize; 2],
  data: ManuallyDrop<T>,
}
fn shared<T>(data: ManuallyDrop<T>) -> Shared<T> {
  Shared { counts: [1 << 20, 1], data }
}
fn arc<T>(s: &Shared<T>) -> Arc<T> {
  unsafe { Arc::from_raw(&*s.data) }
}
fn below(n: u32) -> u32 {
  let k: u32 = any();
  assume(k < n);
  k
}
fn delta() -> i8 {
  let d: i8 = any();
  assume(d >= -63 && d <= 63);
  d
}
const CHROMA: [ChromaSampling; 4] = [ChromaSampling::Cs420, ChromaSampling::Cs422, ChromaSampling::Cs444, ChromaSampling::Cs400];
const FRAME_TYPES: [FrameType; 4] = [FrameType::KEY, FrameType::INTER, FrameType::INTRA_ONLY, FrameType::SWITCH];

/// One tile per frame.
fn one_tile() -> TilingInfo {
  TilingInfo {
    frame_width: 64, frame_height: 64, tile_width_sb: 1, tile_height_sb: 1, cols: 1, rows: 1,
    tile_cols_log2: 0, tile_rows_log2: 0, min_tile_cols_log2: 0, max_tile_cols_log2: 0,
    min_tile_rows_log2: 0, max_tile_rows_log2: 0, sb_size_log2: 6, min_tiles_log2: 0,
  }
}

macro_rules! set {
  ($p:expr, $($f:ident).+, $v:expr) => {
    unsafe { (&raw mut $p.$($f).+).write($v) }
  };
  ($p:expr, $f:ident . $g:ident [$i:expr], $v:expr) => {
    unsafe { (&raw mut $p.$f.$g[$i]).write($v) }
  };
}

/// Sequence with every field a frame header depends on; the rest is arbitrary.
fn sequence(still: bool, ti: TilingInfo) -> Shared<Sequence> {
  let mut seq = junk::<Sequence>();
  let p = &mut *seq;
  set!(p, reduced_still_picture_hdr, still);
  set!(p, still_picture, still);
  set!(p, enable_order_hint, !still);
  set!(p, order_hint_bits_minus_1, 5);
  set!(p, force_screen_content_tools, if still { 2 } else { 0 });
  set!(p, force_integer_mv, 2);
  set!(p, frame_id_numbers_present_flag, false);
  set!(p, decoder_model_info_present_flag, false);
  set!(p, enable_ref_frame_mvs, false);
  set!(p, enable_superres, false);
  set!(p, enable_warped_motion, false);
  set!(p, film_grain_params_present, false);
  set!(p, use_128x128_superblock, false);
  set!(p, enable_cdef, false);
  set!(p, enable_restoration, false);
  set!(p, chroma_sampling, ChromaSampling::Cs420);
  set!(p, tiling, ti);
  shared(seq)
}
/// Frame with the values every coded frame has unless a contract varies them.
fn base_frame(seq: &Shared<Sequence>) -> ManuallyDrop<FrameInvariants<u16>> {
  let mut fi = junk::<FrameInvariants<u16>>();
  let p = &mut *fi;
  set!(p, sequence, arc(seq));
  set!(p, coded_frame_data, Some(CodedFrameData {
    lookahead_rec_buffer: ReferenceFramesSet { frames: Default::default(), deblock: Default::default() },
    w_in_imp_b: 0, h_in_imp_b: 0,
    lookahead_intra_costs: Box::new([]), block_importances: Box::new([]),
    distortion_scales: Box::new([]), activity_scales: Box::new([]),
    activity_mask: Default::default(), spatiotemporal_scores: Box::new([]),
  }));
  set!(p, width, 64);
  set!(p, height, 64);
  set!(p, sb_width, 1);
  set!(p, sb_height, 1);
  set!(p, render_and_frame_size_different, false);
  set!(p, frame_size_override_flag, false);
  set!(p, showable_frame, false);
  set!(p, disable_cdf_update, false);
  set!(p, disable_frame_end_update_cdf, false);
  set!(p, allow_intrabc, false);
  set!(p, allow_high_precision_mv, false);
  set!(p, is_filter_switchable, false);
  set!(p, default_filter, FilterMode::REGULAR);
  set!(p, is_motion_mode_switchable, false);
  set!(p, use_ref_frame_mvs, false);
  set!(p, order_hint, 0);
  set!(p, allow_screen_content_tools, 0);
  set!(p, base_q_idx, 1);
  set!(p, dc_delta_q, [0; 3]);
  set!(p, ac_delta_q, [0; 3]);
  set!(p, enable_segmentation, false);
  set!(p, delta_q_present, false);
  set!(p, cdef_damping, 3);
  set!(p, cdef_bits, 0);
  set!(p, cdef_y_strengths, [0; 8]);
  set!(p, cdef_uv_strengths, [0; 8]);
  set!(p, tx_mode_select, false);
  set!(p, reference_mode, ReferenceMode::SINGLE);
  set!(p, allow_warped_motion, false);
  set!(p, use_reduced_tx_set, false);
  set!(p, large_scale_tile, false);
  set!(p, globalmv_transformation_type, [GlobalMVMode::IDENTITY; 7]);
  set!(p, ref_frames, [0; 7]);
  set!(p, rec_buffer.frames, Default::default());
  set!(p, primary_ref_frame, PRIMARY_REF_NONE);
  fi
}
fn base_state() -> ManuallyDrop<FrameState<u16>> {
  let mut fs = junk::<FrameState<u16>>();
  let p = &mut *fs;
  set!(p, context_update_tile_id, 0);
  set!(p, max_tile_size_bytes, 1);
  set!(p, segmentation.enabled, false);
  set!(p, deblock, DeblockState::default());
  fs
}
/// Only read by get_skip_mode_allowed(), which has a contract of its own.
fn reordering(_: bool) -> ManuallyDrop<InterConfig> {
  junk()
}
fn reference(hint: u32, size: (u32, u32, u32, u32)) -> Shared<ReferenceFrame<u16>> {
  let mut p = junk::<ReferenceFrame<u16>>();
  set!(p, order_hint, hint);
  set!(p, width, size.0);
  set!(p, height, size.1);
  set!(p, render_width, size.2);
  set!(p, render_height, size.3);
  shared(p)
}
/// The decision get_skip_mode_allowed() took (contract h_skip_mode).
#[cfg(kani)]
static mut SKIP: bool = false;
#[cfg(kani)]
fn skip_mode<T: Pixel>(_: &Sequence, fi: &FrameInvariants<T>, _: &InterConfig, select: bool) -> bool {
  assert!(
    select == (!fi.intra_only && fi.reference_mode != ReferenceMode::SINGLE),
    "skip mode decided with the frame's reference mode"
  );
  unsafe { SKIP && select }
}

/// What follows the tile information when everything is at its base value.
fn spec_tail_base(s: &mut Syntax, intra: bool) {
  s.f(8, 1); // base_q_idx
  s.f(1 + 1 + 2, 0); // DeltaQYDc, diff_uv_delta, DeltaQUDc, DeltaQUAc
  s.flag(false); // using_qmatrix
  s.flag(false); // segmentation_enabled
  s.flag(false); // delta_q_present
  s.f(6, 8); // loop_filter_level
  s.f(6, 8);
  s.f(6, 4);
  s.f(6, 4);
  s.f(3, 0); // sharpness
  s.flag(false); // loop_filter_delta_enabled
  s.flag(false); // tx_mode_select
  if !intra {
    s.flag(false); // reference_select
  }
  s.flag(false); // reduced_tx_set
  if !intra {
    s.f(7, 0); // global motion
  }
  s.align();
}

fn tile_key_frame(sq: &Shared<Sequence>) -> ManuallyDrop<FrameInvariants<u16>> {
  let mut fi = base_frame(sq);
  let p = &mut *fi;
  set!(p, frame_type, FrameType::KEY);
  set!(p, intra_only, true);
  set!(p, show_frame, true);
  set!(p, error_resilient, true);
  set!(p, force_integer_mv, 1);
  set!(p, refresh_frame_flags, ALL_REF_FRAMES_MASK);
  fi
}
