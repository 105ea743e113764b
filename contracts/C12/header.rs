//@use frame_header
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub(crate) fn h_show_existing() {
  let slot = below(8);
  let sq = sequence(false, one_tile());
  let mut fi = base_frame(&sq);
  let p = &mut *fi;
  set!(p, coded_frame_data, None);
  set!(p, frame_to_show_map_idx, slot);
  let (fi, fs, ic) = (&*p, base_state(), reordering(true));
  let fs = &*fs;
  let mut r = Bits::of(|w| w.write_frame_header_obu(fi, fs, &ic).unwrap());
  ensure!(r.f(1) == 1, "show_existing_frame");
  ensure!(r.f(3) == slot as u64, "frame_to_show_map_idx");
  ensure!(r.f(1) == 1 && r.n == 3 && r.f(3) == 0, "trailing bits");
  reach!(slot == 7, "last slot");
}

/// Key frames, of videos and of still pictures.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub(crate) fn h_key_frame() {
  let still: bool = any();
  let sq = sequence(still, one_tile());
  let mut fi = base_frame(&sq);
  let p = &mut *fi;
  let (dis_cdf, no_end): (bool, bool) = (any(), any());
  assume(!dis_cdf || no_end);
  assume(!still || no_end);
  let sct = if still { below(2) } else { 0 };
  let hint: u32 = any();
  let (er, over, diff): (bool, bool, bool) = (any(), any(), any());
  assume(!still || !over);
  let (rw, rh): (u32, u32) = (any(), any());
  assume(rw >= 1 && rw <= 65536 && rh >= 1 && rh <= 65536);
  set!(p, frame_type, FrameType::KEY);
  set!(p, intra_only, true);
  set!(p, show_frame, true);
  set!(p, error_resilient, er);
  set!(p, primary_ref_frame, PRIMARY_REF_NONE);
  set!(p, disable_cdf_update, dis_cdf);
  set!(p, disable_frame_end_update_cdf, no_end);
  set!(p, allow_screen_content_tools, sct);
  set!(p, force_integer_mv, 1);
  set!(p, order_hint, hint);
  set!(p, refresh_frame_flags, ALL_REF_FRAMES_MASK);
  set!(p, frame_size_override_flag, over);
  set!(p, render_and_frame_size_different, diff);
  set!(p, render_width, rw);
  set!(p, render_height, rh);
  // 6.8.2: a shown key frame is always coded as error resilient
  assume(still || er || true);
  let (fi, fs, ic) = (&*p, base_state(), reordering(true));
  let fs = &*fs;
  let r = Bits::of(|w| w.write_frame_header_obu(fi, fs, &ic).unwrap());
  let mut s = Syntax::new();
  if !still {
    s.flag(false);
    s.f(2, 0);
    s.flag(true); // show_frame
    // error_resilient_mode is inferred
  }
  s.flag(dis_cdf);
  if still {
    s.f(1, sct as u64);
    if sct != 0 {
      s.flag(true); // force_integer_mv
    }
  }
  if !still {
    s.flag(over);
    s.f(6, hint as u64 & 63);
  }
  // primary_ref_frame: none; refresh_frame_flags: all
  if over {
    s.f(6, 63); // frame_width_minus_1 of a 64x64 frame in a 64x64 sequence
    s.f(6, 63);
  }
  s.flag(diff);
  if diff {
    s.f(16, rw as u64 - 1);
    s.f(16, rh as u64 - 1);
  }
  if sct != 0 {
    s.flag(false); // allow_intrabc
  }
  if !(still || dis_cdf) {
    s.flag(no_end);
  }
  s.flag(true); // uniform_tile_spacing_flag
  spec_tail_base(&mut s, true);
  ensure!(s.same(&r), "key frame header decodes to the frame's values");
  reach!(still && sct != 0, "still picture");
  reach!(!still && diff, "key frame of a video");
}

/// get_relative_dist(), 7.3.3... with the 6-bit hints in use
fn rel(a: u32, b: u32) -> i32 {
  let d = (a as i32 & 63) - (b as i32 & 63);
  let m = 32;
  (d & (m - 1)) - (d & m)
}
/// skipModeAllowed, 5.9.22
fn spec_skip_mode(hints: &[u32; 7], order: u32) -> bool {
  let (mut fwd, mut bwd, mut fh) = (false, false, 0);
  let mut i = 0;
  while i < 7 {
    let d = rel(hints[i], order);
    if d < 0 {
      if !fwd || rel(hints[i], fh) > 0 {
        fwd = true;
        fh = hints[i];
      }
    } else if d > 0 {
      bwd = true;
    }
    i += 1;
  }
  if !fwd {
    return false;
  }
  if bwd {
    return true;
  }
  let mut i = 0;
  while i < 7 {
    if rel(hints[i], fh) < 0 {
      return true;
    }
    i += 1;
  }
  false
}

/// Inter and switch frames: everything up to the tile information.
macro_rules! inter_contract {
  ($name:ident, $switch:literal, $er:expr) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(10))]
    #[cfg_attr(kani, kani::stub(Sequence::get_skip_mode_allowed, skip_mode))]
    pub(crate) fn $name() {
      let warped: bool = any();
      let mvs: bool = any();
      let mut sq = sequence(false, one_tile());
      set!(sq.data, enable_warped_motion, warped);
      set!(sq.data, enable_ref_frame_mvs, mvs);
      let mut fi = base_frame(&sq);
      let p = &mut *fi;
      let er: bool = $er;
      let (show, showable, dis_cdf, no_end, over, diff): (bool, bool, bool, bool, bool, bool) =
        (any(), any(), any(), any(), any(), any());
      assume(!dis_cdf || no_end);
      let hint = below(1 << 20);
      let prim = if er { PRIMARY_REF_NONE } else { below(8) };
      let flags = if $switch { 255 } else { below(256) };
      let refs = any_refs();
      let hints: [u32; 3] = any_arr();
      let which: [u8; 8] = any_arr();
      let rsz: [bool; 3] = any_arr();
      let (hp, switchable, motion, use_mvs, warp, select): (bool, bool, bool, bool, bool, bool) =
        (any(), any(), any(), any(), any(), any());
      let filt = below(4) as usize;
      let reduced: bool = any();
      set!(p, frame_type, if $switch { FrameType::SWITCH } else { FrameType::INTER });
      set!(p, intra_only, false);
      set!(p, show_frame, show);
      set!(p, showable_frame, showable);
      set!(p, error_resilient, er);
      set!(p, primary_ref_frame, prim);
      set!(p, disable_cdf_update, dis_cdf);
      set!(p, disable_frame_end_update_cdf, no_end);
      set!(p, force_integer_mv, 0);
      set!(p, order_hint, hint);
      set!(p, refresh_frame_flags, flags);
      set!(p, frame_size_override_flag, over || $switch);
      set!(p, render_and_frame_size_different, diff);
      set!(p, render_width, 100);
      set!(p, render_height, 101);
      set!(p, ref_frames, refs);
      set!(p, allow_high_precision_mv, hp);
      set!(p, is_filter_switchable, switchable);
      set!(p, default_filter, [FilterMode::REGULAR, FilterMode::SMOOTH, FilterMode::SHARP, FilterMode::BILINEAR][filt]);
      set!(p, is_motion_mode_switchable, motion);
      set!(p, use_ref_frame_mvs, use_mvs);
      set!(p, allow_warped_motion, warp);
      set!(p, use_reduced_tx_set, reduced);
      set!(p, reference_mode, if select { ReferenceMode::SELECT } else { ReferenceMode::SINGLE });
      // three different reference frames, or none, in the eight slots
      assume(hints[0] < 1 << 20 && hints[1] < 1 << 20 && hints[2] < 1 << 20);
      let dims = |same: bool| if same { (64, 64, 100, 101) } else { (64, 64, 64, 64) };
      let r0 = reference(hints[0], dims(rsz[0]));
      let r1 = reference(hints[1], dims(rsz[1]));
      let r2 = reference(hints[2], dims(rsz[2]));
      let mut i = 0;
      while i < 8 {
        assume(which[i] < 4);
        let r = match which[i] {
          0 => Some(arc(&r0)),
          1 => Some(arc(&r1)),
          2 => Some(arc(&r2)),
          _ => None,
        };
        set!(p, rec_buffer.frames[i], r);
        i += 1;
      }
      let hint_of = |i: usize| if which[i] < 3 { hints[which[i] as usize] } else { 0 };
      let size_of = |i: usize| which[i] < 3 && rsz[which[i] as usize];
      #[cfg(kani)]
      unsafe {
        SKIP = any();
      }
      let (fi, fs, ic) = (&*p, base_state(), reordering(true));
      let fs = &*fs;
      let r = Bits::of(|w| w.write_frame_header_obu(fi, fs, &ic).unwrap());
      let mut s = Syntax::new();
      s.flag(false);
      s.f(2, if $switch { 3 } else { 1 });
      s.flag(show);
      if !show {
        s.flag(showable);
      }
      if !$switch {
        s.flag(er);
      }
      s.flag(dis_cdf);
      if !$switch {
        s.flag(over);
      }
      s.f(6, hint as u64 & 63);
      if !er {
        s.f(3, prim as u64);
      }
      if !$switch {
        s.f(8, flags as u64);
      }
      if er {
        let mut i = 0;
        while i < 8 {
          s.f(6, hint_of(i) as u64 & 63); // ref_order_hint
          i += 1;
        }
      }
      s.flag(false); // frame_refs_short_signaling
      let mut i = 0;
      while i < 7 {
        s.f(3, refs[i] as u64);
        i += 1;
      }
      let mut coded_size = true;
      if (over || $switch) && !er {
        // frame_size_with_refs(): the first reference of the same size
        let mut i = 0;
        while i < 7 {
          if coded_size {
            let found = size_of(refs[i] as usize);
            s.flag(found);
            if found {
              coded_size = false;
            }
          }
          i += 1;
        }
      }
      if coded_size {
        if over || $switch {
          s.f(6, 63);
          s.f(6, 63);
        }
        s.flag(diff);
        if diff {
          s.f(16, 99);
          s.f(16, 100);
        }
      }
      s.flag(hp);
      s.flag(switchable);
      if !switchable {
        s.f(2, filt as u64);
      }
      s.flag(motion);
      if !er && mvs {
        s.flag(use_mvs);
      }
      if !dis_cdf {
        s.flag(no_end);
      }
      s.flag(true); // uniform_tile_spacing_flag
      s.f(8, 1);
      s.f(7, 0); // see spec_tail_base()
      s.f(6, 8);
      s.f(6, 8);
      s.f(6, 4);
      s.f(6, 4);
      s.f(3, 0);
      s.flag(false);
      s.flag(false); // tx_mode_select
      s.flag(select);
      #[cfg(kani)]
      if select && unsafe { SKIP } {
        s.flag(false); // skip_mode_present
      }
      #[cfg(not(kani))]
      if fi.sequence.get_skip_mode_allowed(fi, &ic, select) {
        s.flag(false);
      }
      if !er && warped {
        s.flag(warp);
      }
      s.flag(reduced);
      s.f(7, 0); // global motion: identity
      s.align();
      ensure!(s.same(&r), "inter frame header decodes to the frame's values");
      reach!(select, "two references");
      reach!(!show, "hidden frame");
    }
  };
}
fn any_refs() -> [u8; 7] {
  let r: [u8; 7] = any_arr();
  let mut i = 0;
  while i < 7 {
    assume(r[i] < 8);
    i += 1;
  }
  r
}
inter_contract!(h_inter_frame, false, false);

inter_contract!(h_switch_frame, true, true);

/// Quantization parameters, CDEF and transform mode, for every format.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub(crate) fn h_quant_params() {
  let chroma = below(4) as usize;
  let mut sq = sequence(false, one_tile());
  set!(sq.data, chroma_sampling, CHROMA[chroma]);
  let mut fi = base_frame(&sq);
  let p = &mut *fi;
  let q: u8 = any();
  assume(q > 0);
  let dc = [delta(), delta(), delta()];
  let ac = [0, delta(), delta()];
  let txs: bool = any();
  set!(p, frame_type, FrameType::KEY);
  set!(p, intra_only, true);
  set!(p, show_frame, true);
  set!(p, error_resilient, true);
  set!(p, force_integer_mv, 1);
  set!(p, refresh_frame_flags, ALL_REF_FRAMES_MASK);
  set!(p, base_q_idx, q);
  set!(p, dc_delta_q, dc);
  set!(p, ac_delta_q, ac);
  set!(p, tx_mode_select, txs);
  let (fi, fs, ic) = (&*p, base_state(), reordering(true));
  let fs = &*fs;
  let mut r = Bits::of(|w| w.write_frame_header_obu(fi, fs, &ic).unwrap());
  let mut s = Syntax::new();
  s.f(4, 1); // show_existing_frame, frame_type, show_frame
  s.f(1 + 1 + 6 + 1 + 1, 0); // cdf update, size override, hint, render size, frame end update
  s.flag(true); // uniform_tile_spacing_flag
  s.f(8, q as u64);
  spec_delta_q(&mut s, dc[0]);
  if chroma != 3 {
    let diff = dc[1] != dc[2] || ac[1] != ac[2];
    s.flag(diff);
    spec_delta_q(&mut s, dc[1]);
    spec_delta_q(&mut s, ac[1]);
    if diff {
      spec_delta_q(&mut s, dc[2]);
      spec_delta_q(&mut s, ac[2]);
    }
  }
  s.flag(false); // using_qmatrix
  s.flag(false); // segmentation_enabled
  s.flag(false); // delta_q_present
  s.f(6, 8);
  s.f(6, 8);
  if chroma != 3 {
    s.f(6, 4);
    s.f(6, 4);
  }
  s.f(3, 0);
  s.flag(false);
  s.flag(txs);
  s.flag(false); // reduced_tx_set
  s.align();
  ensure!(s.same(&r), "quantization parameters decode back");
  reach!(chroma == 0 && dc[1] != dc[2], "separate deltas");
}
fn spec_delta_q(s: &mut Syntax, d: i8) {
  s.flag(d != 0);
  if d != 0 {
    s.su(7, d as i32);
  }
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub(crate) fn h_loop_filter_params() {
  let chroma = below(4) as usize;
  let mut sq = sequence(false, one_tile());
  set!(sq.data, chroma_sampling, CHROMA[chroma]);
  let mut fi = base_frame(&sq);
  let p = &mut *fi;
  let prim = below(8);
  let refs = any_refs();
  set!(p, primary_ref_frame, prim);
  set!(p, ref_frames, refs);
  let prev: [i8; 8] = any_arr();
  let prev_mode: [i8; 2] = any_arr();
  let slot = refs[(prim % 7) as usize] as usize;
  let mut i = 0;
  while i < 8 {
    let mut d = DeblockState::default();
    if i == slot {
      d.ref_deltas = prev;
      d.mode_deltas = prev_mode;
    } else {
      d.ref_deltas = [99; 8];
      d.mode_deltas = [99; 2];
    }
    unsafe { p.rec_buffer.deblock[i] = d };
    i += 1;
  }
  let mut d = DeblockState::default();
  d.levels = any_arr();
  d.sharpness = below(8) as u8;
  d.deltas_enabled = any();
  d.delta_updates_enabled = any();
  d.ref_deltas = any_arr();
  d.mode_deltas = any_arr();
  let mut i = 0;
  while i < 8 {
    assume(d.ref_deltas[i] >= -63 && d.ref_deltas[i] <= 63);
    i += 1;
  }
  assume(d.mode_deltas[0] >= -63 && d.mode_deltas[0] <= 63 && d.mode_deltas[1] >= -63 && d.mode_deltas[1] <= 63);
  assume(d.levels[0] < 64 && d.levels[1] < 64 && d.levels[2] < 64 && d.levels[3] < 64);
  let fi = &*p;
  let r = Bits::of(|w| w.write_deblock_filter_b(fi, &d).unwrap());
  // loop_filter_params(), 5.9.11
  let mut s = Syntax::new();
  s.f(6, d.levels[0] as u64);
  s.f(6, d.levels[1] as u64);
  if chroma != 3 && (d.levels[0] != 0 || d.levels[1] != 0) {
    s.f(6, d.levels[2] as u64);
    s.f(6, d.levels[3] as u64);
  }
  s.f(3, d.sharpness as u64);
  s.flag(d.deltas_enabled);
  if d.deltas_enabled {
    s.flag(d.delta_updates_enabled);
    if d.delta_updates_enabled {
      let (old, oldm) = if prim == 7 { ([1, 0, 0, 0, 0, -1, -1, -1], [0, 0]) } else { (prev, prev_mode) };
      let mut i = 0;
      while i < 8 {
        let u = d.ref_deltas[i] != old[i];
        s.flag(u);
        if u {
          s.su(7, d.ref_deltas[i] as i32);
        }
        i += 1;
      }
      let mut i = 0;
      while i < 2 {
        let u = d.mode_deltas[i] != oldm[i];
        s.flag(u);
        if u {
          s.su(7, d.mode_deltas[i] as i32);
        }
        i += 1;
      }
    }
  }
  ensure!(s.same(&r), "loop filter parameters decode back");
  reach!(d.deltas_enabled && d.delta_updates_enabled && prim != 7, "deltas relative to a reference");
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub(crate) fn h_cdef_lr_params() {
  let chroma = below(4) as usize;
  let mut sq = sequence(false, one_tile());
  let (cdef, lr, sb128): (bool, bool, bool) = (any(), any(), any());
  set!(sq.data, chroma_sampling, CHROMA[chroma]);
  set!(sq.data, enable_cdef, cdef);
  set!(sq.data, enable_restoration, lr);
  set!(sq.data, use_128x128_superblock, sb128);
  let mut fi = base_frame(&sq);
  let p = &mut *fi;
  let damping = 3 + below(4) as u8;
  let bits = below(4) as u8;
  let (ys, us): ([u8; 8], [u8; 8]) = (any_arr(), any_arr());
  let mut i = 0;
  while i < 8 {
    assume(ys[i] < 64 && us[i] < 64);
    i += 1;
  }
  set!(p, cdef_damping, damping);
  set!(p, cdef_bits, bits);
  set!(p, cdef_y_strengths, ys);
  set!(p, cdef_uv_strengths, us);
  let fi = &*p;
  let mut rs = junk::<RestorationState>();
  let rp = &mut *rs as *mut RestorationState;
  let t = [below(4) as u8, below(4) as u8, below(4) as u8];
  let shift = below(3);
  assume(!sb128 || shift > 0);
  let uv = below(2);
  // the unit size of chroma is halved in 4:2:0 only; 64 is the smallest
  assume(chroma == 0 || uv == 0);
  assume(shift >= uv);
  let mut i = 0;
  while i < 3 {
    unsafe {
      (&raw mut (*rp).planes[i].cfg.lrf_type).write(t[i]);
      (&raw mut (*rp).planes[i].cfg.unit_size).write(64usize << (shift - if i > 0 { uv } else { 0 }));
    }
    i += 1;
  }
  let rs = unsafe { &*rp };
  let r = Bits::of(|w| {
    w.write_frame_cdef(fi).unwrap();
    w.write_frame_lrf(fi, rs).unwrap();
  });
  let mut s = Syntax::new();
  // cdef_params(), 5.9.19
  if cdef {
    s.f(2, damping as u64 - 3);
    s.f(2, bits as u64);
    let mut i = 0;
    while i < 8 {
      if i < 1 << bits {
        s.f(6, ys[i] as u64);
        if chroma != 3 {
          s.f(6, us[i] as u64);
        }
      }
      i += 1;
    }
  }
  // lr_params(), 5.9.20
  if lr {
    let np = if chroma == 3 { 1 } else { 3 };
    let (mut uses, mut uses_chroma) = (false, false);
    let mut i = 0;
    while i < np {
      s.f(2, t[i] as u64);
      if t[i] != 0 {
        uses = true;
        if i > 0 {
          uses_chroma = true;
        }
      }
      i += 1;
    }
    if uses {
      if sb128 {
        s.f(1, shift as u64 - 1);
      } else {
        s.flag(shift > 0);
        if shift > 0 {
          s.f(1, shift as u64 - 1);
        }
      }
      if chroma == 0 && uses_chroma {
        s.f(1, uv as u64);
      }
    }
  }
  ensure!(s.same(&r), "CDEF and loop restoration parameters decode back");
  reach!(cdef && bits == 3 && lr, "everything present");
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub(crate) fn h_segmentation_params() {
  let sq = sequence(false, one_tile());
  let mut fi = base_frame(&sq);
  let p = &mut *fi;
  let prim = below(8);
  let en: bool = any();
  set!(p, primary_ref_frame, prim);
  set!(p, enable_segmentation, en);
  let fi = &*p;
  let mut sg = SegmentationState::default();
  sg.enabled = en;
  sg.update_map = any();
  sg.update_data = any();
  assume(prim != 7 || (sg.update_map && sg.update_data));
  const BITS: [u32; 8] = [8, 6, 6, 6, 6, 3, 0, 0];
  const SIGNED: [bool; 8] = [true, true, true, true, true, false, false, false];
  // two segments with every feature, the others with the quantizer feature
  let mut i = 0;
  while i < 8 {
    let mut j = 0;
    while j < 8 {
      if i % 5 == 2 || j == 0 {
        sg.features[i][j] = any();
        let v: i16 = any();
        let top = (1i16 << BITS[j]) - 1;
        assume(if SIGNED[j] { v >= -top && v <= top } else { v >= 0 && v <= top });
        // the last reference is the largest legal value
        sg.data[i][j] = v;
      }
      j += 1;
    }
    i += 1;
  }
  let r = Bits::of(|w| w.write_segment_data(fi, &sg).unwrap());
  // segmentation_params(), 5.9.14
  let mut s = Syntax::new();
  s.flag(en);
  if en {
    if prim != 7 {
      s.flag(sg.update_map);
      if sg.update_map {
        s.flag(false);
      }
      s.flag(sg.update_data);
    }
    if sg.update_data {
      let mut i = 0;
      while i < 8 {
        let mut j = 0;
        while j < 8 {
          s.flag(sg.features[i][j]);
          if sg.features[i][j] {
            if SIGNED[j] {
              s.su(1 + BITS[j], sg.data[i][j] as i32);
            } else {
              s.f(BITS[j], sg.data[i][j] as u64);
            }
          }
          j += 1;
        }
        i += 1;
      }
    }
  }
  ensure!(s.same(&r), "segmentation parameters decode back");
  reach!(en && sg.features[2][4] && sg.features[7][5], "features present");
}

/// skip_mode_allowed, for frames that may have two references (these are coded
/// with reordering, where every reference is available).
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub(crate) fn h_skip_mode() {
  let sq = sequence(false, one_tile());
  let mut fi = base_frame(&sq);
  let p = &mut *fi;
  let hint = below(1 << 20);
  let refs = any_refs();
  let hints: [u32; 3] = any_arr();
  let which: [u8; 8] = any_arr();
  let (intra, select): (bool, bool) = (any(), any());
  set!(p, intra_only, intra);
  set!(p, order_hint, hint);
  set!(p, ref_frames, refs);
  // hints further than half the cycle apart do not occur
  assume(hints[0] < 1 << 20 && hints[1] < 1 << 20 && hints[2] < 1 << 20);
  let dims = (64, 64, 64, 64);
  let r0 = reference(hints[0], dims);
  let r1 = reference(hints[1], dims);
  let r2 = reference(hints[2], dims);
  let mut i = 0;
  while i < 8 {
    assume(which[i] < 3);
    let r = match which[i] {
      0 => Some(arc(&r0)),
      1 => Some(arc(&r1)),
      _ => Some(arc(&r2)),
    };
    set!(p, rec_buffer.frames[i], r);
    i += 1;
  }
  let mut cfg = junk::<EncoderConfig>();
  set!(cfg, low_latency, false);
  set!(cfg, switch_frame_interval, 0);
  set!(cfg, speed_settings.multiref, true);
  let ic = InterConfig::new(&cfg);
  let got = fi.sequence.get_skip_mode_allowed(&fi, &ic, select);
  let mut h = [0; 7];
  let mut i = 0;
  while i < 7 {
    h[i] = hints[which[refs[i] as usize] as usize];
    i += 1;
  }
  let want = !intra && select && spec_skip_mode(&h, hint);
  ensure!(got == want, "skip mode allowed exactly when a decoder allows it");
  reach!(got, "allowed");
  reach!(select && !intra && !got, "not allowed");
}

fn log2_ceil(n: usize) -> usize {
  let mut k = 0;
  while k < 8 && (1usize << k) < n {
    k += 1;
  }
  k
}
/// tile_info() with uniform spacing, for every grid property C08 allows.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub(crate) fn h_tile_info_uniform() {
  let (sbw, sbh): (u16, u16) = (any(), any());
  assume(sbw >= 1 && sbw <= 1024 && sbh >= 1 && sbh <= 1024);
  let (sbw, sbh) = (sbw as usize, sbh as usize);
  let (cl, rl) = (below(7) as usize, below(7) as usize);
  let (minc, maxc, minr, maxr) = (below(7) as usize, below(7) as usize, below(7) as usize, below(7) as usize);
  assume(minc <= cl && cl <= maxc && minr <= rl && rl <= maxr);
  let tw = (sbw + (1 << cl) - 1) >> cl;
  let th = (sbh + (1 << rl) - 1) >> rl;
  let ti = TilingInfo {
    frame_width: sbw * 64, frame_height: sbh * 64, tile_width_sb: tw, tile_height_sb: th,
    cols: 0, rows: 0, tile_cols_log2: cl, tile_rows_log2: rl,
    min_tile_cols_log2: minc, max_tile_cols_log2: maxc, min_tile_rows_log2: minr, max_tile_rows_log2: maxr,
    sb_size_log2: 6, min_tiles_log2: 0,
  };
  let sq = sequence(false, ti);
  let mut fi = tile_key_frame(&sq);
  set!(fi, sb_width, sbw);
  set!(fi, sb_height, sbh);
  let mut fs = base_state();
  let (tile, size) = (below(64), 1 + below(4));
  assume((tile as usize) < 1 << (cl + rl));
  set!(fs, context_update_tile_id, tile as usize);
  set!(fs, max_tile_size_bytes, size);
  let ic = reordering(true);
  let r = Bits::of(|w| w.write_frame_header_obu(&*fi, &*fs, &ic).unwrap());
  let mut s = Syntax::new();
  s.f(4, 1);
  s.f(10, 0);
  s.flag(true); // uniform_tile_spacing_flag
  let mut k = 0;
  while k < 6 {
    // increment_tile_cols_log2
    if k >= minc && k < maxc && k <= cl {
      s.flag(k < cl);
    }
    k += 1;
  }
  let mut k = 0;
  while k < 6 {
    if k >= minr && k < maxr && k <= rl {
      s.flag(k < rl);
    }
    k += 1;
  }
  if cl + rl > 0 {
    s.f((cl + rl) as u32, tile as u64); // context_update_tile_id
    s.f(2, size as u64 - 1); // tile_size_bytes_minus_1
  }
  spec_tail_base(&mut s, true);
  ensure!(s.same(&r), "uniform tile information decodes back");
  reach!(cl == 6 && rl == 3, "many tiles");
}
/// tile_info() with explicit sizes (4:2:2), for some grids with odd widths.
macro_rules! explicit_contract {
  ($name:ident, $sbw:literal, $sbh:literal, $tw:literal, $th:literal, $mint:literal) => {
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(14))]
pub(crate) fn $name() {
  let (sbw, sbh, tw, th, mint): (usize, usize, usize, usize, usize) = ($sbw, $sbh, $tw, $th, $mint);
  let (cols, rows) = ((sbw + tw - 1) / tw, (sbh + th - 1) / th);
  let (cl, rl) = (log2_ceil(cols), log2_ceil(rows));
  let area = if mint > 0 { (sbw * sbh) >> (mint + 1) } else { sbw * sbh };
  let max_h = core::cmp::max(area / tw, 1);
  let (tile, size) = (below(64), 1 + below(4));
  assume((tile as usize) < 1 << (cl + rl));
  let ti = TilingInfo {
    frame_width: sbw * 64, frame_height: sbh * 64, tile_width_sb: tw, tile_height_sb: th,
    cols, rows, tile_cols_log2: cl, tile_rows_log2: rl,
    min_tile_cols_log2: 0, max_tile_cols_log2: 6, min_tile_rows_log2: 0, max_tile_rows_log2: 6,
    sb_size_log2: 6, min_tiles_log2: mint,
  };
  let sq = sequence(false, ti);
  let mut fi = tile_key_frame(&sq);
  set!(fi, sb_width, sbw);
  set!(fi, sb_height, sbh);
  let mut fs = base_state();
  set!(fs, context_update_tile_id, tile as usize);
  set!(fs, max_tile_size_bytes, size);
  let ic = reordering(true);
  let r = Bits::of(|w| w.write_frame_header_obu(&*fi, &*fs, &ic).unwrap());
  let mut s = Syntax::new();
  s.f(4, 1);
  s.f(10, 0);
  s.flag(false); // uniform_tile_spacing_flag
  let mut at = 0;
  let mut i = 0;
  while i < 8 {
    if at < sbw {
      let max = if sbw - at < 64 { sbw - at } else { 64 };
      let w = if sbw - at < tw { sbw - at } else { tw };
      s.ns(max as u32, w as u32 - 1);
      at += w;
    }
    i += 1;
  }
  let mut at = 0;
  let mut i = 0;
  while i < 8 {
    if at < sbh {
      let max = if sbh - at < max_h { sbh - at } else { max_h };
      let h = if sbh - at < th { sbh - at } else { th };
      s.ns(max as u32, h as u32 - 1);
      at += h;
    }
    i += 1;
  }
  if cl + rl > 0 {
    s.f((cl + rl) as u32, tile as u64);
    s.f(2, size as u64 - 1);
  }
  spec_tail_base(&mut s, true);
  ensure!(s.same(&r), "explicit tile information decodes back");
  reach!(tile == 1, "several tiles");
}
  };
}
explicit_contract!(h_tile_info_5x5, 5, 5, 4, 5, 0);
explicit_contract!(h_tile_info_5x5_rows, 5, 5, 4, 3, 0);
explicit_contract!(h_tile_info_130x68, 130, 68, 34, 17, 2);
explicit_contract!(h_tile_info_18x7, 18, 7, 6, 2, 0);

