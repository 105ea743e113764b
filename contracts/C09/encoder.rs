//@use frame_header
use std::clone::Clone;

/// The frame the reduced clone of the previous frame starts from.
#[cfg(kani)]
static mut PREV: *const () = std::ptr::null();
#[cfg(kani)]
static mut PLACE: (u64, u32) = (0, 0);
#[cfg(kani)]
fn copy_of<T: Pixel>(_: &FrameInvariants<T>) -> FrameInvariants<T> {
  let f = unsafe { std::ptr::read(PREV as *const FrameInvariants<T>) };
  f
}
/// Has a contract of its own, h_sign_bias.
#[cfg(kani)]
fn sign_bias<T: Pixel>(fi: &mut FrameInvariants<T>) {
  fi.ref_frame_sign_bias = any_arr();
}
#[cfg(kani)]
fn place_idx(_: &InterConfig, _: u64) -> u64 {
  unsafe { PLACE.0 }
}
#[cfg(kani)]
fn place_hint(_: &InterConfig, _: u64, _: u64) -> u32 {
  unsafe { PLACE.1 }
}
#[cfg(kani)]
fn no_time<T: Pixel>(_: &FrameInvariants<T>) -> u64 {
  any()
}
/// The lookahead data of a coded frame (does not reach its header).
fn lookahead_data() -> CodedFrameData<u16> {
  let one = || -> Box<[DistortionScale]> { Box::new([DistortionScale(1)]) };
  CodedFrameData {
    lookahead_rec_buffer: ReferenceFramesSet { frames: Default::default(), deblock: Default::default() },
    w_in_imp_b: 1, h_in_imp_b: 1,
    lookahead_intra_costs: Box::new([1]), block_importances: Box::new([1.]),
    distortion_scales: one(), activity_scales: one(),
    activity_mask: unsafe { std::mem::transmute::<Box<[u32]>, _>(Box::new([1])) }, spatiotemporal_scores: one(),
  }
}
fn inter_config(low: bool, multiref: bool, switch: u64) -> InterConfig {
  let mut c = junk::<EncoderConfig>();
  let p = &mut *c;
  set!(p, low_latency, low);
  set!(p, speed_settings.multiref, multiref);
  set!(p, switch_frame_interval, switch);
  InterConfig::new(&*p)
}
/// Order hint a slot holds when output frame 6k+i+1 is about to be coded.
fn spec_slot(s: usize, k: u32, i: u32) -> u32 {
  match s {
    0..=3 => {
      // the last multiple of four whose quotient is s modulo 4
      let last = if i == 0 { k } else { k + 1 };
      let back = (last + 4 - s as u32) % 4;
      if back > last { 0 } else { 4 * (last - back) }
    }
    4 => if i > 1 { 4 * k + 2 } else if k == 0 { 0 } else { 4 * k - 2 },
    5 => if i > 4 { 4 * k + 3 } else if i > 2 { 4 * k + 1 } else if k == 0 { 0 } else { 4 * k - 1 },
    _ => 0,
  }
}
macro_rules! new_inter {
  ($name:ident, $i:literal) => {
    /// Frame $i of a reordering group, for every group of a GOP.
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(10))]
    #[cfg_attr(kani, kani::stub(FrameInvariants::clone_without_coded_data, copy_of))]
    #[cfg_attr(kani, kani::stub(FrameInvariants::frame_timestamp, no_time))]
    #[cfg_attr(kani, kani::stub(FrameInvariants::set_ref_frame_sign_bias, sign_bias))]
    #[cfg_attr(kani, kani::stub(InterConfig::get_idx_in_group_output, place_idx))]
    #[cfg_attr(kani, kani::stub(InterConfig::get_order_hint, place_hint))]
    pub(crate) fn $name() {
      let k: u32 = any();
      assume(k < 1 << 28);
      let i: u32 = $i;
      let hints: [u32; 8] = core::array::from_fn(|s| spec_slot(s, k, i));
      let sq = sequence(false, one_tile());
      let mut cfg = junk::<EncoderConfig>();
      set!(cfg, film_grain_params, None);
      let mut cfg = shared(cfg);
      cfg.counts = [1, 1];
      let mut fi = base_frame(&sq);
      let p = &mut *fi;
      set!(p, config, arc(&cfg));
      set!(p, t35_metadata, Box::new([]));
      let resilient: bool = any();
      let differ: bool = any();
      set!(p, render_and_frame_size_different, differ);
      set!(p, enable_inter_txfm_split, any());
      set!(p, showable_frame, true);
      set!(p, ref_frame_sign_bias, [false; 7]);
      set!(p, frame_type, FrameType::KEY);
      set!(p, input_frameno, 0);
      #[cfg(kani)]
      let mut coded = base_frame(&sq);
      #[cfg(kani)]
      set!(coded, coded_frame_data, Some(lookahead_data()));
      #[cfg(kani)]
      set!(fi, coded_frame_data, None);
      #[cfg(kani)]
      unsafe {
        PREV = (&raw const *fi) as *const ();
      }
      let want_hint = match i {
        0 | 5 => 4 * k + 4,
        1 | 3 => 4 * k + 2,
        2 => 4 * k + 1,
        _ => 4 * k + 3,
      };
      #[cfg(kani)]
      unsafe {
        PLACE = (i as u64, want_hint);
      }
      let ic = inter_config(false, any(), 0);
      let start: u32 = any();
      let end: u64 = any();
      let n = 6 * k as u64 + i as u64 + 1;
      #[cfg(not(kani))]
      let coded = fi;
      let got = FrameInvariants::<u16>::new_inter_frame(&coded, &ic, start as u64, n, end, resilient, Box::new([]));
      let got = ManuallyDrop::new(got);
      let input = start as u64 + want_hint as u64;
      ensure!(got.is_none() == (input >= end), "frames of the next GOP are left out");
      let (level, again, shown) = (
        match i { 0 | 5 => 0, 1 | 3 => 1, _ => 2 },
        i == 3 || i == 5,
        i >= 2,
      );
      if let Some(f) = &*got {
        ensure!(f.input_frameno == input && f.order_hint == want_hint, "the input frame coded");
        ensure!(f.frame_type == FrameType::INTER && f.show_frame == shown, "hidden or shown");
        ensure!(f.is_show_existing_frame() == again, "shown again");
        ensure!(f.error_resilient == resilient, "error resilience requested");
        ensure!(!again || hints[f.frame_to_show_map_idx as usize] == want_hint, "the slot shown holds the frame to show");
        let mut s = 0;
        while s < 8 {
          let after = if i == 5 { spec_slot(s, k + 1, 0) } else { spec_slot(s, k, i + 1) };
          let held = if f.refresh_frame_flags >> s & 1 == 1 { want_hint } else { hints[s] };
          ensure!(held == after, "slots hold what later frames refer to");
          s += 1;
        }
        if !again {
          ensure!(f.pyramid_level == level, "level");
          let mut j = 0;
          while j < 7 {
            let slot = f.ref_frames[j] as usize;
            ensure!(slot < 8, "reference slot exists");
            let h = hints[slot];
            ensure!(h != want_hint, "a frame never refers to itself");
            ensure!(h + 12 >= want_hint && h <= want_hint + 2 && (i > 0 || h < want_hint), "references close by");
            j += 1;
          }
          ensure!(f.primary_ref_frame == if resilient { PRIMARY_REF_NONE } else { 2 }, "contexts taken from a reference");
          ensure!((f.reference_mode == ReferenceMode::SELECT) == (i != 0), "compound references where there are two directions");
        }
      }
      reach!(got.is_some() && k > 100, "late group");
      reach!(got.is_none(), "left out");
    }
  };
}
new_inter!(h_new_inter_0, 0);
new_inter!(h_new_inter_1, 1);
new_inter!(h_new_inter_2, 2);
new_inter!(h_new_inter_3, 3);
new_inter!(h_new_inter_4, 4);
new_inter!(h_new_inter_5, 5);

macro_rules! low_latency {
  ($name:ident, $switch:literal) => {
/// Low latency: frame n refers to frames n-1 and n-2 (or the switch frame
/// that replaced it), and a switch frame replaces every slot.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
#[cfg_attr(kani, kani::stub(FrameInvariants::clone_without_coded_data, copy_of))]
    #[cfg_attr(kani, kani::stub(FrameInvariants::frame_timestamp, no_time))]
    #[cfg_attr(kani, kani::stub(FrameInvariants::set_ref_frame_sign_bias, sign_bias))]
#[cfg_attr(kani, kani::stub(InterConfig::get_idx_in_group_output, place_idx))]
#[cfg_attr(kani, kani::stub(InterConfig::get_order_hint, place_hint))]
pub(crate) fn $name() {
  let n: u32 = any();
  assume(n > 0 && n < 1 << 30);
  // how long ago the last key or switch frame was
  let age: u32 = any();
  assume(age >= 1 && age <= n);
  let hints: [u32; 8] = core::array::from_fn(|s| {
    let back = 1 + (n + 3 - s as u32 % 4) % 4;
    if s < 4 && back <= age { n - back } else { n - age }
  });
  let sq = sequence(false, one_tile());
  let mut cfg = junk::<EncoderConfig>();
  set!(cfg, film_grain_params, None);
  let mut cfg = shared(cfg);
  cfg.counts = [1, 1];
  let mut fi = base_frame(&sq);
  let p = &mut *fi;
  set!(p, config, arc(&cfg));
  set!(p, t35_metadata, Box::new([]));
  let resilient: bool = any();
  set!(p, enable_inter_txfm_split, any());
  set!(p, showable_frame, true);
  set!(p, ref_frame_sign_bias, [false; 7]);
  set!(p, frame_type, FrameType::KEY);
  set!(p, input_frameno, 0);
  let multiref: bool = any();
  let switch: u64 = $switch;
  #[cfg(kani)]
      let mut coded = base_frame(&sq);
      #[cfg(kani)]
      set!(coded, coded_frame_data, Some(lookahead_data()));
      #[cfg(kani)]
      set!(fi, coded_frame_data, None);
  #[cfg(kani)]
  unsafe {
    PREV = (&raw const *fi) as *const ();
    PLACE = (0, n);
  }
  #[cfg(not(kani))]
  let coded = fi;
  let ic = inter_config(true, multiref, switch);
  let start: u32 = any();
  let end: u64 = any();
  let got = FrameInvariants::<u16>::new_inter_frame(&coded, &ic, start as u64, n as u64, end, resilient, Box::new([]));
  let got = ManuallyDrop::new(got);
  let input = start as u64 + n as u64;
  ensure!(got.is_none() == (input >= end), "frames of the next GOP are left out");
  if let Some(f) = &*got {
    let is_switch = switch > 0 && n as u64 % switch == 0;
    ensure!(f.input_frameno == input && f.order_hint == n && f.show_frame, "coded in order");
    ensure!(!f.is_show_existing_frame(), "coded");
    ensure!((f.frame_type == FrameType::SWITCH) == is_switch, "switch frames at their interval");
    ensure!(f.error_resilient == (resilient || is_switch), "switch frames are error resilient");
    ensure!(f.refresh_frame_flags == if is_switch { 255 } else { 1 << (n % 4) }, "slots replaced");
    let mut j = 0;
    while j < 7 {
      let slot = f.ref_frames[j] as usize;
      ensure!(slot < 8, "reference slot exists");
      let h = hints[slot];
      ensure!(h == n - 1 || multiref && h + 2 == n, "refers to the last frames");
      j += 1;
    }
    ensure!(hints[f.ref_frames[0] as usize] == n - 1, "last frame first");
    ensure!(f.primary_ref_frame == if f.error_resilient { PRIMARY_REF_NONE } else { 2 }, "contexts taken from a reference");
    ensure!(f.reference_mode == ReferenceMode::SINGLE, "single references");
  }
  reach!(got.is_some() && age > 4, "ordinary frame");
  reach!(got.is_none(), "left out");
}
  };
}
low_latency!(h_low_latency_never, 0);
low_latency!(h_low_latency_always, 1);
low_latency!(h_low_latency_30, 30);

/// The direction of each reference is the sign of its distance, 7.8.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub(crate) fn h_sign_bias() {
  let sq = sequence(any(), one_tile());
  let mut fi = base_frame(&sq);
  let p = &mut *fi;
  let hints: [u32; 3] = any_arr();
  let d = (64, 64, 64, 64);
  let (r0, r1, r2) = (reference(hints[0], d), reference(hints[1], d), reference(hints[2], d));
  set!(p, rec_buffer.frames, [Some(arc(&r0)), Some(arc(&r1)), Some(arc(&r2)), None, None, None, None, None]);
  let refs: [u8; 7] = [0, 1, 2, 3, 7, 0, 2];
  let hint: u32 = any();
  assume(hint < 1 << 31 && hints[0] < 1 << 31 && hints[1] < 1 << 31 && hints[2] < 1 << 31);
  set!(p, ref_frames, refs);
  set!(p, order_hint, hint);
  set!(p, ref_frame_sign_bias, any_arr());
  p.set_ref_frame_sign_bias();
  let mut i = 0;
  while i < 7 {
    let s = refs[i] as usize;
    // get_relative_dist() with six bits
    let after = s < 3 && {
      let d = hints[s].wrapping_sub(hint) & 63;
      d >= 1 && d < 32
    };
    ensure!(p.ref_frame_sign_bias[i] == (after && p.sequence.enable_order_hint), "direction of the reference");
    i += 1;
  }
  reach!(p.ref_frame_sign_bias[6], "a forward reference");
}

#[cfg(kani)]
static mut STORED: *mut () = std::ptr::null_mut();
/// Arc::new() whose allocation is a local of the type stored.
#[cfg(kani)]
fn arc_new<T>(t: T) -> Arc<T> {
  unsafe {
    std::ptr::write(STORED as *mut T, t);
    Arc::from_raw(STORED as *const T)
  }
}
/// A coded frame is stored in exactly the slots its header announces.
macro_rules! store {
  ($name:ident, $flags:literal) => {
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
#[cfg_attr(kani, kani::stub(Arc::new, arc_new))]
pub(crate) fn $name() {
  let stored = shared(junk::<ReferenceFrame<u16>>());
  #[cfg(kani)]
  unsafe {
    STORED = (&raw const *stored.data) as *mut ();
  }
  let sq = sequence(false, one_tile());
  let mut fi = base_frame(&sq);
  let p = &mut *fi;
  let old = shared(junk::<ReferenceFrame<u16>>());
  set!(p, rec_buffer.frames, core::array::from_fn(|_| Some(arc(&old))));
  let hint: u32 = any();
  let flags: u32 = $flags;
  set!(p, order_hint, hint);
  set!(p, refresh_frame_flags, flags);
  set!(p, render_width, any());
  set!(p, render_height, any());
  let mut fs = base_state();
  let q = &mut *fs;
  let rec = shared(junk::<Frame<u16>>());
  let (h, qq) = (shared(junk::<Plane<u16>>()), shared(junk::<Plane<u16>>()));
  set!(q, rec, arc(&rec));
  set!(q, input_hres, arc(&h));
  set!(q, input_qres, arc(&qq));
  let stats = shared(junk::<std::sync::RwLock<[FrameMEStats; REF_FRAMES]>>());
  set!(q, frame_me_stats, arc(&stats));
  let out: u64 = any();
  update_rec_buffer(out, p, q);
  let mut s = 0;
  while s < 8 {
    let now = p.rec_buffer.frames[s].as_ref();
    if flags >> s & 1 == 1 {
      let f = now.unwrap();
      ensure!(f.order_hint == hint && f.output_frameno == out, "refreshed slot holds the new frame");
      ensure!(f.width == 64 && f.height == 64 && f.render_width == p.render_width, "with its size");
    } else {
      ensure!(std::ptr::eq(&**now.unwrap(), &*old.data), "other slots keep their frame");
    }
    s += 1;
  }
  reach!(hint > 5, "a frame");
}
  };
}
store!(h_store_first, 1);
store!(h_store_two, 0x28);
store!(h_store_all, 255);
