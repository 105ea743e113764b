use crate::verif::*;
use std::mem::{ManuallyDrop, MaybeUninit};
#[cfg(kani)]
#[allow(invalid_value)]
fn junk<T>() -> ManuallyDrop<T> {
  ManuallyDrop::new(unsafe { MaybeUninit::uninit().assume_init() })
}
#[cfg(not(kani))]
fn junk<T>() -> ManuallyDrop<T> {
  unsafe { std::mem::transmute_copy(&MaybeUninit::<T>::zeroed()) }
}
macro_rules! set {
  ($p:expr, $($f:ident).+, $v:expr) => {
    unsafe { (&raw mut $p.$($f).+).write($v) }
  };
}
fn config(low: bool, multiref: bool, switch: u64) -> InterConfig {
  let mut c = junk::<EncoderConfig>();
  let p = &mut *c;
  set!(p, low_latency, low);
  set!(p, speed_settings.multiref, multiref);
  set!(p, switch_frame_interval, switch);
  InterConfig::new(&*p)
}
fn below(n: u64) -> u64 {
  let k: u64 = any();
  assume(k < n);
  k
}
/// What the decoder is told about output frame 6k+i+1 of a GOP: the hint it
/// is coded or shown with, whether it is shown, and whether it is coded.
struct Place {
  hint: u64,
  shown: bool,
  again: bool,
  level: u64,
}
fn spec_place(k: u64, i: u64) -> Place {
  match i {
    0 => Place { hint: 4 * k + 4, shown: false, again: false, level: 0 },
    1 => Place { hint: 4 * k + 2, shown: false, again: false, level: 1 },
    2 => Place { hint: 4 * k + 1, shown: true, again: false, level: 2 },
    3 => Place { hint: 4 * k + 2, shown: true, again: true, level: 1 },
    4 => Place { hint: 4 * k + 3, shown: true, again: false, level: 2 },
    _ => Place { hint: 4 * k + 4, shown: true, again: true, level: 0 },
  }
}

/// A group of four input frames is coded as two hidden frames and then shown
/// in input order, the hidden ones by show-existing; for every group.
#[cfg_attr(kani, kani::proof)]
pub(crate) fn h_reordering() {
  let c = config(false, any(), 0);
  let (k, i) = (below(1 << 28), below(6));
  let n = 6 * k + i + 1;
  let idx = c.get_idx_in_group_output(n);
  ensure!(idx == i, "place in the group");
  let hint = c.get_order_hint(n, i);
  let s = spec_place(k, i);
  ensure!(hint as u64 == s.hint, "input frame coded or shown");
  ensure!(c.get_level(i) == s.level, "pyramid level");
  ensure!(c.get_show_frame(i) == s.shown, "hidden frames first, then the shown ones");
  ensure!(c.get_show_existing_frame(i) == s.again, "hidden frames are shown again, not coded again");
  let slot = c.get_slot_idx(s.level, hint);
  ensure!(slot < 8, "reference slot exists");
  ensure!(s.level != 0 || slot as u64 == (s.hint / 4) % 4, "level 0 slots rotate");
  ensure!(s.level == 0 || slot as u64 == 3 + s.level, "a slot per upper level");
  let start = below(1 << 40);
  ensure!(c.get_input_frameno(n, start) == start + s.hint, "input frame number");
  ensure!(c.get_input_frameno(0, start) == start, "key frame starts the GOP");
  ensure!(c.keyframe_lookahead_distance() == 5, "lookahead covers a group and the next key frame");
  reach!(k > 1000 && i == 5, "late group");
}

/// Without reordering every frame is coded and shown in input order.
#[cfg_attr(kani, kani::proof)]
pub(crate) fn h_low_latency() {
  let switch: u64 = any();
  let multiref: bool = any();
  let c = config(true, multiref, switch);
  let n = below(1 << 32);
  assume(n > 0);
  let idx = c.get_idx_in_group_output(n);
  ensure!(idx == 0, "groups of one");
  let hint = c.get_order_hint(n, 0);
  ensure!(hint as u64 == n, "coded in input order");
  ensure!(c.get_level(0) == 0 && c.get_show_frame(0) && !c.get_show_existing_frame(0), "coded and shown at once");
  ensure!(c.get_slot_idx(0, hint) as u64 == n % 4, "slots rotate");
  let start = below(1 << 40);
  ensure!(c.get_input_frameno(n, start) == start + n, "input frame number");
  ensure!(c.keyframe_lookahead_distance() == 2, "lookahead covers the next key frame");
  ensure!(c.allowed_ref_frames().len() == if multiref { 4 } else { 1 }, "references searched");
  reach!(multiref, "several references");
}

/// Every input frame of every group is shown exactly once and in order:
/// lemma over the places the first contract establishes.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
pub(crate) fn h_each_once_in_order() {
  let k = below(1 << 60);
  let mut next = 4 * k + 1;
  let mut i = 0;
  while i < 6 {
    let s = spec_place(k, i);
    if s.shown {
      ensure!(s.hint == next, "shown in order");
      next += 1;
    }
    if s.again {
      let mut j = 0;
      let mut hidden = 0;
      while j < i {
        let h = spec_place(k, j);
        hidden += (!h.shown && h.hint == s.hint) as u32;
        j += 1;
      }
      ensure!(hidden == 1, "a frame shown again was coded once before");
    }
    i += 1;
  }
  ensure!(next == 4 * (k + 1) + 1, "the next group goes on");
  reach!(k > 5, "late group");
}
