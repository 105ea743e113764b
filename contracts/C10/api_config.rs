use crate::verif::*;
use crate::prelude::{ChromaSampling, ColorDescription, ColorPrimaries, MatrixCoefficients, PixelRange, Rational, TransferCharacteristics};
use std::mem::{ManuallyDrop, MaybeUninit};
#[cfg(kani)]
#[allow(invalid_value)]
fn junk<T>() -> ManuallyDrop<T> {
  ManuallyDrop::new(unsafe { MaybeUninit::uninit().assume_init() })
}
#[cfg(not(kani))]
fn junk<T>() -> ManuallyDrop<T> {
  unsafe { std::mem::transmute_copy(&MaybeUninit::<T>::zeroed()) }
}
macro_rules! set {
  ($p:expr, $($f:ident).+, $v:expr) => {
    unsafe { (&raw mut $p.$($f).+).write($v) }
  };
}
const CHROMA: [ChromaSampling; 4] = [ChromaSampling::Cs420, ChromaSampling::Cs422, ChromaSampling::Cs444, ChromaSampling::Cs400];

/// What render_size() returned; its own contracts are h_render_size_*.
#[cfg(kani)]
static mut RENDER: (usize, usize) = (0, 0);
#[cfg(kani)]
fn any_render_size(_: &EncoderConfig) -> (usize, usize) {
  unsafe { RENDER }
}
fn any_rational() -> Rational {
  Rational { num: any(), den: any() }
}
/// Annex A.3 of the AV1 specification: MaxPicSize, MaxHSize, MaxVSize,
/// MaxDisplayRate of the level with this seq_level_idx.
fn spec_level(idx: u8) -> Option<(u64, u64, u64, u64)> {
  Some(match idx {
    0 => (147456, 2048, 1152, 4423680),
    1 => (278784, 2816, 1584, 8363520),
    4 => (665856, 4352, 2448, 19975680),
    5 => (1065024, 5504, 3096, 31950720),
    8 => (2359296, 6144, 3456, 70778880),
    9 => (2359296, 6144, 3456, 141557760),
    12 => (8912896, 8192, 4352, 267386880),
    13 => (8912896, 8192, 4352, 534773760),
    14 => (8912896, 8192, 4352, 1069547520),
    15 => (8912896, 8192, 4352, 1069547520),
    16 => (35651584, 16384, 8704, 1069547520),
    17 => (35651584, 16384, 8704, 2139095040),
    18 => (35651584, 16384, 8704, 4278190080),
    19 => (35651584, 16384, 8704, 4278190080),
    _ => return None,
  })
}
fn base_config() -> ManuallyDrop<Config> {
  let mut c = junk::<Config>();
  let p = &mut *c;
  set!(p, enc.still_picture, false);
  set!(p, enc.width, 16);
  set!(p, enc.height, 16);
  set!(p, enc.sample_aspect_ratio, Rational { num: 1, den: 1 });
  set!(p, enc.speed_settings.rdo_lookahead_frames, 1);
  set!(p, enc.max_key_frame_interval, 0);
  set!(p, enc.tile_cols, 0);
  set!(p, enc.tile_rows, 0);
  set!(p, enc.time_base, Rational { num: 1, den: 25 });
  set!(p, enc.reservoir_frame_delay, None);
  set!(p, enc.switch_frame_interval, 0);
  set!(p, enc.low_latency, false);
  set!(p, enc.enable_timing_info, false);
  set!(p, enc.color_description, None);
  set!(p, enc.chroma_sampling, ChromaSampling::Cs420);
  set!(p, enc.pixel_range, PixelRange::Limited);
  set!(p, enc.level_idx, None);
  set!(p, enc.bitrate, 1);
  set!(p, rate_control.emit_pass_data, false);
  set!(p, rate_control.summary, None);
  c
}

/// Everything but the level: accepted exactly when the stream can be coded.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(70))]
#[cfg_attr(kani, kani::stub(EncoderConfig::render_size, any_render_size))]
pub(crate) fn h_validate() {
  let mut c = base_config();
  let p = &mut *c;
  let still: bool = any();
  let (w, h): (usize, usize) = (any(), any());
  let sar = any_rational();
  let tb = any_rational();
  let render: (usize, usize) = (any(), any());
  let (tc, tr): (usize, usize) = (any(), any());
  let lookahead: usize = any();
  let interval: u64 = any();
  let delay: Option<i32> = if any() { Some(any()) } else { None };
  let switch: u64 = any();
  let (low, timing, emit): (bool, bool, bool) = (any(), any(), any());
  let bitrate: i32 = any();
  let k: u8 = any();
  assume(k < 4);
  let full: bool = any();
  let (srgb, desc): (bool, bool) = (any(), any());
  let prim: bool = any();
  set!(p, enc.still_picture, still);
  set!(p, enc.width, w);
  set!(p, enc.height, h);
  set!(p, enc.sample_aspect_ratio, sar);
  set!(p, enc.speed_settings.rdo_lookahead_frames, lookahead);
  set!(p, enc.max_key_frame_interval, interval);
  set!(p, enc.tile_cols, tc);
  set!(p, enc.tile_rows, tr);
  set!(p, enc.time_base, tb);
  set!(p, enc.reservoir_frame_delay, delay);
  set!(p, enc.switch_frame_interval, switch);
  set!(p, enc.low_latency, low);
  set!(p, enc.enable_timing_info, timing);
  set!(p, enc.chroma_sampling, CHROMA[k as usize]);
  set!(p, enc.pixel_range, if full { PixelRange::Full } else { PixelRange::Limited });
  set!(p, enc.bitrate, bitrate);
  set!(p, rate_control.emit_pass_data, emit);
  if desc {
    // CP_BT_709, TC_SRGB, MC_IDENTITY is the triple that implies RGB
    set!(p, enc.color_description, Some(ColorDescription {
      color_primaries: if prim { ColorPrimaries::BT709 } else { ColorPrimaries::BT2020 },
      transfer_characteristics: if srgb { TransferCharacteristics::SRGB } else { TransferCharacteristics::BT709 },
      matrix_coefficients: if srgb { MatrixCoefficients::Identity } else { MatrixCoefficients::BT709 },
    }));
  }
  #[cfg(kani)]
  unsafe { RENDER = render };
  #[cfg(not(kani))]
  {
    // keep the conversion of the aspect ratio meaningful
    assume(sar.den != 0 && w < 1 << 20 && h < 1 << 20);
  }
  #[cfg(not(kani))]
  let render = (*p).enc.render_size();
  let got = (*p).validate().is_ok();
  let least = if still { 1 } else { 16 };
  let size = |n: usize| n >= least && n <= 65535;
  let shown = |n: usize| n >= 1 && n <= 65535;
  let tiles = |n: usize| n == 0 || n & (n - 1) == 0;
  let word = |n: u64| n >= 1 && n <= u32::MAX as u64;
  let rgb = desc && prim && srgb && k != 3;
  let want = size(w)
    && size(h)
    && sar.num != 0
    && sar.den != 0
    && shown(render.0)
    && shown(render.1)
    && lookahead >= 1
    && lookahead <= MAX_RDO_LOOKAHEAD_FRAMES
    && interval <= MAX_MAX_KEY_FRAME_INTERVAL
    && tiles(tc)
    && tiles(tr)
    && word(tb.num)
    && word(tb.den)
    && !matches!(delay, Some(d) if d < 12 || d > 131072)
    && (switch == 0 || low)
    && !(timing && still)
    && (!rgb || full && k == 2)
    && (!emit || bitrate != 0);
  ensure!(got == want, "configuration accepted exactly when it can be coded");
  reach!(got, "accepted");
  reach!(!got, "rejected");
}

/// With a level: accepted exactly when the picture size and display rate are
/// within the level's limits.
macro_rules! level_contract {
  ($name:ident, $num:expr, $den:expr) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(3))]
    #[cfg_attr(kani, kani::stub(EncoderConfig::render_size, any_render_size))]
    pub(crate) fn $name() {
      let mut c = base_config();
      let p = &mut *c;
      let (w, h): (u16, u16) = (any(), any());
      assume(w >= 16 && h >= 16);
      let level: u8 = any();
      set!(p, enc.width, w as usize);
      set!(p, enc.height, h as usize);
      set!(p, enc.level_idx, Some(level));
      set!(p, enc.time_base, Rational { num: $num, den: $den });
      #[cfg(kani)]
      unsafe { RENDER = (w as usize, h as usize) };
      let got = (*p).validate().is_ok();
      let (w64, h64) = (w as u64, h as u64);
      let area = (w as usize * h as usize) as u64;
      let want = level == 31
        || match spec_level(level) {
          None => false,
          // area * (den / num) <= rate
          Some((pic, hs, vs, rate)) => area <= pic && w64 <= hs && h64 <= vs && area * $den <= rate * $num,
        };
      ensure!(got == want, "level accepted exactly when its limits hold");
      reach!(got && level == 9, "level 4.1");
      reach!(got && level == 19, "level 6.3");
      reach!(!got && level < 20, "refused");
    }
  };
}
level_contract!(h_level_25, 1, 25);
level_contract!(h_level_ntsc, 1001, 60000);
level_contract!(h_level_120, 1, 120);
level_contract!(h_level_300, 2, 600);

/// Every level, its limits in every mode: the tables themselves.
#[cfg_attr(kani, kani::proof)]
pub(crate) fn h_level_tables() {
  let i: u8 = any();
  assume(i < 32);
  let k = i as usize;
  let want = spec_level(i);
  ensure!(AV1_LEVEL_DEFINED[k] == want.is_some(), "levels defined");
  if let Some((pic, h, v, rate)) = want {
    ensure!(AV1_LEVEL_MAX_PIC_SIZE[k] as u64 == pic, "MaxPicSize");
    ensure!(AV1_LEVEL_MAX_H_SIZE[k] as u64 == h, "MaxHSize");
    ensure!(AV1_LEVEL_MAX_V_SIZE[k] as u64 == v, "MaxVSize");
    ensure!(AV1_LEVEL_MAX_DISPLAY_RATE[k] as u64 == rate, "MaxDisplayRate");
  }
  reach!(want.is_some(), "a level");
}

/// The render size stretches one dimension so that the shown aspect ratio is
/// the sample aspect ratio, to the nearest pixel.
macro_rules! render_contract {
  ($name:ident, $num:expr, $den:expr) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(3))]
    pub(crate) fn $name() {
      let mut c = base_config();
      let p = &mut *c;
      let (w, h): (u16, u16) = (any(), any());
      set!(p, enc.width, w as usize);
      set!(p, enc.height, h as usize);
      set!(p, enc.sample_aspect_ratio, Rational { num: $num, den: $den });
      let (rw, rh) = (*p).enc.render_size();
      let (w, h) = (w as usize, h as usize);
      let (a, b): (usize, usize) = ($num, $den);
      let near = |got: usize, n: usize, d: usize| {
        // |got - n/d| <= 1/2, with room for the rounding of the division
        let (x, y) = (2 * got * d, 2 * n);
        x <= y + d + 1 && y <= x + d + 1
      };
      if a > b {
        ensure!(rh == h && near(rw, w * a, b), "wide samples widen the picture");
      } else {
        ensure!(rw == w && near(rh, h * b, a), "tall samples heighten the picture");
      }
      reach!(rw > 1000 && rh > 1000, "a picture");
    }
  };
}
render_contract!(h_render_size_1_1, 1, 1);
render_contract!(h_render_size_2_1, 2, 1);
render_contract!(h_render_size_1_2, 1, 2);
render_contract!(h_render_size_16_11, 16, 11);
render_contract!(h_render_size_12_11, 12, 11);
render_contract!(h_render_size_9_10, 9, 10);
