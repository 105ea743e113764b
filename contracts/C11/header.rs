use crate::api::color::*;
use crate::api::config::EncoderConfig;
use crate::tiling::TilingInfo;
use crate::verif::{Bits, Syntax};
use crate::encoder::CodedFrameData;
use std::mem::{ManuallyDrop, MaybeUninit};
use std::sync::Arc;
use v_frame::prelude::ChromaSampling;

#[cfg(kani)]
fn junk<T>() -> MaybeUninit<T> {
  MaybeUninit::uninit()
}
#[cfg(not(kani))]
fn junk<T>() -> MaybeUninit<T> {
  MaybeUninit::zeroed()
}
/// Stand-in for the choice of the tile grid (property C08): any grid.
fn any_tiling(
  sb_size_log2: usize, frame_width: usize, frame_height: usize, _frame_rate: f64,
  _tile_cols_log2: usize, _tile_rows_log2: usize, _is_422_p: bool,
) -> TilingInfo {
  TilingInfo {
    frame_width, frame_height, tile_width_sb: 1, tile_height_sb: 1, cols: 1, rows: 1,
    tile_cols_log2: 0, tile_rows_log2: 0, min_tile_cols_log2: 0, max_tile_cols_log2: 0,
    min_tile_rows_log2: 0, max_tile_rows_log2: 0, sb_size_log2, min_tiles_log2: 0,
  }
}
#[cfg(kani)]
fn rate_any(_: &EncoderConfig) -> f64 {
  25.0
}
const PRIMARIES: [ColorPrimaries; 12] = {
  use ColorPrimaries::*;
  [BT709, Unspecified, BT470M, BT470BG, BT601, SMPTE240, GenericFilm, BT2020, XYZ, SMPTE431, SMPTE432, EBU3213]
};
const PRIM_VAL: [u8; 12] = [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22];
const TRANSFER: [TransferCharacteristics; 17] = {
  use TransferCharacteristics::*;
  [
    BT709, Unspecified, BT470M, BT470BG, BT601, SMPTE240, Linear, Log100, Log100Sqrt10, IEC61966, BT1361, SRGB,
    BT2020_10Bit, BT2020_12Bit, SMPTE2084, SMPTE428, HLG,
  ]
};
const TRANS_VAL: [u8; 17] = [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18];
const MATRIX: [MatrixCoefficients; 14] = {
  use MatrixCoefficients::*;
  [
    Identity, BT709, Unspecified, FCC, BT470BG, BT601, SMPTE240, YCgCo, BT2020NCL, BT2020CL, SMPTE2085, ChromatNCL,
    ChromatCL, ICtCp,
  ]
};
const MATR_VAL: [u8; 14] = [0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
const CHROMA: [ChromaSampling; 4] = [ChromaSampling::Cs420, ChromaSampling::Cs422, ChromaSampling::Cs444, ChromaSampling::Cs400];
const POSITION: [ChromaSamplePosition; 3] =
  [ChromaSamplePosition::Unknown, ChromaSamplePosition::Vertical, ChromaSamplePosition::Colocated];

fn below(n: u8) -> u8 {
  let k: u8 = any();
  assume(k < n);
  k
}
struct Color {
  depth: usize,
  chroma: u8,
  pos: u8,
  full: bool,
  desc: Option<(u8, u8, u8)>,
}
fn any_color() -> Color {
  let c = Color {
    depth: 8 + 2 * below(3) as usize,
    chroma: below(4),
    pos: below(3),
    full: any(),
    desc: if any() { Some((below(12), below(17), below(14))) } else { None },
  };
  if let Some((p, t, m)) = c.desc {
    // sRGB means full-range 4:4:4 (an obligation of the application)
    if p == 0 && t == 11 && m == 0 && c.chroma != 3 {
      assume(c.full && c.chroma == 2);
    }
  }
  c
}
fn description(c: &Color) -> Option<ColorDescription> {
  c.desc.map(|(p, t, m)| ColorDescription {
    color_primaries: PRIMARIES[p as usize],
    transfer_characteristics: TRANSFER[t as usize],
    matrix_coefficients: MATRIX[m as usize],
  })
}
/// seq_profile a stream of this format must have (6.4.1)
fn profile(c: &Color) -> u8 {
  if c.depth == 12 || c.chroma == 1 {
    2
  } else if c.chroma == 2 {
    1
  } else {
    0
  }
}
/// color_config(), 5.5.2
fn spec_color(s: &mut Syntax, c: &Color) {
  let prof = profile(c);
  s.flag(c.depth > 8);
  if prof == 2 && c.depth > 8 {
    s.flag(c.depth == 12);
  }
  let mono = c.chroma == 3;
  if prof != 1 {
    s.flag(mono);
  }
  s.flag(c.desc.is_some());
  let mut srgb = false;
  if let Some((p, t, m)) = c.desc {
    s.f(8, PRIM_VAL[p as usize] as u64);
    s.f(8, TRANS_VAL[t as usize] as u64);
    s.f(8, MATR_VAL[m as usize] as u64);
    srgb = PRIM_VAL[p as usize] == 1 && TRANS_VAL[t as usize] == 13 && MATR_VAL[m as usize] == 0;
  }
  if mono {
    s.flag(c.full);
    return;
  }
  if !srgb {
    s.flag(c.full);
    let (sx, sy) = (c.chroma != 2, c.chroma == 0);
    if prof == 2 && c.depth == 12 {
      s.flag(sx);
      if sx {
        s.flag(sy);
      }
    }
    if sx && sy {
      s.f(2, c.pos as u64);
    }
  }
  s.flag(true); // separate_uv_delta_q
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub(crate) fn h_color_config() {
  let c = any_color();
  let mut seq = junk::<Sequence>();
  let p = seq.as_mut_ptr();
  unsafe {
    (&raw mut (*p).profile).write(profile(&c));
    (&raw mut (*p).bit_depth).write(c.depth);
    (&raw mut (*p).chroma_sampling).write(CHROMA[c.chroma as usize]);
    (&raw mut (*p).chroma_sample_position).write(POSITION[c.pos as usize]);
    (&raw mut (*p).pixel_range).write(if c.full { PixelRange::Full } else { PixelRange::Limited });
    (&raw mut (*p).color_description).write(description(&c));
  }
  let seq = unsafe { &*p };
  let r = Bits::of(|w| w.write_color_config(seq).unwrap());
  let mut s = Syntax::new();
  spec_color(&mut s, &c);
  ensure!(s.same(&r), "color_config() decodes to the configured format");
  reach!(c.chroma == 3, "monochrome");
  reach!(c.desc.is_some() && r.n == 28 && c.chroma == 2, "described");
}

/// The whole sequence header of any configuration.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
#[cfg_attr(kani, kani::stub(TilingInfo::from_target_tiles, any_tiling))]
#[cfg_attr(kani, kani::stub(EncoderConfig::frame_rate, rate_any))]
pub(crate) fn h_sequence_header() {
  let c = any_color();
  let (w, h): (u16, u16) = (any(), any());
  assume(w >= 1 && h >= 1);
  let still: bool = any();
  let timing: bool = any();
  let (tick, scale): (u32, u32) = (any(), any());
  assume(tick >= 1 && scale >= 1);
  let level: u8 = below(32);
  let fixed_level: bool = any();
  let (cdef, lrf, grain): (bool, bool, bool) = (any(), any(), any());
  let mut cfg = ManuallyDrop::new(EncoderConfig::default());
  cfg.width = w as usize;
  cfg.height = h as usize;
  cfg.bit_depth = c.depth;
  cfg.chroma_sampling = CHROMA[c.chroma as usize];
  cfg.chroma_sample_position = POSITION[c.pos as usize];
  cfg.pixel_range = if c.full { PixelRange::Full } else { PixelRange::Limited };
  cfg.color_description = description(&c);
  cfg.still_picture = still;
  cfg.enable_timing_info = timing && !still;
  cfg.time_base.num = tick as u64;
  cfg.time_base.den = scale as u64;
  cfg.level_idx = if fixed_level { Some(level) } else { None };
  cfg.speed_settings.cdef = cdef;
  cfg.speed_settings.lrf = lrf;
  cfg.tiles = 0;
  cfg.tile_cols = 1;
  cfg.tile_rows = 1;
  cfg.film_grain_params = if grain {
    #[allow(invalid_value)]
    Some(vec![unsafe { junk::<GrainTableSegment>().assume_init() }])
  } else {
    None
  };
  let mut fi = junk::<FrameInvariants<u16>>();
  let p = fi.as_mut_ptr();
  unsafe {
    (&raw mut (*p).sequence).write(Arc::new(Sequence::new(&cfg)));
    (&raw mut (*p).width).write(w as usize);
    (&raw mut (*p).height).write(h as usize);
  }
  let fi = unsafe { &*p };
  let r = Bits::of(|b| b.write_sequence_header_obu(fi).unwrap());
  core::mem::forget(cfg);

  // sequence_header_obu(), 5.5.1
  let mut s = Syntax::new();
  s.f(3, profile(&c) as u64);
  s.flag(still); // still_picture
  s.flag(still); // reduced_still_picture_header
  let level = if fixed_level { level } else { 31 };
  if still {
    s.f(5, level as u64);
  } else {
    s.flag(timing);
    if timing {
      s.f(32, tick as u64);
      s.f(32, scale as u64);
      s.flag(true); // equal_picture_interval
      s.f(1, 1); // num_ticks_per_picture_minus_1 = 0, uvlc
      s.flag(false); // decoder_model_info_present_flag
    }
    s.flag(false); // initial_display_delay_present_flag
    s.f(5, 0);
    s.f(12, 0);
    s.f(5, level as u64);
    if level > 7 {
      s.f(1, 0);
    }
  }
  // the number of bits is the encoder's choice, as long as the size fits
  let wb = bits_of(w - 1);
  let hb = bits_of(h - 1);
  s.f(4, wb as u64 - 1);
  s.f(4, hb as u64 - 1);
  s.f(wb, w as u64 - 1);
  s.f(hb, h as u64 - 1);
  if !still {
    s.flag(false); // frame_id_numbers_present_flag
  }
  let q = &fi.sequence;
  s.flag(q.use_128x128_superblock);
  s.flag(q.enable_filter_intra);
  s.flag(q.enable_intra_edge_filter);
  if !still {
    s.flag(q.enable_interintra_compound);
    s.flag(q.enable_masked_compound);
    s.flag(q.enable_warped_motion);
    s.flag(q.enable_dual_filter);
    s.flag(q.enable_order_hint);
    if q.enable_order_hint {
      s.flag(q.enable_jnt_comp);
      s.flag(q.enable_ref_frame_mvs);
    }
    s.flag(q.force_screen_content_tools == 2);
    if q.force_screen_content_tools != 2 {
      s.f(1, q.force_screen_content_tools as u64);
    }
    if q.force_screen_content_tools > 0 {
      s.flag(q.force_integer_mv == 2);
      if q.force_integer_mv != 2 {
        s.f(1, q.force_integer_mv as u64);
      }
    }
    if q.enable_order_hint {
      s.f(3, q.order_hint_bits_minus_1 as u64);
    }
  } else {
    ensure!(
      !q.enable_order_hint && q.force_screen_content_tools == 2 && q.force_integer_mv == 2,
      "inferred values of a reduced header"
    );
    ensure!(
      !q.enable_interintra_compound && !q.enable_masked_compound && !q.enable_warped_motion && !q.enable_dual_filter
        && !q.enable_jnt_comp && !q.enable_ref_frame_mvs,
      "inferred tools of a reduced header"
    );
  }
  let small = w < 32 || h < 32;
  s.flag(q.enable_superres);
  s.flag(cdef && !small);
  s.flag(lrf && !small);
  spec_color(&mut s, &c);
  s.flag(grain);
  ensure!(s.same(&r), "sequence header decodes to the configured stream");
  ensure!(q.profile == profile(&c), "profile allows the format");
  ensure!(q.max_frame_width == w as u32 && q.max_frame_height == h as u32, "largest frame size");
  reach!(still && w == 1 && h == 65535, "still picture");
  reach!(!still && timing && grain, "video");
}
/// at least one bit
fn bits_of(v: u16) -> u32 {
  let mut n = 1;
  while n < 16 && v >> n != 0 {
    n += 1;
  }
  n
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub(crate) fn h_obu_header() {
  let k = below(9);
  let t = match k {
    0 => (ObuType::OBU_SEQUENCE_HEADER, 1),
    1 => (ObuType::OBU_TEMPORAL_DELIMITER, 2),
    2 => (ObuType::OBU_FRAME_HEADER, 3),
    3 => (ObuType::OBU_TILE_GROUP, 4),
    4 => (ObuType::OBU_METADATA, 5),
    5 => (ObuType::OBU_FRAME, 6),
    6 => (ObuType::OBU_REDUNDANT_FRAME_HEADER, 7),
    7 => (ObuType::OBU_TILE_LIST, 8),
    _ => (ObuType::OBU_PADDING, 15),
  };
  let mut r = Bits::of(|w| w.write_obu_header(t.0, 0).unwrap());
  ensure!(r.n == 8, "one byte");
  ensure!(r.f(1) == 0, "forbidden bit");
  ensure!(r.f(4) == t.1, "obu_type");
  ensure!(r.f(1) == 0 && r.f(1) == 1 && r.f(1) == 0, "no extension, size field, reserved");
  reach!(k == 8, "padding");
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub(crate) fn h_metadata_hdr() {
  let mut seq = junk::<Sequence>();
  let p = seq.as_mut_ptr();
  let v: [u16; 10] = any_arr();
  let (mx, mn): (u32, u32) = (any(), any());
  let pt = |i: usize| ChromaticityPoint { x: v[i], y: v[i + 1] };
  unsafe {
    (&raw mut (*p).content_light)
      .write(Some(ContentLight { max_content_light_level: v[8], max_frame_average_light_level: v[9] }));
    (&raw mut (*p).mastering_display).write(Some(MasteringDisplay {
      primaries: [pt(0), pt(2), pt(4)],
      white_point: pt(6),
      max_luminance: mx,
      min_luminance: mn,
    }));
  }
  let seq = unsafe { &*p };
  let mdcv: bool = any();
  let r = if mdcv {
    Bits::of(|w| w.write_sequence_metadata_obu(ObuMetaType::OBU_META_HDR_MDCV, seq).unwrap())
  } else {
    Bits::of(|w| w.write_sequence_metadata_obu(ObuMetaType::OBU_META_HDR_CLL, seq).unwrap())
  };
  let mut s = Syntax::new();
  s.f(8, 5 << 3 | 2);
  if mdcv {
    s.f(8, 1 + 24 + 1); // obu_size: metadata_type, payload, trailing bits
    s.f(8, 2);
    let mut i = 0;
    while i < 8 {
      s.f(16, v[i] as u64);
      i += 1;
    }
    s.f(32, mx as u64);
    s.f(32, mn as u64);
  } else {
    s.f(8, 1 + 4 + 1);
    s.f(8, 1);
    s.f(16, v[8] as u64);
    s.f(16, v[9] as u64);
  }
  s.f(8, 0x80);
  ensure!(s.same(&r), "HDR metadata OBU decodes to the configured values");
  reach!(mdcv, "mastering display");
  reach!(!mdcv, "content light level");
}
macro_rules! t35_contract {
  ($name:ident, $n:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(12))]
    pub(crate) fn $name() {
      let (cc, ext): (u8, u8) = (any(), any());
      let d: [u8; $n] = any_arr();
      let t = ManuallyDrop::new(T35 { country_code: cc, country_code_extension_byte: ext, data: Box::new(d) });
      let r = Bits::of(|w| w.write_t35_metadata_obu(&t).unwrap());
      let mut s = Syntax::new();
      s.f(8, 5 << 3 | 2);
      s.f(8, 1 + 1 + (cc == 0xff) as u64 + $n + 1);
      s.f(8, 4);
      s.f(8, cc as u64);
      if cc == 0xff {
        s.f(8, ext as u64);
      }
      let mut i = 0;
      while i < $n {
        s.f(8, d[i] as u64);
        i += 1;
      }
      s.f(8, 0x80);
      ensure!(s.same(&r), "ITU-T T.35 OBU decodes to the given payload");
      reach!(cc == 0xff, "extended country code");
      reach!(cc != 0xff, "plain country code");
    }
  };
}
t35_contract!(h_t35_0, 0);
t35_contract!(h_t35_1, 1);
t35_contract!(h_t35_5, 5);
