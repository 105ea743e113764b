use crate::transform::TxSize::*;
use crate::cpu_features::CpuFeatureLevel;
use std::mem::MaybeUninit;

fn any_depth() -> usize {
  let b: u8 = any();
  assume(b < 3);
  8 + 2 * b as usize
}
/// dc_q / ac_q of the specification (7.12.2): the table of the bit depth at
/// Clip3(0, 255, qindex + delta).
macro_rules! q_contract {
  ($name:ident, $f:ident, $t8:ident, $t10:ident, $t12:ident) => {
    #[cfg_attr(kani, kani::proof)]
    pub(crate) fn $name() {
      let q: u8 = any();
      let d: i8 = any();
      let bd = any_depth();
      let i = q as i32 + d as i32;
      let i = if i < 0 { 0 } else if i > 255 { 255 } else { i } as usize;
      let want = match bd {
        8 => $t8[i],
        10 => $t10[i],
        _ => $t12[i],
      };
      ensure!($f(q, d, bd) == want, "quantizer of the clipped index at the bit depth");
      reach!(bd == 12 && i == 255, "reached");
    }
  };
}
q_contract!(h_dc_q, dc_q, dc_qlookup_Q3, dc_qlookup_10_Q3, dc_qlookup_12_Q3);
q_contract!(h_ac_q, ac_q, ac_qlookup_Q3, ac_qlookup_10_Q3, ac_qlookup_12_Q3);
/// The normative tables: strictly positive, non-decreasing, with the published
/// end points, sum and weighted sum (Fletcher-like check of the 256 entries).
macro_rules! table_contract {
  ($name:ident, $t:ident, $first:literal, $last:literal, $sum:literal, $wsum:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(260))]
    pub(crate) fn $name() {
      let mut i = 0;
      let (mut s, mut w) = (0u64, 0u64);
      let mut h = 0u64;
      while i < 256 {
        let v = $t[i].get() as u64;
        ensure!(i == 0 || v >= $t[i - 1].get() as u64, "table is non-decreasing");
        s += v;
        w += v * v * (i as u64 + 1);
        i += 1;
      }
      ensure!($t[0].get() == $first && $t[255].get() == $last, "published end points");
      ensure!(s == $sum && w == $wsum, "published table");
      reach!(i == 256, "whole table");
    }
  };
}

table_contract!(h_table_dc_qlookup_q3, dc_qlookup_Q3, 4, 1336, 63571, 7934258205);
table_contract!(h_table_dc_qlookup_10_q3, dc_qlookup_10_Q3, 4, 5347, 252518, 127070282918);
table_contract!(h_table_dc_qlookup_12_q3, dc_qlookup_12_Q3, 4, 21387, 1007813, 2032817912300);
table_contract!(h_table_ac_qlookup_q3, ac_qlookup_Q3, 4, 1828, 98156, 20517152849);
table_contract!(h_table_ac_qlookup_10_q3, ac_qlookup_10_Q3, 4, 7312, 390034, 328135439498);
table_contract!(h_table_ac_qlookup_12_q3, ac_qlookup_12_Q3, 4, 29247, 1557517, 5249226344228);
/// Stand-ins for the quantizer lookups (contracts h_dc_q and h_ac_q): they
/// check their arguments and return an arbitrary quantizer.
#[cfg(kani)]
static mut ARGS: (u8, i8, i8, usize, u16, u16) = (0, 0, 0, 0, 1, 1);
#[cfg(kani)]
fn dc_any(q: u8, d: i8, bd: usize) -> NonZeroU16 {
  unsafe {
    assert!(q == ARGS.0 && d == ARGS.1 && bd == ARGS.3, "DC quantizer asked for the block's index");
    NonZeroU16::new_unchecked(ARGS.4)
  }
}
#[cfg(kani)]
fn ac_any(q: u8, d: i8, bd: usize) -> NonZeroU16 {
  unsafe {
    assert!(q == ARGS.0 && d == ARGS.2 && bd == ARGS.3, "AC quantizer asked for the block's index");
    NonZeroU16::new_unchecked(ARGS.5)
  }
}
#[cfg(kani)]
fn quantizers(q: u8, ddc: i8, dac: i8, bd: usize) -> (i32, i32) {
  let (d, a): (u16, u16) = (any(), any());
  assume(d >= 4 && d <= 21387 && a >= 4 && a <= 29247);
  unsafe {
    ARGS = (q, ddc, dac, bd, d, a);
  }
  (d as i32, a as i32)
}
#[cfg(not(kani))]
fn quantizers(q: u8, ddc: i8, dac: i8, bd: usize) -> (i32, i32) {
  (dc_q(q, ddc, bd).get() as i32, ac_q(q, dac, bd).get() as i32)
}
/// Inverse quantization (7.12.3) without quantizer matrices.
macro_rules! dequant_contract {
  ($name:ident, $t:ty, $max:expr, $size:expr, $shift:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(6))]
    #[cfg_attr(kani, kani::stub(dc_q, dc_any))]
    #[cfg_attr(kani, kani::stub(ac_q, ac_any))]
    pub(crate) fn $name() {
      let q: u8 = any();
      let (ddc, dac): (i8, i8) = (any(), any());
      let bd = any_depth();
      let c: [$t; 3] = any_arr();
      let mut k = 0;
      while k < 3 {
        assume(c[k] >= -$max);
        assume(c[k] <= $max);
        k += 1;
      }
      let (dcq, acq) = quantizers(q, ddc, dac, bd);
      let mut out: [MaybeUninit<$t>; 3] = [MaybeUninit::new(0); 3];
      rust::dequantize(q, &c, 3, &mut out, $size, bd, ddc, dac, CpuFeatureLevel::default());
      let mut k = 0;
      while k < 3 {
        let quant = if k == 0 { dcq } else { acq };
        let p = c[k] as i32 * quant;
        // dq = Abs(coef) * q >> dqDenom with the sign of the coefficient
        let want = if p < 0 { -((-p) >> $shift) } else { p >> $shift };
        // SAFETY: written above
        let got = unsafe { out[k].assume_init() };
        ensure!(got == want as $t, "dequantized value");
        k += 1;
      }
      reach!(bd == 12 && c[0] < 0 && c[1] > 0, "reached");
    }
  };
}
dequant_contract!(h_dequant_0, i32, 65535, TX_8X16, 0);
dequant_contract!(h_dequant_1, i32, 65535, TX_16X64, 1);
dequant_contract!(h_dequant_2, i32, 65535, TX_64X32, 2);
dequant_contract!(h_dequant16_0, i16, 32767, TX_4X4, 0);
dequant_contract!(h_dequant16_1, i16, 32767, TX_32X32, 1);
/// get_dqdenom of 7.12.3
#[cfg_attr(kani, kani::proof)]
pub(crate) fn h_tx_scale() {
  let big = [TX_64X64, TX_32X64, TX_64X32];
  let mid = [TX_32X32, TX_16X32, TX_32X16, TX_16X64, TX_64X16];
  let small = [TX_4X4, TX_8X8, TX_16X16, TX_4X8, TX_8X4, TX_8X16, TX_16X8, TX_4X16, TX_16X4, TX_8X32, TX_32X8];
  let i: usize = any();
  assume(i < 19);
  if i < 3 {
    ensure!(get_log_tx_scale(big[i]) == 2, "scale of 64-point transforms");
  } else if i < 8 {
    ensure!(get_log_tx_scale(mid[i - 3]) == 1, "scale of 32-point transforms");
  } else {
    ensure!(get_log_tx_scale(small[i - 8]) == 0, "no scale for small transforms");
  }
  reach!(i == 18, "reached");
}
/// select_*_qi: the index whose step is closest to the wanted one in the log
/// domain, for every wanted step.
macro_rules! select_contract {
  ($name:ident, $f:ident, $t:ident, $bd:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(12))]
    pub(crate) fn $name() {
      let q: i64 = any();
      let i = $f(q, $bd) as usize;
      let t = &$t;
      // QIndex 0 means lossless, which is not used
      ensure!(i >= MINQ && i <= MAXQ, "index in range");
      let lo = t[MINQ].get() as i64;
      let hi = t[MAXQ].get() as i64;
      if q <= lo {
        ensure!(t[i].get() as i64 == lo, "smallest step below the range");
      } else if q >= hi {
        ensure!(i == MAXQ, "largest step above the range");
      } else {
        let at = t[i].get() as i64;
        ensure!(i == MAXQ || q * q < at * t[i + 1].get() as i64 || at == q, "not closer to the next step");
        ensure!(i == MINQ || q * q >= at * t[i - 1].get() as i64, "not closer to the previous step");
      }
      reach!(q == hi - 1, "reached");
      reach!(q < 0, "below");
    }
  };
}
select_contract!(h_select_dc8, select_dc_qi, dc_qlookup_Q3, 8);
select_contract!(h_select_dc10, select_dc_qi, dc_qlookup_10_Q3, 10);
select_contract!(h_select_dc12, select_dc_qi, dc_qlookup_12_Q3, 12);
select_contract!(h_select_ac8, select_ac_qi, ac_qlookup_Q3, 8);
select_contract!(h_select_ac10, select_ac_qi, ac_qlookup_10_Q3, 10);
select_contract!(h_select_ac12, select_ac_qi, ac_qlookup_12_Q3, 12);
