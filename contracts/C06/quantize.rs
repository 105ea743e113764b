use crate::transform::TxSize::*;
use crate::transform::TxType::*;

// ---- division by multiplication -----------------------------------------
/// divu_gen() returns a reciprocal (a, b, s) of d with, for N = 32 + s,
///   b == 0 and 2^N <= a*d <= 2^N + 2^s     or
///   b == a and 2^N - 2^s <= a*d < 2^N,
/// for every quantizer of the six tables.  The lemma that such a triple divides
/// every 32-bit number exactly is contracts/C06/divu.verus.
fn reciprocal_ok(d: u64, t: (u32, u32, u32)) -> bool {
  let (a, b, s) = (t.0 as u64, t.1 as u64, t.2);
  if s > 15 {
    return false;
  }
  let n = 1u64 << (32 + s);
  let e = 1u64 << s;
  let p = a * d;
  (b == 0 && p >= n && p <= n + e) || (b == a && p < n && p + e >= n)
}
macro_rules! divu_gen_contract {
  ($name:ident, $tab:ident) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(260))]
    pub(crate) fn $name() {
      let mut i = 0;
      while i < 256 {
        let d = $tab[i];
        ensure!(reciprocal_ok(d.get() as u64, divu_gen(d.into())), "reciprocal divides exactly");
        i += 1;
      }
      reach!(i == 256, "all quantizers");
    }
  };
}
divu_gen_contract!(h_divu_gen_dc8, dc_qlookup_Q3);
divu_gen_contract!(h_divu_gen_dc10, dc_qlookup_10_Q3);
divu_gen_contract!(h_divu_gen_dc12, dc_qlookup_12_Q3);
divu_gen_contract!(h_divu_gen_ac8, ac_qlookup_Q3);
divu_gen_contract!(h_divu_gen_ac10, ac_qlookup_10_Q3);
divu_gen_contract!(h_divu_gen_ac12, ac_qlookup_12_Q3);
#[cfg_attr(kani, kani::proof)]
pub(crate) fn h_divu_pair() {
  let (x, a, b, s): (u32, u32, u32, u32) = (any(), any(), any(), any());
  assume(s < 16);
  let q = divu_pair(x, (a, b, s));
  let w = a as u64 * x as u64 + b as u64;
  ensure!(q as u64 == (w >> 32) >> s, "division step is (a x + b) / 2^(32+s)");
  reach!(q == 77, "reached");
}

// ---- the quantizer, with division abstracted to its contract --------------
/// Under the verifier a reciprocal is represented by its divisor.
#[cfg(kani)]
fn recip(d: NonZeroU16) -> (u32, u32, u32) {
  (d.get() as u32, 0, 0)
}
#[cfg(not(kani))]
fn recip(d: NonZeroU16) -> (u32, u32, u32) {
  divu_gen(d.into())
}
#[cfg(kani)]
fn recip_gen(d: NonZeroU32) -> (u32, u32, u32) {
  (d.get(), 0, 0)
}
/// x / d by the contract of exact division.
#[cfg(kani)]
fn recip_div(x: u32, d: (u32, u32, u32)) -> u32 {
  let q: u32 = kani::any();
  let (q64, d64) = (q as u64, d.0 as u64);
  kani::assume(q <= x);
  kani::assume(d64 <= 0xffff);
  kani::assume(q64 * d64 <= x as u64 && (x as u64) < q64 * d64 + d64);
  q
}
fn copysign_contract() {
  let (v, s): (u32, i32) = (any(), any());
  assume(v <= i32::MAX as u32);
  let r = copysign(v, s);
  ensure!(r == if s < 0 { -(v as i32) } else { v as i32 }, "copysign");
}
#[cfg_attr(kani, kani::proof)]
pub(crate) fn h_copysign() {
  copysign_contract();
  reach!(true, "reached");
}
/// update(): the rounding offsets are below half a step and ordered, so that a
/// coefficient that survives the end-of-block threshold rounds to nonzero.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::stub(divu_gen, recip_gen))]
pub(crate) fn h_update() {
  let mut c = QuantizationContext::default();
  let qi: u8 = any();
  let (ddc, dac): (i8, i8) = (any(), any());
  let intra: bool = any();
  let b: u8 = any();
  let bd = match b { 0 => 8, 1 => 10, _ => 12 };
  let t: u8 = any();
  let (tx, sc) = match t {
    0 => (TX_4X4, 0), 1 => (TX_16X16, 0), 2 => (TX_8X32, 0), 3 => (TX_16X32, 1),
    4 => (TX_32X32, 1), 5 => (TX_64X16, 1), 6 => (TX_64X32, 2), _ => (TX_64X64, 2),
  };
  c.update(qi, tx, intra, bd, ddc, dac);
  ensure!(c.log_tx_scale == sc, "transform scale");
  ensure!(c.dc_quant == dc_q(qi, ddc, bd) && c.ac_quant == ac_q(qi, dac, bd), "quantizers of the bit depth");
  ensure!(c.dc_mul_add == recip(c.dc_quant) && c.ac_mul_add == recip(c.ac_quant), "reciprocals belong to the quantizers");
  let (dq, aq) = (c.dc_quant.get() as u32, c.ac_quant.get() as u32);
  ensure!(2 * c.dc_offset <= dq, "DC rounding is at most half a step");
  ensure!(2 * c.ac_offset1 <= aq, "AC rounding is at most half a step");
  ensure!(c.ac_offset_eob <= c.ac_offset0 && c.ac_offset0 <= c.ac_offset1, "rounding offsets are ordered");
  reach!(bd == 12 && sc == 2, "reached");
}
/// Any context update() can produce (see h_update).
fn any_ctx(scale: usize, dc: u16, ac: u16) -> QuantizationContext {
  assume(dc >= 4 && dc <= 21387);
  assume(ac >= 4 && ac <= 29247);
  let mut c = QuantizationContext::default();
  c.log_tx_scale = scale;
  c.dc_quant = NonZeroU16::new(dc).unwrap();
  c.ac_quant = NonZeroU16::new(ac).unwrap();
  c.dc_mul_add = recip(c.dc_quant);
  c.ac_mul_add = recip(c.ac_quant);
  c.dc_offset = any();
  c.ac_offset0 = any();
  c.ac_offset1 = any();
  c.ac_offset_eob = any();
  assume(c.dc_offset <= dc as u32 / 2);
  assume(c.ac_offset1 <= ac as u32 / 2);
  assume(c.ac_offset0 <= c.ac_offset1);
  assume(c.ac_offset_eob <= c.ac_offset0);
  c
}
fn real_ctx(qi: u8, t: TxSize) -> QuantizationContext {
  let mut c = QuantizationContext::default();
  c.update(qi, t, true, 10, 0, 0);
  c.dc_mul_add = recip(c.dc_quant);
  c.ac_mul_add = recip(c.ac_quant);
  c
}
/// Post-conditions for the first N coefficients of the scan (all others zero).
macro_rules! quantize_contract {
  ($name:ident, $t:ty, $max:expr, $size:expr, $ty:expr, $scale:literal, $area:literal, $n:literal, $uw:literal, $ctx:expr) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind($uw))]
    #[cfg_attr(kani, kani::stub(divu_pair, recip_div))]
    pub(crate) fn $name() {
      let c = $ctx;
      let scan = av1_scan_orders[$size as usize][$ty as usize].scan;
      let mut co: [$t; $area] = [0; $area];
      let mut k = 0;
      while k < $n {
        let v: $t = any();
        assume(v >= -$max && v <= $max);
        co[scan[k] as usize] = v;
        k += 1;
      }
      let mut q: [$t; $area] = [0; $area];
      let eob = c.quantize(&co, &mut q, $size, $ty) as usize;
      ensure!(eob <= $n, "end of block is within the nonzero input");
      let mut k = 0;
      let mut last = 0;
      while k < $n {
        let (x, y) = (co[scan[k] as usize] as i64, q[scan[k] as usize] as i64);
        let quant = if k == 0 { c.dc_quant.get() } else { c.ac_quant.get() } as i64;
        if y != 0 {
          last = k + 1;
          ensure!((y < 0) == (x < 0), "sign is preserved");
          // more than half a step may never be rounded up
          let ax = x.abs() << $scale;
          let p = y.abs() * quant;
          ensure!(p <= ax + quant / 2, "rounding up by at most half a step");
          ensure!(ax < p + quant, "rounding down by less than a step");
        } else if k < eob {
          ensure!(x.abs() << $scale < quant, "only less than a step rounds to zero");
        }
        k += 1;
      }
      ensure!(eob == last, "end of block is one past the last nonzero level in scan order");
      reach!(eob == $n, "full block");
      reach!(eob == 0, "empty block");
    }
  };
}
quantize_contract!(h_quantize_8, i16, 32767, TX_4X4, DCT_DCT, 0, 16, 4, 20, any_ctx(0, 8, 8));
quantize_contract!(h_quantize_1336, i16, 32767, TX_4X4, H_DCT, 0, 16, 4, 20, any_ctx(0, 1336, 1828));
quantize_contract!(h_quantize_4, i32, 524287, TX_4X4, DCT_DCT, 0, 16, 4, 20, any_ctx(0, 4, 4));
quantize_contract!(h_quantize_21387, i32, 524287, TX_4X4, V_DCT, 0, 16, 4, 20, any_ctx(0, 21387, 29247));
quantize_contract!(h_quantize_s1, i32, 131071, TX_4X4, DCT_DCT, 1, 16, 3, 20, any_ctx(1, 13, 17));
quantize_contract!(h_quantize_s2, i32, 131071, TX_4X4, DCT_DCT, 2, 16, 3, 20, any_ctx(2, 40, 83));
