//@use av1_decoder
//@use bitlog
fn any_token() -> (u16, u16, u16) {
  let (fl, fh, nms): (u16, u16, u16) = (any(), any(), any());
  assume(fl <= 32768 && fh < 32768);
  assume((fh >> 6) <= (fl >> 6));
  assume(nms >= 1 && nms <= 16);
  (fl, fh, nms)
}
/// Size of the decoder's interval for a token (specification 8.2.6).
fn spec_range(rng: u32, t: (u16, u16, u16)) -> u32 {
  let prev = if t.0 == 32768 { rng } else { spec_cur(rng, t.0 as u32, t.2 as u32) };
  prev - spec_cur(rng, t.1 as u32, t.2 as u32 - 1)
}
/// One step of the counting writer: it advances by exactly the renormalisation
/// shift of the real encoder and keeps the same range.
#[cfg_attr(kani, kani::proof)]
pub(crate) fn h_counter_store() {
  let mut w = WriterCounter::new();
  w.rng = any();
  assume(w.rng >= 0x8000);
  w.s.bits = any();
  assume(w.s.bits < 1 << 40);
  let (rng, bits) = (w.rng as u32, w.s.bits);
  let t = any_token();
  let r = spec_range(rng, t);
  assume(r >= 4 && r <= 65535);
  let d = r.leading_zeros() - 16;
  w.store(t.0, t.1, t.2);
  ensure!(w.s.bits == bits + d as usize, "counter advances by the coder's shift");
  ensure!(w.rng as u32 == r << d, "counter keeps the coder's range");
  ensure!(w.cnt == -9, "counter leaves the bit position alone");
  reach!(d == 13, "long shift");
}
#[cfg_attr(kani, kani::proof)]
pub(crate) fn h_recorder_store() {
  let mut w = WriterRecorder::new();
  w.s.storage = Vec::with_capacity(2);
  w.rng = any();
  assume(w.rng >= 0x8000);
  w.s.bits = any();
  assume(w.s.bits < 1 << 40);
  let (rng, bits) = (w.rng as u32, w.s.bits);
  let t = any_token();
  let r = spec_range(rng, t);
  assume(r >= 4 && r <= 65535);
  let d = r.leading_zeros() - 16;
  w.store(t.0, t.1, t.2);
  ensure!(w.s.bits == bits + d as usize, "recorder advances by the coder's shift");
  ensure!(w.rng as u32 == r << d, "recorder keeps the coder's range");
  ensure!(w.cnt == -9, "recorder leaves the bit position alone");
  ensure!(w.s.storage.len() == 1 && w.s.storage[0] == t, "recorder stores the token");
  reach!(d == 13, "long shift");
}
/// The real encoder: 8 * bytes + cnt advances by the shift too.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub(crate) fn h_encoder_store() {
  let mut w = WriterEncoder::new();
  w.s.precarry = Vec::with_capacity(8);
  w.rng = any();
  w.cnt = any();
  w.s.low = any();
  assume(w.rng >= 0x8000);
  assume(w.cnt >= -9 && w.cnt <= -1);
  assume(w.s.low as u64 + w.rng as u64 <= 1u64 << (w.cnt + 25));
  let (rng, cnt) = (w.rng as u32, w.cnt as i64);
  let t = any_token();
  let r = spec_range(rng, t);
  assume(r >= 4 && r <= 65535);
  let d = r.leading_zeros() - 16;
  w.store(t.0, t.1, t.2);
  ensure!(
    8 * w.s.precarry.len() as i64 + w.cnt as i64 == cnt + d as i64,
    "encoder advances by the coder's shift"
  );
  ensure!(w.rng as u32 == r << d, "encoder keeps the coder's range");
  reach!(w.s.precarry.len() == 2, "two bytes emitted");
}
/// tell(): every writer reports the same function of (bits, cnt).
#[cfg_attr(kani, kani::proof)]
pub(crate) fn h_tell() {
  let (bits, fake): (u32, u32) = (any(), any());
  assume(bits < 1 << 28);
  assume(fake < 1 << 28);
  let mut c = WriterCounter::new();
  c.s.bits = bits as usize;
  c.fake_bits_frac = fake;
  let mut r = WriterRecorder::new();
  r.s.bits = bits as usize;
  r.fake_bits_frac = fake;
  ensure!(c.tell() == bits + 1 + (fake >> 8), "counter tells its bits plus termination");
  ensure!(r.tell() == bits + 1 + (fake >> 8), "recorder tells its bits plus termination");
  let mut e = WriterEncoder::new();
  let k: u8 = any();
  assume(k <= 3);
  e.cnt = any();
  assume(e.cnt >= -9 && e.cnt <= -1);
  e.s.precarry = Vec::with_capacity(4);
  let mut i = 0;
  while i < 3 {
    if i < k {
      e.s.precarry.push(any());
    }
    i += 1;
  }
  e.fake_bits_frac = fake;
  let b = 8 * k as i32 + e.cnt as i32 + 9;
  ensure!(e.tell() as i32 == b + 1 + (fake >> 8) as i32, "encoder tells its bits plus termination");
  reach!(k == 3 && e.cnt == -1, "encoder reached");
}
/// frac_compute(): bits - log2(rng / 2^15), rounded up to an eighth of a bit.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub(crate) fn h_frac_compute() {
  let (bits, rng): (u32, u32) = (any(), any());
  assume(bits >= 1 && bits < 1 << 24);
  assume(rng >= 32768);
  assume(rng < 65536);
  let f = WriterBase::<WriterCounter>::frac_compute(bits, rng);
  // ceil(2^15 * 2^(k/8))
  let t = [35734u32, 38968, 42495, 46341, 50536, 55109, 60097];
  let mut l = 0;
  let mut i = 0;
  while i < 7 {
    if rng >= t[i] {
      l += 1;
    }
    i += 1;
  }
  // never under-reports, and over-reports by at most one eighth
  ensure!(f >= 8 * bits - l, "fractional cost never under-reports");
  ensure!(f <= 8 * bits - l + 1, "fractional cost is exact to an eighth of a bit");
  reach!(f == 8 * bits - 7, "reached");
}
/// Stand-in whose value identifies its arguments: a caller verified against it
/// passes the right arguments whatever the function computes.
#[cfg(kani)]
fn frac_token(nbits: u32, rng: u32) -> u32 {
  (nbits << 16) + (65535 - rng)
}
#[cfg(not(kani))]
fn frac_token(nbits: u32, rng: u32) -> u32 {
  WriterBase::<WriterCounter>::frac_compute(nbits, rng)
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::stub(WriterBase::frac_compute, WriterBase::frac_token_fn))]
pub(crate) fn h_tell_frac() {
  let (bits, fake): (u32, u32) = (any(), any());
  assume(bits < 1 << 12);
  assume(fake < 1 << 10);
  let mut c = WriterCounter::new();
  c.s.bits = bits as usize;
  c.rng = any();
  assume(c.rng >= 0x8000);
  c.fake_bits_frac = fake;
  let t = c.tell();
  ensure!(
    c.tell_frac() == frac_token(t, c.rng as u32) + fake,
    "fractional position is that of the whole bits and the range"
  );
  reach!(bits == 100, "reached");
}
#[cfg(kani)]
impl<S> WriterBase<S> {
  fn frac_token_fn(nbits: u32, rng: u32) -> u32 {
    frac_token(nbits, rng)
  }
}
macro_rules! symbol_bits_contract {
  ($name:ident, $n:literal, $s:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(20))]
    #[cfg_attr(kani, kani::stub(WriterBase::frac_compute, WriterBase::frac_token_fn))]
    pub(crate) fn $name() {
      let mut w = WriterCounter::new();
      w.rng = any();
      assume(w.rng >= 0x8000);
      w.cnt = any();
      assume(w.cnt >= -9 && w.cnt <= -1);
      // an inverse CDF: non-increasing, below 32768, last entry below 64
      let mut cdf = [0u16; $n];
      let mut i = 0;
      let mut prev = 32767u16;
      while i < $n {
        cdf[i] = any();
        assume(cdf[i] <= prev);
        prev = cdf[i];
        i += 1;
      }
      assume(cdf[$n - 1] < 64);
      let s: u32 = $s;
      let rng = w.rng as u32;
      let fl = if s > 0 { cdf[s as usize - 1] } else { 32768 };
      let r = spec_range(rng, (fl, cdf[s as usize], ($n - s) as u16));
      assume(r >= 4);
      assume(r <= 65535);
      let d = r.leading_zeros() - 16;
      let b0 = (w.cnt + 9) as u32;
      let got = w.symbol_bits(s, &cdf);
      ensure!(
        got == frac_token(b0 + d, r << d).wrapping_sub(frac_token(b0, rng)),
        "estimated symbol cost is the advance of the coder"
      );
      reach!(d > 0, "shifts");
    }
  };
}
symbol_bits_contract!(h_symbol_bits_2_0, 2, 0);
symbol_bits_contract!(h_symbol_bits_2_1, 2, 1);
symbol_bits_contract!(h_symbol_bits_4_0, 4, 0);
symbol_bits_contract!(h_symbol_bits_4_1, 4, 1);
symbol_bits_contract!(h_symbol_bits_4_3, 4, 3);
symbol_bits_contract!(h_symbol_bits_16_0, 16, 0);
symbol_bits_contract!(h_symbol_bits_16_7, 16, 7);
symbol_bits_contract!(h_symbol_bits_16_15, 16, 15);

// ---- bit counts of the variable-length codes = bits actually written -----
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(34))]
pub(crate) fn h_count_quniform() {
  let (n, v): (u32, u32) = (any(), any());
  assume(n >= 1);
  assume(n <= 1 << 16);
  assume(v < n);
  let mut w = bitlog();
  w.write_quniform(n, v);
  let c = bitlog();
  ensure!(c.count_quniform(n, v) == 8 * w.s.n, "quniform count is what is written");
  reach!(n == 37 && v == 36, "reached");
}
macro_rules! count_subexp_contract {
  ($name:ident, $lo:literal, $hi:literal, $k:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(12))]
    pub(crate) fn $name() {
      let (v, rf): (i32, i32) = (any(), any());
      assume(v >= $lo && v < $hi + 1);
      assume(rf >= $lo && rf < $hi + 1);
      let mut w = bitlog();
      w.write_signed_subexp_with_ref(v, $lo, $hi + 1, $k, rf);
      let c = bitlog();
      ensure!(
        c.count_signed_subexp_with_ref(v, $lo, $hi + 1, $k, rf) == 8 * w.s.n,
        "subexp count is what is written"
      );
      reach!(v == $hi && rf == $lo, "reached");
    }
  };
}
count_subexp_contract!(h_count_subexp_wiener0, -5, 10, 1);
count_subexp_contract!(h_count_subexp_wiener1, -23, 8, 2);
count_subexp_contract!(h_count_subexp_wiener2, -17, 46, 3);
count_subexp_contract!(h_count_subexp_sgr0, -96, 31, 4);
count_subexp_contract!(h_count_subexp_sgr1, -32, 95, 4);
