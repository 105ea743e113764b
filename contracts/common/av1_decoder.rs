/// The AV1 specification's symbol decoder (section 8.2), written from the
/// specification text; used as the oracle for the encoder.  CDFs are in the
/// encoder's inverse form (32768 - cdf).
pub(crate) struct SpecDecoder<'a> {
  buf: &'a [u8],
  bit: usize,
  value: u32,
  range: u32,
  max_bits: i32,
}
impl<'a> SpecDecoder<'a> {
  fn f(&mut self, n: u32) -> u32 {
    let mut x = 0u32;
    let mut i = 0;
    while i < 16 {
      if i < n {
        let b = if self.bit / 8 < self.buf.len() {
          (self.buf[self.bit / 8] >> (7 - (self.bit & 7))) & 1
        } else {
          0
        };
        x = 2 * x + b as u32;
        self.bit += 1;
      }
      i += 1;
    }
    x
  }
  pub(crate) fn new(buf: &'a [u8]) -> Self {
    let mut d = SpecDecoder {
      buf,
      bit: 0,
      value: 0,
      range: 1 << 15,
      max_bits: 8 * buf.len() as i32 - 15,
    };
    let num = if 8 * buf.len() < 15 { 8 * buf.len() as u32 } else { 15 };
    let b = d.f(num) << (15 - num);
    d.value = ((1 << 15) - 1) ^ b;
    d
  }
  pub(crate) fn symbol(&mut self, icdf: &[u16]) -> u32 {
    let n = icdf.len() as u32;
    let mut cur = self.range;
    let mut prev = cur;
    let mut s = 0u32;
    let mut k = 0;
    while k < n {
      prev = cur;
      let f = icdf[k as usize] as u32;
      cur = (((self.range >> 8) * (f >> 6)) >> 1) + 4 * (n - k - 1);
      s = k;
      if self.value >= cur {
        break;
      }
      k += 1;
    }
    self.range = prev - cur;
    self.value -= cur;
    let bits = 15 - (31 - self.range.leading_zeros());
    self.range <<= bits;
    let num = (bits as i32).min(self.max_bits.max(0)) as u32;
    let data = self.f(num) << (bits - num);
    self.value = data ^ (((self.value + 1) << bits) - 1);
    self.max_bits -= bits as i32;
    s
  }
  pub(crate) fn bool(&mut self) -> u32 {
    self.symbol(&[1 << 14, 0])
  }
  pub(crate) fn literal(&mut self, n: u32) -> u32 {
    let mut x = 0;
    let mut i = 0;
    while i < n {
      x = 2 * x + self.bool();
      i += 1;
    }
    x
  }
}
/// (range >> 8) * (f >> 6) >> 1 plus the minimum-probability floor (8.2.6).
pub(crate) fn spec_cur(rng: u32, f: u32, floor: u32) -> u32 {
  (((rng >> 8) * (f >> 6)) >> 1) + 4 * floor
}
/// An arbitrary valid inverse CDF of N symbols: non-increasing, at most
/// 32768, last entry is the adaptation counter (at most 32).
pub(crate) fn any_icdf<const N: usize>() -> [u16; N] {
  let mut c: [u16; N] = any_arr();
  let mut i = 0;
  while i < N - 1 {
    assume(c[i] < 32768);
    if i > 0 {
      assume(c[i] <= c[i - 1]);
    }
    i += 1;
  }
  assume(c[N - 1] <= 32);
  c
}
