
/// Assumed contract of the dependency `bitstream_io::BitWriter` (big-endian):
/// writing an n-bit value appends exactly these n bits, most significant first,
/// and fails if the value does not fit.  Under cfg(kani) the crate's
/// `bitstream_io` resolves here (see the hook in lib.rs); natively, and for
/// little-endian writers, the real dependency is used.
#[cfg(kani)]
pub mod bits {
  use crate::bitstream_io_dep as dep;
  pub use dep::{BigEndian, BitWrite, LittleEndian};
  use std::io;
  pub struct BitWriter<W: io::Write, E: dep::Endianness> {
    pub(crate) top: [u128; 2],
    pub(crate) hi: u128,
    pub(crate) lo: u128,
    pub(crate) n: u32,
    pub(crate) inner: dep::BitWriter<W, E>,
  }
  impl<W: io::Write, E: dep::Endianness> BitWriter<W, E> {
    pub fn endian(w: W, e: E) -> Self {
      BitWriter { top: [0; 2], hi: 0, lo: 0, n: 0, inner: dep::BitWriter::endian(w, e) }
    }
    pub fn new(w: W) -> Self {
      BitWriter { top: [0; 2], hi: 0, lo: 0, n: 0, inner: dep::BitWriter::new(w) }
    }
    pub fn writer(&mut self) -> Option<&mut W> {
      self.inner.writer()
    }
    pub fn into_writer(self) -> W {
      self.inner.into_writer()
    }
  }
  fn val<U: dep::UnsignedInteger>(v: U) -> u64 {
    // SAFETY: U is one of the primitive unsigned integers
    unsafe {
      match std::mem::size_of::<U>() {
        1 => std::mem::transmute_copy::<U, u8>(&v) as u64,
        2 => std::mem::transmute_copy::<U, u16>(&v) as u64,
        4 => std::mem::transmute_copy::<U, u32>(&v) as u64,
        8 => std::mem::transmute_copy::<U, u64>(&v),
        _ => unreachable!(),
      }
    }
  }
  fn sval<S: dep::SignedInteger>(value: S) -> i64 {
    // SAFETY: S is one of the primitive signed integers
    unsafe {
      match std::mem::size_of::<S>() {
        1 => std::mem::transmute_copy::<S, i8>(&value) as i64,
        2 => std::mem::transmute_copy::<S, i16>(&value) as i64,
        4 => std::mem::transmute_copy::<S, i32>(&value) as i64,
        _ => unreachable!(),
      }
    }
  }
  impl<W: io::Write> BitWriter<W, BigEndian> {
    pub(crate) fn put(&mut self, bits: u32, v: u64) -> io::Result<()> {
      assert!(bits <= 64 && (bits == 64 || v >> bits == 0), "value fits the bits it is written in");
      if bits > 0 {
        self.top[1] = (self.top[1] << bits) | (self.top[0] >> (128 - bits));
        self.top[0] = (self.top[0] << bits) | (self.hi >> (128 - bits));
        self.hi = (self.hi << bits) | (self.lo >> (128 - bits));
        self.lo = (self.lo << bits) | v as u128;
        self.n += bits;
      }
      Ok(())
    }
  }
  impl<W: io::Write> BitWrite for BitWriter<W, BigEndian> {
    fn write_bit(&mut self, bit: bool) -> io::Result<()> {
      self.put(1, bit as u64)
    }
    fn write_unsigned<const BITS: u32, U: dep::UnsignedInteger>(&mut self, value: U) -> io::Result<()> {
      self.put(BITS, val(value))
    }
    fn write_unsigned_counted<const BITS: u32, U: dep::UnsignedInteger>(
      &mut self, bits: dep::BitCount<BITS>, value: U,
    ) -> io::Result<()> {
      let n: u32 = bits.into();
      assert!(n <= U::BITS_SIZE, "no more bits than the type has");
      self.put(n, val(value))
    }
    fn write_signed_counted<const MAX: u32, S: dep::SignedInteger>(
      &mut self, bits: impl TryInto<dep::SignedBitCount<MAX>>, value: S,
    ) -> io::Result<()> {
      match bits.try_into() {
        Ok(n) => self.write_signed_var(n.into(), value),
        Err(_) => panic!("signed value of no bits"),
      }
    }
    fn write_signed_var<S: dep::SignedInteger>(&mut self, bits: u32, value: S) -> io::Result<()> {
      let v = sval(value);
      assert!(bits >= 1 && bits <= 32 && v >= -(1i64 << (bits - 1)) && v < 1i64 << (bits - 1), "value fits the bits it is written in");
      self.put(bits, v as u64 & ((1u64 << bits) - 1))
    }
    // two's complement
    fn write_signed<const BITS: u32, S: dep::SignedInteger>(&mut self, value: S) -> io::Result<()> {
      let v = sval(value);
      assert!(v >= -(1i64 << (BITS - 1)) && v < 1i64 << (BITS - 1), "value fits the bits it is written in");
      self.put(BITS, v as u64 & ((1u64 << BITS) - 1))
    }
    fn write_from<V: dep::Primitive>(&mut self, _value: V) -> io::Result<()> {
      unreachable!()
    }
    fn write_as_from<F: dep::Endianness, V: dep::Primitive>(&mut self, _value: V) -> io::Result<()> {
      unreachable!()
    }
    fn write_bytes(&mut self, buf: &[u8]) -> io::Result<()> {
      let mut i = 0;
      while i < buf.len() {
        self.put(8, buf[i] as u64)?;
        i += 1;
      }
      Ok(())
    }
    fn byte_aligned(&self) -> bool {
      self.n % 8 == 0
    }
    fn byte_align(&mut self) -> io::Result<()> {
      self.put((8 - self.n % 8) % 8, 0)
    }
  }
  impl<W: io::Write> BitWrite for BitWriter<W, LittleEndian> {
    fn write_unsigned_counted<const BITS: u32, U: dep::UnsignedInteger>(
      &mut self, bits: dep::BitCount<BITS>, value: U,
    ) -> io::Result<()> {
      self.inner.write_unsigned_counted(bits, value)
    }
    fn write_signed_counted<const MAX: u32, S: dep::SignedInteger>(
      &mut self, _bits: impl TryInto<dep::SignedBitCount<MAX>>, _value: S,
    ) -> io::Result<()> {
      unreachable!()
    }
    fn write_from<V: dep::Primitive>(&mut self, value: V) -> io::Result<()> {
      self.inner.write_from(value)
    }
    fn write_as_from<F: dep::Endianness, V: dep::Primitive>(&mut self, value: V) -> io::Result<()> {
      self.inner.write_as_from::<F, V>(value)
    }
    fn byte_aligned(&self) -> bool {
      self.inner.byte_aligned()
    }
  }
}

/// Everything a header-writing function wrote, as a bit string to be parsed.
pub(crate) struct Bits {
  pub(crate) top: [u128; 2],
  pub(crate) hi: u128,
  pub(crate) lo: u128,
  pub(crate) n: u32,
}
type HeaderWriter<'a> = crate::verif::Bw<&'a mut Vec<u8>, crate::verif::Be>;
impl Bits {
  #[cfg(kani)]
  pub(crate) fn of(f: impl FnOnce(&mut HeaderWriter<'_>)) -> Bits {
    let mut out = Vec::new();
    let mut w = crate::verif::Bw::endian(&mut out, crate::verif::Be);
    f(&mut w);
    assert!(w.n <= 512);
    let r = Bits { top: w.top, hi: w.hi, lo: w.lo, n: w.n };
    std::mem::forget(w);
    r
  }
  #[cfg(not(kani))]
  pub(crate) fn of(f: impl FnOnce(&mut HeaderWriter<'_>)) -> Bits {
    use bitstream_io::BitWrite;
    let mut out = Vec::new();
    let mut w = crate::verif::Bw::endian(&mut out, crate::verif::Be);
    f(&mut w);
    w.write_bit(true).unwrap();
    w.byte_align().unwrap();
    let mut n = out.len() as u32 * 8 - 1;
    let last = out[out.len() - 1];
    n -= last.trailing_zeros();
    assert!(n <= 512);
    let mut top = [0u128; 2];
    let (mut hi, mut lo) = (0u128, 0u128);
    for i in 0..n {
      let b = (out[i as usize / 8] >> (7 - i % 8)) & 1;
      top[1] = (top[1] << 1) | (top[0] >> 127);
      top[0] = (top[0] << 1) | (hi >> 127);
      hi = (hi << 1) | (lo >> 127);
      lo = (lo << 1) | b as u128;
    }
    Bits { top, hi, lo, n }
  }
  /// f(k) of the specification, k <= 64
  pub(crate) fn f(&mut self, k: u32) -> u64 {
    assert!(k <= 64 && self.n >= k, "decoder never reads past what was written");
    self.n -= k;
    let s = self.n;
    let w = if s == 0 {
      self.lo
    } else if s < 128 {
      (self.lo >> s) | (self.hi << (128 - s))
    } else {
      self.hi >> (s - 128)
    };
    if k == 64 {
      w as u64
    } else {
      w as u64 & ((1u64 << k) - 1)
    }
  }
  pub(crate) fn flag(&mut self) -> bool {
    self.f(1) == 1
  }
  pub(crate) fn lit(&mut self, k: u32) -> u32 {
    self.f(k) as u32
  }
  /// leb128()
  pub(crate) fn leb128(&mut self) -> u64 {
    let mut x = 0u64;
    let mut i = 0;
    while i < 8 {
      let b = self.f(8);
      x |= (b & 0x7f) << (i * 7);
      i += 1;
      if b & 0x80 == 0 {
        break;
      }
    }
    x
  }
  /// su(k)
  pub(crate) fn su(&mut self, k: u32) -> i32 {
    let v = self.f(k) as i32;
    if v >> (k - 1) != 0 {
      v - (1 << k)
    } else {
      v
    }
  }
  /// ns(n), specification 4.10.7
  pub(crate) fn ns(&mut self, n: u32) -> u32 {
    let mut w = 0;
    let mut x = n;
    while x != 0 {
      x >>= 1;
      w += 1;
    }
    let m = (1u32 << w) - n;
    let v = self.lit(w - 1);
    if v < m {
      return v;
    }
    let extra = self.lit(1);
    (v << 1) - m + extra
  }
  /// decode_subexp
  pub(crate) fn subexp(&mut self, num: u32, k: u32) -> u32 {
    let mut i = 0;
    let mut mk = 0;
    loop {
      let b2 = if i != 0 { k + i - 1 } else { k };
      let a = 1 << b2;
      if num <= mk + 3 * a {
        return self.ns(num - mk) + mk;
      }
      if self.flag() {
        i += 1;
        mk += a;
      } else {
        return self.lit(b2) + mk;
      }
    }
  }
}
/// The bit string the specification's syntax tables assign to given values of
/// the syntax elements, element by element.  A decoder reading a string S gets
/// these values, and consumes all of S, exactly if S is this string.
#[derive(Clone, Copy)]
pub(crate) struct Syntax {
  pub(crate) top: [u128; 2],
  pub(crate) hi: u128,
  pub(crate) lo: u128,
  pub(crate) n: u32,
}
#[allow(dead_code)]
impl Syntax {
  pub(crate) fn new() -> Self {
    Syntax { top: [0; 2], hi: 0, lo: 0, n: 0 }
  }
  /// f(k)
  pub(crate) fn f(&mut self, k: u32, v: u64) {
    assert!(k <= 64 && (k == 64 || v >> k == 0), "value of a syntax element fits its descriptor");
    if k > 0 {
      self.top[1] = (self.top[1] << k) | (self.top[0] >> (128 - k));
      self.top[0] = (self.top[0] << k) | (self.hi >> (128 - k));
      self.hi = (self.hi << k) | (self.lo >> (128 - k));
      self.lo = (self.lo << k) | v as u128;
      self.n += k;
    }
  }
  pub(crate) fn flag(&mut self, v: bool) {
    self.f(1, v as u64)
  }
  /// su(k)
  pub(crate) fn su(&mut self, k: u32, v: i32) {
    assert!(v >= -(1 << (k - 1)) && v < 1 << (k - 1), "signed value fits its descriptor");
    self.f(k, v as u64 & ((1u64 << k) - 1))
  }
  /// ns(n), 4.10.7
  pub(crate) fn ns(&mut self, n: u32, v: u32) {
    assert!(v < n, "value of a non-symmetric code in range");
    let mut w = 0;
    let mut x = n;
    while x != 0 {
      x >>= 1;
      w += 1;
    }
    let m = (1u32 << w) - n;
    if v < m {
      self.f(w - 1, v as u64);
    } else {
      self.f(w - 1, ((v + m) >> 1) as u64);
      self.f(1, ((v + m) & 1) as u64);
    }
  }
  pub(crate) fn align(&mut self) {
    let k = (8 - self.n % 8) % 8;
    self.f(k, 0)
  }
  pub(crate) fn same(&self, b: &Bits) -> bool {
    self.n == b.n && self.lo == b.lo && self.hi == b.hi && self.top[0] == b.top[0] && self.top[1] == b.top[1]
  }
}

#[cfg(kani)]
pub(crate) use crate::{BigEndian as Be, BitWriter as Bw};
#[cfg(not(kani))]
pub(crate) use bitstream_io::{BigEndian as Be, BitWriter as Bw};
