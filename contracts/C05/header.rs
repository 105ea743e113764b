use crate::verif::Bits;
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub(crate) fn h_uleb128() {
  let v: u64 = any();
  assume(v <= u32::MAX as u64);
  let mut r = Bits::of(|w| w.write_uleb128(v).unwrap());
  let five = r.n == 40;
  ensure!(r.leb128() == v, "length field decodes back");
  ensure!(r.n == 0, "length field ends where it says");
  reach!(five, "five bytes");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub(crate) fn h_delta_q() {
  let d: i8 = any();
  assume(d >= -63 && d <= 63);
  let mut r = Bits::of(|w| w.write_delta_q(d).unwrap());
  // read_delta_q(), specification 5.9.13
  let x = if r.flag() { r.su(7) } else { 0 };
  ensure!(x == d as i32, "quantizer delta decodes back");
  ensure!(r.n == 0, "nothing is left over");
  reach!(d == -63, "reached");
}
macro_rules! le_contract {
  ($name:ident, $n:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(12))]
    pub(crate) fn $name() {
      let v: u64 = any();
      assume(v < 1u64 << ($n * 8));
      let mut r = Bits::of(|w| w.write_le($n, v).unwrap());
      let mut x = 0u64;
      let mut i = 0;
      while i < $n {
        x += r.f(8) << (8 * i);
        i += 1;
      }
      ensure!(x == v, "little-endian value decodes back");
      ensure!(r.n == 0, "exactly the requested bytes");
      reach!(v == 1u64 << ($n * 8 - 1), "reached");
    }
  };
}
le_contract!(h_le_1, 1);
le_contract!(h_le_2, 2);
le_contract!(h_le_3, 3);
le_contract!(h_le_4, 4);
