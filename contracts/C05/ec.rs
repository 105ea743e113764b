//@use bitlog
fn read<S>(w: WriterBase<BitLog>) -> BitRead {
  BitRead { bits: w.s.bits, n: w.s.n }
}
fn done(r: &BitRead) -> bool {
  r.n == 0
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(34))]
pub(crate) fn h_golomb() {
  let v: u32 = any();
  assume(v < (1 << 20) - 1);
  let mut w = bitlog();
  w.write_golomb(v);
  let mut r = read::<()>(w);
  // read_golomb(), specification 5.11.40
  let mut len = 0;
  let mut stop = false;
  let mut i = 0;
  while i < 32 && !stop {
    if r.bit() == 1 {
      stop = true;
    }
    len += 1;
    i += 1;
  }
  ensure!(stop && len <= 20, "golomb prefix terminates within the legal length");
  let mut x = 1u32;
  let mut i = 1;
  while i < len {
    x = (x << 1) + r.bit();
    i += 1;
  }
  ensure!(x - 1 == v, "golomb value decodes back");
  ensure!(done(&r), "nothing is left over");
  reach!(len == 20, "longest code");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(34))]
pub(crate) fn h_quniform() {
  let (n, v): (u32, u32) = (any(), any());
  assume(n > 1 && n < 1 << 30 && v < n);
  let mut w = bitlog();
  w.write_quniform(n, v);
  let mut r = read::<()>(w);
  ensure!(r.ns(n) == v, "quasi-uniform value decodes back");
  ensure!(done(&r), "nothing is left over");
  reach!(n == 100 && v == 99, "reached");
}
/// Finite subexponential codes, for every (interval, k) the encoder uses
/// them with (loop filter taps and self-guided weights).
macro_rules! subexp_contract {
  ($name:ident, $lo:literal, $hi:literal, $k:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(12))]
    pub(crate) fn $name() {
      let (v, rf): (i32, i32) = (any(), any());
      assume(v >= $lo && v <= $hi && rf >= $lo && rf <= $hi);
      let mut w = bitlog();
      w.write_signed_subexp_with_ref(v, $lo, $hi + 1, $k, rf);
      let mut r = read::<()>(w);
      // decode_signed_subexp_with_ref_bool, specification 5.11.58
      let x = r.unsigned_subexp(($hi + 1 - $lo as i32) as u32, $k, (rf - $lo) as u32);
      ensure!(x as i32 + $lo == v, "signed subexponential value decodes back");
      ensure!(done(&r), "nothing is left over");
      reach!(v == $lo && rf == $hi, "reached");
    }
  };
}
subexp_contract!(h_subexp_wiener0, -5, 10, 1);
subexp_contract!(h_subexp_wiener1, -23, 8, 2);
subexp_contract!(h_subexp_wiener2, -17, 46, 3);
subexp_contract!(h_subexp_sgr0, -96, 31, 4);
subexp_contract!(h_subexp_sgr1, -32, 95, 4);

// ---- header codes -------------------------------------------------------
use crate::verif::Bits;
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub(crate) fn h_header_quniform() {
  let (n, v): (u16, u16) = (any(), any());
  assume(n >= 1 && n <= 0x7fff && v < n);
  let mut r = Bits::of(|w| BCodeWriter::write_quniform(w, n, v).unwrap());
  ensure!(r.ns(n as u32) == v as u32, "header quasi-uniform value decodes back");
  ensure!(r.n == 0, "nothing is left over");
  reach!(n == 64 && v == 63, "reached");
}
macro_rules! header_subexp_contract {
  ($name:ident, $n:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(18))]
    pub(crate) fn $name() {
      let n: u16 = $n;
      let (v, rf): (i16, i16) = (any(), any());
      let m = (n - 1) as i16;
      assume(v >= -m && v <= m && rf >= -m && rf <= m);
      let mut r = Bits::of(|w| w.write_s_refsubexpfin(n, 3, rf, v).unwrap());
      // decode_signed_subexp_with_ref(-m, m + 1, ref), specification 5.9.25
      let (mx, rr) = (2 * n as u32 - 1, (rf + m) as u32);
      let y = r.subexp(mx, 3);
      let x = if (rr << 1) <= mx {
        BitRead::inverse_recenter(rr, y)
      } else {
        mx - 1 - BitRead::inverse_recenter(mx - 1 - rr, y)
      };
      ensure!(x as i32 - m as i32 == v as i32, "header subexponential value decodes back");
      ensure!(r.n == 0, "nothing is left over");
      reach!(v == -m && rf == m, "reached");
    }
  };
}
header_subexp_contract!(h_header_subexp_257, 257);
header_subexp_contract!(h_header_subexp_513, 513);
