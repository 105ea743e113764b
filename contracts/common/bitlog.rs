/// A storage backend that accepts equiprobable bits only and keeps them, most
/// recent last.
pub(crate) struct BitLog {
  bits: u128,
  n: u32,
}
impl StorageBackend for WriterBase<BitLog> {
  fn store(&mut self, fl: u16, fh: u16, nms: u16) {
    let one = fl == 16384 && fh == 0 && nms == 1;
    let zero = fl == 32768 && fh == 16384 && nms == 2;
    ensure!(one || zero, "raw bits are equiprobable");
    self.s.bits = (self.s.bits << 1) | one as u128;
    self.s.n += 1;
  }
  fn stream_bits(&mut self) -> usize {
    self.s.n as usize
  }
  fn checkpoint(&mut self) -> WriterCheckpoint {
    WriterCheckpoint { stream_size: 0, backend_var: 0, rng: 0, cnt: 0 }
  }
  fn rollback(&mut self, _: &WriterCheckpoint) {}
}
pub(crate) fn bitlog() -> WriterBase<BitLog> {
  WriterBase::new(BitLog { bits: 0, n: 0 })
}
/// Reader over the logged bits.
pub(crate) struct BitRead {
  bits: u128,
  n: u32,
}
impl BitRead {
  fn bit(&mut self) -> u32 {
    ensure!(self.n > 0, "decoder never reads past what was written");
    self.n -= 1;
    ((self.bits >> self.n) & 1) as u32
  }
  /// f(n) / L(n), n <= 32
  fn lit(&mut self, n: u32) -> u32 {
    ensure!(self.n >= n && n <= 32, "decoder never reads past what was written");
    self.n -= n;
    ((self.bits >> self.n) & ((1u128 << n) - 1)) as u32
  }
  /// NS(n), specification 4.10.10
  fn ns(&mut self, n: u32) -> u32 {
    let mut w = 0;
    let mut x = n;
    while x != 0 {
      x >>= 1;
      w += 1;
    }
    let m = (1u32 << w) - n;
    let v = self.lit(w - 1);
    if v < m {
      return v;
    }
    let extra = self.bit();
    (v << 1) - m + extra
  }
  /// decode_subexp_bool / decode_subexp (numSyms, k)
  fn subexp(&mut self, num: u32, k: u32) -> u32 {
    let mut i = 0;
    let mut mk = 0;
    loop {
      let b2 = if i != 0 { k + i - 1 } else { k };
      let a = 1 << b2;
      if num <= mk + 3 * a {
        return self.ns(num - mk) + mk;
      }
      if self.bit() != 0 {
        i += 1;
        mk += a;
      } else {
        return self.lit(b2) + mk;
      }
    }
  }
  /// inverse_recenter
  fn inverse_recenter(r: u32, v: u32) -> u32 {
    if v > 2 * r {
      v
    } else if v & 1 != 0 {
      r - ((v + 1) >> 1)
    } else {
      r + (v >> 1)
    }
  }
  /// decode_unsigned_subexp_with_ref
  fn unsigned_subexp(&mut self, mx: u32, k: u32, r: u32) -> u32 {
    let v = self.subexp(mx, k);
    if (r << 1) <= mx {
      Self::inverse_recenter(r, v)
    } else {
      mx - 1 - Self::inverse_recenter(mx - 1 - r, v)
    }
  }
}
