/// (nested) arrays of CDFs
trait CdfTable {
  /// every CDF: non-increasing, at most 32768, counter zero
  fn valid(&self) -> bool;
  /// every counter zero and everything else as in `o`
  fn reset_of(&self, o: &Self) -> bool;
  /// put `c` in every counter
  fn counters(&mut self, c: u16);
}
impl<const N: usize> CdfTable for [u16; N] {
  fn valid(&self) -> bool {
    let mut ok = self[N - 1] == 0 && self[0] <= 32768;
    let mut i = 1;
    while i < N {
      ok &= self[i] <= self[i - 1];
      i += 1;
    }
    ok
  }
  fn reset_of(&self, o: &Self) -> bool {
    let mut ok = self[N - 1] == 0;
    let mut i = 0;
    while i < N - 1 {
      ok &= self[i] == o[i];
      i += 1;
    }
    ok
  }
  fn counters(&mut self, c: u16) {
    self[N - 1] = c;
  }
}
impl<T: CdfTable, const N: usize> CdfTable for [T; N] {
  fn valid(&self) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < N {
      ok &= self[i].valid();
      i += 1;
    }
    ok
  }
  fn reset_of(&self, o: &Self) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < N {
      ok &= self[i].reset_of(&o[i]);
      i += 1;
    }
    ok
  }
  fn counters(&mut self, c: u16) {
    let mut i = 0;
    while i < N {
      self[i].counters(c);
      i += 1;
    }
  }
}
