/// AV1 specification 8.2.6 CDF update, on the specification's own (non
/// inverse) representation.
fn spec_update<const N: usize>(icdf: &[u16; N], s: usize) -> [u16; N] {
  let mut out = *icdf;
  let count = icdf[N - 1] as u32;
  let rate = 3
    + (count > 15) as u32
    + (count > 31) as u32
    + if N >= 4 { 2 } else { 1 };
  let mut i = 0;
  let mut tmp = 0u32;
  while i < N - 1 {
    if i == s {
      tmp = 32768;
    }
    let mut c = 32768 - icdf[i] as u32;
    if tmp < c {
      c -= (c - tmp) >> rate;
    } else {
      c += (tmp - c) >> rate;
    }
    out[i] = (32768 - c) as u16;
    i += 1;
  }
  out[N - 1] = (count + (count < 32) as u32) as u16;
  out
}
fn valid<const N: usize>(c: &[u16; N]) -> bool {
  let mut ok = c[N - 1] <= 32;
  let mut i = 0;
  while i < N - 1 {
    ok &= c[i] <= 32768;
    if i > 0 {
      ok &= c[i] <= c[i - 1];
    }
    i += 1;
  }
  ok
}
macro_rules! update_contract {
  ($name:ident, $n:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(18))]
    pub(crate) fn $name() {
      let mut c: [u16; $n] = any_arr();
      assume(valid(&c));
      let s: u32 = any();
      assume(s < $n);
      let want = spec_update(&c, s as usize);
      update_cdf(&mut c, s);
      let i: usize = any();
      assume(i < $n);
      ensure!(c[i] == want[i], "adaptation equals the AV1 specification");
      ensure!(valid(&c), "adapted CDF is still a valid CDF");
      reach!(s == $n - 1 && c[$n - 1] == 32, "saturated counter");
    }
  };
}
update_contract!(h_update_2, 2);
update_contract!(h_update_3, 3);
update_contract!(h_update_4, 4);
update_contract!(h_update_5, 5);
update_contract!(h_update_6, 6);
update_contract!(h_update_7, 7);
update_contract!(h_update_8, 8);
update_contract!(h_update_9, 9);
update_contract!(h_update_10, 10);
update_contract!(h_update_11, 11);
update_contract!(h_update_12, 12);
update_contract!(h_update_13, 13);
update_contract!(h_update_14, 14);
update_contract!(h_update_16, 16);

use crate::context::verif_cdf_context::body::{as_fc, new_log};
struct Log {
  n: usize,
  t: (u16, u16, u16),
}
impl StorageBackend for WriterBase<Log> {
  fn store(&mut self, fl: u16, fh: u16, nms: u16) {
    self.s.t = (fl, fh, nms);
    self.s.n += 1;
  }
  fn stream_bits(&mut self) -> usize {
    0
  }
  fn checkpoint(&mut self) -> WriterCheckpoint {
    WriterCheckpoint { stream_size: 0, backend_var: 0, rng: 0, cnt: 0 }
  }
  fn rollback(&mut self, _: &WriterCheckpoint) {}
}
/// Coding with adaptation: the symbol is coded with the table as it was, then
/// exactly that table is adapted.
macro_rules! with_update_contract {
  ($name:ident, $n:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(26))]
    pub(crate) fn $name() {
      let mut mem: [u16; 24] = any_arr();
      let at: usize = any();
      assume(at <= 8);
      let mut c = [0u16; $n];
      let mut i = 0;
      while i < $n {
        c[i] = mem[at + i];
        i += 1;
      }
      assume(valid(&c));
      let s: u32 = any();
      assume(s < $n);
      let want = spec_update(&c, s as usize);
      let old = mem;
      let p = mem.as_mut_ptr();
      let fc = as_fc(p);
      // SAFETY: inside mem
      let o = fc.offset(unsafe { p.add(at) as *const [u16; $n] });
      let mut log = new_log();
      let mut w = WriterBase::new(Log { n: 0, t: (0, 0, 0) });
      w.symbol_with_update(s, o, &mut log, fc);
      ensure!(w.s.n == 1, "one symbol coded");
      let fl = if s > 0 { c[s as usize - 1] } else { 32768 };
      ensure!(
        w.s.t == (fl, c[s as usize], ($n - s) as u16),
        "coded with the table before adaptation"
      );
      let i: usize = any();
      assume(i < 24);
      let expect = if i >= at && i < at + $n { want[i - at] } else { old[i] };
      ensure!(mem[i] == expect, "exactly the named table is adapted");
      reach!(at == 8 && s == $n - 1, "reached");
    }
  };
}
with_update_contract!(h_symbol_with_update_2, 2);
with_update_contract!(h_symbol_with_update_4, 4);
with_update_contract!(h_symbol_with_update_5, 5);
