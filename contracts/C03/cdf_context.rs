//@use cdf_fields
/// A window of a CDFContext: short CDFs live in words 0..8 and 32..40, long
/// ones in 8..32 (see h_layout for why the real context is laid out so).
const W: usize = 42;
fn words() -> [u16; W] {
  any_arr()
}
fn as_fc<'a>(w: *mut u16) -> &'a mut CDFContext {
  // SAFETY: the log only touches the words named by an offset
  unsafe { std::mem::transmute::<*mut u16, &mut CDFContext>(w) }
}
fn off<const N: usize>(words: usize) -> CDFOffset<N> {
  CDFOffset { offset: words * 2, phantom: PhantomData }
}
fn new_log() -> CDFContextLog {
  CDFContextLog {
    small: CDFContextLogPartition::new(6),
    large: CDFContextLogPartition::new(18),
  }
}
/// Code one symbol with an arbitrary CDF: save it, then change it arbitrarily.
fn step<const N: usize>(log: &mut CDFContextLog, mem: *mut u16) {
  let at: usize = any();
  let fc = as_fc(mem);
  if N <= 4 {
    assume(at <= 8 - N || (at >= 32 && at <= 40 - N));
  } else {
    assume(at >= 8 && at <= 16);
  }
  let c: &mut [u16; N] = log.push(fc, off(at));
  let k: usize = any();
  assume(k < N);
  c[0] = any();
  c[k] = any();
  c[N - 1] = any();
}
macro_rules! rollback_contract {
  ($name:ident, $a:literal, $b:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(43))]
    pub(crate) fn $name() {
      let mut mem = words();
      let mut log = new_log();
      step::<$a>(&mut log, mem.as_mut_ptr());
      let old = mem;
      let ck = log.checkpoint();
      step::<$a>(&mut log, mem.as_mut_ptr());
      step::<$b>(&mut log, mem.as_mut_ptr());
      log.rollback(as_fc(mem.as_mut_ptr()), &ck);
      let i: usize = any();
      assume(i < W);
      ensure!(mem[i] == old[i], "rollback restores every probability");
      let now = log.checkpoint();
      ensure!(
        now.small == ck.small && now.large == ck.large,
        "rollback forgets the undone steps"
      );
      reach!(i == W - 1, "reached");
    }
  };
}
rollback_contract!(h_cdf_rollback_2_2, 2, 2);
rollback_contract!(h_cdf_rollback_2_4, 2, 4);
rollback_contract!(h_cdf_rollback_4_16, 4, 16);
rollback_contract!(h_cdf_rollback_16_2, 16, 2);
rollback_contract!(h_cdf_rollback_5_16, 5, 16);
rollback_contract!(h_cdf_rollback_16_5, 16, 5);
/// push() hands out exactly the named CDF.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(44))]
pub(crate) fn h_cdf_push_target() {
  let mut mem = words();
  let old = mem;
  let mut log = new_log();
  let at: usize = any();
  assume(at <= 16);
  let v: u16 = any();
  let c: &mut [u16; 7] = log.push(as_fc(mem.as_mut_ptr()), off(at));
  c[3] = v;
  ensure!(mem[at + 3] == v, "the named CDF is handed out");
  let i: usize = any();
  assume(i < W && i != at + 3);
  ensure!(mem[i] == old[i], "saving a CDF changes nothing");
  reach!(at == 16, "reached");
}
/// Layout of the real context: what is saved for a long CDF never reaches into
/// a short one, and nothing saved lies outside the context.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(80))]
pub(crate) fn h_layout() {
  let mut tab = [(0usize, 0usize, 0usize); 80];
  let mut n = 0;
  macro_rules! add {
    ($f:expr, $n:literal) => {
      tab[n] = (
        // SAFETY: address computation only
        unsafe { std::ptr::addr_of!($f) as *const u8 as usize },
        size_of_val_raw_($n, unsafe { std::ptr::addr_of!($f) }),
        $n,
      );
      n += 1;
    };
  }
  fn size_of_val_raw_<T>(_: usize, _: *const T) -> usize {
    std::mem::size_of::<T>()
  }
  let uninit = std::mem::MaybeUninit::<CDFContext>::uninit();
  let base = uninit.as_ptr();
  // SAFETY: never read, only addresses are taken
  let fc = unsafe { &*base };
  for_each_cdf!(fc, add);
  let b = base as usize;
  let size = std::mem::size_of::<CDFContext>();
  ensure!(size <= u16::MAX as usize, "offsets fit the log");
  let mut i = 0;
  while i < n {
    let (a, s, l) = tab[i];
    let o = a - b;
    let win = if l <= CDF_LEN_SMALL { CDF_LEN_SMALL * 2 } else { CDF_LEN_MAX * 2 };
    ensure!(o + s - l * 2 + win <= size, "saved words lie inside the context");
    i += 1;
  }
  // arbitrary pair
  let (i, j): (usize, usize) = (any(), any());
  assume(i < n && j < n);
  let (a, s, l) = tab[i];
  let (c, t, m) = tab[j];
  if l > CDF_LEN_SMALL && m <= CDF_LEN_SMALL {
    let end = a + s - l * 2 + CDF_LEN_MAX * 2;
    ensure!(c >= end || c + t <= a, "long saves never reach short CDFs");
  }
  reach!(l == 16 && m == 2, "reached");
}
