// Included (through the cfg-guarded hook in /repo/src/lib.rs) as
// `rav1e::verif`.  Built in two modes:
//   cfg(kani)        - symbolic: `any()` is an unconstrained value of its type
//   cfg(rav1e_verif) - native:   `any()` reads the bytes of a counterexample
pub(crate) mod prelude {
  #[cfg(kani)]
  pub(crate) fn any<T: kani::Arbitrary>() -> T {
    kani::any()
  }
  #[cfg(kani)]
  pub(crate) fn assume(c: bool) {
    kani::assume(c)
  }

  #[cfg(not(kani))]
  pub(crate) use super::shim::{any, assume};

  /// An array of independent arbitrary elements.
  #[cfg(kani)]
  #[allow(dead_code)]
  pub(crate) fn any_arr<T: kani::Arbitrary, const N: usize>() -> [T; N] {
    core::array::from_fn(|_| any::<T>())
  }
  #[cfg(not(kani))]
  #[allow(dead_code)]
  pub(crate) fn any_arr<T: super::shim::FromBytes, const N: usize>() -> [T; N]
  {
    core::array::from_fn(|_| any::<T>())
  }

  /// Named obligation.
  #[allow(unused_macros)]
  macro_rules! ensure {
    ($c:expr, $name:literal) => {
      assert!($c, $name)
    };
  }
  #[allow(unused_imports)]
  pub(crate) use ensure;

  /// Post-condition of an in-place contract.  In the symbolic build the
  /// verifier checks the attribute on the real function itself; the native
  /// replay has to evaluate it by hand.
  #[allow(unused_macros)]
  macro_rules! contract_post {
    ($c:expr, $name:literal) => {
      #[cfg(not(kani))]
      assert!($c, $name);
    };
  }
  #[allow(unused_imports)]
  pub(crate) use contract_post;

  /// Reachability witness: must be satisfiable, or the harness is vacuous.
  #[allow(unused_macros)]
  macro_rules! reach {
    ($c:expr, $name:literal) => {
      #[cfg(kani)]
      {
        // a function of its own: one witness even where the compiler
        // duplicates the code around it
        #[inline(never)]
        fn witness(c: bool) {
          kani::cover!(c, $name);
        }
        witness($c);
      }
      #[cfg(not(kani))]
      let _ = $c;
    };
  }
  #[allow(unused_imports)]
  pub(crate) use reach;
}

#[cfg(not(kani))]
pub mod shim {
  use std::cell::RefCell;
  thread_local! {
    static BYTES: RefCell<(Vec<u8>, usize, u64, bool)> =
      const { RefCell::new((Vec::new(), 0, 0, false)) };
  }
  pub fn load(b: Vec<u8>, seed: u64) {
    BYTES.with(|c| *c.borrow_mut() = (b, 0, seed, seed != 0));
  }
  pub fn taken() -> Vec<u8> {
    BYTES.with(|c| c.borrow().0.clone())
  }
  fn next() -> u8 {
    BYTES.with(|c| {
      let mut c = c.borrow_mut();
      if c.1 >= c.0.len() {
        // Random mode: extend with a skewed random byte; replay mode: zero.
        let b = if c.3 {
          c.2 ^= c.2 << 13;
          c.2 ^= c.2 >> 7;
          c.2 ^= c.2 << 17;
          (c.2 >> 24) as u8
        } else {
          0
        };
        c.0.push(b);
      }
      let v = c.0[c.1];
      c.1 += 1;
      v
    })
  }
  /// (random mode) pick an interesting integer
  fn skew() -> Option<u8> {
    BYTES.with(|c| {
      let mut c = c.borrow_mut();
      if c.3 && c.1 >= c.0.len() {
        c.2 ^= c.2 << 13;
        c.2 ^= c.2 >> 7;
        c.2 ^= c.2 << 17;
        Some((c.2 >> 40) as u8)
      } else {
        None
      }
    })
  }
  pub trait FromBytes {
    fn from_bytes() -> Self;
  }
  macro_rules! ints {
    ($($t:ty),*) => {$(
      impl FromBytes for $t {
        fn from_bytes() -> Self {
          let n = std::mem::size_of::<$t>();
          if let Some(k) = skew() {
            // small values, boundary values, plain random
            let v: Option<$t> = match k % 8 {
              0 => Some((k >> 3) as $t),
              1 => Some(<$t>::MAX - (k >> 6) as $t),
              2 => Some(<$t>::MIN.wrapping_add((k >> 6) as $t)),
              3 => Some((1 as $t).wrapping_shl((k >> 3) as u32)),
              4 => Some((1 as $t).wrapping_shl((k >> 3) as u32).wrapping_sub(1)),
              _ => None,
            };
            if let Some(v) = v {
              push(&v.to_ne_bytes());
            }
          }
          let mut b = [0u8; std::mem::size_of::<$t>()];
          for i in 0..n { b[i] = next(); }
          <$t>::from_ne_bytes(b)
        }
      }
    )*};
  }
  fn push(b: &[u8]) {
    BYTES.with(|c| c.borrow_mut().0.extend_from_slice(b));
  }
  ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128, i128);
  impl FromBytes for bool {
    fn from_bytes() -> Self {
      next() & 1 != 0
    }
  }
  impl FromBytes for f64 {
    fn from_bytes() -> Self {
      f64::from_bits(u64::from_bytes())
    }
  }
  pub fn any<T: FromBytes>() -> T {
    T::from_bytes()
  }
  pub struct Rejected;
  pub fn assume(c: bool) {
    if !c {
      std::panic::panic_any(Rejected);
    }
  }
}

#[cfg(not(kani))]
pub fn run(name: &str) {
  include!(concat!(env!("RAV1E_VERIF_DIR"), "/registry.rs"));
}
