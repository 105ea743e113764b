//@use av1_decoder

/// An encoder in an arbitrary state satisfying the coder invariant
///   rng in [2^15, 2^16), -9 <= cnt <= -1, low + rng <= 2^(cnt + 25)
/// with one arbitrary byte already emitted.
fn any_encoder() -> (WriterBase<WriterEncoder>, u16) {
  let mut w = WriterEncoder::new();
  w.rng = any();
  w.cnt = any();
  w.s.low = any();
  assume(w.rng >= 0x8000);
  assume(w.cnt >= -9 && w.cnt <= -1);
  assume(w.s.low as u64 + w.rng as u64 <= 1u64 << (w.cnt + 25));
  let first: u16 = any();
  w.s.precarry.push(first);
  (w, first)
}
fn any_token() -> (u16, u16, u16) {
  let (fl, fh, nms): (u16, u16, u16) = (any(), any(), any());
  assume(fl <= 32768 && fh < 32768);
  assume((fh >> 6) <= (fl >> 6));
  assume(nms >= 1 && nms <= 16);
  (fl, fh, nms)
}

#[cfg_attr(kani, kani::proof_for_contract(WriterBase::<WriterCounter>::lr_compute))]
pub(crate) fn h_lr_compute() {
  let mut w = WriterCounter::new();
  w.rng = any();
  assume(w.rng >= 0x8000);
  let (fl, fh, nms) = any_token();
  let r = w.lr_compute(fl, fh, nms);
  let rng = w.rng as u32;
  let u = if fl >= 32768 { rng } else { spec_cur(rng, fl as u32, nms as u32) };
  let v = spec_cur(rng, fh as u32, nms as u32 - 1);
  contract_post!(r.0 == rng - u && r.1 as u32 == u - v, "interval is the AV1 interval");
  reach!(r.1 > 4, "lr_compute reached");
}

/// store(): with X = bytes * 2^(cnt+24) + low, the new state represents
/// (X + l) * 2^d with range r * 2^d, and the invariant is kept.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::solver(kissat))]
#[cfg_attr(kani, kani::unwind(4))]
pub(crate) fn h_store_arith() {
  let (mut w, first) = any_encoder();
  let (fl, fh, nms) = any_token();
  let (rng, cnt, low) = (w.rng as u32, w.cnt as i32, w.s.low as u64);
  let u = if fl >= 32768 { rng } else { spec_cur(rng, fl as u32, nms as u32) };
  let v = spec_cur(rng, fh as u32, nms as u32 - 1);
  assume(u <= rng && u > v);
  let r = u - v;
  let d = r.leading_zeros() - 16;
  w.store(fl, fh, nms);
  let n = w.s.precarry.len();
  ensure!(n >= 1 && n <= 3, "store emits at most two bytes");
  ensure!(w.s.precarry[0] == first, "store leaves earlier bytes alone");
  ensure!(w.rng as u32 == r << d && w.rng >= 0x8000, "range renormalised");
  let k = n as i32 - 1;
  ensure!(8 * k + w.cnt as i32 == cnt + d as i32, "bit position advances by the shift");
  ensure!(w.cnt >= -9 && w.cnt <= -1, "bit counter invariant");
  let mut p = 0u64;
  if n > 1 {
    ensure!(w.s.precarry[1] <= 511, "byte with carry");
    p = w.s.precarry[1] as u64;
  }
  if n > 2 {
    ensure!(w.s.precarry[2] <= 511, "byte with carry");
    p = p * 256 + w.s.precarry[2] as u64;
  }
  let val = (p << (w.cnt + 24)) + w.s.low as u64;
  ensure!(val == (low + (rng - u) as u64) << d, "value of the coded interval is exact");
  ensure!(
    w.s.low as u64 + w.rng as u64 <= 1u64 << (w.cnt + 25),
    "window never overflows"
  );
  reach!(n == 3, "two bytes emitted");
  reach!(n == 1, "no byte emitted");
}

/// done(): the emitted bytes denote a number inside the final interval
/// [X, X + rng), and end with the trailing one bit the specification requires.
macro_rules! done_contract {
  ($name:ident, $n:literal) => {
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub(crate) fn $name() {
  let mut w = WriterEncoder::new();
  w.rng = any();
  w.cnt = any();
  w.s.low = any();
  assume(w.rng >= 0x8000);
  assume(w.cnt >= -9 && w.cnt <= -1);
  assume(w.s.low as u64 + w.rng as u64 <= 1u64 << (w.cnt + 25));
  let n: usize = $n;
  w.s.precarry = Vec::with_capacity(8);
  let mut x = 0u64;
  let mut i = 0;
  while i < n {
    let b: u16 = any();
    assume(b <= 511);
    w.s.precarry.push(b);
    x = x * 256 + b as u64;
    i += 1;
  }
  let sc = w.cnt as i32 + 24;
  x = (x << sc) + w.s.low as u64;
  let rng = w.rng as u64;
  let xbits = 8 * n as i32 + sc;
  assume(x + rng <= 1u64 << xbits);
  let out = w.done();
  // number of bits consumed by the coded symbols
  let used = xbits - 15;
  let len = out.len();
  ensure!(len == (used as usize + 8) / 8, "shortest byte string with the trailing bit");
  let mut b = 0u64;
  let mut i = 0;
  while i < 4 {
    b = b * 256 + if i < len { out[i] as u64 } else { 0 };
    i += 1;
  }
  // b / 2^32 against x / 2^xbits
  let xs = 40 - xbits;
  ensure!(x << xs <= b << 8, "closing bytes not below the interval");
  ensure!(b << 8 < (x + rng) << xs, "closing bytes not above the interval");
  ensure!(
    (b << (32 + used)) == 1u64 << 63,
    "trailing one bit then zeros up to the end"
  );
  reach!(len == n + 2, "two closing bytes");
}
  };
}
done_contract!(h_done_after_0, 0);
done_contract!(h_done_after_1, 1);
done_contract!(h_done_after_2, 2);

/// symbol(): hands the AV1 interval of symbol s to the coder.
macro_rules! symbol_contract {
  ($name:ident, $n:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(18))]
    pub(crate) fn $name() {
      let c = any_icdf::<$n>();
      let s: u32 = any();
      assume(s < $n);
      let mut w = WriterRecorder::new();
      w.symbol(s, &c);
      ensure!(w.s.storage.len() == 1, "one token per symbol");
      let (fl, fh, nms) = w.s.storage[0];
      let lo = if s == 0 { 32768 } else { c[s as usize - 1] };
      ensure!(fl == lo && fh == c[s as usize], "token carries the symbol's CDF bounds");
      ensure!(nms as u32 == $n - s, "token carries the symbol's rank");
      reach!(s == $n - 1, "last symbol");
    }
  };
}
symbol_contract!(h_symbol_2, 2);
symbol_contract!(h_symbol_3, 3);
symbol_contract!(h_symbol_4, 4);
symbol_contract!(h_symbol_5, 5);
symbol_contract!(h_symbol_8, 8);
symbol_contract!(h_symbol_11, 11);
symbol_contract!(h_symbol_13, 13);
symbol_contract!(h_symbol_16, 16);

/// Lemma: for non-increasing inverse CDFs the interval bounds of the AV1
/// decoder are strictly decreasing, start below the range and end at zero.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::solver(kissat))]
pub(crate) fn h_bounds_monotone() {
  let rng: u32 = any();
  assume(rng >= 0x8000 && rng < 0x10000);
  let (f, g): (u32, u32) = (any(), any());
  assume(g <= f && f < 32768);
  let k: u32 = any();
  assume(k < 16);
  ensure!(spec_cur(rng, f, k + 1) >= spec_cur(rng, g, k) + 4, "bounds decrease");
  ensure!(spec_cur(rng, f, k) < rng, "first bound below the range");
  ensure!(spec_cur(rng, g & 63, 0) == 0, "last bound is zero");
  reach!(k == 15, "16 symbols");
}

/// Lemma: the AV1 decoder, holding any value in [cur_s, cur_{s-1}), returns s.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub(crate) fn h_decoder_search() {
  let n: usize = any();
  assume(n >= 2 && n <= 16);
  let rng: u32 = any();
  let cur: [u32; 16] = any_arr();
  let mut i = 0;
  while i < 16 {
    if i < n {
      assume(cur[i] < if i == 0 { rng } else { cur[i - 1] });
    }
    i += 1;
  }
  assume(cur[n - 1] == 0);
  let s: usize = any();
  assume(s < n);
  let value: u32 = any();
  let prev = if s == 0 { rng } else { cur[s - 1] };
  assume(value >= cur[s] && value < prev);
  // 8.2.6 search loop
  let mut t = 0;
  while t < 16 && value < cur[t] {
    t += 1;
  }
  ensure!(t == s, "decoder returns the encoded symbol");
  reach!(s == 15, "last symbol");
}

/// bool(), bit() and literal() are the symbols the specification reads back.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
pub(crate) fn h_bool() {
  let v: bool = any();
  let f: u16 = any();
  assume(f > 0 && f < 32768);
  let mut w = WriterRecorder::new();
  w.bool(v, f);
  ensure!(w.s.storage.len() == 1, "one token per bool");
  let t = w.s.storage[0];
  ensure!(t == if v { (f, 0, 1) } else { (32768, f, 2) }, "bool uses its probability");
  let mut w = WriterRecorder::new();
  w.bit(v as u16);
  ensure!(
    w.s.storage.len() == 1
      && w.s.storage[0] == if v { (16384, 0, 1) } else { (32768, 16384, 2) },
    "bit is an equiprobable bool"
  );
  reach!(v, "true");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(34))]
pub(crate) fn h_literal() {
  let n: u8 = any();
  assume(n <= 32);
  let x: u32 = any();
  let mut w = WriterRecorder::new();
  w.literal(n, x);
  ensure!(w.s.storage.len() == n as usize, "one bit per literal bit");
  let i: u8 = any();
  assume(i < n);
  let bit = (x >> (n - 1 - i)) & 1;
  let t = w.s.storage[i as usize];
  ensure!(
    t == if bit == 1 { (16384, 0, 1) } else { (32768, 16384, 2) },
    "literal is most significant bit first"
  );
  reach!(n == 32, "32 bits");
}

