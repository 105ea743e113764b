fn token() -> (u16, u16, u16) {
  let (fl, fh, nms): (u16, u16, u16) = (any(), any(), any());
  assume(fl <= 32768 && fh < 32768);
  assume((fh >> 6) <= (fl >> 6));
  assume(nms >= 1 && nms <= 16);
  (fl, fh, nms)
}
/// Counter: whatever is coded after a checkpoint, rollback gives back the state.
#[cfg_attr(kani, kani::proof)]
pub(crate) fn h_counter_rollback() {
  let mut w = WriterCounter::new();
  w.rng = any();
  w.s.bits = any();
  assume(w.rng >= 0x8000 && w.s.bits < 1 << 28);
  let (rng, cnt, bits) = (w.rng, w.cnt, w.s.bits);
  let ck = Writer::checkpoint(&mut w);
  // arbitrary later state
  w.rng = any();
  w.s.bits = any();
  Writer::rollback(&mut w, &ck);
  ensure!(w.rng == rng && w.cnt == cnt && w.s.bits == bits, "counter state restored");
  reach!(bits == 12345, "reached");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub(crate) fn h_recorder_rollback() {
  let mut w = WriterRecorder::new();
  w.rng = any();
  w.cnt = any();
  w.s.bits = any();
  assume(w.rng >= 0x8000 && w.s.bits < 1 << 28);
  let (rng, cnt, bits) = (w.rng, w.cnt, w.s.bits);
  let t = token();
  w.s.storage.push(t);
  let ck = Writer::checkpoint(&mut w);
  let (a, b) = (token(), token());
  w.s.storage.push(a);
  w.s.storage.push(b);
  w.rng = any();
  w.cnt = any();
  w.s.bits = any();
  Writer::rollback(&mut w, &ck);
  ensure!(w.rng == rng && w.cnt == cnt && w.s.bits == bits, "recorder state restored");
  ensure!(w.s.storage.len() == 1 && w.s.storage[0] == t, "recorded tokens restored");
  reach!(bits == 12345, "reached");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub(crate) fn h_encoder_rollback() {
  let mut w = WriterEncoder::new();
  w.rng = any();
  w.cnt = any();
  w.s.low = any();
  let (rng, cnt, low) = (w.rng, w.cnt, w.s.low);
  let x: u16 = any();
  w.s.precarry.push(x);
  let ck = Writer::checkpoint(&mut w);
  let (a, b): (u16, u16) = (any(), any());
  w.s.precarry.push(a);
  w.s.precarry.push(b);
  w.rng = any();
  w.cnt = any();
  w.s.low = any();
  Writer::rollback(&mut w, &ck);
  ensure!(w.rng == rng && w.cnt == cnt && w.s.low == low, "encoder state restored");
  ensure!(w.s.precarry.len() == 1 && w.s.precarry[0] == x, "emitted bytes restored");
  reach!(low == 12345, "reached");
}

/// A backend that only writes down what it is given.
struct Log {
  n: usize,
  t: [(u16, u16, u16); 3],
}
impl StorageBackend for WriterBase<Log> {
  fn store(&mut self, fl: u16, fh: u16, nms: u16) {
    self.s.t[self.s.n] = (fl, fh, nms);
    self.s.n += 1;
  }
  fn stream_bits(&mut self) -> usize {
    0
  }
  fn checkpoint(&mut self) -> WriterCheckpoint {
    WriterCheckpoint { stream_size: 0, backend_var: 0, rng: 0, cnt: 0 }
  }
  fn rollback(&mut self, _: &WriterCheckpoint) {}
}
/// replay(): every recorded token, once, in order; the recorder is empty after.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub(crate) fn h_replay() {
  let mut w = WriterRecorder::new();
  w.rng = any();
  w.cnt = any();
  w.s.bits = any();
  let (a, b, c) = (token(), token(), token());
  w.s.storage.push(a);
  w.s.storage.push(b);
  w.s.storage.push(c);
  let mut d = WriterBase::new(Log { n: 0, t: [(0, 0, 0); 3] });
  w.replay(&mut d);
  ensure!(d.s.n == 3, "every token replayed once");
  ensure!(d.s.t[0] == a && d.s.t[1] == b && d.s.t[2] == c, "tokens replayed in order");
  let f = WriterRecorder::new();
  ensure!(w.s.storage.is_empty(), "recorder emptied");
  ensure!(w.rng == f.rng && w.cnt == f.cnt && w.s.bits == f.s.bits, "recorder as new");
  reach!(a.2 == 16, "reached");
}
/// Recording a token keeps it verbatim, after the earlier ones.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
pub(crate) fn h_record() {
  let mut w = WriterRecorder::new();
  w.rng = any();
  assume(w.rng >= 0x8000);
  let a = token();
  w.s.storage.push(a);
  let t = token();
  w.store(t.0, t.1, t.2);
  ensure!(w.s.storage.len() == 2, "one token recorded");
  ensure!(w.s.storage[0] == a && w.s.storage[1] == t, "token recorded verbatim");
  reach!(t.2 == 16, "reached");
}
