pub(crate) fn new_log() -> CDFContextLog {
  CDFContextLog {
    small: CDFContextLogPartition::new(6),
    large: CDFContextLogPartition::new(18),
  }
}
pub(crate) fn as_fc<'a>(w: *mut u16) -> &'a mut CDFContext {
  // SAFETY: only the words named by an offset are touched
  unsafe { std::mem::transmute::<*mut u16, &mut CDFContext>(w) }
}
