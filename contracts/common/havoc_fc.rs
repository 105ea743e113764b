/// Memory for a CDFContext with arbitrary contents, seen as u16 words.
const FC_WORDS: usize = std::mem::size_of::<CDFContext>() / 2;
fn havoc_words() -> [u16; FC_WORDS] {
  #[cfg(kani)]
  {
    // SAFETY: uninitialised memory is an unconstrained value for the verifier
    unsafe { std::mem::MaybeUninit::<[u16; FC_WORDS]>::uninit().assume_init() }
  }
  #[cfg(not(kani))]
  {
    let fc = CDFContext::new(any());
    // SAFETY: CDFContext is repr(C) and made of u16 only
    unsafe { std::mem::transmute(fc) }
  }
}
fn as_fc(w: &mut [u16; FC_WORDS]) -> &'static mut CDFContext {
  // SAFETY: same size and alignment
  unsafe { &mut *(w.as_mut_ptr() as *mut CDFContext) }
}
