//@use frame_header
/// A list of the first N values, in the real container.
fn list<T: Copy, const N: usize, const C: usize>(v: &[T; N], fill: T) -> ArrayVec<T, C> {
  let mut all = [fill; C];
  all[..N].copy_from_slice(v);
  let mut l = ArrayVec::from(all);
  unsafe { l.set_len(N) };
  l
}
/// film_grain_params(), 5.9.30, for some numbers of points and coefficients.
macro_rules! grain_contract {
  ($name:ident, $ny:literal, $ncb:literal, $ncr:literal, $lag:literal, $chroma:literal, $cfl:literal, $inter:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(10))]
    #[cfg_attr(kani, kani::stub(Sequence::get_skip_mode_allowed, skip_mode))]
    pub(crate) fn $name() {
      let mut sq = sequence(false, one_tile());
      set!(sq.data, film_grain_params_present, true);
      set!(sq.data, chroma_sampling, CHROMA[$chroma]);
      set!(sq.data, time_base, Rational::new(1, 25));
      let limited: bool = any();
      set!(sq.data, pixel_range, if limited { PixelRange::Limited } else { PixelRange::Full });
      let mut fi = tile_key_frame(&sq);
      let p = &mut *fi;
      let (show, showable): (bool, bool) = if $inter { (any(), any()) } else { (true, false) };
      assume(show || showable); // every frame a stream with order hints codes
      set!(p, show_frame, show);
      set!(p, showable_frame, showable);
      set!(p, input_frameno, 0);
      if $inter {
        set!(p, frame_type, FrameType::INTER);
        set!(p, intra_only, false);
        set!(p, error_resilient, false);
        set!(p, refresh_frame_flags, 0);
        set!(p, force_integer_mv, 0);
      }
      let (py, pcb, pcr): ([[u8; 2]; $ny], [[u8; 2]; $ncb], [[u8; 2]; $ncr]) =
        (core::array::from_fn(|_| any_arr()), core::array::from_fn(|_| any_arr()), core::array::from_fn(|_| any_arr()));
      const NY: usize = 2 * $lag * ($lag + 1);
      const NC: usize = NY + ($ny > 0) as usize;
      let (cy, cb, cr): ([i8; NY], [i8; NC], [i8; NC]) = (any_arr(), any_arr(), any_arr());
      let mut g = junk::<GrainTableSegment>();
      let q = &mut *g;
      let seed: u16 = any();
      let (shift, arshift, gshift) = (8 + below(4) as u8, 6 + below(4) as u8, below(4) as u8);
      let m: [u8; 4] = any_arr();
      let (ocb, ocr) = (below(512) as u16, below(512) as u16);
      let overlap: bool = any();
      // applies to the first frame, or to no frame
      let active: bool = any();
      set!(q, start_time, if active { 0 } else { 5 });
      set!(q, end_time, 1000);
      set!(q, scaling_points_y, list(&py, [0; 2]));
      set!(q, scaling_points_cb, list(&pcb, [0; 2]));
      set!(q, scaling_points_cr, list(&pcr, [0; 2]));
      set!(q, scaling_shift, shift);
      set!(q, ar_coeff_lag, $lag);
      set!(q, ar_coeffs_y, list(&cy, 0));
      set!(q, ar_coeffs_cb, list(&cb, 0));
      set!(q, ar_coeffs_cr, list(&cr, 0));
      set!(q, ar_coeff_shift, arshift);
      set!(q, cb_mult, m[0]);
      set!(q, cb_luma_mult, m[1]);
      set!(q, cb_offset, ocb);
      set!(q, cr_mult, m[2]);
      set!(q, cr_luma_mult, m[3]);
      set!(q, cr_offset, ocr);
      set!(q, overlap_flag, overlap);
      set!(q, chroma_scaling_from_luma, $cfl);
      set!(q, grain_scale_shift, gshift);
      set!(q, random_seed, seed);
      let mut cfg = junk::<EncoderConfig>();
      set!(cfg, film_grain_params, Some(vec![ManuallyDrop::into_inner(g)]));
      let cfg = shared(cfg);
      set!(p, config, arc(&cfg));
      let (fi, fs, ic) = (&*p, base_state(), reordering(true));
      let r = Bits::of(|w| w.write_frame_header_obu(fi, &*fs, &ic).unwrap());
      let mut s = Syntax::new();
      let mono = $chroma == 3;
      if $inter {
        s.flag(false);
        s.f(2, 1);
        s.flag(show);
        if !show {
          s.flag(showable);
        }
        s.flag(false); // error_resilient_mode
        s.f(1 + 1 + 6, 0);
        s.f(3, 7);
        s.f(8, 0);
        s.f(1 + 21 + 1 + 1 + 1 + 2 + 1 + 1, 0); // references, render size, mv precision, filter, motion mode, cdf
      } else {
        s.f(4, 1);
        s.f(10, 0);
      }
      s.flag(true);
      s.f(8, 1);
      s.f(if mono { 1 } else { 4 }, 0);
      s.f(3, 0);
      s.f(12, 8 << 6 | 8);
      if !mono {
        s.f(12, 4 << 6 | 4);
      }
      s.f(3 + 1 + 1, 0);
      if $inter {
        s.flag(false);
      }
      s.flag(false);
      if $inter {
        s.f(7, 0);
      }
      if show || showable {
        s.flag(active);
      }
      if (show || showable) && active {
        s.f(16, seed as u64);
        if $inter {
          s.flag(true); // update_grain
        }
        s.f(4, $ny);
        let mut i = 0;
        while i < $ny {
          s.f(8, py[i][0] as u64);
          s.f(8, py[i][1] as u64);
          i += 1;
        }
        if !mono {
          s.flag($cfl);
        }
        let (mut has_cb, mut has_cr) = (false, false);
        if !(mono || $cfl || ($chroma == 0 && $ny == 0)) {
          s.f(4, $ncb);
          let mut i = 0;
          while i < $ncb {
            s.f(8, pcb[i][0] as u64);
            s.f(8, pcb[i][1] as u64);
            i += 1;
          }
          s.f(4, $ncr);
          let mut i = 0;
          while i < $ncr {
            s.f(8, pcr[i][0] as u64);
            s.f(8, pcr[i][1] as u64);
            i += 1;
          }
          has_cb = $ncb > 0;
          has_cr = $ncr > 0;
        }
        s.f(2, shift as u64 - 8);
        s.f(2, $lag);
        if $ny > 0 {
          let mut i = 0;
          while i < NY {
            s.f(8, (cy[i] as i64 + 128) as u64);
            i += 1;
          }
        }
        if $cfl || has_cb {
          let mut i = 0;
          while i < NC {
            s.f(8, (cb[i] as i64 + 128) as u64);
            i += 1;
          }
        }
        if $cfl || has_cr {
          let mut i = 0;
          while i < NC {
            s.f(8, (cr[i] as i64 + 128) as u64);
            i += 1;
          }
        }
        s.f(2, arshift as u64 - 6);
        s.f(2, gshift as u64);
        if has_cb {
          s.f(8, m[0] as u64);
          s.f(8, m[1] as u64);
          s.f(9, ocb as u64);
        }
        if has_cr {
          s.f(8, m[2] as u64);
          s.f(8, m[3] as u64);
          s.f(9, ocr as u64);
        }
        s.flag(overlap);
        s.flag(limited);
      }
      s.align();
      ensure!(s.same(&r), "film grain parameters decode back");
      reach!(active, "grain applied");
      reach!(!active, "no grain for this frame");
    }
  };
}
grain_contract!(h_grain_luma, 2, 0, 0, 1, 0, false, false);
grain_contract!(h_grain_full, 1, 1, 2, 1, 2, false, false);
grain_contract!(h_grain_cfl, 1, 0, 0, 1, 1, true, false);
grain_contract!(h_grain_chroma_only, 0, 1, 0, 0, 2, false, false);
grain_contract!(h_grain_420_no_luma, 0, 0, 0, 1, 0, false, false);
grain_contract!(h_grain_inter, 1, 1, 1, 0, 0, false, true);
grain_contract!(h_grain_mono, 2, 0, 0, 0, 3, false, false);


/// The segment that applies to a frame is the first one containing its time
/// stamp; none applies to a frame that is never shown.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub(crate) fn h_grain_at() {
  let mut sq = sequence(false, one_tile());
  set!(sq.data, time_base, Rational::new(1, 8));
  let mut fi = tile_key_frame(&sq);
  let p = &mut *fi;
  let (show, showable): (bool, bool) = (any(), any());
  set!(p, show_frame, show);
  set!(p, showable_frame, showable);
  let n: u32 = any();
  set!(p, input_frameno, n as u64);
  let (mut g0, mut g1) = (junk::<GrainTableSegment>(), junk::<GrainTableSegment>());
  let t: [u64; 4] = any_arr();
  let seeds: [u16; 2] = [1, 2];
  let (q0, q1) = (&mut *g0, &mut *g1);
  set!(q0, start_time, t[0]);
  set!(q0, end_time, t[1]);
  set!(q0, random_seed, 1);
  set!(q1, start_time, t[2]);
  set!(q1, end_time, t[3]);
  set!(q1, random_seed, 2);
  let mut cfg = junk::<EncoderConfig>();
  set!(cfg, film_grain_params, Some(vec![ManuallyDrop::into_inner(g0), ManuallyDrop::into_inner(g1)]));
  let cfg = shared(cfg);
  set!(p, config, arc(&cfg));
  let got = (*p).film_grain_params().map(|g| g.random_seed);
  let at = n as u64 * 10_000_000 / 8; // in units of 100 ns
  let want = if !(show || showable) {
    None
  } else if t[0] <= at && at < t[1] {
    Some(1)
  } else if t[2] <= at && at < t[3] {
    Some(2)
  } else {
    None
  };
  ensure!(got == want, "grain segment chosen by the time stamp of the frame");
  reach!(want == Some(2), "second segment");
}
