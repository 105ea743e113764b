/// Calls $m!(field place, CDF length) for every CDF table of a CDFContext.
macro_rules! for_each_cdf {
  ($fc:ident, $m:ident) => {
    $m!($fc.comp_bwd_ref_cdf, 2);
    $m!($fc.comp_mode_cdf, 2);
    $m!($fc.comp_ref_cdf, 2);
    $m!($fc.comp_ref_type_cdf, 2);
    $m!($fc.dc_sign_cdf, 2);
    $m!($fc.drl_cdfs, 2);
    $m!($fc.eob_extra_cdf, 2);
    $m!($fc.filter_intra_cdfs, 2);
    $m!($fc.intra_inter_cdfs, 2);
    $m!($fc.lrf_sgrproj_cdf, 2);
    $m!($fc.lrf_wiener_cdf, 2);
    $m!($fc.newmv_cdf, 2);
    $m!($fc.palette_uv_mode_cdfs, 2);
    $m!($fc.palette_y_mode_cdfs, 2);
    $m!($fc.refmv_cdf, 2);
    $m!($fc.single_ref_cdfs, 2);
    $m!($fc.skip_cdfs, 2);
    $m!($fc.txb_skip_cdf, 2);
    $m!($fc.txfm_partition_cdf, 2);
    $m!($fc.zeromv_cdf, 2);
    $m!($fc.tx_size_8x8_cdf, 2);
    $m!($fc.inter_tx_3_cdf, 2);
    $m!($fc.coeff_base_eob_cdf, 3);
    $m!($fc.lrf_switchable_cdf, 3);
    $m!($fc.tx_size_cdf, 3);
    $m!($fc.coeff_base_cdf, 4);
    $m!($fc.coeff_br_cdf, 4);
    $m!($fc.deblock_delta_cdf, 4);
    $m!($fc.deblock_delta_multi_cdf, 4);
    $m!($fc.partition_w8_cdf, 4);
    $m!($fc.eob_flag_cdf16, 5);
    $m!($fc.intra_tx_2_cdf, 5);
    $m!($fc.eob_flag_cdf32, 6);
    $m!($fc.angle_delta_cdf, 7);
    $m!($fc.eob_flag_cdf64, 7);
    $m!($fc.intra_tx_1_cdf, 7);
    $m!($fc.cfl_sign_cdf, 8);
    $m!($fc.compound_mode_cdf, 8);
    $m!($fc.eob_flag_cdf128, 8);
    $m!($fc.spatial_segmentation_cdfs, 8);
    $m!($fc.partition_w128_cdf, 8);
    $m!($fc.eob_flag_cdf256, 9);
    $m!($fc.eob_flag_cdf512, 10);
    $m!($fc.partition_cdf, 10);
    $m!($fc.eob_flag_cdf1024, 11);
    $m!($fc.inter_tx_2_cdf, 12);
    $m!($fc.kf_y_cdf, 13);
    $m!($fc.y_mode_cdf, 13);
    $m!($fc.uv_mode_cdf, 13);
    $m!($fc.uv_mode_cfl_cdf, 14);
    $m!($fc.cfl_alpha_cdf, 16);
    $m!($fc.inter_tx_1_cdf, 16);
    $m!($fc.nmv_context.joints_cdf, 4);
    $m!($fc.nmv_context.comps[0].sign_cdf, 2);
    $m!($fc.nmv_context.comps[0].class0_hp_cdf, 2);
    $m!($fc.nmv_context.comps[0].hp_cdf, 2);
    $m!($fc.nmv_context.comps[0].class0_cdf, 2);
    $m!($fc.nmv_context.comps[0].bits_cdf, 2);
    $m!($fc.nmv_context.comps[0].class0_fp_cdf, 4);
    $m!($fc.nmv_context.comps[0].fp_cdf, 4);
    $m!($fc.nmv_context.comps[0].classes_cdf, 11);
    $m!($fc.nmv_context.comps[1].sign_cdf, 2);
    $m!($fc.nmv_context.comps[1].class0_hp_cdf, 2);
    $m!($fc.nmv_context.comps[1].hp_cdf, 2);
    $m!($fc.nmv_context.comps[1].class0_cdf, 2);
    $m!($fc.nmv_context.comps[1].bits_cdf, 2);
    $m!($fc.nmv_context.comps[1].class0_fp_cdf, 4);
    $m!($fc.nmv_context.comps[1].fp_cdf, 4);
    $m!($fc.nmv_context.comps[1].classes_cdf, 11);
  };
}
/// A table of CDFs seen as a flat slice.
fn flat<T>(t: &T) -> &[u16] {
  // SAFETY: every table is a (nested) array of u16
  unsafe {
    std::slice::from_raw_parts(t as *const T as *const u16, std::mem::size_of::<T>() / 2)
  }
}
fn flat_mut<T>(t: &mut T) -> &mut [u16] {
  // SAFETY: every table is a (nested) array of u16
  unsafe {
    std::slice::from_raw_parts_mut(t as *mut T as *mut u16, std::mem::size_of::<T>() / 2)
  }
}
