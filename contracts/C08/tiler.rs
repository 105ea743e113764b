/// ceil(log2(x)) of a whole number, as f64::log2 followed by ceil gives it.
#[cfg(kani)]
fn log2_contract(x: f64) -> f64 {
  assert!(x >= 1.0, "logarithm of a positive number");
  // the smallest k with 2^k >= x, minus a half unless exact
  let mut k = 0;
  let mut p = 1.0f64;
  while k < 45 && p < x {
    p *= 2.0;
    k += 1;
  }
  if p == x { k as f64 } else { k as f64 - 0.5 }
}
fn tile_log2(blk: usize, target: usize) -> usize {
  let mut k = 0;
  while k < 20 && (blk << k) < target {
    k += 1;
  }
  k
}
macro_rules! tiling_contract {
  ($name:ident, $sb:literal, $is422:literal, $rate:expr) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(24))]
    #[cfg_attr(kani, kani::solver(kissat))]
    pub(crate) fn $name() {
      let (w, h): (u16, u16) = (any(), any());
      assume(w >= 1 && h >= 1);
      let (tc, tr): (u8, u8) = (any(), any());
      assume(tc <= 7 && tr <= 7);
      let ti = TilingInfo::from_target_tiles($sb, w as usize, h as usize, $rate, tc as usize, tr as usize, $is422);
      let sb = 1usize << $sb;
      let sbc = (w as usize + sb - 1) / sb;
      let sbr = (h as usize + sb - 1) / sb;
      ensure!(ti.sb_size_log2 == $sb, "superblock size");
      ensure!(ti.frame_width >= w as usize && ti.frame_width < w as usize + 8 && ti.frame_width % 8 == 0, "frame width aligned to 8");
      ensure!(ti.frame_height >= h as usize && ti.frame_height < h as usize + 8 && ti.frame_height % 8 == 0, "frame height aligned to 8");
      // the grid covers every superblock exactly once
      ensure!(ti.cols >= 1 && ti.cols <= 64, "between 1 and 64 tile columns");
      ensure!(ti.rows >= 1 && ti.rows <= 64, "between 1 and 64 tile rows");
      ensure!(ti.cols * ti.tile_width_sb >= sbc && (ti.cols - 1) * ti.tile_width_sb < sbc, "columns cover the frame, none is empty");
      ensure!(ti.rows * ti.tile_height_sb >= sbr && (ti.rows - 1) * ti.tile_height_sb < sbr, "rows cover the frame, none is empty");
      ensure!(ti.tile_count() == ti.cols * ti.rows, "tile count");
      // bitstream limits (5.9.15)
      ensure!(ti.tile_width_sb << $sb <= 4096, "tile width limit");
      let min_cols = tile_log2(4096 >> $sb, sbc);
      let min_tiles = core::cmp::max(min_cols, tile_log2((4096 * 2304) >> (2 * $sb), sbr * sbc));
      ensure!(ti.min_tile_cols_log2 == min_cols, "minLog2TileCols");
      ensure!(ti.max_tile_cols_log2 == tile_log2(1, if sbc < 64 { sbc } else { 64 }), "maxLog2TileCols");
      ensure!(ti.max_tile_rows_log2 == tile_log2(1, if sbr < 64 { sbr } else { 64 }), "maxLog2TileRows");
      ensure!(ti.min_tiles_log2 == min_tiles, "minLog2Tiles");
      ensure!(ti.min_tile_cols_log2 <= ti.tile_cols_log2 && ti.tile_cols_log2 <= ti.max_tile_cols_log2, "TileColsLog2 range");
      let min_rows = if min_tiles > ti.tile_cols_log2 { min_tiles - ti.tile_cols_log2 } else { 0 };
      ensure!(ti.min_tile_rows_log2 == min_rows, "minLog2TileRows");
      ensure!(ti.min_tile_rows_log2 <= ti.tile_rows_log2 && ti.tile_rows_log2 <= ti.max_tile_rows_log2, "TileRowsLog2 range");
      ensure!(ti.tile_cols_log2 == tile_log2(1, ti.cols), "TileColsLog2 belongs to the number of columns");
      if $is422 {
        ensure!(ti.tile_width_sb % 2 == 0, "even tile width in 4:2:2");
        // explicit tile sizes have a lower limit on the height (5.9.15)
        if ti.tile_width_sb != (sbc + (1 << ti.tile_cols_log2) - 1) >> ti.tile_cols_log2 {
          let area = if min_tiles > 0 { (sbr * sbc) >> (min_tiles + 1) } else { sbr * sbc };
          let widest = if ti.tile_width_sb < sbc { ti.tile_width_sb } else { sbc };
          // (larger frames than any level allows: h_tiling_422_huge)
          ensure!(
            w > 16384 || h > 16384 || ti.tile_height_sb <= core::cmp::max(area / widest, 1),
            "explicitly coded tile height within its limit"
          );
        }
      } else {
        // what a decoder derives from the header
        ensure!(ti.tile_width_sb == (sbc + (1 << ti.tile_cols_log2) - 1) >> ti.tile_cols_log2, "decoder's tile width");
      }
      ensure!(ti.tile_height_sb == (sbr + (1 << ti.tile_rows_log2) - 1) >> ti.tile_rows_log2, "decoder's tile height");
      // the request is honoured when it is legal
      if !$is422 && tc as usize >= min_cols && tc as usize <= ti.max_tile_cols_log2 {
        ensure!(ti.tile_width_sb == (sbc + (1 << tc) - 1) >> tc, "requested columns");
        if $rate == 0.0 && tr as usize >= min_rows && tr as usize <= ti.max_tile_rows_log2 {
          ensure!(ti.tile_rows_log2 == tr as usize, "requested rows");
        }
      }
      reach!(ti.cols > 20 && ti.rows > 20, "many tiles");
      reach!(ti.cols == 1 && ti.rows == 1, "one tile");
    }
  };
}
tiling_contract!(h_tiling, 6, false, 0.0);
tiling_contract!(h_tiling_422, 6, true, 0.0);
/// The same limit for one frame beyond every level: 64 tile rows do not suffice.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(24))]
    #[cfg_attr(kani, kani::solver(kissat))]
pub(crate) fn h_tiling_422_huge() {
  let ti = TilingInfo::from_target_tiles(6, 38400, 65535, 0.0, 0, 0, true);
  let area = (600usize * 1024) >> (ti.min_tiles_log2 + 1);
  ensure!(ti.tile_height_sb * ti.tile_width_sb <= area, "explicitly coded tile height within its limit (38400x65535)");
  reach!(ti.cols > 1, "several columns");
}
/// Level limit on the luma rate per tile (Annex A): enough tiles for the frame
/// rate, unless the grid already has the most rows there can be.
macro_rules! rate_contract {
  ($name:ident, $rate:literal) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(48))]
    #[cfg_attr(kani, kani::solver(kissat))]
    #[cfg_attr(kani, kani::stub(f64::log2, log2_contract))]
    pub(crate) fn $name() {
      let (w, h): (u16, u16) = (any(), any());
      assume(w >= 1 && h >= 1);
      let (tc, tr): (u8, u8) = (any(), any());
      assume(tc <= 7 && tr <= 7);
      let ti = TilingInfo::from_target_tiles(6, w as usize, h as usize, $rate as f64, tc as usize, tr as usize, false);
      let sbr = (h as usize + 63) / 64;
      ensure!(ti.rows >= 1 && ti.rows <= 64 && (ti.rows - 1) * ti.tile_height_sb < sbr, "rows cover the frame");
      ensure!(ti.min_tile_rows_log2 <= ti.tile_rows_log2 && ti.tile_rows_log2 <= ti.max_tile_rows_log2, "TileRowsLog2 range");
      // 2^log2 tiles at MAX_TILE_RATE = 4096 * 2176 * 60 * 1.1 samples per second
      let rate = (ti.frame_width * ti.frame_height) as u128 * $rate * 10;
      let limit = 4096u128 * 2176 * 60 * 11;
      let tiles = 1u128 << (ti.tile_cols_log2 + ti.tile_rows_log2);
      ensure!(
        ti.tile_rows_log2 == ti.max_tile_rows_log2 || tiles * limit >= rate,
        "enough tiles for the frame rate"
      );
      reach!(ti.tile_rows_log2 > tr as usize, "more rows than asked for");
    }
  };
}
rate_contract!(h_rate_60, 60);
rate_contract!(h_rate_240, 240);
rate_contract!(h_rate_huge, 1000000000);

