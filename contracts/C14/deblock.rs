use crate::partition::BlockSize;
use crate::transform::TxSize;
use v_frame::plane::PlaneConfig;

fn below(n: u8) -> u8 {
  let v: u8 = any();
  if cfg!(kani) {
    assume(v < n);
    v
  } else {
    v % n
  }
}
fn any_depth() -> usize {
  8 + 2 * below(3) as usize
}
fn any_level() -> usize {
  1 + below(MAX_LOOP_FILTER as u8) as usize
}
fn any_taps<const N: usize>(bd: usize) -> [i32; N] {
  let t: [u16; N] = any_arr();
  let mut r = [0i32; N];
  let mut i = 0;
  while i < N {
    assume((t[i] as usize) < 1 << bd);
    r[i] = t[i] as i32;
    i += 1;
  }
  r
}

// ---- 7.14.6: the sample filtering process, transcribed --------------------
/// F(i): i = -1 is p0, i = 0 is q0.
struct Line<const N: usize>([i32; N]);
impl<const N: usize> Line<N> {
  fn f(&self, i: i32) -> i32 {
    self.0[(i + N as i32 / 2) as usize]
  }
  fn diff(&self, i: i32, j: i32) -> i32 {
    (self.f(i) - self.f(j)).abs()
  }
}
fn clip3(lo: i32, hi: i32, x: i32) -> i32 {
  if x < lo { lo } else if x > hi { hi } else { x }
}
/// 7.14.6.2, with loop_filter_sharpness equal to 0: hevMask, filterMask,
/// flatMask and flatMask2.
fn masks<const N: usize>(l: &Line<N>, level: i32, bd: usize) -> (bool, bool, bool, bool) {
  let s = bd - 8;
  let limit = level.max(1) << s;
  let blimit = (2 * (level + 2) + level.max(1)) << s;
  let thresh = (level >> 4) << s;
  let one = 1 << s;
  let hev = l.diff(-2, -1) > thresh || l.diff(1, 0) > thresh;
  let mut ok = l.diff(-2, -1) <= limit && l.diff(1, 0) <= limit
    && l.diff(-1, 0) * 2 + l.diff(-2, 1) / 2 <= blimit;
  if N >= 6 {
    ok = ok && l.diff(-3, -2) <= limit && l.diff(2, 1) <= limit;
  }
  if N >= 8 {
    ok = ok && l.diff(-4, -3) <= limit && l.diff(3, 2) <= limit;
  }
  let mut flat = false;
  if N >= 6 {
    flat = l.diff(-2, -1) <= one && l.diff(1, 0) <= one
      && l.diff(-3, -1) <= one && l.diff(2, 0) <= one;
    if N >= 8 {
      flat = flat && l.diff(-4, -1) <= one && l.diff(3, 0) <= one;
    }
  }
  let mut flat2 = false;
  if N >= 14 {
    flat2 = l.diff(-7, -1) <= one && l.diff(6, 0) <= one
      && l.diff(-6, -1) <= one && l.diff(5, 0) <= one
      && l.diff(-5, -1) <= one && l.diff(4, 0) <= one;
  }
  (hev, ok, flat, flat2)
}
/// 7.14.6.3 narrow filter
fn narrow<const N: usize>(l: &Line<N>, hev: bool, bd: usize, out: &mut [i32; N]) {
  let c = |x: i32| clip3(-(1 << (bd - 1)), (1 << (bd - 1)) - 1, x);
  let m = N / 2;
  let h = 0x80 << (bd - 8);
  let (ps1, ps0, qs0, qs1) = (l.f(-2) - h, l.f(-1) - h, l.f(0) - h, l.f(1) - h);
  let filter = if hev { c(ps1 - qs1) } else { 0 };
  let filter = c(filter + 3 * (qs0 - ps0));
  let filter1 = c(filter + 4) >> 3;
  let filter2 = c(filter + 3) >> 3;
  out[m] = c(qs0 - filter1) + h;
  out[m - 1] = c(ps0 + filter2) + h;
  if !hev {
    let f = (filter1 + 1) >> 1;
    out[m + 1] = c(qs1 - f) + h;
    out[m - 2] = c(ps1 + f) + h;
  }
}
/// 7.14.6.4 wide filter: n modified samples a side, double weight within n2.
fn wide<const N: usize>(l: &Line<N>, log2: u32, n: i32, n2: i32, out: &mut [i32; N]) {
  let mut i = -n;
  while i < n {
    let mut t = 0;
    let mut j = -n;
    while j <= n {
      let tap = if j.abs() <= n2 { 2 } else { 1 };
      t += l.f(clip3(-(n + 1), n, i + j)) * tap;
      j += 1;
    }
    out[(i + N as i32 / 2) as usize] = (t + (1 << log2 >> 1)) >> log2;
    i += 1;
  }
}
fn spec<const N: usize>(t: [i32; N], level: usize, bd: usize) -> [i32; N] {
  let l = Line(t);
  let (hev, ok, flat, flat2) = masks(&l, level as i32, bd);
  let mut out = t;
  if ok {
    if N == 4 || !flat {
      narrow(&l, hev, bd, &mut out);
    } else if N == 8 || N == 14 && !flat2 {
      wide(&l, 3, 3, 0, &mut out);
    } else if N == 6 {
      wide(&l, 3, 2, 1, &mut out);
    } else {
      wide(&l, 4, 6, 1, &mut out);
    }
  }
  out
}

macro_rules! line_contract {
  ($($name:ident $f:ident $n:literal $m:literal $off:literal $bd:expr;)*) => {$(
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(16))]
    #[cfg_attr(kani, kani::solver(kissat))]
    pub(crate) fn $name() {
      let bd = $bd;
      let level = any_level();
      let taps: [i32; $n] = any_taps(bd);
      let want = spec(taps, level, bd);
      let mut got = taps;
      let r: Option<[i32; $m]> = $f(taps, level, bd);
      if let Some(v) = r {
        let mut i = 0;
        while i < $m {
          got[$off + i] = v[i];
          i += 1;
        }
      }
      let mut i = 0;
      while i < $n {
        ensure!(got[i] == want[i], "each sample across the edge is filtered as the specification says");
        i += 1;
      }
      reach!(r.is_some() && got[$n / 2] != taps[$n / 2], "filtered");
      reach!(r.is_none(), "left alone");
    }
  )*};
}
line_contract! {
  h_line4 deblock_size4_inner 4 4 0 any_depth();
  h_line6 deblock_size6_inner 6 4 1 any_depth();
  h_line8 deblock_size8_inner 8 6 1 any_depth();
  h_line14_8 deblock_size14_inner 14 12 1 8;
  h_line14_10 deblock_size14_inner 14 12 1 10;
  h_line14_12 deblock_size14_inner 14 12 1 12;
}

// ---- applying a line filter along an edge --------------------------------
#[cfg(kani)]
static mut SEEN: usize = 0;
#[cfg(kani)]
static mut WHAT: (usize, usize) = (0, 0);
macro_rules! edge_contract {
  ($($name:ident $f:ident $inner:ident $stub:ident $args:ident $n:literal $m:literal $off:literal $vert:literal)*) => {$(
    #[cfg(kani)]
    static mut $args: ([[i32; $n]; 4], [Option<[i32; $m]>; 4]) = ([[0; $n]; 4], [None; 4]);
    /// Stand-in for the filter of one line (its contract is h_line*).
    #[cfg(kani)]
    fn $stub(t: [i32; $n], level: usize, bd: usize) -> Option<[i32; $m]> {
      unsafe {
        assert!((level, bd) == WHAT, "level and bit depth handed on");
        assert!(SEEN < 4, "four lines");
        let want = $args.0[SEEN];
        let r = $args.1[SEEN];
        SEEN += 1;
        let mut i = 0;
        while i < $n {
          assert!(t[i] == want[i], "the samples across the edge, in order");
          i += 1;
        }
        r
      }
    }
    #[cfg(kani)]
    #[kani::proof]
    #[kani::unwind(18)]
    #[kani::stub($inner, $stub)]
    pub(crate) fn $name() {
      const S: usize = 16;
      let bd = any_depth();
      let level = any_level();
      let px: [[u16; $n]; 4] = core::array::from_fn(|_| any_arr());
      let mut res = [None; 4];
      let mut data = [0u16; S * S];
      let mut line = 0;
      while line < 4 {
        let v: [u16; $m] = any_arr();
        let filtered: bool = any();
        if filtered {
          let mut a = [0i32; $m];
          let mut i = 0;
          while i < $m { a[i] = v[i] as i32; i += 1; }
          res[line] = Some(a);
        }
        let mut i = 0;
        while i < $n {
          unsafe { $args.0[line][i] = px[line][i] as i32; }
          if $vert { data[line * S + i] = px[line][i] } else { data[i * S + line] = px[line][i] }
          i += 1;
        }
        line += 1;
      }
      unsafe { $args.1 = res; SEEN = 0; WHAT = (level, bd); }
      let cfg = PlaneConfig { stride: S, alloc_height: S, width: S, height: S,
        xdec: 0, ydec: 0, xpad: 0, ypad: 0, xorigin: 0, yorigin: 0 };
      {
        let (w, h) = if $vert { ($n, 4) } else { (4, $n) };
        let mut r = PlaneRegionMut::from_slice(&mut data, &cfg, Rect { x: 0, y: 0, width: w, height: h });
        $f(&mut r, level, bd);
      }
      let mut line = 0;
      while line < 4 {
        let mut i = 0;
        while i < $n {
          let got = if $vert { data[line * S + i] } else { data[i * S + line] };
          let want = match res[line] {
            Some(a) if i >= $off && i < $off + $m => a[i - $off] as u16,
            _ => px[line][i],
          };
          ensure!(got == want, "each line of the edge is replaced by its filtered samples");
          i += 1;
        }
        line += 1;
      }
      ensure!(unsafe { SEEN } == 4, "all four lines are filtered");
      reach!(res[3].is_some(), "filtered");
    }
    #[cfg(not(kani))]
    pub(crate) fn $name() {}
  )*};
}
edge_contract! {
  h_edge_v4 deblock_v_size4 deblock_size4_inner s_v4 A_V4 4 4 0 true
  h_edge_v6 deblock_v_size6 deblock_size6_inner s_v6 A_V6 6 4 1 true
  h_edge_v8 deblock_v_size8 deblock_size8_inner s_v8 A_V8 8 6 1 true
  h_edge_v14 deblock_v_size14 deblock_size14_inner s_v14 A_V14 14 12 1 true
  h_edge_h4 deblock_h_size4 deblock_size4_inner s_h4 A_H4 4 4 0 false
  h_edge_h6 deblock_h_size6 deblock_size6_inner s_h6 A_H6 6 4 1 false
  h_edge_h8 deblock_h_size8 deblock_size8_inner s_h8 A_H8 8 6 1 false
  h_edge_h14 deblock_h_size14 deblock_size14_inner s_h14 A_H14 14 12 1 false
}

// ---- levels ---------------------------------------------------------------
fn any_block() -> Block {
  let mut b = Block::default();
  let m = below(PredictionMode::NEW_NEWMV as u8 + 1);
  // SAFETY: the modes are numbered without gaps
  b.mode = unsafe { core::mem::transmute::<u8, PredictionMode>(m) };
  let r = below(RefType::ALTREF_FRAME as u8 + 1);
  // SAFETY: likewise
  b.ref_frames[0] = unsafe { core::mem::transmute::<u8, RefType>(r) };
  // the mode and the reference agree on whether the block is inter
  assume((b.ref_frames[0] == INTRA_FRAME) == (b.mode < NEARESTMV));
  b.skip = any();
  b.deblock_deltas = any_arr();
  if !cfg!(kani) {
    b.deblock_deltas = b.deblock_deltas.map(|d| d % 8);
  }
  b
}
use crate::partition::RefType;
use crate::predict::PredictionMode;

fn any_state() -> DeblockState {
  let levels = [below(64), below(64), below(64), below(64)];
  let ref_deltas: [i8; 8] = any_arr();
  let mode_deltas: [i8; 2] = any_arr();
  let shift = below(4);
  DeblockState {
    levels,
    sharpness: 0,
    deltas_enabled: false,
    delta_updates_enabled: any(),
    ref_deltas,
    mode_deltas,
    block_deltas_enabled: any(),
    block_delta_shift: shift,
    block_delta_multi: any(),
  }
}
/// 7.14.4
fn spec_level(d: &DeblockState, b: &Block, pli: usize, vertical: bool) -> i32 {
  // i = plane == 0 ? pass : plane + 1, pass 0 being the vertical edges
  let i = if pli == 0 { if vertical { 0 } else { 1 } } else { pli + 1 };
  let mut lvl = d.levels[i] as i32;
  if d.block_deltas_enabled {
    let k = if d.block_delta_multi { i } else { 0 };
    lvl = clip3(0, 63, lvl + ((b.deblock_deltas[k] as i32) << d.block_delta_shift));
  }
  lvl
}
/// delta_lf values are at most 63 after scaling (5.11.36)
fn scaled_deltas_fit(d: &DeblockState, b: &Block) {
  let mut i = 0;
  while i < 4 {
    let v = (b.deblock_deltas[i] as i32) << d.block_delta_shift;
    assume(v >= -63 && v <= 63);
    i += 1;
  }
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub(crate) fn h_level() {
  let d = any_state();
  let b = any_block();
  scaled_deltas_fit(&d, &b);
  let pli: usize = any();
  assume(pli < 3);
  let vertical: bool = any();
  let got = deblock_adjusted_level(&d, &b, pli, vertical);
  ensure!(got as i32 == spec_level(&d, &b, pli, vertical), "filter level of the block");
  reach!(d.block_deltas_enabled && got > 40, "adjusted");
}
/// 7.14.3: the level is that of the block, or, if it is 0, of the one before
/// the edge.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub(crate) fn h_edge_level() {
  let d = any_state();
  let (b, p) = (any_block(), any_block());
  scaled_deltas_fit(&d, &b);
  scaled_deltas_fit(&d, &p);
  let pli: usize = any();
  assume(pli < 3);
  let vertical: bool = any();
  let got = deblock_level(&d, &b, &p, pli, vertical) as i32;
  let cur = spec_level(&d, &b, pli, vertical);
  let want = if cur == 0 { spec_level(&d, &p, pli, vertical) } else { cur };
  ensure!(got == want, "filter level of the edge");
  reach!(cur == 0 && got > 0, "level of the previous block");
}

// ---- which edges are filtered, and with which filter ----------------------
fn any_bsize() -> BlockSize {
  let s = below(BlockSize::BLOCK_64X16 as u8 + 1);
  // SAFETY: block sizes are numbered without gaps
  unsafe { core::mem::transmute(s) }
}
fn any_txsize() -> TxSize {
  let s = below(TxSize::TX_64X16 as u8 + 1);
  // SAFETY: transform sizes are numbered without gaps
  unsafe { core::mem::transmute(s) }
}
fn sized(b: &mut Block) {
  b.bsize = any_bsize();
  b.n4_w = (bw(b.bsize) / 4) as u8;
  b.n4_h = (bh(b.bsize) / 4) as u8;
  b.txsize = any_txsize();
  assume(b.txsize.width() <= bw(b.bsize) && b.txsize.height() <= bh(b.bsize));
}
/// Block_Width / Block_Height
fn bw(b: BlockSize) -> usize {
  use BlockSize::*;
  match b {
    BLOCK_4X4 | BLOCK_4X8 | BLOCK_4X16 => 4,
    BLOCK_8X4 | BLOCK_8X8 | BLOCK_8X16 | BLOCK_8X32 => 8,
    BLOCK_16X4 | BLOCK_16X8 | BLOCK_16X16 | BLOCK_16X32 | BLOCK_16X64 => 16,
    BLOCK_32X8 | BLOCK_32X16 | BLOCK_32X32 | BLOCK_32X64 => 32,
    BLOCK_64X16 | BLOCK_64X32 | BLOCK_64X64 | BLOCK_64X128 => 64,
    BLOCK_128X64 | BLOCK_128X128 => 128,
  }
}
fn bh(b: BlockSize) -> usize {
  use BlockSize::*;
  match b {
    BLOCK_4X4 | BLOCK_8X4 | BLOCK_16X4 => 4,
    BLOCK_4X8 | BLOCK_8X8 | BLOCK_16X8 | BLOCK_32X8 => 8,
    BLOCK_4X16 | BLOCK_8X16 | BLOCK_16X16 | BLOCK_32X16 | BLOCK_64X16 => 16,
    BLOCK_8X32 | BLOCK_16X32 | BLOCK_32X32 | BLOCK_64X32 => 32,
    BLOCK_16X64 | BLOCK_32X64 | BLOCK_64X64 | BLOCK_128X64 => 64,
    BLOCK_64X128 | BLOCK_128X128 => 128,
  }
}
/// Width or height of the transform blocks of a plane (get_tx_size_uv for
/// chroma: the block's own size, at least 4 and at most 32).
fn tx_len(b: &Block, pli: usize, dec: usize, vertical: bool) -> usize {
  if pli == 0 {
    if vertical { b.txsize.width() } else { b.txsize.height() }
  } else {
    let n = if vertical { bw(b.bsize) } else { bh(b.bsize) } >> dec;
    n.max(4).min(32)
  }
}
/// What one call on an edge led to: taps, level, and the region.
#[cfg(kani)]
static mut CALL: Option<(usize, usize, Rect, bool)> = None;
#[cfg(kani)]
static mut CALLS: usize = 0;
macro_rules! recorders {
  ($($f:ident $n:literal $vert:literal)*) => {$(
    #[cfg(kani)]
    fn $f<T: Pixel>(r: &mut PlaneRegionMut<'_, T>, level: usize, bd: usize) {
      unsafe {
        assert!(bd == 10, "bit depth handed on");
        CALL = Some(($n, level, *r.rect(), $vert));
        CALLS += 1;
      }
    }
  )*};
}
recorders! {
  r_v4 4 true r_v6 6 true r_v8 8 true r_v14 14 true
  r_h4 4 false r_h6 6 false r_h8 8 false r_h14 14 false
}
macro_rules! sse_recorders {
  ($($f:ident $n:literal)*) => {$(
    #[cfg(kani)]
    fn $f<T: Pixel>(
      r: &PlaneRegion<'_, T>, s: &PlaneRegion<'_, T>,
      _t: &mut [i64; MAX_LOOP_FILTER + 2], horizontal: bool, bd: usize,
    ) {
      unsafe {
        assert!(bd == 10, "bit depth handed on");
        assert!(*r.rect() == *s.rect(), "the same samples of both pictures");
        CALL = Some(($n, 1, *r.rect(), !horizontal));
        CALLS += 1;
      }
    }
  )*};
}
sse_recorders! { t_4 4 t_6 6 t_8 8 t_14 14 }

const MI: usize = 4;
const ST: usize = 48;
/// An edge somewhere in a 4x4 (in 4x4 blocks) tile of a plane with 8 samples of
/// padding: the block after the edge, the block before it, anything elsewhere.
struct Edge {
  blocks: FrameBlocks,
  bo: TileBlockOffset,
  state: DeblockState,
  cur: Block,
  prev: Block,
}
fn any_edge(xdec: usize, ydec: usize, vertical: bool) -> Edge {
  let mut cur = any_block();
  sized(&mut cur);
  let (x, y) = (below(MI as u8) as usize, below(MI as u8) as usize);
  assume(x & xdec == 0 && y & ydec == 0);
  if vertical { assume(x > 0) } else { assume(y > 0) }
  let inside = if vertical { x & (cur.n4_w as usize - 1) != 0 } else { y & (cur.n4_h as usize - 1) != 0 };
  let prev = if inside {
    cur
  } else {
    let mut p = any_block();
    sized(&mut p);
    p
  };
  assume(cur.bsize.subsampled_size(xdec, ydec).is_ok());
  assume(prev.bsize.subsampled_size(xdec, ydec).is_ok());
  let mut state = any_state();
  state.deltas_enabled = false;
  state.block_deltas_enabled = false;
  let mut blocks = FrameBlocks::new(MI, MI);
  blocks[y][x] = cur;
  // the row and column holding chroma information
  let (px, py) = if vertical { ((x | xdec) - (1 << xdec), y | ydec) } else { (x | xdec, (y | ydec) - (1 << ydec)) };
  blocks[py][px] = prev;
  Edge { blocks, bo: TileBlockOffset(BlockOffset { x, y }), state, cur, prev }
}
/// (taps, level, region) of 7.14.2, or none.
fn spec_edge(e: &Edge, pli: usize, xdec: usize, ydec: usize, vertical: bool) -> Option<(usize, usize, Rect)> {
  let (x, y) = (e.bo.0.x, e.bo.0.y);
  let dec = if vertical { xdec } else { ydec };
  let at = (if vertical { x } else { y } >> dec) * 4;
  let tx = tx_len(&e.cur, pli, dec, vertical);
  let planesize = (if vertical { bw(e.cur.bsize) } else { bh(e.cur.bsize) } >> dec).max(4);
  if at & (tx - 1) != 0 {
    return None;
  }
  if at & (planesize - 1) != 0 && e.cur.skip && e.cur.ref_frames[0] != INTRA_FRAME {
    return None;
  }
  let size = tx.min(tx_len(&e.prev, pli, dec, vertical));
  let taps = if pli == 0 { if size >= 16 { 14 } else { size } } else if size >= 8 { 6 } else { size };
  let cur = spec_level(&e.state, &e.cur, pli, vertical);
  let level = if cur == 0 { spec_level(&e.state, &e.prev, pli, vertical) } else { cur };
  let (px, py) = ((x >> xdec) as isize * 4, (y >> ydec) as isize * 4);
  let half = taps as isize / 2;
  Some((taps, level as usize, if vertical {
    Rect { x: px - half, y: py, width: taps, height: 4 }
  } else {
    Rect { x: px, y: py - half, width: 4, height: taps }
  }))
}
macro_rules! plane {
  ($data:ident $cfg:ident $xdec:expr, $ydec:expr) => {
    #[allow(unused_mut)]
    let mut $data = [0u16; ST * ST];
    let $cfg = PlaneConfig { stride: ST, alloc_height: ST, width: 16, height: 16,
      xdec: $xdec, ydec: $ydec, xpad: 16, ypad: 16, xorigin: 16, yorigin: 16 };
  };
}
const ALL: Rect = Rect { x: 0, y: 0, width: 16, height: 16 };
/// Samples close enough to each other to be filtered.
#[cfg(not(kani))]
fn soft(data: &mut [u16; ST * ST]) {
  let n = below(8);
  let seed: u32 = any();
  let mut v = seed | 1;
  for d in data.iter_mut() {
    v = v.wrapping_mul(1664525).wrapping_add(1013904223);
    *d = 500 + (v >> 20) as u16 % (1 << n);
  }
}
#[cfg(not(kani))]
fn apply<const N: usize>(data: &mut [u16; ST * ST], level: usize, r: Rect, vert: bool) {
  for line in 0..4 {
    let at = |i: usize| {
      let (x, y) = if vert { (i, line) } else { (line, i) };
      (16 + r.y as usize + y) * ST + 16 + r.x as usize + x
    };
    let t: [i32; N] = core::array::from_fn(|i| data[at(i)] as i32);
    let o = spec(t, level, 10);
    for i in 0..N {
      data[at(i)] = o[i] as u16;
    }
  }
}
macro_rules! pick_contract {
  ($($name:ident $f:ident $vert:literal $pli:literal $xdec:literal $ydec:literal)*) => {$(
    #[cfg(kani)]
    #[kani::proof]
    #[kani::unwind(18)]
    #[kani::stub(deblock_v_size4, r_v4)]
    #[kani::stub(deblock_v_size6, r_v6)]
    #[kani::stub(deblock_v_size8, r_v8)]
    #[kani::stub(deblock_v_size14, r_v14)]
    #[kani::stub(deblock_h_size4, r_h4)]
    #[kani::stub(deblock_h_size6, r_h6)]
    #[kani::stub(deblock_h_size8, r_h8)]
    #[kani::stub(deblock_h_size14, r_h14)]
    pub(crate) fn $name() {
      let e = any_edge($xdec, $ydec, $vert);
      let want = spec_edge(&e, $pli, $xdec, $ydec, $vert);
      plane!(data cfg $xdec, $ydec);
      unsafe { CALL = None; CALLS = 0; }
      {
        let mut p = PlaneRegionMut::from_slice(&mut data, &cfg, ALL);
        $f(&e.state, &e.blocks.as_tile_blocks(), e.bo, &mut p, $pli, 10, $xdec, $ydec);
      }
      let want = match want { Some((_, 0, _)) => None, w => w };
      let got = unsafe { CALL };
      ensure!(unsafe { CALLS } == want.is_some() as usize, "an edge is filtered exactly when the specification says");
      if let (Some(g), Some(w)) = (got, want) {
        ensure!(g.3 == $vert, "in the direction of the edge");
        ensure!(g.0 == w.0, "filter length");
        ensure!(g.1 == w.1, "filter level");
        ensure!(g.2 == w.2, "samples on both sides of the edge");
      }
      reach!(want.is_some() && !e.cur.skip && e.prev.skip, "filtered");
      core::mem::forget(e);
    }
    /// The same on sample values, for the native search and replay.
    #[cfg(not(kani))]
    pub(crate) fn $name() {
      let e = any_edge($xdec, $ydec, $vert);
      let want = spec_edge(&e, $pli, $xdec, $ydec, $vert);
      plane!(data cfg $xdec, $ydec);
      soft(&mut data);
      let mut expect = data;
      match want {
        Some((4, l, r)) if l > 0 => apply::<4>(&mut expect, l, r, $vert),
        Some((6, l, r)) if l > 0 => apply::<6>(&mut expect, l, r, $vert),
        Some((8, l, r)) if l > 0 => apply::<8>(&mut expect, l, r, $vert),
        Some((14, l, r)) if l > 0 => apply::<14>(&mut expect, l, r, $vert),
        _ => {}
      }
      {
        let mut p = PlaneRegionMut::from_slice(&mut data, &cfg, ALL);
        $f(&e.state, &e.blocks.as_tile_blocks(), e.bo, &mut p, $pli, 10, $xdec, $ydec);
      }
      assert!(data == expect, "an edge is filtered exactly when and how the specification says");
    }
  )*};
}
pick_contract! {
  h_pick_v_luma filter_v_edge true 0 0 0
  h_pick_h_luma filter_h_edge false 0 0 0
  h_pick_v_420 filter_v_edge true 1 1 1
  h_pick_h_420 filter_h_edge false 2 1 1
  h_pick_v_422 filter_v_edge true 2 1 0
  h_pick_h_422 filter_h_edge false 1 1 0
  h_pick_v_444 filter_v_edge true 1 0 0
  h_pick_h_444 filter_h_edge false 2 0 0
}
/// The level search measures the edges and the filter lengths that will be
/// filtered.
macro_rules! measure_contract {
  ($($name:ident $f:ident $vert:literal $pli:literal $xdec:literal $ydec:literal)*) => {$(
    #[cfg(kani)]
    #[kani::proof]
    #[kani::unwind(18)]
    #[kani::stub(sse_size4, t_4)]
    #[kani::stub(sse_size6, t_6)]
    #[kani::stub(sse_size8, t_8)]
    #[kani::stub(sse_size14, t_14)]
    pub(crate) fn $name() {
      let e = any_edge($xdec, $ydec, $vert);
      let want = spec_edge(&e, $pli, $xdec, $ydec, $vert);
      plane!(data cfg $xdec, $ydec);
      plane!(data2 cfg2 $xdec, $ydec);
      unsafe { CALL = None; CALLS = 0; }
      let mut tally = [0; MAX_LOOP_FILTER + 2];
      let p = PlaneRegion::from_slice(&data, &cfg, ALL);
      let s = PlaneRegion::from_slice(&data2, &cfg2, ALL);
      $f(&e.blocks.as_tile_blocks(), e.bo, &p, &s, &mut tally, $pli, 10, $xdec, $ydec);
      let got = unsafe { CALL };
      ensure!(unsafe { CALLS } == want.is_some() as usize, "an edge is measured exactly when it may be filtered");
      if let (Some(g), Some(w)) = (got, want) {
        ensure!(g.3 == $vert, "in the direction of the edge");
        ensure!(g.0 == w.0, "measured with the filter length that will be used");
        ensure!(g.2 == w.2, "samples on both sides of the edge");
      }
      reach!(want.is_some() && !e.cur.skip && e.prev.skip, "measured");
      core::mem::forget(e);
    }
    #[cfg(not(kani))]
    pub(crate) fn $name() {
      let e = any_edge($xdec, $ydec, $vert);
      let want = spec_edge(&e, $pli, $xdec, $ydec, $vert);
      plane!(data cfg $xdec, $ydec);
      plane!(data2 cfg2 $xdec, $ydec);
      soft(&mut data);
      soft(&mut data2);
      let (mut tally, mut expect) = ([0; MAX_LOOP_FILTER + 2], [0; MAX_LOOP_FILTER + 2]);
      let p = PlaneRegion::from_slice(&data, &cfg, ALL);
      let s = PlaneRegion::from_slice(&data2, &cfg2, ALL);
      if let Some((n, _, r)) = want {
        let a = Area::Rect { x: r.x, y: r.y, width: r.width, height: r.height };
        let (p, s) = (p.subregion(a), s.subregion(a));
        match n {
          4 => sse_size4(&p, &s, &mut expect, !$vert, 10),
          6 => sse_size6(&p, &s, &mut expect, !$vert, 10),
          8 => sse_size8(&p, &s, &mut expect, !$vert, 10),
          _ => sse_size14(&p, &s, &mut expect, !$vert, 10),
        }
      }
      $f(&e.blocks.as_tile_blocks(), e.bo, &p, &s, &mut tally, $pli, 10, $xdec, $ydec);
      assert!(tally == expect, "an edge is measured exactly when and how it will be filtered");
    }
  )*};
}
measure_contract! {
  h_measure_v_luma sse_v_edge true 0 0 0
  h_measure_h_luma sse_h_edge false 0 0 0
  h_measure_v_420 sse_v_edge true 1 1 1
  h_measure_h_420 sse_h_edge false 2 1 1
}

// ---- the order of the edges -------------------------------------------------
/// Side of the grid, in 4x4 blocks.
const G: usize = 7;
#[cfg(kani)]
static mut V: [[bool; G]; G] = [[false; G]; G];
#[cfg(kani)]
static mut H: [[bool; G]; G] = [[false; G]; G];
/// Edges of each direction in the frame: columns, rows (in units of the
/// plane's own 4x4 blocks), subsampling.
#[cfg(kani)]
static mut DIM: (usize, usize, usize, usize) = (0, 0, 0, 0);
#[cfg(kani)]
fn order_v<T: Pixel>(
  _d: &DeblockState, _b: &TileBlocks, bo: TileBlockOffset,
  _p: &mut PlaneRegionMut<T>, _pli: usize, _bd: usize, xdec: usize, ydec: usize,
) {
  unsafe {
    assert!((xdec, ydec) == (DIM.2, DIM.3), "subsampling handed on");
    assert!(bo.0.x & xdec == 0 && bo.0.y & ydec == 0, "on the plane's grid");
    let (x, y) = (bo.0.x >> xdec, bo.0.y >> ydec);
    assert!(x >= 1 && x < DIM.0 && y < DIM.1, "an edge of the frame");
    assert!(!V[y][x], "each vertical edge once");
    assert!(x == 1 || V[y][x - 1], "vertical edges from left to right");
    V[y][x] = true;
  }
}
#[cfg(kani)]
fn order_h<T: Pixel>(
  _d: &DeblockState, _b: &TileBlocks, bo: TileBlockOffset,
  _p: &mut PlaneRegionMut<T>, _pli: usize, _bd: usize, xdec: usize, ydec: usize,
) {
  unsafe {
    assert!((xdec, ydec) == (DIM.2, DIM.3), "subsampling handed on");
    assert!(bo.0.x & xdec == 0 && bo.0.y & ydec == 0, "on the plane's grid");
    let (x, y) = (bo.0.x >> xdec, bo.0.y >> ydec);
    assert!(x < DIM.0 && y >= 1 && y < DIM.1, "an edge of the frame");
    assert!(!H[y][x], "each horizontal edge once");
    assert!(y == 1 || H[y - 1][x], "horizontal edges from top to bottom");
    // Samples up to 7 away from the edge are read: vertical edges whose
    // filtered samples overlap them come first (7.14.1: all of them do).
    let mut vy = y.saturating_sub(2);
    while vy <= y + 1 && vy < DIM.1 {
      let mut vx = x.saturating_sub(1).max(1);
      while vx <= x + 2 && vx < DIM.0 {
        assert!(V[vy][vx], "vertical edges nearby are filtered before");
        vx += 1;
      }
      vy += 1;
    }
    H[y][x] = true;
  }
}
#[cfg(kani)]
static mut MIS: (usize, usize) = (0, 0);
#[cfg(kani)]
fn mi_cols<'a>(_b: &TileBlocks<'a>) -> usize where 'a: 'a { unsafe { MIS.0 } }
#[cfg(kani)]
fn mi_rows<'a>(_b: &TileBlocks<'a>) -> usize where 'a: 'a { unsafe { MIS.1 } }
fn order_case(state: &DeblockState, pli: usize, xdec: usize, ydec: usize, w: usize, h: usize) {
  #[cfg(kani)]
  unsafe {
    // 7.14.1, 7.14.2: edges of the plane's grid whose luma position is inside
    let (cols, rows) = (w.div_ceil(4 << xdec), h.div_ceil(4 << ydec));
    V = [[false; G]; G];
    H = [[false; G]; G];
    DIM = (cols, rows, xdec, ydec);
    // MiCols and MiRows (5.9.9)
    MIS = (2 * ((w + 7) >> 3), 2 * ((h + 7) >> 3));
    let blocks = FrameBlocks::new(1, 1);
    let mut data = [0u16; 4];
    let cfg = PlaneConfig { stride: 2, alloc_height: 2, width: 2, height: 2,
      xdec, ydec, xpad: 0, ypad: 0, xorigin: 0, yorigin: 0 };
    {
      let mut p = PlaneRegionMut::from_slice(&mut data, &cfg, Rect { x: 0, y: 0, width: 2, height: 2 });
      deblock_plane(state, &mut p, pli, &blocks.as_tile_blocks(), w, h, 10);
    }
    let mut y = 0;
    while y < rows {
      let mut x = 0;
      while x < cols {
        ensure!(V[y][x] == (x > 0), "every vertical edge is visited");
        ensure!(H[y][x] == (y > 0), "every horizontal edge is visited");
        x += 1;
      }
      y += 1;
    }
    core::mem::forget(blocks);
  }
}
macro_rules! order_contract {
  ($($name:ident $pli:literal $xdec:literal $ydec:literal $(($w:literal, $h:literal))+;)*) => {$(
    #[cfg(kani)]
    #[kani::proof]
    #[kani::unwind(9)]
    #[kani::stub(TileBlocks::cols, mi_cols)]
    #[kani::stub(TileBlocks::rows, mi_rows)]
    #[kani::stub(filter_v_edge, order_v)]
    #[kani::stub(filter_h_edge, order_h)]
    pub(crate) fn $name() {
      let mut state = any_state();
      state.levels = [1; 4];
      $( order_case(&state, $pli, $xdec, $ydec, $w, $h); )*
      reach!(unsafe { H[1][1] }, "filtered");
    }
    #[cfg(not(kani))]
    pub(crate) fn $name() {}
  )*};
}
order_contract! {
  h_order_luma 0 0 0 (16, 16) (24, 20) (13, 23);
  h_order_luma2 0 0 0 (4, 16) (5, 9) (1, 2) (21, 4) (8, 24);
  h_order_420 1 1 1 (32, 28) (31, 33);
  h_order_420b 1 1 1 (1, 48) (9, 12) (12, 4) (36, 8) (8, 17) (16, 16);
  h_order_422 2 1 0 (20, 12) (9, 24);
  h_order_422b 2 1 0 (36, 16) (4, 9) (12, 8);
  h_order_444 1 0 0 (9, 9) (3, 24) (15, 16);
}
/// 7.14.1: a plane whose levels are 0 is left alone.
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(filter_v_edge, order_v)]
#[kani::stub(filter_h_edge, order_h)]
pub(crate) fn h_off() {
  let state = any_state();
  let pli: usize = any();
  assume(pli < 3);
  assume(if pli == 0 { state.levels[0] == 0 && state.levels[1] == 0 } else { state.levels[pli + 1] == 0 });
  unsafe { DIM = (0, 0, 0, 0); }
  let blocks = FrameBlocks::new(2, 2);
  let mut data = [0u16; 4];
  let cfg = PlaneConfig { stride: 2, alloc_height: 2, width: 2, height: 2,
    xdec: 0, ydec: 0, xpad: 0, ypad: 0, xorigin: 0, yorigin: 0 };
  {
    let mut p = PlaneRegionMut::from_slice(&mut data, &cfg, Rect { x: 0, y: 0, width: 2, height: 2 });
    deblock_plane(&state, &mut p, pli, &blocks.as_tile_blocks(), 8, 8, 10);
  }
  reach!(pli == 2, "left alone");
  core::mem::forget(blocks);
}
#[cfg(not(kani))]
pub(crate) fn h_off() {}
