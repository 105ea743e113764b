/// Fill every neighbour context the superblock at column `sbx` can touch (and
/// one column on each side) with arbitrary values.
fn havoc(bc: &mut BlockContext, sbx: usize, planes: usize, xdec: usize) {
  bc.cdef_coded = any();
  bc.left_partition_context = any_arr();
  bc.left_tx_context = any_arr();
  for p in 0..planes {
    bc.left_coeff_context[p] = any_arr();
    let xd = if p > 0 { xdec } else { 0 };
    for i in 0..(MIB_SIZE >> xd) {
      bc.above_coeff_context[p][(sbx >> xd) + i] = any();
    }
    if sbx > 0 {
      bc.above_coeff_context[p][(sbx >> xd) - 1] = any();
    }
  }
  for i in 0..MIB_SIZE / 2 {
    bc.above_partition_context[sbx / 2 + i] = any();
  }
  for i in 0..MIB_SIZE {
    bc.above_tx_context[sbx + i] = any();
  }
  if sbx > 0 {
    bc.above_tx_context[sbx - 1] = any();
    bc.above_partition_context[sbx / 2 - 1] = any();
  }
  if sbx + MIB_SIZE < COEFF_CONTEXT_MAX_WIDTH {
    bc.above_tx_context[sbx + MIB_SIZE] = any();
    bc.above_partition_context[(sbx + MIB_SIZE) / 2] = any();
  }
}
struct Snap {
  cdef: bool,
  left_part: [u8; MIB_SIZE >> 1],
  left_tx: [u8; MIB_SIZE],
  left_coeff: [[u8; MIB_SIZE]; 3],
  part: [u8; MIB_SIZE / 2 + 2],
  tx: [u8; MIB_SIZE + 2],
  coeff: [[u8; MIB_SIZE + 1]; 3],
}
fn snap(bc: &BlockContext, sbx: usize, planes: usize, xdec: usize) -> Snap {
  let mut s = Snap {
    cdef: bc.cdef_coded,
    left_part: bc.left_partition_context,
    left_tx: bc.left_tx_context,
    left_coeff: bc.left_coeff_context,
    part: [0; MIB_SIZE / 2 + 2],
    tx: [0; MIB_SIZE + 2],
    coeff: [[0; MIB_SIZE + 1]; 3],
  };
  let l = (sbx > 0) as usize;
  let r = (sbx + MIB_SIZE < COEFF_CONTEXT_MAX_WIDTH) as usize;
  for i in (1 - l)..MIB_SIZE / 2 + 1 + r {
    s.part[i] = bc.above_partition_context[sbx / 2 + i - 1];
  }
  for i in (1 - l)..MIB_SIZE + 1 + r {
    s.tx[i] = bc.above_tx_context[sbx + i - 1];
  }
  for p in 0..planes {
    let xd = if p > 0 { xdec } else { 0 };
    for i in (1 - l)..(MIB_SIZE >> xd) + 1 {
      s.coeff[p][i] = bc.above_coeff_context[p][(sbx >> xd) + i - 1];
    }
  }
  s
}
/// rollback() after arbitrary changes restores every neighbour context the
/// superblock of the checkpoint can change, and no other.
macro_rules! bc_contract {
  ($name:ident, $cs:expr, $planes:literal, $xdec:literal, $x:expr) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(20))]
    pub(crate) fn $name() {
      let mut blocks = FrameBlocks::new(1, 1);
      let mut tb = blocks.as_tile_blocks_mut();
      let mut bc = BlockContext::new(&mut tb);
      let x: usize = $x;
      let sbx = x / MIB_SIZE * MIB_SIZE;
      havoc(&mut bc, sbx, $planes, $xdec);
      let old = snap(&bc, sbx, $planes, $xdec);
      let y: usize = any();
      assume(y < 1024);
      let ck = bc.checkpoint(&TileBlockOffset(BlockOffset { x, y }), $cs);
      havoc(&mut bc, sbx, $planes, $xdec);
      let mid = snap(&bc, sbx, $planes, $xdec);
      bc.rollback(&ck);
      let new = snap(&bc, sbx, $planes, $xdec);
      ensure!(new.cdef == old.cdef, "cdef flag restored");
      ensure!(new.left_part == old.left_part, "left partition context restored");
      ensure!(new.left_tx == old.left_tx, "left transform context restored");
      for p in 0..$planes {
        ensure!(new.left_coeff[p] == old.left_coeff[p], "left coefficient context restored");
        let xd = if p > 0 { $xdec } else { 0 };
        for i in 1..(MIB_SIZE >> xd) + 1 {
          ensure!(new.coeff[p][i] == old.coeff[p][i], "above coefficient context restored");
        }
        ensure!(new.coeff[p][0] == mid.coeff[p][0], "other contexts untouched");
      }
      for i in 1..MIB_SIZE / 2 + 1 {
        ensure!(new.part[i] == old.part[i], "above partition context restored");
      }
      for i in 1..MIB_SIZE + 1 {
        ensure!(new.tx[i] == old.tx[i], "above transform context restored");
      }
      ensure!(
        new.part[0] == mid.part[0]
          && new.part[MIB_SIZE / 2 + 1] == mid.part[MIB_SIZE / 2 + 1]
          && new.tx[0] == mid.tx[0]
          && new.tx[MIB_SIZE + 1] == mid.tx[MIB_SIZE + 1],
        "other contexts untouched"
      );
      reach!(old.tx[1] != mid.tx[1], "changed in between");
    }
  };
}
const LAST: usize = COEFF_CONTEXT_MAX_WIDTH - 1;
bc_contract!(h_bc_420, ChromaSampling::Cs420, 3, 1, 3 * MIB_SIZE + 5);
bc_contract!(h_bc_422, ChromaSampling::Cs422, 3, 1, 5 * MIB_SIZE + 15);
bc_contract!(h_bc_444, ChromaSampling::Cs444, 3, 0, 3 * MIB_SIZE);
bc_contract!(h_bc_400, ChromaSampling::Cs400, 1, 0, LAST);
bc_contract!(h_bc_444_last, ChromaSampling::Cs444, 3, 0, LAST);
bc_contract!(h_bc_420_last, ChromaSampling::Cs420, 3, 1, LAST);
