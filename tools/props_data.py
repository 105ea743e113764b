prop("C01", "Entropy coder is lossless against the AV1 symbol decoder",
 "For any sequence of symbols with any legal cumulative distributions, the bytes produced by the entropy encoder, read by the symbol decoder of the AV1 specification, give back exactly these symbols. No internal state overflows on the way, whatever carries occur.",
 ["inputs", "histories"], "every symbol, distribution (2..16 symbols), coder state reachable by any history",
 "Tests encode a handful of fixed sequences; the renormalisation and carry cases depend on the whole history of ranges.",
 ["src/ec.rs"], [("interval computation", "src/ec.rs lr_compute"), ("renormalisation and carry", "src/ec.rs store/done")])
prop("C02", "Probability adaptation follows the AV1 process exactly",
 "After any symbol is coded, the adapted distribution equals the one the AV1 specification prescribes, for every alphabet size, starting distribution and counter, and stays a legal distribution; the symbol itself is coded with the distribution before adaptation. A mismatch would desynchronise every decoder.",
 ["inputs", "histories"], "every distribution, counter and symbol, alphabets of 2..16 symbols",
 "Tests adapt a few tables; a divergence at one counter value or alphabet size corrupts streams only after many symbols.",
 ["src/ec.rs", "src/context/cdf_context.rs"], [("adaptation", "src/ec.rs update_cdf"), ("coding with update", "src/ec.rs symbol_with_update")])
prop("C03", "Trial coding leaves no trace after rollback or replay",
 "Restoring a checkpoint returns an entropy writer, the adapted distributions and the block context to exactly the state they had when it was taken, whatever was coded in between; replaying a recorded tile feeds the encoder exactly the recorded tokens in order and empties the recorder.",
 ["histories", "inputs"], "every state and every sequence of coding steps between checkpoint and rollback",
 "Rate-distortion search interleaves checkpoints, coding and rollbacks in orders that tests cannot enumerate.",
 ["src/ec.rs", "src/context/cdf_context.rs", "src/context/block_unit.rs"],
 [("writer checkpoints", "src/ec.rs checkpoint/rollback"), ("CDF undo log", "src/context/cdf_context.rs CDFContextLog"), ("block context checkpoint", "src/context/block_unit.rs BlockContext")])
prop("C04", "Estimated bit costs equal the bits really spent",
 "The bit position reported by the counting, recording and real entropy writers advances identically for the same symbols and equals the coder's true position, never under-reported and exact to an eighth of a bit; the estimated cost of a symbol or variable-length code equals the cost of actually writing it.",
 ["inputs", "histories"], "every writer state, token, distribution and value",
 "Costs are only compared in aggregate by tests; a wrong cost still gives a decodable stream.",
 ["src/ec.rs"], [("counter/recorder/encoder storage", "src/ec.rs StorageBackend"), ("fractional position", "src/ec.rs frac_compute"), ("symbol cost", "src/ec.rs symbol_bits"), ("code length counts", "src/ec.rs count_*")])
prop("C05", "Variable-length codes decode back to the value written",
 "Every value written with a variable-length code - exponential Golomb, quasi-uniform, finite subexponential with reference, unsigned LEB128, quantizer deltas and little-endian fields - is returned by the AV1 specification's parsing process, which consumes exactly the bits written.",
 ["inputs"], "every legal value, range and reference",
 "Tests cover no more than a few values of one or two of these codes.",
 ["src/ec.rs", "src/header.rs"], [("tile data codes", "src/ec.rs write_golomb/quniform/subexp"), ("header codes", "src/ec.rs BCodeWriter"), ("lengths", "src/header.rs write_uleb128")])

prop("C06", "Quantization stays within rounding bounds of the true quotient",
 "Quantizing a transform coefficient never changes its sign, never overflows, yields a level that is the exact reciprocal-free quotient of the scaled coefficient with the chosen rounding offset, and reports an end-of-block position after which all levels are zero; every quantizer index, bit depth and transform size is covered.",
 ["inputs"], "every coefficient, quantizer and transform size",
 "Division is done by multiplication with a precomputed reciprocal; tests try a few divisors, and an error of one shows for isolated coefficients only.",
 ["src/quantize/mod.rs"], [("reciprocal division", "src/quantize/mod.rs divu_gen/divu_pair"), ("quantization", "src/quantize/mod.rs QuantizationContext::quantize")])
prop("C07", "Dequantization and quantizer tables are the decoder's",
 "The quantizer step for every index and bit depth is the AV1 specification's, coefficients are reconstructed by exactly the specification's dequantization formula for every transform size, and choosing an index for a requested step returns the index whose step is nearest on a logarithmic scale and never an index outside the legal range.",
 ["inputs"], "every index, bit depth, level and transform size",
 "A wrong table entry or shift for one size desynchronises the decoder's reconstruction without failing any test that does not compare it.",
 ["src/quantize/mod.rs", "src/quantize/tables.rs"], [("dequantization", "src/quantize/mod.rs rust::dequantize"), ("tables", "src/quantize/tables.rs"), ("index selection", "src/quantize/mod.rs select_qi")])
prop("C08", "Tile grids are legal for AV1 and cover the frame",
 "For every frame size and tile request the chosen tile grid covers the frame exactly, respects AV1's limits on tile width, area, rows and columns, and is computed without panicking; where a grid is signalled as uniform, the decoder derives the same tile sizes from the signalled logs.",
 ["inputs", "configurations"], "every frame size up to 65535 by 65535, frame rate and requested tile count, 4:2:0, 4:4:4 and 4:2:2",
 "Tests try a few resolutions; limits bite only for huge frames or high rates.",
 ["src/tiling/tiler.rs"], [("grid", "src/tiling/tiler.rs TilingInfo::from_target_tiles")])

prop("C09", "Frame reordering shows every input frame once, in order",
 "In every GOP, with and without reordering, each input frame is coded exactly once and shown exactly once in input order; hidden frames are shown later from the reference slot that still holds them; every reference a frame may use names a slot holding a nearby frame already coded, on the side its sign bias says, and a coded frame is stored in exactly the slots its header announces.",
 ["histories", "inputs"], "every group of every GOP, any start, length and keyframe position",
 "Tests run a few short clips; slot rotation and hint arithmetic depend on the position in arbitrarily long GOPs.",
 ["src/api/internal.rs", "src/encoder.rs"], [("pyramid", "src/api/internal.rs InterConfig"), ("references", "src/encoder.rs FrameInvariants::new_inter_frame"), ("slots", "src/encoder.rs update_rec_buffer")])
prop("C10", "Validation accepts exactly the configurations that can be coded",
 "A configuration is accepted exactly when its size, render size, aspect ratio, time base, tile counts, keyframe interval, lookahead, switch frames, timing and colour description can be coded, and, with a level, when the picture size and display rate are within that level's limits of the AV1 specification.",
 ["configurations"], "every value of every validated field, every level",
 "Tests try one bad value per field; level limits and combinations are not tested.",
 ["src/api/config/mod.rs", "src/levels.rs"], [("validation", "src/api/config/mod.rs Config::validate"), ("levels", "src/levels.rs"), ("render size", "src/api/config/encoder.rs render_size")])
prop("C11", "Sequence header and metadata decode back to the configuration",
 "For every valid configuration the sequence header OBU and the metadata OBUs, parsed as the AV1 specification prescribes, give back the configured profile, bit depth, chroma sampling, colour description, frame size, timing, tools and metadata payload, with well-formed OBU headers and size fields.",
 ["inputs", "configurations"], "every bit depth, sampling, colour description, frame size, time base and metadata value",
 "Tests parse the header of a handful of configurations; a field of the wrong width shifts everything after it only for some of them.",
 ["src/header.rs", "src/encoder.rs"], [("sequence header", "src/header.rs write_sequence_header"), ("colour", "src/header.rs write_color_config"), ("metadata", "src/header.rs write_metadata_obu"), ("construction", "src/encoder.rs Sequence::new")])
prop("C12", "Frame headers decode back to the frame's parameters",
 "Every frame header - key, intra-only, inter, switch, error-resilient and show-existing - parsed as the AV1 specification prescribes, gives back the frame's type, references, sizes, tile grid, quantizer, segmentation, deltas, loop filter, CDEF, loop restoration and skip-mode parameters, consuming exactly the bits written.",
 ["inputs", "configurations"], "every combination of frame type, flags and parameter values the encoder can hold",
 "Conditional fields interact; tests decode a few streams with default parameters, and a misplaced condition shows for one combination only.",
 ["src/header.rs", "src/encoder.rs"], [("frame header", "src/header.rs write_frame_header_obu"), ("loop filter", "src/header.rs write_deblock_filter_a"), ("segmentation", "src/header.rs write_segment_data"), ("skip mode", "src/encoder.rs Sequence::get_skip_mode_allowed")])
prop("C13", "Film grain parameters decode back and apply to the right frames",
 "The film grain parameters in a frame header, parsed as the AV1 specification prescribes, are those of the first grain segment whose time span contains the frame's time stamp, for every chroma sampling, with or without luma points and chroma-from-luma scaling; frames outside every segment, or never shown, carry none.",
 ["inputs", "configurations"], "every parameter value, chroma sampling and frame kind; small numbers of points and coefficients",
 "Tests never parse film grain back.",
 ["src/header.rs", "src/encoder.rs"], [("grain syntax", "src/header.rs write_frame_header_obu"), ("grain lookup", "src/encoder.rs film_grain_params")])

prop("C14", "Deblocking matches the AV1 loop filter",
 "For every pair of blocks, transform sizes, skip and intra state, filter level, bit depth and samples, each vertical and horizontal edge of a plane is filtered exactly when, with the length and level, and to the sample values the AV1 loop filter prescribes; vertical edges come before the horizontal edges they overlap; and the level search measures each edge with the very filter that will be applied.",
 ["inputs"], "every sample value of every filter length at 8, 10 and 12 bits, every block and transform size pair, every chroma sampling",
 "Tests decode short clips with one compiled-in kernel; sample values on the mask thresholds and odd block pairs are rare.",
 ["src/deblock.rs"], [("sample filters", "src/deblock.rs deblock_size14_inner"), ("edge selection", "src/deblock.rs deblock_size"), ("levels", "src/deblock.rs deblock_adjusted_level"), ("order", "src/deblock.rs deblock_plane"), ("search", "src/deblock.rs sse_h_edge")])

# ---- not applicable -------------------------------------------------------
na("C90", "Whole packets decode to the encoder's own reconstruction",
 "Any packet sequence produced for any valid configuration and input decodes without error in a conforming AV1 decoder, to exactly the reconstruction the encoder kept.",
 ["inputs", "configurations", "histories"], "every clip and configuration",
 "Tests decode a few short clips.",
 ["src/encoder.rs", "src/rdo.rs"], [("tile encoding", "src/encoder.rs encode_tile_group")],
 "End-to-end equality quantifies over whole-frame state (megabytes) and a full decoder model; no contract within reach of the verifier expresses it. Its components (entropy coding, adaptation, codes, headers, transforms, filters) are decided separately.")
na("C91", "Output does not depend on the number of threads",
 "For a fixed configuration the packets are byte-identical whatever the size of the thread pool and the schedule of its workers.",
 ["schedules", "configurations"], "every interleaving of rayon workers", "Tests run one schedule.",
 ["src/api/internal.rs", "src/encoder.rs"], [("tile parallelism", "src/encoder.rs encode_tile_group")],
 "The parallelism is rayon's, over closures on whole-tile state; Kani does not verify concurrent code and the tile closures are out of its reach.")
na("C92", "SIMD kernels agree with the portable code",
 "Each assembly or intrinsic kernel returns what the portable implementation returns on every input.",
 ["inputs"], "every input of every kernel", "Tests use random blocks.",
 ["src/asm"], [("dispatch", "src/asm")],
 "The kernels are hand-written assembly and vendor intrinsics, which no deductive verifier available here accepts.")
na("C93", "Channel API neither loses nor reorders frames and packets",
 "With the channel interface every frame sent is encoded and every packet is received once and in order, under any interleaving of sender, receiver and encoder threads.",
 ["schedules", "histories"], "every interleaving", "Tests run one interleaving.",
 ["src/api/channel"], [("channels", "src/api/channel/mod.rs")],
 "Concurrent code over crossbeam channels and threads is outside Kani; other families (schedule exploration) apply.")
na("C94", "C interface never corrupts memory",
 "Every call sequence respecting the documented ownership rules of the C interface is memory safe.",
 ["programs", "histories"], "every call sequence", "Tests exercise a handful of calls.",
 ["src/capi.rs"], [("C API", "src/capi.rs")],
 "Objects own whole encoder contexts; constructing one symbolically exceeds the verifier, and the ownership rules are the caller's.")
na("C95", "Scene change detection is deterministic and bounded in latency",
 "Keyframe placement depends only on the frames and the configuration.",
 ["inputs", "histories"], "every clip", "Tests use one clip.",
 ["src/scenechange/mod.rs"], [("scene change", "src/scenechange/mod.rs")],
 "The detector compares whole frames with floating-point scores; no contract short of re-executing it decides the statement.")
