prop("R01", "Decoders reconstruct exactly the frames the encoder reports",
 "For every valid configuration and every input video, the packets of a stream fed in order to a conforming AV1 decoder decode without error, each packet shows exactly one frame of the configured size, bit depth and chroma format, and that frame equals, sample for sample, the reconstruction delivered with the packet. No valid configuration makes encoding panic or fail.",
 ["inputs", "configurations"], "all configurations (speed presets and individual tools, sizes, bit depths, chroma formats, quantizers, tiles, GOP structures, rate control) and all pictures",
 "The repository's encode/decode tests run random pictures at a few dozen settings one switch at a time; a mismatch usually needs two or three settings and a content class together, and drift appears only when a later frame references the damaged one.",
 ["src/encoder.rs", "src/rdo.rs", "src/context/", "src/header.rs", "src/lrf.rs", "src/cdef.rs", "src/deblock.rs", "src/predict.rs", "src/mc.rs", "src/transform/", "src/quantize/"],
 [("block coding and reconstruction", "src/encoder.rs"), ("in-loop filters", "src/deblock.rs, src/cdef.rs, src/lrf.rs"), ("symbol and header writing", "src/context/, src/header.rs, src/ec.rs")],
 ["Packet::data", "Packet::rec"],
 "exhaustive deviation-bounded exploration of the configuration lattice x content alphabet on the real encoder, decoded by two independent decoders",
 "Every configuration within two deviations of the base, every format x quantizer x content product, every small size; pictures outside the content alphabet are not covered. Trusts libdav1d (strict) and libaom as the AV1 decoding process.")

prop("R02", "The send/receive/flush protocol delivers every frame exactly once, in order",
 "For every sequence of send, receive and flush calls, the encoder accepts a frame exactly while it is not flushed, and delivers one packet per accepted frame, in input order, numbered from 0, with that frame's own source picture, reconstruction and opaque data. It reports 'need more data' only while it is not flushed and holds no more frames than its configured lookahead and reordering need, 'limit reached' exactly when it is flushed and everything was delivered (and from then on for ever), and it makes progress otherwise. It neither keeps more frames alive than are pending or referenced, nor any after it is dropped.",
 ["histories", "configurations"], "all interleavings of send (one or several frames), receive (once or until it waits) and flush, at every frame structure, lookahead and rate mode",
 "The tests send everything, then receive everything; the states where the reordering group, the lookahead and the flush meet are reached only by particular interleavings and lengths.",
 ["src/api/context.rs", "src/api/internal.rs"],
 [("frame queue and limits", "src/api/context.rs: send_frame, receive_packet"), ("coding order, group boundaries and end of stream", "src/api/internal.rs")],
 ["Context::send_frame", "Context::receive_packet", "Context::flush"],
 "exhaustive enumeration of operation histories on the real encoder against a reference model of the protocol",
 "Every history over {send, send five, receive, receive until it waits, flush} up to the depth, each followed to its end, at every single (and in part double) deviation of the configuration; deeper histories are not covered.")

prop("R03", "The stream depends only on the configuration and the frames",
 "The packets and reconstructions of an encode depend only on the configuration and on the sequence of frames with their parameters. Without rate control, when and how often packets are received does not matter; repeating an encode, running another encoder in the same process at any pace, the memory layout, padding or sharing of the frame buffers, and attaching empty frame parameters never change a byte (with rate control: for equal call histories).",
 ["histories", "configurations"], "all interleavings of receives with sends, all merges of two encoders, all buffer layouts, over the configuration deviations",
 "Each test encodes one history; the dependence on look-ahead state or buffer contents only shows when the same input is encoded through a different history.",
 ["src/api/internal.rs", "src/api/context.rs", "src/frame/", "src/scenechange/"],
 [("look-ahead data", "src/api/internal.rs: compute_lookahead_data"), ("border extension of input", "src/frame/mod.rs, src/api/context.rs")],
 ["Packet::data", "Packet::rec"],
 "exhaustive enumeration of receive patterns, merges and layouts on the real encoder, compared with the send-all run",
 "All receive patterns {0, 1, all} per frame for every single deviation, the coarse patterns for all pairs; two encoders in every merge of four frames each.")

prop("R04", "Thread schedules and thread counts never show in the stream",
 "For every number of threads and every order in which the encoder's parallel tasks run or preempt each other (tile encoding, loop filtering, look-ahead, scene detection, and those of another encoder in the same process), the packets and reconstructions are those of a single-threaded encode, and the encode finishes.",
 ["schedules", "configurations"], "all task orders and preemptions, all thread counts, tile layouts and configurations",
 "Test runs sample one schedule per run of an oblivious scheduler; a race or an order-dependent reduction needs a particular one.",
 ["src/encoder.rs", "src/tiling/", "src/api/internal.rs", "src/api/config/mod.rs", "src/scenechange/"],
 [("parallel tiles", "src/encoder.rs: encode_tile_group"), ("parallel look-ahead", "src/api/internal.rs, src/me.rs"), ("thread pool", "src/api/config/mod.rs: new_thread_pool")],
 ["Packet::data", "Packet::rec"],
 "stateless exploration of the task schedules of the real encoder under a controlled scheduler that stands in for rayon's pool, up to a deviation bound",
 "Every schedule with at most one (in part two) deviations from the default order; scheduling points are task starts, steals, joins, locks and the encoder's instrumented functions. Data races inside unsafe code between two points are only seen through the stream.")

prop("R05", "Every CPU feature level produces the same stream",
 "For every configuration and every input video, the packets and reconstructions are the same at every CPU feature level: the assembly never changes what the portable code produces. 8-bit video gives the same stream whether its pixels are stored in 8 or in 16 bits.",
 ["inputs", "configurations"], "all feature levels the machine has, all configurations and pictures",
 "The kernel tests compare each kernel on a few random inputs and sizes; the kernels are selected by tables over block shape, transform type, bit depth and position that no test walks through the encoder.",
 ["src/asm/", "src/cpu_features/", "src/dist.rs", "src/transform/", "src/mc.rs", "src/predict.rs", "src/cdef.rs", "src/lrf.rs", "src/quantize/"],
 [("kernel selection tables", "src/asm/x86/, src/cpu_features/x86.rs"), ("portable kernels", "src/mc.rs, src/predict.rs, src/dist.rs, src/transform/, src/quantize/mod.rs, src/cdef.rs")],
 ["Packet::data", "Packet::rec"],
 "exhaustive deviation-bounded exploration of configurations and contents at every feature level on the real encoder, compared byte for byte",
 "Deviations of the configuration x content alphabet at all levels and in both pixel types; instruction sets the machine lacks, and other architectures, are not exercised.")

prop("R06", "The channel interface delivers what the polled interface does, always finishes",
 "For every schedule of the client's and the encoder's threads, an encode through the channel interface finishes (also when the client drops either end at any time or feeds bad or short statistics), never panics, and delivers the packets the polled interface would, with the same statistics; with parallel groups, the packets come in order, decode to their reconstructions, carry their own source, parameters and film grain, have key frames at the distances asked for, and do not depend on the schedule. A channel is refused exactly when its configuration is invalid or its rate control is of another kind.",
 ["schedules", "fault_sequences", "configurations"], "all interleavings of sender, receiver, encoder and reassembly tasks; all points at which a client drops an end; pool sizes and slot counts",
 "The channel interface has a handful of tests that run one schedule each and never drop an end early.",
 ["src/api/channel/", "src/api/channel/by_gop.rs", "src/api/internal.rs"],
 [("single encoder task", "src/api/channel/mod.rs"), ("parallel groups, dispatch and reassembly", "src/api/channel/by_gop.rs"), ("pass data channels", "src/api/channel/data.rs, src/rate.rs")],
 ["Config::new_channel", "Config::new_multipass_channel", "Config::new_by_gop_channel", "PacketReceiver", "FrameSender"],
 "stateless exploration of the schedules of the real channel code under a controlled scheduler that stands in for rayon and crossbeam, up to a deviation bound",
 "Schedules with a bounded number of deviations for up to six frames, pools of up to five threads and up to three slots. Deadlocks on pools that are smaller than slots + 2 are recorded as known findings, one per pool and slot count.")

prop("R07", "Key frames are where they must be, and decoding can start at each",
 "The first frame, every frame forced to be a key frame, and every frame at the maximum interval after the last key frame is a key frame; no other frame is one unless scene detection is on, and never closer than the minimum interval (except forced). Every packet announced as a key frame carries a sequence header, and a decoder that starts at it reproduces all later frames exactly; the announced frame types are those in the stream, and switch frames come at their configured interval.",
 ["histories", "configurations", "inputs"], "all subsets of forced frames, intervals, frame structures, lookaheads, lengths and detection modes",
 "Tests cover a few intervals without reordering and compare frame types only; decoding from a later key frame is never tried, and stale references only show there.",
 ["src/api/internal.rs", "src/scenechange/", "src/header.rs", "src/encoder.rs"],
 [("key frame decision", "src/api/internal.rs: next_keyframe_input_frameno, build_output_frameno_..."), ("scene detection", "src/scenechange/mod.rs"), ("sequence header emission", "src/encoder.rs, src/header.rs")],
 ["Packet::frame_type", "Packet::data", "Packet::rec"],
 "exhaustive enumeration of forced-key histories x intervals x structures on the real encoder, decoded from every key frame",
 "All subsets of forced frames among ten, six maximum and three minimum intervals; all lengths to 20 against all intervals to 11; scene detection over the content alphabet.")

prop("R08", "The headers say what the configuration says, in a well-formed stream",
 "Every packet is one temporal unit: a delimiter, a sequence header exactly in key packets, at most one shown frame, sized and ordered as the standard demands. The sequence and frame headers and the container's configuration record state the configured size, profile, bit depth, subsampling, sample position, level, colour description, range, timing, still-picture flag, render size, tiles and tools, and the packet's frame type and quantizer are those of the frame it shows.",
 ["configurations"], "all sizes, formats, colour codes, levels, timings and tool switches",
 "Tests check that streams decode, which a wrong but consistent header survives; the container record is checked for one configuration.",
 ["src/header.rs", "src/api/config/", "src/api/context.rs", "src/encoder.rs", "src/api/color.rs", "src/levels.rs"],
 [("sequence and frame header writers", "src/header.rs"), ("container record", "src/api/context.rs: container_sequence_header"), ("sequence parameters", "src/encoder.rs: Sequence::new")],
 ["Packet::data", "Context::container_sequence_header", "Packet::qp", "Packet::frame_type"],
 "exhaustive deviation-bounded exploration of the header-relevant configuration space on the real encoder, headers parsed by libdav1d and by an OBU splitter and compared with an independent expectation",
 "Every pair of deviations, every colour code, sizes around every field-width boundary for still pictures; libdav1d's header parser is trusted.")

prop("R09", "Metadata arrives exactly once, unchanged, with its own frame",
 "Every T.35 item and every opaque value attached to an input frame comes out exactly once, byte for byte, in the packet that shows that frame, whatever the frame structure; content light and mastering display values are in every key packet and nowhere else. Every frame whose time lies in a segment of the film grain table is decoded with exactly that segment's parameters (with the segment's seed at key frames and a changing seed after them), and every other frame without grain.",
 ["histories", "configurations", "inputs"], "all subsets of frames with metadata, all payload bytes and lengths, all frame structures, all grain parameters and segment boundaries",
 "One test attaches one T.35 item to the first frame and two run a grain table over a whole video; reordered frames, boundaries and boundary lengths are never tried.",
 ["src/api/internal.rs", "src/header.rs", "src/encoder.rs", "src/api/config/encoder.rs", "src/api/lookahead.rs"],
 [("metadata queue", "src/api/internal.rs: t35_q, opaque_q"), ("metadata OBUs and film grain syntax", "src/header.rs"), ("grain segment choice and seed", "src/encoder.rs: frame_timestamp, film_grain_params")],
 ["Packet::data", "Packet::opaque"],
 "exhaustive enumeration of metadata placements, payloads and grain tables on the real encoder against an independent expectation, read back by an OBU parser and libdav1d",
 "All subsets of nine frames in ten frame structures; all payload lengths to 300 and around the length-coding boundaries; all country codes; grain parameter and boundary products.")

prop("R10", "Two-pass statistics: any way of feeding, any damage",
 "For every configuration with rate control, both interfaces deliver the same first-pass statistics (one record per coded or shown frame, and a summary that agrees with them), and a second pass gives the same stream however the statistics are cut into pieces and through either interface. Statistics that are truncated, damaged, reordered or of another video are refused or make a stream that decodes exactly; they never make the encoder panic, hang or lose a frame.",
 ["inputs", "histories", "fault_sequences", "configurations"], "all ways to cut the statistics, all truncations, all single-byte and pairs of field corruptions, all pairings of statistics and videos, over the configuration deviations",
 "The tests never run a second pass; wrong accounting shows only at window edges, and damaged statistics reach the rate model's arithmetic directly.",
 ["src/rate.rs", "src/api/context.rs", "src/api/internal.rs", "src/api/config/rate.rs"],
 [("statistics output", "src/rate.rs: emit_frame_data, emit_summary"), ("statistics input", "src/rate.rs: twopass_in, parse_summary, parse_frame_data_packet"), ("use", "src/rate.rs: select_qi, update_state")],
 ["Context::twopass_out", "Context::twopass_in", "Context::rc_receive_pass_data", "Context::rc_send_pass_data"],
 "exhaustive enumeration of feeding patterns and of faults in the statistics on the real encoder",
 "Feeding patterns with one or two alternating chunk sizes; one damaged byte or field anywhere, or two damaged fields; short small videos. Streams of different call histories are compared only by decoding.")

prop("R11", "A configuration is refused with the documented error, or it works",
 "Every configuration that breaks a documented limit (size, bit depth, aspect ratio, rates, timing, key frame interval, lookahead, tiles, rate control, level limits of the AV1 standard, matrix/format combinations) is refused when a context is made, with the error naming it; every other configuration is accepted, at its extremes too, and then encodes into a stream that decodes exactly. Validation never panics.",
 ["configurations"], "all combinations of boundary and extreme values of the configuration fields",
 "The tests cover a few invalid settings one at a time; limits that depend on two or three fields together (level, size, frame rate, aspect ratio) and accepted extremes are not exercised.",
 ["src/api/config/mod.rs", "src/api/config/encoder.rs", "src/levels.rs", "src/encoder.rs", "src/tiling/tiler.rs"],
 [("validation", "src/api/config/mod.rs: Config::validate"), ("level limits", "src/levels.rs, src/api/config/mod.rs"), ("use of the accepted values", "src/encoder.rs: Sequence::new, src/rate.rs")],
 ["Config::validate", "Config::new_context", "InvalidConfig"],
 "exhaustive enumeration of boundary values (all pairs and selected products of fields) on the real validation against an independent table of limits, bound by encoding and decoding the accepted ones",
 "Boundary values of every field, all pairs of them, products within related groups of fields; Annex A limits from an independent table. Accepted configurations are encoded for a few frames where the picture is small enough.")

prop("R12", "Tile layouts are legal, as requested, and those of the stream",
 "For every picture size, chroma format, frame rate and tile request, the announced tile layout obeys the limits of the AV1 standard and can be expressed in a frame header, has the requested rows and columns (or at least the requested number of tiles) as far as these limits allow, and is the layout of the stream's frames, which decode exactly.",
 ["configurations"], "all picture sizes in superblocks, all tile requests, subsampling, frame rates",
 "The tiling tests check a few sizes without 4:2:2 or rate limits, and no test encodes pictures that need more than one tile.",
 ["src/tiling/tiler.rs", "src/encoder.rs", "src/header.rs", "src/api/config/mod.rs"],
 [("layout", "src/tiling/tiler.rs: TilingInfo::from_target_tiles"), ("splitting to a number of tiles", "src/encoder.rs: Sequence::new"), ("tile syntax", "src/header.rs")],
 ["Config::tiling_info", "Packet::data"],
 "explicit enumeration of layouts over sizes x requests against the limits of the standard, bound to the encoder by encoding and decoding a grid of sizes and requests",
 "Every size up to 80x80 superblocks plus boundary sizes up to 65535 for layouts; streams for every size up to 10x6 superblocks and a few very wide or high ones.")

prop("R14", "Quantizer bounds hold and rate control meets its budget",
 "With a constant quantizer, the quantizer of every frame never falls when the setting rises. In bitrate mode, in one pass or two, every frame's quantizer lies between those of the constant quantizer encodes at the minimum and at the maximum set, and a steady video takes the bits asked for, as far as the quantizers reach.",
 ["configurations", "inputs", "histories"], "all bitrates, bounds, frame structures, reservoir delays, formats, passes; all 256 quantizers",
 "The rate control has no test beyond its logarithm tables; a bound that is applied to the wrong frame type or bit depth, or bits that are not accounted, shows only over several frames at particular rates.",
 ["src/rate.rs", "src/api/internal.rs"],
 [("choice of quantizers", "src/rate.rs: select_qi, calc_flat_quantizer"), ("accounting", "src/rate.rs: update_state, src/api/internal.rs: encode_normal_packet")],
 ["Packet::qp", "EncoderConfig::quantizer", "EncoderConfig::min_quantizer", "EncoderConfig::bitrate"],
 "exhaustive deviation-bounded exploration of rate settings on the real encoder, compared with constant quantizer encodes",
 "Every setting within two deviations for 14 pairs of bounds; budgets for steady synthetic videos of 60 frames within a factor, where they are at least three times what the largest quantizer takes.")

prop("R13", "What the entropy coder writes, a decoder of the standard reads back",
 "For every sequence of symbols, bits and integers, for every probability table the encoder has or adapts to, and across every rollback of a checkpoint, the bytes the range coder returns decode, by the process of section 8.2 of the standard, to the same sequence with the same adapted tables; the size estimate of the counting coders agrees with what is written.",
 ["inputs", "histories"], "all adaptation steps of all table values, all integer code values, all operation sequences up to a depth, all neighbouring tables rolled back",
 "Tests encode a handful of symbols; carries over long runs, extreme probabilities, table sizes and rollbacks combine into far more states than encodes of real pictures visit, and an error desynchronises a decoder only there.",
 ["src/ec.rs", "src/context/cdf_context.rs", "src/header.rs"],
 [("range coder", "src/ec.rs: WriterBase, done, symbol_with_update, update_cdf"), ("rollback of tables", "src/context/cdf_context.rs: CDFContextLog"), ("header codes", "src/ec.rs: BCodeWriter")],
 ["rav1e::bench::ec::WriterEncoder", "bitstream"],
 "exhaustive enumeration of operation sequences and table states on the real coder, decoded by an independent decoder written from the standard",
 "All adaptation states of single entries, all tables at eight quantizers, sequences up to four operations (deep: five) of an alphabet with extreme probabilities; long sequences only around carries.")
prop("R15", "The C interface does what the Rust interface does",
 "Every call of the C interface has the effect its documentation states and the Rust interface gives for the same settings and frames: settings are accepted or refused as documented, statuses, packets, headers, pass data and pictures are the same, opaque data is returned or destroyed exactly once, and no argument a caller may pass ends the process.",
 ["configurations", "histories", "faults"], "all settings and pairs of settings, all call histories up to a depth, all sizes and formats of planes, all prefixes of pass data",
 "One unit test passes opaque data through; everything else behind the interface, used by every media framework, is reached by no test at all.",
 ["src/capi.rs", "src/api/context.rs", "src/rate.rs"],
 [("settings", "src/capi.rs: option_match"), ("framing of pass data", "src/capi.rs: decode_slice, rav1e_rc_receive_pass_data"), ("ownership", "src/capi.rs: FrameOpaque, rav1e_send_frame, From<rav1e::Packet>")],
 ["rav1e_config_parse", "rav1e_send_frame", "rav1e_receive_packet", "rav1e_rc_send_pass_data", "rav1e_twopass_out"],
 "exhaustive enumeration of call histories and settings made through both interfaces in lockstep",
 "Every pair of about 110 settings, every history of four to five calls out of eight kinds in four frame structures; the C functions are called with the C ABI from Rust, the generated header is not compiled.")

prop("R16", "The command line programs write what the library encodes",
 "For every combination of arguments and every y4m input, rav1e and rav1e-ch either refuse with a message or write an IVF file (and reconstruction, statistics, report, saved configuration) that is, byte for byte, what the library produces for the configuration the arguments document: every frame of the chosen range once, with its time stamp. An input that ends or is damaged anywhere, a signal at any moment, statistics cut at any byte or an existing output file lead to a complete file of the frames read so far or to a refusal, never to a crash, a hang or a loss.",
 ["configurations", "inputs", "crash points", "faults"], "all pairs of arguments, all y4m colour tags, sizes, rates and lengths, all cut points of input and statistics, signals after every frame",
 "No test runs the programs at all: argument handling, y4m input, IVF output, two-pass files, signal handling and reports are code that only ever runs in a process.",
 ["src/bin/rav1e.rs", "src/bin/rav1e-ch.rs", "src/bin/common.rs", "src/bin/stats.rs", "src/bin/decoder/", "src/bin/muxer/", "ivf/src/lib.rs"],
 [("arguments to configuration", "src/bin/common.rs: parse_cli, parse_config"), ("encode loops", "src/bin/rav1e.rs: process_frame, src/bin/rav1e-ch.rs: do_encode"), ("reports", "src/bin/stats.rs"), ("container", "ivf/src/lib.rs, src/bin/muxer/ivf.rs")],
 ["IVF output", "exit status", "reconstruction y4m", "two-pass statistics file", "printed summary"],
 "exhaustive enumeration of argument pairs, input cut points and signal points on the real programs, compared with the library",
 "Every pair of about 80 argument values on small videos, cut points of three frames, statistics of three frames at every byte (deep: fourteen frames); wall-clock dependent figures of the report are not judged, and other metrics than PSNR are only run.")

prop("R17", "Every picture is coded to the fidelity of its quantizer",
 "For every configuration and every input video, each frame that is shown is the source frame of the same position, everywhere in the picture and in every plane: the mean squared error over each plane and each 4x4 block is bounded by a fixed multiple of the square of the quantizer step of the frame (plus the small change in-loop filters may make), and without rate control that step is bounded by the one of the quantizer asked for. No part of a picture is left uncoded, and no other picture is coded in its place.",
 ["inputs", "configurations"], "all configurations (speed presets, tools, sizes, bit depths, chroma formats, quantizers, tiles, frame structures) and all pictures",
 "The tests compare the encoder with a decoder, or check that something is encoded; an encoder that codes the wrong thing consistently passes them all. Losses at the picture's edges, in one plane or one bit depth need particular sizes and formats.",
 ["src/rdo.rs", "src/dist.rs", "src/quantize/", "src/transform/", "src/encoder.rs", "src/segmentation.rs", "src/deblock.rs", "src/cdef.rs", "src/lrf.rs"],
 [("distortion that decides what is coded", "src/dist.rs, src/rdo.rs: compute_distortion, compute_tx_distortion"), ("residue and quantizer", "src/encoder.rs: encode_tx_block, src/quantize/mod.rs"), ("segments and chroma offsets", "src/segmentation.rs, src/rate.rs")],
 ["decoded pictures", "quantizer in the frame header"],
 "exhaustive deviation-bounded exploration of the configuration lattice x content alphabet on the real encoder, decoded and compared with the source",
 "Formats x quantizers x contents in full, every position of the right and bottom edges within eight samples in every chroma format, every quantizer, every single switch from two bases. The bounds leave a factor of about two over what rate-distortion choices were seen to cost; a loss of quality within them is not seen. 64x64-only partitions are left out: their transforms code the low frequencies only. Trusts libdav1d.")
