ABS = "abstract interpretation of the LLVM IR (intervals, strides, relations, points-to), to a fixpoint"
ABS_NOTE = ("Sound over-approximation of every execution allowed by the entry points in /verif/harness; "
    "trusts clang's front end, the analyser of /verif/engine and the stated environment; contracts between "
    "the parts are asserted on one side and established on the other. ")

prop("P01", "Decoding any bytes never corrupts memory, faults or hangs",
    "For any supported configuration, any history of frames with any content and any size, and any lost "
    "frames, decoding only accesses the decoder memory (each part the buffers that are its own: side information, "
    "coefficients, overlap, history of samples), the given frame and the given sample buffer, and executes no undefined operation (out of bound index, integer overflow, invalid shift, division by zero, "
    "out of range conversion). Every call terminates.",
    ["inputs", "histories", "configurations"],
    "all 69 configurations of duration, rate, output rate and mode; any sequence of calls; any bytes and size",
    "tests decode a few valid frames of each configuration; the bytes of a received frame are controlled by the sender",
    ["src/lc3.c", "src/bits.c", "src/spec.c", "src/sns.c", "src/tns.c", "src/ltpf.c", "src/plc.c", "src/mdct.c", "src/bwdet.c"],
    [("refusal of invalid side information", "src/lc3.c decode()"), ("bounds of the spectrum", "src/spec.c lc3_spec_decode()"),
     ("ring buffer of the samples", "src/lc3.c complete()"), ("concealment of frames in error", "src/plc.c lc3_plc_synthesize()")],
    ["lc3_decode()"], ABS, "proof",
    ABS_NOTE + "Sample formats and strides 1 and 2 vary over the configurations in the quick tier, all combinations in the thorough tier.",
    state=[("decoder state", "offsets in the sample buffer, postfilter and concealment state", "include/lc3_private.h struct lc3_decoder")])

prop("P02", "Encoding any samples never corrupts memory or hangs",
    "For any supported configuration, any history of frames with any samples and any accepted size, with the long term "
    "postfilter enabled or not, encoding only accesses the encoder memory, the given samples (never modified) and the "
    "bytes of the frame. Every call terminates, and the integer processing (attack detection, resampling, pitch "
    "analysis) has no overflow, invalid shift or division by zero.",
    ["inputs", "histories", "configurations"],
    "all 69 configurations of duration, rate, input rate and mode; any sequence of calls; any samples and size",
    "tests encode a few signals; full scale, silent or noisy signals that drive indexes and accumulators to their limits are not sampled",
    ["src/lc3.c", "src/attdet.c", "src/ltpf.c", "src/energy.c", "src/bwdet.c", "src/sns.c", "src/tns.c", "src/spec.c", "src/mdct.c"],
    [("history of samples", "src/lc3.c load_s16(), analyze()"), ("bits estimation and quantization", "src/spec.c lc3_spec_analyze()"),
     ("resampling and pitch search", "src/ltpf.c lc3_ltpf_analyse()"), ("grid of the bandwidths", "src/bwdet.c lc3_bwdet_run()")],
    ["lc3_encode()"], ABS, "proof",
    ABS_NOTE + "Not covered: conversions of floating-point values to integers, that assume samples in the documented range, and the "
    "indexes read in the tables by the vector quantizer of the scale factors.",
    state=[("encoder state", "history of samples, attack, pitch and bit reservoir state", "include/lc3_private.h struct lc3_encoder")])

prop("P03", "The bitstream reader and writer stay inside the frame",
    "Whatever the sequence and the arguments of the operations that read or write bits and entropy coded symbols, "
    "nothing is accessed outside the bytes of the frame, and no undefined operation is executed, even when more "
    "is read or written than the frame holds. Values read fit the number of bits asked for, symbols read belong "
    "to their model, and the count of bits left stays in the frame.",
    ["inputs", "histories", "configurations"],
    "any sequence of operations on a frame of any size from 20 to 625 bytes, any content, any model",
    "tests exercise the sequences produced by valid frames; exhaustion of the frame on both ends is reached only by crafted data",
    ["src/bits.c", "src/bits.h"],
    [("accumulator refill and flush", "src/bits.c accu_load(), accu_flush()"), ("arithmetic coder", "src/bits.c ac_get(), ac_put(), ac_flush()")],
    ["lc3_get_bits()", "lc3_put_bits()", "lc3_get_symbol()", "lc3_put_symbol()", "lc3_flush_bits()"], ABS, "proof",
    ABS_NOTE + "Assumes less than 2^20 symbols in a frame. All the sizes in the thorough tier, 140 sizes in the quick tier.")

prop("P04", "Sizes, delays and bitrates are the documented ones, for any parameter",
    "The number of samples of a frame, the algorithmic delay, the size of frames and blocks from a bitrate and the "
    "bitrate from a size have their documented values for each supported duration, rate and mode, over the whole range "
    "of integers, floor and ceiling included; a bitrate of 0 or the highest integer gives the smallest and largest "
    "size. Any unsupported parameter is answered by -1.",
    ["inputs", "configurations"],
    "every integer for the duration, the rate, the number of channels, the bitrate and the size",
    "tests check a few values; limits, overflow and parameters just beside the supported ones are not sampled",
    ["src/lc3.c", "src/tables.c", "src/tables.h", "include/lc3.h"],
    [("resolution of parameters", "src/lc3.c resolve_dt(), resolve_srate()"), ("limits of the sizes", "src/tables.h lc3_min_frame_bytes()")],
    ["lc3_hr_frame_samples()", "lc3_hr_delay_samples()", "lc3_hr_frame_block_bytes()", "lc3_hr_resolve_bitrate()"],
    ABS + ", against the documented values", "proof", ABS_NOTE + "The documented values are transcribed in harness/api.c.")

prop("P05", "Instances are independent: no hidden state, heap, I/O or recursion",
    "Encoding and decoding keep all of their state in the memory given at setup: the library modifies no static object, "
    "allocates no memory, calls nothing that has side effects, and retains no pointer to the caller's buffers. "
    "So any number of instances can run in any threads, in any interleaving, without influence on each other; the "
    "stack used is bounded, without recursion.",
    ["schedules", "histories", "configurations"],
    "all the functions of the library, every interleaving of calls on distinct instances",
    "tests run instances one after the other on one thread",
    ["src/lc3.c", "src/tables.c", "src/tns.c", "src/sns.c", "src/ltpf.c", "src/mdct.c", "src/spec.c", "src/plc.c", "src/bits.c"],
    [("constant tables", "src/tables.c"), ("state structures", "include/lc3_private.h")],
    ["lc3_encode()", "lc3_decode()"],
    "effect and escape analysis over the linked call graph", "proof",
    "Every store, memory intrinsic and external call of the library is examined; pointers to static objects are followed "
    "through calls, casts, offsets and initialisers. Trusts the list of side effect free functions of libc and libm.")

prop("P06", "Setup refuses bad parameters and fully initialises the memory",
    "Setup of an encoder or a decoder succeeds exactly for the supported combinations of duration, rate, sample rate and "
    "mode with a memory, returns the address of the memory, and defines all of its bytes within the size announced; "
    "otherwise it returns no handle and writes nothing. The static memory types and size macros are as large as the "
    "announced sizes, for every configuration they are documented for.",
    ["inputs", "configurations", "histories"],
    "every integer for each parameter, memory of any previous content",
    "tests use valid parameters, on zeroed memory; an uninitialised byte shows only with a particular previous content",
    ["src/lc3.c", "include/lc3.h", "include/lc3_private.h", "src/tables.h"],
    [("checks of the parameters", "src/lc3.c lc3_hr_setup_encoder(), lc3_hr_setup_decoder()"), ("sizes of buffers", "include/lc3_private.h LC3_ENCODER_BUFFER_COUNT")],
    ["lc3_hr_setup_encoder()", "lc3_hr_setup_decoder()", "lc3_hr_encoder_size()", "lc3_hr_decoder_size()"],
    ABS, "proof", ABS_NOTE)

prop("P07", "A refused call has no effect",
    "Encoding or decoding with a frame size outside the limits of the configuration, or without a handle, returns -1 and "
    "modifies nothing: neither the state, nor the samples, nor the frame.",
    ["inputs", "configurations", "histories"],
    "every integer for the size, all configurations and sample formats",
    "tests do not call with refused parameters on a live instance",
    ["src/lc3.c", "src/tables.c"],
    [("checks before processing", "src/lc3.c lc3_encode(), lc3_decode()")],
    ["lc3_encode()", "lc3_decode()"], ABS + ", with frozen objects", "proof",
    ABS_NOTE + "High-resolution encoders also accept half of the lowest documented sizes, as the fallback operation needs.")

prop("P08", "Lost or damaged frames are concealed and leave no trace",
    "A missing frame always returns 1, and a frame found in error returns 1: both fully write the samples of the frame. "
    "Nothing read from a frame found in error is used, neither for its own samples nor for the ones of later frames. "
    "Only the samples of the channel are written, never the bytes between them, and a frame given is never modified.",
    ["fault_sequences", "inputs", "histories", "configurations"],
    "any sequence of valid, damaged and missing frames, in all configurations and sample formats",
    "tests have a few lost frames; damage discovered late in a frame, at each possible point, is not sampled",
    ["src/lc3.c", "src/plc.c", "src/spec.c"],
    [("concealment in place of the frame", "src/lc3.c synthesize()"), ("detection of errors", "src/lc3.c decode()")],
    ["lc3_decode()"], ABS + ", content of frames in error made undefined", "proof", ABS_NOTE)

prop("P09", "Samples are converted exactly, in order, and saturate",
    "In the four formats (16 bits, 24 bits in 32, packed 24 bits, floating-point), for any stride, the encoder processes "
    "exactly the value of each sample given, scaled to the range of 16 bits, in order; the decoder outputs each sample "
    "rounded to the nearest value of the format, in order, and values out of range are saturated instead of wrapped.",
    ["inputs", "configurations"],
    "every value of samples, all formats, strides 1 to 3, all configurations",
    "tests use moderate levels in a few configurations; sign and byte boundaries and clipping are not all sampled",
    ["src/lc3.c", "src/fastmath.h"],
    [("conversion of inputs", "src/lc3.c load_s16(), load_s24(), load_s24_3le(), load_float()"),
     ("conversion of outputs", "src/lc3.c store_s16(), store_s24(), store_s24_3le(), store_float()")],
    ["lc3_encode()", "lc3_decode()"], ABS, "proof",
    ABS_NOTE + "The values of 24 bits are bounded by intervals of 256 values, and exactly around the powers of 2; a tie, or the 16 bits "
    "value of a floating-point sample, may be rounded either way.")

prop("P10", "The decoder understands every frame of the encoder",
    "A frame made by an encoder is decoded without error by a decoder of the same configuration, that finds in it the "
    "values the encoder has coded: bandwidth, gain, number of coefficients, noise shaping filters, scale factors, pitch, and each "
    "coefficient quantized to the same integer, refined by the bits that remain. Every value fits its field, and the bits of "
    "the side information are the ones counted in the budget.",
    ["inputs", "configurations", "histories"],
    "every value of each field, all configurations, coefficients of all magnitudes in all contexts, any number of bits left",
    "tests check both ends apart on a few frames; disagreements show on the rare values of a field, or contexts of coefficients",
    ["src/lc3.c", "src/spec.c", "src/sns.c", "src/tns.c", "src/ltpf.c", "src/bwdet.c", "src/bits.c"],
    [("spectrum", "src/spec.c put_quantized(), get_quantized()"), ("residual and lowest bits", "src/spec.c put_residual(), put_lsb()"),
     ("vectors of scale factors", "src/sns.c lc3_sns_put_data(), lc3_sns_get_data()"), ("filters", "src/tns.c lc3_tns_put_data()")],
    ["lc3_encode()", "lc3_decode()"], ABS + ", the writer and the reader of the bitstream replaced by tapes", "proof",
    ABS_NOTE + "Fields take all of their values, in turn, independently of each other; coefficients by the intervals of values quantized to "
    "each of 35 magnitudes, in sequences drawn over the contexts. Each operation of the bitstream layer is checked as for P12.")

prop("P11", "The constant tables have their mathematical and published values",
    "The tables used by encoder and decoder satisfy what the codec relies on, for every duration and rate: the windows "
    "reconstruct each sample and cancel aliasing, rotations and twiddles are the roots of unity, the intervals of each "
    "entropy coding model partition the range of the coder and the bit costs are the ones of these intervals, the "
    "enumeration offsets follow their recurrence, the DCT is orthonormal, the bands cut the coefficients in increasing "
    "order, resampling filters have unity gain and cannot overflow, polynomial approximations have their documented "
    "accuracy. Data without formula have the values of the published specification.",
    ["inputs", "configurations"],
    "every value of all the constant tables",
    "tests use a part of the tables, with tolerances; a wrong value shows only on the signals and frames that select it",
    ["src/tables.c", "src/tns.c", "src/sns.c", "src/spec.c", "src/ltpf.c", "src/bwdet.c", "src/fastmath.h"],
    [("windows", "src/tables.c lc3_mdct_win"), ("rotations", "src/tables.c lc3_mdct_rot"), ("models", "src/tables.c lc3_spectrum_models"),
     ("mathematical functions", "src/fastmath.h lc3_exp2f(), lc3_log2f(), lc3_db_q16()")],
    ["tables of src/tables.h"], "constant initialisers of the LLVM IR evaluated against their definitions", "proof",
    "Exhaustive over the initialisers found in the compiled module. Formulas are evaluated in double precision with the tolerance of the "
    "digits written; the published values are recorded from the pinned sources in data/normative.json.")

prop("P16", "No result depends on indeterminate memory",
    "Encoding and decoding give results that depend only on the parameters of the setup and the calls made since: no "
    "condition, index, arithmetic operation or output ever uses a byte that was not written before, in the memory given "
    "by the caller, in the local variables, or beyond the frame; whatever frames were lost or found in error.",
    ["inputs", "histories", "configurations"],
    "any history of calls in all 69 configurations, any samples and frames",
    "the previous content of the memory and of the stack is the same from a test run to another",
    ["src/lc3.c", "src/bits.c", "src/spec.c", "src/sns.c", "src/tns.c", "src/ltpf.c", "src/plc.c", "src/mdct.c", "src/energy.c", "src/attdet.c"],
    [("side data of a frame", "src/lc3.c struct side_data"), ("history of samples", "include/lc3_private.h")],
    ["lc3_encode()", "lc3_decode()"], ABS + ", with definedness of each byte", "proof", ABS_NOTE)

prop("P12", "Symbols and bits written are read back",
    "Whatever the symbols and fields of bits written in a frame that has room for them, the reader returns the same ones, in the "
    "order of each end: the arithmetic coder narrows its interval to the one of the symbol on both sides, propagates carries, "
    "and ends on a value that is in the last interval whatever the bits that follow; fields keep all of their bits whatever "
    "their position; neither end changes the other. Both sides count the same bits left; reading more than the frame holds, or a "
    "value that no symbol codes, is reported as an error.",
    ["inputs", "histories"],
    "every symbol of every model, any value in the interval, carries through any number of bytes; fields of 1 to 31 bits at every position",
    "tests encode whole frames of a few signals; carries through several bytes and ends at the limit of the interval are rare",
    ["src/bits.c", "src/bits.h"],
    [("carry propagation", "src/bits.c ac_shift()"), ("termination", "src/bits.c ac_terminate()"), ("accumulator", "src/bits.c accu_flush(), accu_load()"),
     ("search of the symbol", "src/bits.h lc3_get_symbol()")],
    ["lc3_put_bits()", "lc3_get_bits()", "lc3_put_symbol()", "lc3_get_symbol()", "lc3_flush_bits()"],
    ABS + ", with the origin of each bit", "proof",
    ABS_NOTE + "Each operation is compared with the definition of the coder from any value of its interval; the range of the coder and the bytes "
    "pending are drawn among the possible ones, limits included. Fields of 32 bits, that the library does not use, are not covered.")

prop("P14", "The C++ interface does for each channel what the C interface documents",
    "The C++ encoder and decoder process each channel of a block exactly once, with its own state, at its own first sample "
    "and interleaving, in the format of the type or the format given, on its own part of the block whatever the size of "
    "the block; a missing block is missing for all the channels. The value returned is -1 when a channel failed, otherwise 1 "
    "when a channel has been concealed, otherwise 0. Memory of the states has the size that the setup uses and is released once; "
    "unsupported parameters and lack of memory give codecs that refuse all the calls.",
    ["inputs", "configurations", "fault_sequences"],
    "1 to 4 channels, all formats and overloads, blocks of all sizes up to 650 bytes by channel, outcomes of each channel, failures of allocation",
    "no test of the repository uses the C++ interface",
    ["include/lc3_cpp.h"],
    [("encoding of the channels", "include/lc3_cpp.h Encoder::EncodeImpl()"), ("decoding of the channels", "include/lc3_cpp.h Decoder::DecodeImpl()"),
     ("states", "include/lc3_cpp.h Base::states")],
    ["lc3::Encoder", "lc3::Decoder"], ABS + ", calls of the C interface checked by stubs", "proof", ABS_NOTE)

prop("P13", "The Python wrapper gives the C interface what it expects",
    "For any supported parameters, any number of channels, PCM rate and sample depth, and any length of samples and frames: each "
    "codec has memory of the size announced for the parameters of its setup, released once; each channel is processed by its own "
    "codec, at its own first sample, with the stride and the format of the samples given, on its own part of the block, whatever "
    "its size; short samples are padded with zeros; nothing is accessed out of the buffers; types declared to ctypes are the ones of the C "
    "prototypes. Unsupported parameters, samples that are not finite and failures of the C interface raise InvalidArgumentError, and "
    "nothing else does. Queries return the value of the C interface for the same parameters, also with libraries that have no "
    "high-resolution interface.",
    ["inputs", "configurations", "fault_sequences"],
    "1 to 8 channels, any block size, any length of samples, any PCM rate, outcome of each call, libraries with or without high resolution",
    "tests use one channel, no PCM rate and one length; a wrong pointer or size in ctypes corrupts memory silently",
    ["python/lc3.py", "include/lc3.h"],
    [("memory of the codecs", "python/lc3.py new_encoder(), new_decoder()"), ("split of the block", "python/lc3.py encode(), decode()"),
     ("declared prototypes", "python/lc3.py argtypes, restype")],
    ["lc3.Encoder", "lc3.Decoder"], "abstract interpretation of the Python syntax tree (affine forms), against the prototypes of lc3.h", "proof",
    "Any value of sizes, rates and lengths (symbols); 1 to 3 channels in the quick tier, 1 to 8 in the thorough one. Trusts the model of "
    "Python and ctypes of /verif/lib/pyinterp.py.")

prop("P15", "The command line tools and their file formats handle any input",
    "For every input file, of any content, length and outcome of the reads, and every command line with numbers in the range of int: elc3, dlc3 and "
    "the containers they use (lc3bin, wave) access only memory that they own, use and write no indeterminate value, and have no undefined "
    "arithmetic. Parameters out of the supported ones are refused before anything is written. Each channel is processed by its own state, with the "
    "parameters, sample format, interleaving, frame size and position in the block that the header gives; lost or refused frames are "
    "concealed; the samples or frames announced by the header are those written. Headers, blocks and samples written are "
    "read back with the same values.",
    ["inputs", "configurations", "fault_sequences"],
    "any file and arguments, 1 and 2 channels, all configurations, any number of samples, failures of reads and allocation",
    "tests do not run the tools, nor read malformed files",
    ["tools/elc3.c", "tools/dlc3.c", "tools/lc3bin.c", "tools/wave.c"],
    [("header of the streams", "tools/lc3bin.c lc3bin_read_header(), lc3bin_write_header()"), ("decoding loop", "tools/dlc3.c main()"),
     ("encoding loop", "tools/elc3.c main()"), ("wave header", "tools/wave.c wave_read_header()")],
    ["elc3", "dlc3"], ABS + ", standard library and codec replaced by their contracts", "proof",
    "Arguments of at most 4 characters; block sizes and number of samples of any value, samples followed one by one for one size of frames. "
    "Termination on streams of any length is not claimed.")

NAV = "no sound static bound is in reach: "
for id, title, st, text, why, files, obs, na in (
    ("P20", "The decoder output matches the reference decoder", "Decoded samples are within the precision of the conformance "
     "specification of the ones of the reference decoder.", "any conformant stream", "tests compare some streams",
     ["src/mdct.c", "src/ltpf.c", "src/spec.c"], ["lc3_decode()"],
     NAV + "the statement compares floating-point results of long transforms with another program, that is not in the sandbox; only the "
     "constants (P11), the bitstream (P10, P12) and the sample formats (P09) are decided"),
    ("P21", "The audio decoded is close to the audio encoded", "The error between decoded and encoded samples is below a "
     "level that depends on the bitrate.", "any samples", "tests measure some signals", ["src/lc3.c"], ["lc3_encode()", "lc3_decode()"],
     NAV + "the error is a quantity of the signal, the quantizer and the noise filling; intervals on the samples are too wide by orders of magnitude"),
    ("P22", "Vectorised and portable implementations give the same results", "The NEON, SSE and ARM DSP implementations compute "
     "the same values as the portable ones.", "any input of the functions replaced", "tests compare some inputs",
     ["src/ltpf_neon.h", "src/mdct_neon.h", "src/ltpf_arm.h"], ["lc3_encode()", "lc3_decode()"],
     NAV + "equality of floating-point sums in different orders is a numerical statement; the ARM intrinsics cannot be compiled here for lack of a sysroot"),
    ("P23", "The bits announced by the rate loop fit the frame", "The estimated size of the quantized spectrum is the one that is "
     "written, and the frame is used as far as the specification allows.", "any spectrum", "tests encode some signals",
     ["src/spec.c"], ["lc3_encode()"],
     NAV + "the count is a sum of costs by symbol over data dependent contexts; the analysis keeps bounds of the sum, not its value. The effects of "
     "a wrong count that lead to accesses out of the frame or to reading other values are decided by P02, P03 and P10"),
    ("P24", "A frame is processed before its deadline", "The time of a call of the encoder or decoder is below the duration of the frame.",
     "any input, on a given processor", "tests do not measure it", ["src/lc3.c"], ["lc3_encode()", "lc3_decode()"],
     NAV + "depends on the processor and compiler; termination and absence of recursion are decided by P01, P02 and P05"),
    ("P25", "Concealment fades to silence", "The level of the samples output during a loss decreases, and becomes zero "
     "after a number of frames.", "any history", "tests check some losses", ["src/plc.c"], ["lc3_decode()"],
     NAV + "the level is the product of random signs, overlap and postfilter gains; the attenuation factor alone is bounded (P01), not the samples"),
):
    prop(id, title, st, ["inputs"], text, why, files, [("implementation", files[0])], obs, "none", "none", "", na=na, thorough=False)
