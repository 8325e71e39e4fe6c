"""Decoder and encoder analysed as a whole, for any history of calls"""
import concurrent.futures, os, random
from core import *

BITS = ["lc3_setup_bits=c_setup_bits", "lc3_get_bits_left=c_get_bits_left",
        "lc3_check_bits=c_check_bits", "lc3_put_bits=c_put_bits",
        "lc3_get_bits=c_get_bits", "lc3_put_symbol=c_put_symbol",
        "lc3_get_symbol=c_get_symbol", "lc3_flush_bits=c_flush_bits"]
BITS_ANY = [c if not c.startswith("lc3_get_symbol") else "lc3_get_symbol=c_get_symbol_any"
            for c in BITS]
MODULES = ["lc3_tns_get_data=c_tns_get_data", "lc3_sns_get_data=c_sns_get_data",
           "lc3_sns_synthesize=c_sns_synthesize", "lc3_mdct_inverse=c_mdct_inverse",
           "lc3_mdct_forward=c_mdct_forward", "lc3_ltpf_synthesize=c_ltpf_synthesize"]

DT = [2500, 5000, 7500, 10000]
SR = [8000, 16000, 24000, 32000, 48000]


def configs():
    """(dt_us, sr_hz, sr_pcm_hz, hrmode): all the valid configurations"""
    r = [(dt, sr, srp, 0) for dt in DT for sr in SR for srp in SR if srp >= sr]
    r += [(dt, sr, srp, 1) for dt in DT if dt != 7500
          for sr in (48000, 96000) for srp in (48000, 96000) if srp >= sr]
    return r


def entries(name, tier):
    """All configurations; sample format and stride vary over them (quick), or
    all combinations (thorough)"""
    r = []
    for k, c in enumerate(configs()):
        fs = [(k % 4, 1 + (k // 4) % 2)] if tier == "quick" else \
             [(f, s) for f in range(4) for s in (1, 2)]
        for f, s in fs:
            r.append("%s,%d,%d,%d,%d,%d,%d" % ((name,) + c + (f, s)))
    return r


def decoder_entries(tier):
    return entries("h_decode", tier)


def module_entries():
    """Entry points that establish the contracts used by the whole decoder"""
    r = []
    rates = [(d, s) for d in range(4) for s in range(7) if not (d == 2 and s >= 5)]
    for d, s in rates:
        r.append("h_sns_decode,%d,%d" % (d, s))
        r.append("h_tns_decode,%d,%d" % (d, s))
        r.append("h_tns_synthesis,%d,%d" % (d, s))
        if s < 5:
            r.append("h_ltpf_synthesis,%d,%d" % (d, s))
        for s2 in range(s + 1):
            if (s2 < 5) == (s < 5):
                r.append("h_mdct_inverse,%d,%d,%d" % (d, s, s2))
    return r


def split_modules(ents):
    """Entry points that need the contract of the models, and the others"""
    a = [e for e in ents if e.startswith("h_tns_decode")]
    return a, [e for e in ents if e not in a]

PARTS = ["lc3_spec_decode=c_spec_decode_iso", "lc3_tns_synthesize=c_tns_synthesize_iso",
         "lc3_plc_synthesize=c_plc_synthesize_iso"]


def decoder_run(run, kinds):
    """The decoder: 69 configurations, any history of frames of any content"""
    bc = run.ir(["contracts.c", "codec.c", "modules.c"])
    sym, rest = split_modules(module_entries())
    run.absint(bc, sym, BITS, timeout=200, kinds=kinds)
    run.absint(bc, rest, BITS_ANY, timeout=200, kinds=kinds)
    run.absint(bc, decoder_entries(run.tier), BITS_ANY + MODULES + PARTS,
               timeout=300 if run.tier == "quick" else 800, kinds=kinds)
    run.assumptions += [
        "the memory given at setup has the size returned by lc3_*decoder_size(), suitably aligned",
        "PCM buffers hold (samples-1)*stride+1 items; the strides 1 and 2 stand for any stride",
        "the bitstream layer meets the contracts of harness/contracts.c (decided by P03)",
        "libm functions return a value of their mathematical range; any float may be NaN or infinite where the inputs may",
    ]
    run.coverage["rule"] = ("fixpoint over any history of lc3_decode() calls, on arbitrary bytes, "
        "of every memory access, index, shift, division, conversion, signed operation and loop")


UNINIT = {"uninit"}
SAFETY = {"oob-read", "oob-write", "array-index", "overflow", "overflow64", "shift", "division", "null",
          "fp-conversion", "indirect-call", "readonly-write", "side-effect", "external",
          "assert", "termination"}


def decoder_safety(run):
    decoder_run(run, SAFETY)


def bits_confined(run):
    bc = run.ir(["bits_ops.c"], name="bits")
    lens = range(20, 626) if run.tier == "thorough" else \
        sorted(set(list(range(20, 72)) + list(range(72, 626, 7)) + [400, 401, 624, 625]))
    run.absint(bc, ["h_bits_%s,%d" % (d, n) for n in lens for d in ("read", "write")], [],
               timeout=100, kinds=SAFETY | UNINIT)
    run.absint(bc, ["h_bits_search,%d" % k for k in range(3)], [], timeout=100, kinds=SAFETY | UNINIT)
    run.assumptions += ["less than 2^20 arithmetic symbols are written in a frame"]
    run.coverage["rule"] = ("fixpoint over every sequence of operations of the bitstream layer, "
                            "with any model, on a buffer of each length")


CALLS = [c.replace("=c_check_bits", "=c_check_bits_end") for c in BITS_ANY] + MODULES + \
    ["lc3_spec_decode=c_spec_decode", "lc3_tns_synthesize=c_tns_synthesize"]


def loss_outcome(run):
    """Outcome of the calls of the decoder"""
    bc = run.ir(["contracts.c", "codec.c"])
    run.absint(bc, entries("h_decode_calls", run.tier), CALLS,
               timeout=300 if run.tier == "quick" else 800,
               kinds={"assert:loss", "assert:pcm", "assert", "uninit", "side-effect", "readonly-write"})
    run.assumptions += [
        "the parts of the decoder meet the contracts of harness/contracts.c (decided by P01 and P03)",
        "the strides 1 and 2 stand for any stride",
    ]
    run.coverage["rule"] = ("fixpoint over any history of calls; the content of a frame in error is made "
        "undefined at the point the error is found, no use of it may follow; samples written and the "
        "bytes between them compared on return")


ENC_BITS = [c.replace("=c_put_bits", "=c_put_bits_any") for c in BITS_ANY]
ENC_CALLS = ENC_BITS + MODULES + ["lc3_%s=c_%s" % (n, n) for n in (
    "attdet_run", "ltpf_analyse", "energy_compute", "bwdet_run", "sns_analyze", "sns_put_data",
    "tns_analyze", "tns_put_data", "spec_analyze", "spec_put_side", "spec_encode")]


def encoder_run(run, kinds):
    """The encoder: 69 configurations, any history of samples and sizes"""
    bc = run.ir(["contracts.c", "contracts_enc.c", "codec.c", "modules.c", "modules_enc.c"])
    rates = [(d, s) for d in range(4) for s in range(7) if not (d == 2 and s >= 5)]
    fixed = kinds - {"fp-conversion", "overflow64"}    # integer signal path
    mem = fixed - {"overflow"}
    ents = lambda n: ["%s,%d,%d" % ((n,) + x) for x in rates]
    fwd = ["h_mdct_forward,%d,%d,%d" % (d, s, s2) for d, s in rates for s2 in range(s + 1)
           if (s2 < 5) == (s < 5)]
    run.absint(bc, ents("h_spec_analysis"), ENC_BITS, timeout=250, kinds=mem)
    run.absint(bc, ents("h_ltpf_analysis"), ENC_BITS, timeout=250, kinds=fixed)
    run.absint(bc, ents("h_attdet") + ents("h_energy") + ents("h_tns_analysis"),
               ENC_BITS, timeout=200, kinds=fixed)
    run.absint(bc, ents("h_sns_analysis"), ENC_BITS, timeout=200, kinds=mem - {"oob-read"})
    run.absint(bc, fwd, ENC_BITS, timeout=200, kinds=fixed)
    run.absint(bc, entries("h_encode", run.tier), ENC_CALLS, timeout=200, kinds=fixed)
    run.assumptions += [
        "the memory given at setup has the size returned by lc3_*encoder_size(), suitably aligned",
        "PCM buffers hold (samples-1)*stride+1 items; the strides 1 and 2 stand for any stride",
        "floating-point samples stay in their documented range: conversions of the spectrum to integers are not checked",
        "the indexes read in the tables by the vector quantizer of the scale factors are not checked",
        "the bitstream layer meets the contracts of harness/contracts.c (decided by P03)",
    ]
    run.coverage["rule"] = ("fixpoint over any history of lc3_encode() calls, on any samples, "
        "of every memory access, index, shift, division, signed operation and loop")


def encoder_safety(run):
    encoder_run(run, SAFETY)


def no_pointer_kept(run):
    bc = run.ir(["contracts.c", "contracts_enc.c", "codec.c"], name="kept")
    for name, calls in (("h_decode_calls", CALLS), ("h_encode", ENC_CALLS)):
        ents = [e for k, e in enumerate(entries(name, "quick")) if run.tier == "thorough" or k % 15 == 0]
        run.absint(bc, ents, calls, timeout=300, kinds={"assert:kept"})


def api(run, entries, kinds):
    bc = run.ir(["api.c"], name="api")
    run.absint(bc, entries, [], timeout=200, kinds=kinds)
    run.trusted.append("the values documented in lc3.h, transcribed in harness/api.c")
    run.level = "proof"


def sizes(run):
    ents = ["h_api_samples,%d" % h for h in (0, 1)] + ["h_api_bytes_bad,%d" % h for h in (0, 1)]
    for hr in (0, 1):
        for us in DT:
            if hr and us == 7500:
                continue
            for hz in ((48000, 96000) if hr else SR):
                ents.append("h_api_bitrate,%d,%d,%d" % (hr, us, hz))
                for n in ((1, 2, 8) if run.tier == "quick" and hz in (8000, 48000, 96000) else
                          range(1, 9) if run.tier == "thorough" else (1,)):
                    ents.append("h_api_bytes,%d,%d,%d,%d" % (hr, us, hz, n))
    api(run, ents, SAFETY | UNINIT | {"assert:samples", "assert:bytes"})
    run.coverage["rule"] = ("intervals of the parameters: every value of each, the documented ones on "
        "their own and the ranges between them; for each size, the interval of bitrates that gives it")


def setup_static(run):
    api(run, ["h_api_static"] + ["h_api_setup,%d,%d" % (h, d) for h in (0, 1) for d in (0, 1)] +
        ["h_api_setup_any,%d,%d" % (h, d) for h in (0, 1) for d in (0, 1)],
        SAFETY | UNINIT | {"assert:setup", "assert:static", "assert:samples"})
    run.coverage["rule"] = ("intervals of the parameters of the setup functions, with and without memory; "
        "memory of the exact size returned, content fully defined after setup, untouched when refused")


def refused(run):
    ents = []
    for dt, sr, srp, hr in configs():
        ents += ["h_api_%s_refused,%d,%d,%d,%d" % (n, dt, sr, srp, hr) for n in ("encode", "decode")]
    api(run, ents, SAFETY | UNINIT | {"assert:refused"})
    run.coverage["rule"] = "no write to the state, the samples or the frame on any path of a refused call"


def determinate(run):
    """No use of indeterminate memory"""
    decoder_run(run, UNINIT | {"assert"})
    encoder_run(run, UNINIT | {"assert"})
    run.coverage["rule"] = ("fixpoint over any history of calls of lc3_encode() and lc3_decode(): no condition, index, "
        "arithmetic operation or output uses an undefined byte")


def pcm_conversion(run):
    """Conversion of the samples at both ends"""
    bc = run.ir(["contracts.c", "contracts_enc.c", "pcm.c"])
    own = {"lc3_mdct_forward": "c_pcm_forward", "lc3_mdct_inverse": "c_pcm_inverse",
           "lc3_ltpf_analyse": "c_pcm_ltpf_analyse", "lc3_ltpf_synthesize": "c_pcm_ltpf_synthesize",
           "lc3_attdet_run": "c_pcm_attdet"}
    calls = [c for c in ENC_CALLS + CALLS[-2:] if c.split("=")[0] not in own] + \
        ["%s=%s" % x for x in own.items()]
    cfg = configs()
    ents, k = [], 0
    for name in ("load", "store"):
        for fmt in range(4):
            base = 0
            while base < 65536:
                c = cfg[(k * 5) % len(cfg)]
                ents.append("h_pcm_%s,%d,%d,%d,%d,%d,%d,0,%d" % ((name,) + c + (fmt, 1 + k % 3, base)))
                base += c[2] * c[0] // 1000000
                k += 1
            for j, c in enumerate(cfg):
                for st in ((1 + j % 2,) if run.tier == "quick" else (1, 2, 3)):
                    ents.append("h_pcm_%s,%d,%d,%d,%d,%d,%d,1,%d" % ((name,) + c + (fmt, st, j * 67)))
    run.absint(bc, ents, calls, timeout=100, kinds={"assert:pcm", "assert", "uninit", "fp-conversion",
                                                    "readonly-write", "oob-read", "oob-write", "overflow"})
    run.assumptions += ["the samples are seen where the transforms, the pitch analysis and the postfilter are called",
                        "floating-point operations round to nearest"]
    run.coverage["rule"] = ("the whole range of each format cut in 65536 intervals, each converted value bounded by the "
        "interval expected; values of 24 bits around powers of 2, and values out of range, on their own")


CPP = {"lc3_hr_setup_encoder": "c_setup_encoder", "lc3_hr_setup_decoder": "c_setup_decoder",
       "lc3_encoder_disable_ltpf": "c_disable_ltpf", "lc3_encode": "c_cpp_encode", "lc3_decode": "c_cpp_decode",
       "lc3_hr_frame_samples": "c_frame_samples", "lc3_hr_delay_samples": "c_delay_samples",
       "lc3_hr_frame_block_bytes": "c_frame_block_bytes", "lc3_hr_resolve_bitrate": "c_resolve_bitrate"}


def cpp_interface(run):
    """C++ interface: every call it makes to the C interface"""
    bc = run.ir(["cpp.cpp"], name="cpp")
    ents = []
    for k, (dt, sr, srp, hr) in enumerate(configs()):
        for n in ((1 + k % 4,) if run.tier == "quick" else (1, 2, 3, 4)):
            ents += ["h_cpp_%s,%d,%d,%d,%d,%d" % (d, hr, dt, sr, p, n) for d in ("encoder", "decoder")
                     for p in ([srp] if srp != sr else [srp, 0, -1])]
    for hr, dt, sr, srp in ((0, 10000, 48000, 44100), (0, 10000, 44100, 48000), (0, 8000, 48000, 48000), (1, 7500, 48000, 48000),
                            (1, 10000, 32000, 48000), (0, 10000, 48000, 32000), (0, 10000, 96000, 96000), (0, 0, 0, 0)):
        ents += ["h_cpp_refused,%d,%d,%d,%d,%d" % (hr, dt, sr, srp, n) for n in (1, 2, 4)]
    ents += ["h_cpp_nomem,%d,%d" % (n, k) for n in (1, 2, 3, 4) for k in range(n)]
    for n in (1, 2, 3, 4):
        sizes = [(a, a + 49) for a in range(0, 650 * n, 50)]
        ents += ["h_cpp_encode,%d,%d,%d" % ((n,) + x) for x in sizes]
        ents += ["h_cpp_decode,%d,%d,%d,%d" % ((n,) + x + (lost,)) for x in sizes for lost in (0, 1)]
    run.absint(bc, ents, ["%s=%s" % x for x in CPP.items()], timeout=100,
               kinds=SAFETY | UNINIT | {"assert:cpp"})
    run.assumptions += ["blocks of 0 to 650 bytes by channel, 1 to 4 channels", "samples aligned on their type"]
    run.trusted.append("the headers of the standard C++ library, analysed with the interface")
    run.coverage["rule"] = ("every call made to the C interface: state, format, first sample, interleaving, size and position of "
        "the frame, outcome; allocations, their size and release")


def gaps(values, margin=0):
    """Intervals of the integers that are not among the values"""
    lo, r = -2**31, []
    for v in sorted(values) + [2**31]:
        if lo < v:
            r.append((lo + (margin if r else 0), v - 1 - (margin if v < 2**31 else 400)))
        lo = v + 1
    return r


TOOLS = {
    "dec": ["parse_args=c_parse_args", "lc3bin_read_header=c_bin_read_header", "lc3bin_read_data=c_bin_read_data",
            "wave_write_header=c_wave_write_header", "lc3_hr_setup_decoder=c_setup_decoder", "lc3_decode=c_decode"],
    "enc": ["parse_args=c_parse_args", "lc3bin_write_header=c_bin_write_header", "lc3bin_write_data=c_bin_write_data",
            "wave_read_header=c_wave_read_header", "wave_read_pcm=c_wave_read_pcm",
            "lc3_hr_frame_block_bytes=c_block_bytes", "lc3_hr_setup_encoder=c_setup_encoder", "lc3_encode=c_encode"]}


def tools_entries(tier):
    """Entry points: decoder, encoder, arguments, containers; and those that end with a refusal"""
    dec, enc, args, files, no = [], [], [], [], []
    thorough = tier != "quick"
    k = 0
    for dt, sr, srp, hr in configs():
        for nch in (1, 2):
            opt = srp if srp != sr or thorough else 0
            for sb in (2, 3, 4) if thorough else (2 + k % 3,):
                # any number of samples, any size of the frames
                enc.append("h_elc3,%d,%d,%d,%d,%d,%d,0,9,-1,0" % (hr, dt, srp, sr if sr != srp else 0, nch, sb))
                # each sample followed, and count of frames
                enc += ["h_elc3,%d,%d,%d,%d,%d,%d,1,9,%d,64000" % (hr, dt, srp, sr if sr != srp else 0, nch, sb, n)
                        for n in ((-1, 0, 1, 1000, 4801) if thorough else ((-1, 0, 1, 1000, 4801)[k % 5],))]
            for bits in (16, 24) if thorough else (16 + 8 * (k % 2),):
                dec.append("h_dlc3,%d,%d,%d,%d,%d,%d,0,9,-1" % (hr, dt, sr, srp if srp != sr else 0, nch, bits))
                dec += ["h_dlc3,%d,%d,%d,%d,%d,%d,1,9,%d" % (hr, dt, sr, srp if srp != sr else 0, nch, bits, n)
                        for n in ((-1, 0, 1, 100, 1000, 4801) if thorough else ((-1, 0, 1, 100, 1000, 4801)[k % 6],))]
            k += 1
    for nch in (1, 2):
        for k in range(nch):
            no += [("enc", "h_elc3,0,10000,48000,0,%d,2,0,%d,-1,64000" % (nch, k)),
                   ("dec", "h_dlc3,0,10000,48000,0,%d,16,0,%d,-1" % (nch, k))]
    for hr in (0, 1):
        rates = (48000, 96000) if hr else SR
        for t, f in (("enc", "h_elc3_refused"), ("dec", "h_dlc3_refused")):
            cases = [(0, x) for x in gaps(DT, 9)] + [(1, x) for x in gaps(rates)] + [(2, x) for x in gaps([0] + list(rates))] + \
                    [(3, x) for x in gaps((1, 2))] + [(4, x) for x in gaps((16, 24))] + [(7, (-2**31, -1))]
            if t == "enc":
                cases += [(5, x) for x in gaps((2,))] + [(6, x) for x in gaps((3, 4))] + [(8, (-2**31, 0))]
            cases += [(9, (a, b) if t == "enc" else (b, a)) for a in rates for b in rates if a < b]
            no += [(t, "%s,%d,%d,%d,%d" % (f, hr, w, lo, hi)) for w, (lo, hi) in cases]
    for f in ("h_eargs", "h_dargs"):
        args += ["%s,%d,%d,%d" % (f, c, a, b) for c in (1, 2, 3, 4) for a in (1, 2, 3, 5) for b in (1, 3)]
    for dt, sr, srp, hr in configs():
        for nch in (1, 2):
            if sr == srp:
                files.append("h_bin_header,%d,%d,%d,64000,%d" % (hr, dt, sr, nch))
                files += ["h_wave_header,%d,%d,%d,%d,%d" % (bits, by, sr, nch, n) for bits, by in ((16, 2), (24, 3), (24, 4))
                          for n in (0, 1, 48000, 2**31 // (4 * nch) - 24)]
    files += ["h_bin_data,%d,%d,%d" % x for x in ((20, 1, 1), (1, 400, 1), (625, 40, 2), (1250, 1, 2), (255, 256, 2))]
    files += ["h_bin_any", "h_wave_any"]
    files += ["h_wave_skip,%d,%d" % (a, b) for a in (16, 18, 40) for b in (-1, 0, 26, 1000)]
    files += ["h_wave_pcm,%d,%d,%d,%d" % (s, c, o, n) for s in (2, 3, 4) for c in (1, 2) for o, n in ((0, 1), (0, 480), (120, 360), (479, 1))]
    no += [("files", "h_bin_block,%d,%d" % (n, c)) for c in (1, 2)
           for n in (0, 1, 20, 624, 625, 626, 1249, 1250, 1251, 32767, 32768, 65535)]
    return dec, enc, args, files, no


def tools(run):
    """Command line tools and their file formats"""
    src = [os.path.join(REPO, "tools", f) for f in ("lc3bin.c", "wave.c")]
    flags = ["-I" + os.path.join(REPO, "tools"), "-w"]
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        bcs = dict(zip(("dec", "enc", "files"), pool.map(lambda t: run.ir(
            ["tools_%s.c" % t], name=t, flags=flags, sources=src + (run.repo_sources() if t != "files" else [])),
            ("dec", "enc", "files"))))
    dec, enc, args, files, no = tools_entries(run.tier)
    kinds = SAFETY - {"termination", "overflow64"} | UNINIT | {"assert:tools"}
    opts = ["--undecided", "3"]
    for t, ents in (("dec", dec), ("enc", enc), ("files", files)):
        ents = [(e, True) for e in ents] + [(e, False) for x, e in no if x == t]
        res = run.absint(bcs[t], [e for e, _ in ents], TOOLS.get(t, []), timeout=200, kinds=kinds, opts=opts)
        for e, must in ents:
            if must:
                run.obligation()
            if must and e in res and not res[e]["error"] and not any(a["kind"] == "assert:reach" for a in res[e]["alarms"]):
                run.violation(kind="rule", fn=e.split(",")[0], file="tools", line=0, config=e,
                              msg="no path processes these valid parameters up to the end")
    for t, f in (("dec", "h_dargs"), ("enc", "h_eargs")):
        run.absint(bcs[t], [e for e in args if e.startswith(f)], [], timeout=100, kinds=kinds, opts=opts)
    run.assumptions += [
        "numbers of the command line in the range of `int`, frame duration of at most 2147483 ms",
        "strings of the command line: 3 arguments, of 0 to 4 characters, any content",
        "frames of each size, any count of samples read and any outcome of the input; the output does not fail"]
    run.trusted.append("stubs of the standard C library, and of the codec (checked by P01 to P08), in /verif/harness/tools_env.h")
    run.coverage["rule"] = ("each access, arithmetic operation and value of the tools; parameters given to the codec and to "
        "the containers against those of the headers; definedness of what is written; fields written against those read back")


AGREE = ["lc3_%s=c_t_%s" % (n, n) for n in (
    "setup_bits", "get_bits_left", "check_bits", "put_bits", "get_bits", "put_symbol", "get_symbol", "flush_bits")]
AGREE_PARTS = ["lc3_%s=c_t_%s" % (n, n) for n in (
    "attdet_run", "ltpf_analyse", "energy_compute", "bwdet_run", "sns_analyze", "tns_analyze", "spec_analyze",
    "spec_encode", "spec_decode", "tns_synthesize", "sns_synthesize", "ltpf_synthesize", "mdct_inverse",
    "plc_synthesize")] + ["lc3_mdct_forward=c_mdct_forward"]


LOSSLESS = {"assert:lossless", "oob-read", "oob-write", "array-index", "uninit", "shift", "overflow", "termination"}


def bit_layer(run):
    """Each operation of the writer and of the reader, against the definition of the coder"""
    bc = run.ir(["lossless.c"], name="lossless")
    seeds = range(1, 3) if run.tier == "quick" else range(1, 41)
    ents = ["h_ac_bytes"] + ["h_bit_fields,%d" % k for k in range(32)] + ["h_ac_left,%d" % k for k in range(17, 25)]
    ents += ["h_ac_end,%d,%d" % (k, s) for s in seeds for k in range(17, 25)]
    ents += ["h_ac_symbols,%d,%d,%d" % (p, k, s) for s in seeds for p, n in enumerate((2, 8, 64)) for k in range(n)]
    run.absint(bc, ents, [], timeout=100, kinds=LOSSLESS)


def lossless(run):
    bit_layer(run)
    run.assumptions += ["the frame has room for what is written",
                        "range of the coder, bytes pending: values drawn among the possible ones, limits included; any value coded"]
    run.coverage["rule"] = ("each symbol of each model: interval narrowed to the one of the symbol, carries and bytes shifted "
        "out, same on both sides; end of the code inside the last interval whatever follows; fields of all widths at all "
        "positions, by the origin of each bit; bits left")


def agreement(run):
    """Agreement of the encoder and the decoder on the bitstream"""
    bit_layer(run)
    bc = run.ir(["contracts.c", "contracts_enc.c", "agree.c"], name="agree")
    kinds = {"assert:agree", "assert", "oob-write", "oob-read", "uninit", "division", "shift"}
    n = 160 if run.tier == "quick" else 2048
    run.absint(bc, ["h_agree_side,%d,%d,%d,%d,%d,%d" % (c + (160 * j + k, 160 * j + k + 160))
                    for j, c in enumerate(configs()) for k in range(0, n, 160)],
               AGREE + AGREE_PARTS, timeout=250, kinds=kinds)
    rates = [(d, s) for d in range(4) for s in range(7) if not (d == 2 and s >= 5)]
    nbytes = (20, 40, 41, 60, 61, 80, 81, 100, 101, 120, 121, 140, 150, 200, 400)
    lefts, nqs = (0, 1, 2, 7, 50, 121, 300, 3000), (1000, 2, 1000, 30, 100, 1000, 160, 1000)
    gains = (0, 0, 0, -200, 200, 0, 13, -27)
    ents, r = [], random.Random(1)
    for d, s in rates:
        for v in range(96 if run.tier == "quick" else 2000):
            ents.append("h_agree_spec,%d,%d,%d,%d,%d,%d,%d,%d" % (
                d, s, r.choice(nbytes) + 225 * (s >= 5 and v % 15 == 3), r.randrange(2), r.choice(lefts),
                r.choice(nqs), v, r.choice(gains)))
    for d, s in rates:
        for b in range(s + 1) if s < 5 else [s]:
            t = 15 * (d + 1)
            for lo, hi in ((20, t - 2), (t - 1, t - 1), (t, t), (t + 1, 400 if s < 5 else 625)):
                if lo <= hi and lo >= 20:
                    ents.append("h_agree_weight,%d,%d,%d,%d,%d" % (d, s, b, lo, hi))
    run.absint(bc, ents, AGREE, timeout=100, kinds=kinds)
    run.assumptions += [
        "the reader of the bitstream returns what its writer has put, in the same order",
        "fields take their values in turn, independently of each other; indexes of vectors by intervals",
        "coefficients are cut in the intervals of the values quantized to each of 35 magnitudes (23 in high-resolution)"]
    run.coverage["rule"] = ("order, widths, models and values of all the fields and symbols written, against those read; "
        "data given to the synthesis against data given by the analysis; coefficients decoded against those quantized")
