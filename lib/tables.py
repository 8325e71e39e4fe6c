"""The constant tables, read in the IR, against their definitions"""
import json, math, os
from core import *

DTS = ["2.5 ms", "5 ms", "7.5 ms", "10 ms"]
NS = [20, 40, 60, 80, 120, 120, 240]            # samples in 2.5 ms
N4M = [32, 64, 96, 128, 192, 192, 384]          # samples in 4 ms
RATES = [(d, s) for d in range(4) for s in range(7) if not (d == 2 and s >= 5)]


def ns(d, s):
    return NS[s] * (d + 1)


def nd(d, s):
    return (ns(d, s) + (N4M[s] if d == 2 else NS[s])) // 2


def ne(d, s):
    """Coefficients coded, up to 20 KHz, or all in high-resolution"""
    return 100 * (d + 1) if s == 4 else ns(d, s)


class Tables:
    def __init__(self, run):
        self.run = run
        bc = run.ir(name="tables")
        out = must([build_tool("tables", ["tables.cpp"]), bc], "tables")
        self.g, self.all = {}, []
        for x in json.loads(out):
            self.g[x["name"]] = x
            self.all.append(x)
        self.absent = []

    def get(self, name):
        """A table, by its name; the numbered copies of inlined functions count once"""
        x = self.g.get(name)
        if x is None:
            for y in self.all:
                if y["name"].rsplit(".", 1)[-1] == name or \
                        (y["name"].startswith(name + ".") and y["name"][len(name) + 1:].isdigit()):
                    x = y
        if x is None:
            self.absent.append(name)
        return x

    def copies(self, name):
        r = [y for y in self.all if y["name"] == name or
             (y["name"].startswith(name + ".") and y["name"][len(name) + 1:].isdigit())]
        if not r:
            self.absent.append(name)
        return r

    def deref(self, v, depth=0):
        """Content with the references replaced by what they designate"""
        if isinstance(v, list):
            return [self.deref(x, depth) for x in v]
        if isinstance(v, dict) and "ref" in v and depth < 8:
            x = self.g.get(v["ref"])
            if x is None:
                return v
            r = self.deref(x["value"], depth + 1)
            return r
        return v

    def value(self, name):
        x = self.get(name)
        return None if x is None else self.deref(x["value"])


def flat(v, r=None):
    r = [] if r is None else r
    if isinstance(v, list):
        for x in v:
            flat(x, r)
    else:
        r.append(v)
    return r


def f32(x):
    import struct
    return struct.unpack("f", struct.pack("f", x))[0]


class Checker:
    def __init__(self, run, t):
        self.run, self.t, self.n = run, t, {}

    def bad(self, name, rule, msg):
        x = self.t.get(name) or {"file": "", "line": 0}
        f = x["file"]
        if f and not os.path.isabs(f):
            f = os.path.join(REPO, "src", os.path.basename(f))
        self.run.violation(kind=rule, fn=name, file=f or "src", line=x["line"], msg=msg)

    def ok(self, rule, n=1):
        self.n[rule] = self.n.get(rule, 0) + n
        self.run.obligation(n)

    def near(self, name, rule, got, want, tol, what):
        self.ok(rule)
        if not isinstance(got, (int, float)) or not abs(got - want) <= tol:
            self.bad(name, rule, "%s is %s, expected %.9g" % (what, got, want))
            return False
        return True


# ---- Transform

def windows(c):
    w = c.t.value("lc3_mdct_win")
    if w is None:
        return
    for d, s in RATES:
        v = w[d][s] if d < len(w) and s < len(w[d]) else None
        name = "lc3_mdct_win"
        r = c.t.g["lc3_mdct_win"]["value"][d][s]
        if isinstance(r, dict) and "ref" in r:
            name = r["ref"]
        where = "window of %s, rate %d" % (DTS[d], s)
        N = ns(d, s)
        c.ok("window")
        if not isinstance(v, list) or len(v) != N + nd(d, s):
            c.bad(name, "window", "%s has %s values, expected %d" % (
                where, len(v) if isinstance(v, list) else "no", N + nd(d, s)))
            continue
        W = v + [0.0] * (2 * N - len(v))
        V = W[::-1]
        for n in range(N):
            e = W[n] * V[n] + W[n + N] * V[n + N] - 1
            a = W[N - 1 - n] * V[n] - W[2 * N - 1 - n] * V[N + n]
            c.ok("window", 2)
            if abs(e) > 2e-7 or abs(a) > 2e-7:
                c.bad(name, "window", "%s does not reconstruct the sample %d: error %.1e, aliasing %.1e"
                      % (where, n, e, a))
                break


def rotations(c):
    w = c.t.value("lc3_mdct_rot")
    if w is None:
        return
    for d, s in RATES:
        v = w[d][s]
        N = 2 * ns(d, s)
        name = c.t.g["lc3_mdct_rot"]["value"][d][s]
        name = name["ref"] if isinstance(name, dict) else "lc3_mdct_rot"
        where = "rotation of %s, rate %d" % (DTS[d], s)
        c.ok("rotation")
        f = flat(v)
        if f[0] != N // 4 or len(f) != 1 + 2 * (N // 4):
            c.bad(name, "rotation", "%s is of size %s with %d values, expected %d" % (where, f[0], len(f) - 1, N // 4))
            continue
        k = (4.0 / N) ** .25
        for n in range(N // 4):
            a = 2 * math.pi * (n + .125) / N
            if not (c.near(name, "rotation", f[1 + 2 * n], k * math.cos(a), 4e-8, "%s, real part %d" % (where, n)) and
                    c.near(name, "rotation", f[2 + 2 * n], k * math.sin(a), 4e-8, "%s, imaginary part %d" % (where, n))):
                break


def twiddles(c):
    def one(root, ref, v, size, radix):
        name = ref["ref"] if isinstance(ref, dict) and "ref" in ref else root
        f = flat(v)
        c.ok("twiddle")
        m = radix - 1
        cnt = size if radix == 3 else size // 2
        if f[0] != size // radix or len(f) != 1 + 2 * (m * size if radix == 3 else size // 2):
            c.bad(name, "twiddle", "size of butterfly %s with %d values, expected %d" % (f[0], len(f) - 1, size // radix))
            return
        for i in range(cnt):
            for k in range(m):
                a = -2 * math.pi * (k + 1) * i / size
                o = 1 + 2 * (i * m + k)
                if not (c.near(name, "twiddle", f[o], math.cos(a), 1e-7, "real part of twiddle %d,%d" % (i, k)) and
                        c.near(name, "twiddle", f[o + 1], math.sin(a), 1e-7, "imaginary part of twiddle %d,%d" % (i, k))):
                    return
    v = c.t.value("lc3_fft_twiddles_bf3")
    if v is not None:
        for k in range(2):
            one("lc3_fft_twiddles_bf3", c.t.g["lc3_fft_twiddles_bf3"]["value"][k], v[k], 15 * 3 ** k, 3)
    v = c.t.value("lc3_fft_twiddles_bf2")
    if v is not None:
        for i in range(5):
            for j in range(3):
                if v[i][j] is not None or (i < 3 and j < 2) or j == 0 or (i < 2):
                    if v[i][j] is None:
                        c.bad("lc3_fft_twiddles_bf2", "twiddle", "no twiddles for %d points" % (10 * 2 ** i * 3 ** j))
                        continue
                    one("lc3_fft_twiddles_bf2", c.t.g["lc3_fft_twiddles_bf2"]["value"][i][j], v[i][j], 10 * 2 ** i * 3 ** j, 2)


# ---- Entropy coding

def models(c, name, n):
    v = c.t.value(name)
    if v is None:
        return None
    r = []
    if len(v) != n:
        c.bad(name, "model", "%d models, expected %d" % (len(v), n))
    for i, m in enumerate(v):
        f = flat(m)
        if len(f) == 4 * 17:
            s = [((f[k] & 255) | (f[k + 1] & 255) << 8, (f[k + 2] & 255) | (f[k + 3] & 255) << 8)
                 for k in range(0, 68, 4)]
        elif len(f) == 2 * 17:
            s = [(f[k], f[k + 1]) for k in range(0, 34, 2)]
        else:
            c.bad(name, "model", "model %d has %d values" % (i, len(f)))
            return None
        r.append(s)
    return r


def entropy(c):
    for base, nm, nsym in (("lc3_tns_order", 2, 8), ("lc3_tns_coeffs", 8, 17), ("lc3_spectrum", 64, 17)):
        ms = models(c, base + "_models", nm)
        bits = c.t.value(base + "_bits")
        for i, m in enumerate(ms or []):
            low = 0
            for k, (l, r) in enumerate(m):
                c.ok("model")
                if l != low or (k < nsym) != (r > 0) or l + r > 1024:
                    c.bad(base + "_models", "model", "model %d, symbol %d: [%d, %d[ does not follow the interval "
                          "of the preceding symbol, that ends at %d" % (i, k, l, l + r, low))
                    break
                low = l + r
            else:
                if low != 1024:
                    c.bad(base + "_models", "model", "the intervals of model %d end at %d" % (i, low))
            if bits is None:
                continue
            for k in range(nsym):
                c.ok("cost")
                r = m[k][1]
                got = bits[i][k] if i < len(bits) and k < len(bits[i]) else None
                # at most 20 bits are counted to a symbol of probability 1/1024
                want = -2048 * math.log2(r / 1024) if r > 0 else None
                if want is None or got is None or not 0 <= got - want < 1 + 1e-6:
                    c.bad(base + "_bits", "cost", "cost %s of the symbol %d of model %d, expected %.2f"
                          % (got, k, i, want or 0))
                    break
    v = c.t.value("lc3_spectrum_lookup")
    for x in flat(v or []):
        c.ok("lookup")
        if not 0 <= x < 64:
            c.bad("lc3_spectrum_lookup", "lookup", "model %d does not exist" % x)
            break


# ---- Noise shaping

def shaping(c):
    v = c.t.value("lc3_sns_mpvq_offsets")
    if v is not None:
        for n, row in enumerate(v):
            for k, x in enumerate(row):
                want = (0 if k == 0 else 1) if n == 0 else 0 if k == 0 else \
                    v[n - 1][k] + v[n][k - 1] + v[n - 1][k - 1] if k > 1 else 1
                c.ok("enumeration")
                if x != want:
                    c.bad("lc3_sns_mpvq_offsets", "enumeration", "offset %d,%d is %d, expected %d" % (n, k, x, want))
    v = c.t.value("dct16_m")
    if v is not None:
        done = False
        for i in range(16):
            for k in range(16):
                want = math.sqrt((2 if k else 1) / 16.) * math.cos(math.pi * k * (2 * i + 1) / 32)
                if not done and not c.near("dct16_m", "dct", v[i][k] if flat(v)[1] != v[0][0] else v[k][i],
                                           want, 1e-7, "coefficient %d,%d" % (i, k)):
                    done = True
    for t in (14, 18, 22, 26, 30, 34):
        n = "ge_%d" % t
        v = c.t.value(n)
        for b, x in enumerate(v or []):
            want = 10 ** (b * t / 630.)
            if not c.near(n, "tilt", x, want, 2e-7 * want, "gain of the band %d" % b):
                break
    delta = math.pi / 17
    thr, inv = c.t.value("q_thr"), c.t.value("q_inv")
    for i, x in enumerate(thr or []):
        c.near("q_thr", "quantizer", x, math.sin(delta * (i + .5)), 2. ** -15, "threshold %d" % i)
    for i, x in enumerate(inv or []):
        c.near("q_inv", "quantizer", x, math.sin(delta * i), 2. ** -15, "value %d" % i)
    if thr and inv:
        for i in range(9):
            c.ok("quantizer")
            if not ((i == 0 or thr[i - 1] <= inv[i]) and (i == 8 or inv[i] < thr[i])):
                c.bad("q_inv", "quantizer", "the value %d is not quantized to itself" % i)


# ---- Gains, bands, resampling, mathematical functions

def misc(c):
    v = c.t.value("iq_table")
    for i, x in enumerate(v or []):
        want = 10 ** (i / 28.)
        if not c.near("iq_table", "gain", x, want, 1e-7 * want, "gain %d" % i):
            break
    lim, num = c.t.value("lc3_band_lim"), c.t.value("lc3_num_bands")
    for d, s in RATES if lim and num else []:
        v, n = lim[d][s], num[d][s]
        c.ok("bands")
        if not isinstance(v, list) or len(v) != n + 1 or n > 64 or v[0] != 0 or \
                v[-1] != ne(d, s) or any(a >= b for a, b in zip(v, v[1:])):
            c.bad("lc3_band_lim", "bands", "the %s bands of %s, rate %d do not cut the %d coefficients in increasing order"
                  % (n, DTS[d], s, ne(d, s)))
    for k, hz in (("8k", 8), ("16k", 16), ("24k", 24), ("32k", 32), ("48k", 48), ("96k", 96)):
        name = "h_%s_12k8_q15" % k
        v = c.t.value(name)
        if v is None:
            continue
        v = flat(v)
        p = {8: 8, 16: 4, 32: 2, 24: 8, 48: 4, 96: 2}[hz]
        m = len(v) // p
        ph = [v[i * m:(i + 1) * m] for i in range(p)]
        for i in range(p):
            c.ok("resampling", 2)
            if sum(abs(x) for x in ph[i]) << 15 >= 1 << 31:
                c.bad(name, "resampling", "the sum of the phase %d may overflow" % i)
            want = 16384 if hz == 8 else 32768
            if abs(sum(ph[i]) - want) > want // 64:
                c.bad(name, "resampling", "gain of the phase %d is %.4f" % (i, sum(ph[i]) / want))
    for x in c.t.copies("lc3_exp2f.e"):
        for i, e in enumerate(flat(x["value"])):
            c.near(x["name"], "exp2", e, 2 ** (i / 8.), 3e-7, "power %d/8" % i)
    for x, y in zip(c.t.copies("lc3_exp2f.p"), c.t.copies("lc3_exp2f.e")):
        p = flat(x["value"])
        for k in range(-64, 65):
            a = k / 1024.
            v = 1 + a * (p[3] + a * (p[2] + a * (p[1] + a * p[0])))
            if not c.near(x["name"], "exp2", v, 2 ** a, 4e-7, "polynomial at %g" % a):
                break
    for x in c.t.copies("lc3_log2f.c"):
        p = flat(x["value"])
        for k in range(512, 1025):
            a = k / 1024.
            v = p[0]
            for q in p[1:]:
                v = v * a + q
            if not c.near(x["name"], "log2", v, math.log2(a), 2e-4, "polynomial at %g" % a):
                break
    for x in c.t.copies("lc3_db_q16.t"):
        v = [[e & 0xffff for e in r] for r in x["value"]]
        for i in range(32):
            t0 = 10 * math.log10(1 + i / 32.) * 32768
            t1 = 10 * math.log10(1 + (i + 1) / 32.) * 32768
            if i >= 16:
                t0, t1 = (t - 10 * math.log10(2) / 2 * 32768 for t in (t0, t1))
            if len(v) != 32 or not c.near(x["name"], "db", v[i][0], t0, 2.01, "value %d" % i) or \
                    not c.near(x["name"], "db", v[i][1], t1 - t0, 3.01, "slope %d" % i):
                break


# ---- Normative data without formula: the values of the specification

NORMATIVE = ["lc3_sns_lfcb", "lc3_sns_hfcb", "lc3_sns_vq_gains", "lc3_sns_mpvq_offsets", "lc3_spectrum_lookup",
             "lc3_spectrum_models", "lc3_spectrum_bits", "lc3_tns_order_models", "lc3_tns_order_bits",
             "lc3_tns_coeffs_models", "lc3_tns_coeffs_bits", "lc3_ltpf_cnum", "lc3_ltpf_cden", "lc3_band_lim",
             "lc3_num_bands", "lc3_frame_bytes_hr_lim", "lc3_ns_2m5", "lc3_ne_2m5", "lc3_ns_4m",
             "bws_table_2m5", "bws_table_5m", "bws_table_7m5", "bws_table_10m", "l_table",
             "h_8k_12k8_q15", "h_16k_12k8_q15", "h_24k_12k8_q15", "h_32k_12k8_q15", "h_48k_12k8_q15", "h_96k_12k8_q15",
             "resample_6k4.h", "interpolate_corr.h4", "interpolate.h4_q15", "lag_window", "q_thr", "q_inv",
             "sub_2m5_nb", "sub_2m5_wb", "sub_2m5_sswb", "sub_2m5_swb", "sub_2m5_fb", "sub_5m_nb", "sub_5m_wb",
             "sub_5m_sswb", "sub_5m_swb", "sub_5m_fb", "sub_7m5_nb", "sub_7m5_wb", "sub_7m5_sswb", "sub_7m5_swb",
             "sub_7m5_fb", "sub_10m_nb", "sub_10m_wb", "sub_10m_sswb", "sub_10m_swb", "sub_10m_fb", "dct16_m",
             "ge_table", "iq_table"]
DATA = os.path.join(VERIF, "data", "normative.json")


def normative(c, want):
    whole = None
    for name in NORMATIVE:
        w = want[name]
        x = c.t.value(name)
        f = flat(x) if x is not None else None
        c.ok("normative", len(w))
        if f == w:
            continue
        if f is not None and len(f) == len(w):
            k = [i for i in range(len(w)) if f[i] != w[i]]
            c.bad(name, "normative", "%d values differ from the specification, the first at %d: %s instead of %s"
                  % (len(k), k[0], f[k[0]], w[k[0]]))
            continue
        # moved or laid out another way: the same values in a row, anywhere
        if whole is None:
            whole = ["," + ",".join(map(repr, flat(c.t.deref(y["value"])))) + "," for y in c.t.all]
        key = "," + ",".join(map(repr, w)) + ","
        if any(key in y for y in whole):
            continue
        if f is not None:
            c.bad(name, "normative", "%d values, %d in the specification" % (len(f), len(w)))


def tables(run):
    t = Tables(run)
    c = Checker(run, t)
    for f in (windows, rotations, twiddles, entropy, shaping, misc):
        try:
            f(c)
        except (IndexError, TypeError, KeyError) as e:
            raise CheckError("tables of %s not understood: %r" % (f.__name__, e))
    with open(DATA) as fp:
        normative(c, json.load(fp))
    run.coverage["rule"] = "every value of the constant tables against its mathematical definition, or the published value"
    run.coverage["obligations_per_rule"] = c.n
    run.coverage["globals_examined"] = len(t.all)
    run.coverage["tables_not_found"] = sorted(set(t.absent))
    run.trusted = [TRUSTED[0], "the published values of the tables without formula, recorded in data/normative.json"]
    if not c.n.get("window") or not c.n.get("model"):
        raise CheckError("the tables of the codec were not found")


def snapshot():
    """Record the normative values, from the pinned sources"""
    run = Run("P11", "quick")
    t = Tables(run)
    out = {}
    for n in NORMATIVE:
        v = t.value(n)
        assert v is not None, n
        out[n] = flat(v)
    run.close()
    os.makedirs(os.path.dirname(DATA), exist_ok=True)
    with open(DATA, "w") as fp:
        fp.write("{\n" + ",\n".join("%s: %s" % (json.dumps(k), json.dumps(v, separators=(",", ":")))
                                    for k, v in out.items()) + "\n}\n")
