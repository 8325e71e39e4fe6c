"""Python wrapper: what reaches the C interface, by abstract interpretation"""
import ast, json, os, re
from core import *
from pyinterp import *

DTS, SRS, HRS = [2500, 5000, 7500, 10000], [8000, 16000, 24000, 32000, 48000], [48000, 96000]
QUERIES = ["frame_samples", "frame_bytes", "frame_block_bytes", "resolve_bitrate", "delay_samples"]


def prototypes(run):
    """Functions and formats declared by the C header"""
    src = os.path.join(run.tmp, "header.c")
    with open(src, "w") as fp:
        fp.write('#include "lc3.h"\n')
    out = must([CLANG, "-std=c11", "-I" + REPO + "/include", "-fsyntax-only", "-Xclang", "-ast-dump=json", src],
               "parse of lc3.h")
    protos, fmts, enums = {}, {}, {}

    def kind(t):
        q = t.get("desugaredQualType", t["qualType"])
        if "*" in q:
            return "ptr"
        if q in ("_Bool", "bool"):
            return "bool"
        if q.startswith("enum"):
            return "enum"
        return {"int": "int", "unsigned int": "uint", "void": "void"}.get(q, q)
    for d in json.loads(out)["inner"]:
        if d["kind"] == "FunctionDecl" and d["name"].startswith("lc3_"):
            ps = [(p.get("name", ""), kind(p["type"])) for p in d.get("inner", []) if p["kind"] == "ParmVarDecl"]
            q = d["type"]["qualType"].split("(")[0].strip()
            r = "ptr" if "*" in q or q.endswith("coder_t") else kind({"qualType": q})
            protos[d["name"]] = (r, ps)
        if d["kind"] == "EnumDecl" and d.get("name") == "lc3_pcm_format":
            v = 0
            for c in d["inner"]:
                if c["kind"] != "EnumConstantDecl":
                    continue
                for x in c.get("inner", []):
                    if "value" in x:
                        v = int(x["value"])
                fmts[c["name"]] = v
                v += 1
    if len(protos) < 15 or len(fmts) != 4:
        raise CheckError("prototypes not found in lc3.h")
    return protos, fmts


class Host:
    """The C side: libraries, and calls made to it"""

    def __init__(self, protos, fmts, hr):
        self.protos, self.fmts, self.hr = protos, fmts, hr
        self.report = None

    def has(self, n):
        return n in self.protos and (self.hr or not n.startswith("lc3_hr_"))

    def find(self, it, n):
        return "lib" + n if isinstance(n, str) else Top("lib")

    def load(self, it, n):
        if n == "libc":
            return Lib(lambda f: f in ("malloc", "free", "calloc", "memcpy", "memset"))
        return Lib(self.has)

    def ctkind(self, t):
        if isinstance(t, PyClass):
            t = t.ctype()
        if t is None:
            return "void"
        if isinstance(t, CType):
            return t.ckind, t.csize
        return None

    def match(self, kind, t):
        k = self.ctkind(t)
        return k in {"bool": [("bool", 1)], "int": [("int", 4)], "uint": [("uint", 4)],
                     "enum": [("int", 4), ("uint", 4)], "ptr": [("ptr", 8)], "void": ["void", ("int", 4)],
                     "size_t": [("uint", 8)]}.get(kind, [])

    def foreign(self, it, f, args):
        n = f.name
        libc = {"malloc": ("ptr", [("size", "size_t")]), "free": ("void", [("ptr", "ptr")]),
                "calloc": ("ptr", [("n", "size_t"), ("size", "size_t")])}
        ret, ps = self.protos.get(n) or libc.get(n) or (None, None)
        line = getattr(it.node, "lineno", 0)
        if ret is None:
            return Top(n)
        if len(args) != len(ps):
            it.problem("%s() takes %d arguments, given %d" % (n, len(ps), len(args)))
            return Top(n)
        # Declared types
        at, rt = f.attrs.get("argtypes"), f.attrs.get("restype", CTYPES["c_int"])
        self.ncalls = getattr(self, "ncalls", 0) + 1
        if at is not None:
            at = list(at)
            if len(at) != len(ps):
                it.problem("argtypes of %s() declare %d arguments, %d in the C prototype" % (n, len(at), len(ps)))
            for (pn, k), t in zip(ps, at):
                if not self.match(k, t):
                    it.problem("argtypes of %s(): '%s' declared %r, where the C prototype has %s" % (n, pn, t, k))
        if not self.match(ret, rt) and not (ret == "uint" and self.ctkind(rt) == ("int", 4)):
            it.problem("restype of %s() is %r, where the C prototype has %s" % (n, rt, ret))
        vals = []
        for i, ((pn, k), v) in enumerate(zip(ps, args)):
            if isinstance(v, CVal):
                v = v.v
            if isinstance(v, Cmp):
                v = it.truth(v)
            if k == "ptr" and at is None and not isinstance(v, (View, Buf)) and v is not None and \
                    not (isinstance(v, Handle) and isinstance(v.rt, PyClass)):
                it.problem("pointer '%s' of %s() passed without argtypes" % (pn, n))
            if k != "ptr" and not isinstance(v, (int, Lin)):
                it.problem("argument '%s' of %s() is not an integer (%r)" % (pn, n, v))
            vals.append(v)
        base = re.sub("^lc3_(hr_)?", "", n)
        hrf = n.startswith("lc3_hr_")
        ev = dict(name=n, base=base, args=vals, line=line, named=dict(zip([p for p, _ in ps], vals)))
        if not hrf and "hrmode" not in ev["named"] and (base in QUERIES or base.endswith("_size") or
                                                        base.startswith("setup_")):
            ev["named"]["hrmode"] = False
        it.events.append(ev)
        if n in ("malloc", "calloc"):
            sz = vals[0] if n == "malloc" else it.mul(vals[0], vals[1])
            m = Mem(sz, line)
            it.mems = getattr(it, "mems", []) + [m]
            return m
        if n == "free":
            m = vals[0].mem if isinstance(vals[0], Handle) else vals[0]
            if isinstance(m, Mem):
                m.freed += 1
            elif m is not None:
                it.problem("free() of %r, that is not a codec memory" % (m,))
            return None
        if base in QUERIES or base.endswith("_size"):
            key = "%s(%s)" % (base, ", ".join("%s=%r" % (k, v) for k, v in sorted(ev["named"].items())))
            s = it.sym(key, 0 if base.endswith("_size") else -1, None)
            ev["ret"] = key if not base.endswith("_size") else None
            if base == "frame_samples":
                it.nonzero.add(key)
            return s
        if base.startswith("setup_"):
            h = Handle(ev["named"].get("mem"), ev)
            h.rt = rt
            ev["handle"] = h
            return h
        if base in ("encode", "decode"):
            key = "ret of %s #%d" % (base, len(it.events))
            ev["ret"] = key
            ev["segs"] = {k: list(v.buf.segs) if isinstance(v, View) else list(v.segs) if isinstance(v, Buf) else None
                          for k, v in ev["named"].items() if isinstance(v, (View, Buf))}
            r = it.sym(key, -1, 0 if base == "encode" else 1)
            # the output is written
            o = ev["named"]["out" if base == "encode" else "pcm"]
            b = o.buf if isinstance(o, View) else o if isinstance(o, Buf) else None
            if b is not None:
                b.written = True
            return r
        return Top(n)


class Fail(Exception):
    pass


class Api:
    def __init__(self, run):
        self.run = run
        self.path = os.path.join(REPO, "python", "lc3.py")
        with open(self.path) as fp:
            self.tree = ast.parse(fp.read(), self.path)
        self.protos, self.fmts = prototypes(run)
        self.seen = set()
        self.paths = self.calls = self.scenarios = 0

    def bad(self, line, msg, cfg):
        self.run.violation("python", self.where(line), self.path, line, msg, config=cfg)

    def where(self, line):
        best = "module"
        for n in ast.walk(self.tree):
            if isinstance(n, ast.FunctionDef) and n.lineno <= line <= n.end_lineno:
                best = n.name
        return best

    def scenario(self, name, fn, hr=True):
        """Every trace of the scenario"""
        self.scenarios += 1
        work, n = [[]], 0
        while work:
            dec = work.pop()
            n += 1
            if n > 400:
                raise CheckError("too many paths in %s" % name)
            host = Host(self.protos, self.fmts, hr)
            it = Interp(self.tree, host, dec)
            it.cfg = name
            try:
                fn(it)
            except Undecided as e:
                raise CheckError("%s: %s" % (name, e))
            for line, m in it.problems:
                self.bad(line, m, name)
            self.calls += getattr(host, "ncalls", 0)
            self.run.obligation(getattr(host, "ncalls", 0))
            for i in range(len(dec), len(it.dec)):
                work.append(it.dec[:i] + [False])
        self.paths += n

    def make(self, it, cls, **kw):
        it.load()
        c = it.globals_.v[cls]
        o = it.call(c, [], kw)
        o.cls_name = cls
        return o

    # Failures reported

    def failing(self, it, since=0):
        """Known failure of a C call, and C calls whose failure is possible"""
        known, possible = [], []
        for e in it.events[since:]:
            k = e.get("ret")
            if k:
                lo, hi = it.lo[k], it.hi[k]
                if hi is not None and hi < 0:
                    known.append(e)
                elif lo is None or lo < 0:
                    possible.append(e)
        return known, possible

    def outcome(self, it, fn, what, allowed=lambda e: False):
        """Calls; failures of the C side are raised, and nothing else is"""
        since = len(it.events)
        try:
            r = fn()
        except PyRaise as e:
            known, _ = self.failing(it, 0)
            cn = e.exc.cls.name if isinstance(e.exc, PyObj) else "?"
            self.run.obligation()
            if known:
                if not (isinstance(e.exc, PyObj) and e.exc.cls.name == "InvalidArgumentError"):
                    self.bad(e.node.lineno, "%s raises %s where the C interface fails, InvalidArgumentError expected"
                             % (what, cn), it.cfg)
            elif not allowed(e):
                self.bad(getattr(e.node, "lineno", 0), "%s raises %s, where no call of the C interface fails" % (what, cn), it.cfg)
            return None
        known, possible = self.failing(it, since)
        self.run.obligation()
        for e in known + possible:
            self.bad(e["line"], "%s returns a result, although %s() may have failed" % (what, e["name"]), it.cfg)
        return r if not known + possible else None

    def same(self, it, a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            return isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and bool(a) == bool(b)
        return isnum(a) and isnum(b) and it.compare("==", a, b) is True

    def need(self, it, cond, line, msg):
        self.run.obligation()
        if not cond:
            self.bad(line, msg, it.cfg)
        return cond

    # Setup

    def setup(self, it, side, o, cfg):
        """Memory and setup of the codecs"""
        ev = [e for e in it.events if e["base"] == "setup_" + side]
        n = cfg["nch"]
        if not self.need(it, len(ev) == n, 0, "%d %s set up for %d channels" % (len(ev), side + "s", n)):
            return None
        rate = cfg["rate"]
        mems = []
        for e in ev:
            a = e["named"]
            self.need(it, self.same(it, a["hrmode"], cfg["hr"]) and self.same(it, a["dt_us"], 10000) and
                      self.same(it, a["sr_hz"], 48000), e["line"],
                      "%s() set up with (%r, %r, %r), for mode %r, 10000 us and 48000 Hz" % (
                          e["name"], a["hrmode"], a["dt_us"], a["sr_hz"], cfg["hr"]))
            m = a["mem"]
            if not self.need(it, isinstance(m, Mem), e["line"], "%s() is not given memory allocated for it" % e["name"]):
                continue
            self.need(it, m not in mems, e["line"], "two codecs are given the same memory")
            mems.append(m)
            p = a["sr_pcm_hz"]
            # 0 or less stands for the rate of the codec
            want = 48000 if rate is None else rate
            self.need(it, self.same(it, p, want) or (rate is None and isnum(p) and it.compare("<=", p, 0) is True),
                      e["line"], "%s() set up with PCM at %r Hz, for %r" % (e["name"], p, want))
            if it.compare("<=", p, 0) is True if isnum(p) else False:
                p = 48000
            elif not isnum(p) or it.compare("<=", p, 0) is not False:
                self.need(it, False, e["line"],
                          "the PCM rate %r may be negative: the setup takes the rate of the codec, the memory "
                          "is sized with another one" % (p,))
            # size of the memory
            t, c = parts(m.size) if isnum(m.size) else ({}, 0)
            ok = False
            for x in it.events:
                if x["base"] == side + "_size":
                    y = x["named"]
                    key = "%s(%s)" % (x["base"], ", ".join("%s=%r" % (k, v) for k, v in sorted(y.items())))
                    if t.get(key, 0) >= 1 and c >= 0 and all(v > 0 for v in t.values()):
                        ok |= self.same(it, y["hrmode"], cfg["hr"]) and self.same(it, y["dt_us"], 10000) and \
                            self.same(it, y["sr_hz"], p)
            self.need(it, ok, m.node, "memory of %r bytes, for an %s of mode %r, 10000 us, at %r Hz"
                      % (m.size, side, cfg["hr"], p))
        return ev

    def free(self, it, o, ev):
        d = o.cls.find("__del__")
        if d:
            try:
                it.call(d, [o], {})
            except PyRaise as e:
                self.bad(e.node.lineno, "__del__ raises", it.cfg)
        for m in getattr(it, "mems", []):
            self.need(it, m.freed == 1, m.node,
                      "the memory of the codec is freed %d times when the object is deleted" % m.freed)

    # Frames

    def buffer(self, v):
        if isinstance(v, View):
            return v.buf, v.off, v.vsize
        if isinstance(v, Buf):
            return v, 0, v.size()
        return None

    def frames(self, it, side, cfg, ev, total):
        """Frames and samples of the channels"""
        calls = [e for e in it.events if e["base"] == side[:-1]]
        n = cfg["nch"]
        fmt, size = {16: ("LC3_PCM_FORMAT_S16", 2), 24: ("LC3_PCM_FORMAT_S24_3LE", 3),
                     None: ("LC3_PCM_FORMAT_FLOAT", 4)}[cfg["depth"]]
        ns = it.sym("frame_samples(dt_us=10000, hrmode=%r, sr_hz=%r)" % (
            cfg["hr"], 48000 if cfg["rate"] is None else cfg["rate"]), -1)
        pos, pcms, datas, order = 0, set(), set(), []
        if not self.need(it, len(calls) == n, 0, "%d calls of lc3_%s() for %d channels" % (len(calls), side[:-1], n)):
            return None
        for e in calls:
            a = e["named"]
            h = a["encoder" if side == "encoder" else "decoder"]
            idx = [i for i, x in enumerate(ev) if x["handle"] is h]
            if not self.need(it, len(idx) == 1, e["line"], "lc3_%s() is not given a codec set up" % side[:-1]):
                return None
            order.append(idx[0])
        if not self.need(it, sorted(order) == list(range(n)), calls[0]["line"],
                         "codecs used for the channels: %r" % order):
            return None
        for e, ch in zip(calls, order):
            a = e["named"]
            pcm, out = self.buffer(a["pcm"]), self.buffer(a["out" if side == "encoder" else "in"])
            f = a["fmt"]
            self.need(it, isinstance(f, int) and int(f) == self.fmts[fmt], e["line"],
                      "format %r given for samples of depth %r, %s is %d" % (f, cfg["depth"], fmt, self.fmts[fmt]))
            self.need(it, self.same(it, a["stride"], n), e["line"], "stride of %r samples, for %d channels" % (a["stride"], n))
            if not self.need(it, pcm is not None, e["line"], "samples are not in a buffer: %r" % (a["pcm"],)) or \
               not self.need(it, out is not None, e["line"], "frame is not in a buffer"):
                continue
            b, off, left = pcm
            self.need(it, not (side == "decoder" and b.frozen), e["line"], "samples written in an immutable object")
            self.need(it, self.same(it, off, ch * size), e["line"],
                      "samples of channel %d at offset %r, expected %d" % (ch, off, ch * size))
            # samples accessed, up to ((ns - 1) * n + 1) * size bytes
            span = add(scale(ns, n * size), -(n - 1) * size)
            self.need(it, it.compare("<=", add(off, span), b.size()) is True, e["line"],
                      "%r bytes of samples accessed at %r, in a buffer of %r" % (span, off, b.size()))
            pcms.add(id(b))
            b, off, left = out
            nb = a["nbytes"]
            self.need(it, not (side == "encoder" and b.frozen), e["line"], "frame written in an immutable object")
            datas.add(id(b))
            quota = add(cfg["q"], 1 if ch < cfg["r"] else 0)
            first = add(scale(cfg["q"], ch), min(ch, cfg["r"]))
            self.need(it, self.same(it, nb, quota), e["line"],
                      "frame of %r bytes for channel %d of %d, %r expected" % (nb, ch, n, quota))
            self.need(it, self.same(it, off, first) or len(datas) == n and n > 1, e["line"],
                      "frame of channel %d at offset %r, %r expected" % (ch, off, first))
            self.need(it, it.compare("<=", add(off, nb), b.size()) is True if isnum(nb) else False, e["line"],
                      "frame of %r bytes at %r, in a buffer of %r" % (nb, off, b.size()))
        self.need(it, len(pcms) == 1, calls[0]["line"], "the samples of the channels are not interleaved in one buffer")
        return calls

    def content(self, it, calls, cfg, which, want):
        """Segments of the input buffer"""
        e = calls[0]
        segs = e["segs"].get(which)
        self.need(it, segs is not None and len(segs) >= len(want) and all(
            s[0] == w[0] and (w[1] is None or self.same(it, s[1], w[1])) for s, w in zip(segs, want)),
            e["line"], "content of the buffer given: %r, expected %r" % (segs, want))

    # Scenarios

    def run_all(self, thorough):
        chans = [1, 2, 3] + ([4, 5, 6, 7, 8] if thorough else [])
        for lib in (True, False):
            for hr in ([False, True] if lib else [False]):
                for n in chans:
                    for rate in (None, "rate"):
                        for side in ("encoder", "decoder"):
                            self.codec(side, lib, hr, n, rate)
        self.hr_missing()
        self.accepted()
        self.queries()

    def config(self, it, side, hr, n, rate):
        kw = dict(frame_duration_us=10000, sample_rate_hz=48000, num_channels=n, hrmode=hr)
        r = None
        if rate:
            r = it.sym("rate", None, None)
            kw["input_sample_rate_hz" if side == "encoder" else "output_sample_rate_hz"] = r
        return kw, r

    def codec(self, side, lib, hr, n, rate):
        cls = side.capitalize()
        name = "%s lib=%s hr=%d channels=%d%s" % (cls, "hr" if lib else "base", hr, n, " rate" if rate else "")

        def construct(it):
            kw, r = self.config(it, side, hr, n, rate)
            cfg = dict(hr=hr, nch=n, rate=r)
            try:
                o = self.make(it, cls, **kw)
            except PyRaise as e:
                # unsupported rate, or setup that fails
                cn = e.exc.cls.name if isinstance(e.exc, PyObj) else "?"
                setup_failed = any(k[0] == "null" for k in it.memo)
                self.need(it, (rate or setup_failed) and e.exc.cls.find("%x") is None and cn in (
                    "InvalidArgumentError", "InitializationError"), e.node.lineno, "constructor raises %s" % cn)
                if r is not None and not setup_failed:
                    # a rate that is supported is not refused
                    hi = it.hi["rate"]
                    known = [x for x in it.events if x["base"].endswith("_size")]
                    self.need(it, (hi is not None and hi < 48000) or known, e.node.lineno,
                              "constructor refuses a PCM rate that is supported")
                return None, None, None
            if r is not None and it.lo["rate"] == it.hi["rate"] == 0:
                cfg["rate"] = None
            return o, self.setup(it, side, o, cfg), cfg

        def life(it):
            o, ev, cfg = construct(it)
            if o is not None and ev is not None:
                self.free(it, o, ev)
        self.scenario(name + " life", life, lib)

        def process(depth, rem, case):
            def f(it):
                o, ev, cfg = construct(it)
                if o is None or ev is None:
                    return
                cfg.update(depth=depth, r=rem, q=it.sym("q", 0))
                nbytes = add(scale(cfg["q"], n), rem)
                size = {16: 2, 24: 3, None: 4}[depth]
                key = "frame_samples(dt_us=10000, hrmode=%r, sr_hz=%r)" % (cfg["hr"], 48000 if cfg["rate"] is None else cfg["rate"])
                ns = it.sym(key, -1)
                total = scale(ns, n)
                unit = 4 if case.startswith("raw") else 1 if depth is None else size
                m = it.call(Native("getattr", it.getattr), [o, side[:-1]])
                if side == "encoder":
                    # length of the input, in units of len()
                    full = scale(total, unit)
                    d = scale(it.sym("diff", 1), 4 if case.startswith("raw") else 1)
                    ln = {"short": add(full, d, -1), "exact": full, "long": add(full, d)}[case.replace("raw", "")]
                    if case.startswith("raw") or depth is not None:
                        x = Buf("bytes", 1, [("in", ln)])
                    else:
                        x = Buf("list", 4, [("in", ln)])
                    kw = dict(num_bytes=nbytes, bit_depth=depth)
                    args = [x]
                else:
                    x = Buf("bytes", 1, [("in", nbytes)])
                    kw, args = dict(bit_depth=depth), [x]
                since = len(it.events)

                def allowed(e):
                    # samples out of range, or failure of the setup
                    return depth is None and side == "encoder" and not any(
                        v["base"] == "encode" for v in it.events[since:]) and \
                        e.exc.cls.name == "InvalidArgumentError"
                r = self.outcome(it, lambda: it.call(m, args, kw), "%s()" % side[:-1], allowed)
                if r is None:
                    return
                calls = self.frames(it, side, cfg, ev, total)
                if calls is None:
                    return
                if side == "encoder":
                    if depth is None:
                        n_in = {"short": add(total, it.sym("diff", 1), -1), "exact": total,
                                "long": add(total, it.sym("diff", 1))}[case.replace("raw", "")]
                        n_pad = it.sym("diff", 1)
                    else:
                        n_in, n_pad = ln, it.sym("diff", 1)
                    want = [("in", n_in)] + ([("zero", n_pad)] if "short" in case else [])
                    segs = calls[0]["segs"]["pcm"]
                    if "long" in case:      # may be cut
                        want = [("in", None)]
                    self.content(it, calls, cfg, "pcm", want)
                    out = [self.buffer(e["named"]["out"])[0] for e in calls]
                    self.need(it, isinstance(r, Buf) and r.kind == "bytes" and (
                        r.elt is out[0] or isinstance(r.elt, Buf) and r.elt in out) and
                        self.same(it, r.n(), nbytes) or len(set(map(id, out))) > 1 and isinstance(r, Buf) and
                        self.same(it, r.n(), nbytes), calls[-1]["line"], "encode() does not return the frames: %r" % (r,))
                else:
                    b = self.buffer(calls[0]["named"]["pcm"])[0]
                    self.content(it, calls, cfg, "in", [("in", None)])
                    kind = "array" if depth is None else "bytes"
                    ok = isinstance(r, Buf) and (r is b or r.elt is b) and r.kind == kind
                    self.need(it, ok and self.same(it, r.n(), total if depth is None else scale(total, size)),
                              calls[-1]["line"], "decode() does not return the samples: %r, %r" % (
                                  getattr(r, "kind", r), r.n() if isinstance(r, Buf) else None))
            return f
        cases = ["short", "exact", "long"] if side == "encoder" else ["exact"]
        for depth in (16, 24, None):
            for rem in range(n):
                if side == "encoder" and rem == 0:
                    cs = cases + (["rawshort", "rawexact"] if depth is None else [])
                else:
                    cs = cases[:1]
                for c in cs:
                    self.scenario("%s depth=%s r=%d %s" % (name, depth, rem, c), process(depth, rem, c), lib)

        # samples that are not finite
        def finite(value):
            def f(it):
                o, ev, cfg = construct(it)
                if o is None or ev is None:
                    return
                it.sample = value
                ns = it.sym("frame_samples(dt_us=10000, hrmode=%r, sr_hz=48000)" % cfg["hr"], -1)
                m = it.getattr(o, "encode")
                try:
                    it.call(m, [Buf("list", 4, [("in", scale(ns, n))])], dict(num_bytes=scale(it.sym("q", 0), n)))
                    r = None
                except PyRaise as e:
                    if self.failing(it)[0]:
                        return
                    r = e.exc.cls.name
                ok = r is None if value == 0 else r == "InvalidArgumentError" and not any(
                    e["base"] == "encode" for e in it.events)
                self.need(it, ok, m.fn.node.lineno, "samples of value %r: encode() %s" % (
                    value, "raises " + r if r else "accepts them"))
            return f
        if side == "encoder" and not rate:
            for value in (0.0, float("nan"), float("inf")):
                self.scenario(name + " samples %r" % value, finite(value), lib)

        # depth that is not supported
        def depth_bad(it):
            o, ev, cfg = construct(it)
            if o is None:
                return
            since = len(it.events)
            m = it.getattr(o, side[:-1])
            try:
                kw = dict(bit_depth=8)
                if side == "encoder":
                    kw["num_bytes"] = 100
                it.call(m, [Buf("bytes", 1, [("in", it.sym("len", 0))])], kw)
                self.need(it, False, m.fn.node.lineno, "%s() accepts samples of 8 bits" % side[:-1])
            except PyRaise as e:
                self.need(it, e.exc.cls.name == "InvalidArgumentError", e.node.lineno,
                          "%s() raises %s for samples of 8 bits" % (side[:-1], e.exc.cls.name))
        if n == 1 and not rate:
            self.scenario(name + " depth=8", depth_bad, lib)

    def hr_missing(self):
        for cls in ("Encoder", "Decoder"):
            def f(it):
                try:
                    self.make(it, cls, frame_duration_us=10000, sample_rate_hz=48000, hrmode=True)
                    self.need(it, False, 0, "high resolution accepted, with a library that has no such interface")
                except PyRaise as e:
                    self.need(it, e.exc.cls.name == "InitializationError", e.node.lineno, "raises " + e.exc.cls.name)
            self.scenario(cls + " high resolution missing", f, False)

    def accepted(self):
        """Durations and rates accepted"""
        for cls in ("Encoder", "Decoder"):
            for hr in (False, True):
                for dt in DTS + [0, -1, 1250, 9999, 20000, 10]:
                    for sr in SRS + [96000, 0, 44100, 11025, -48000]:
                        ok = dt in DTS and sr in (HRS if hr else SRS)
                        cfg = "%s hr=%d dt=%d sr=%d" % (cls, hr, dt, sr)

                        def f(it):
                            try:
                                self.make(it, cls, frame_duration_us=dt, sample_rate_hz=sr, hrmode=hr)
                                r = True
                            except PyRaise as e:
                                r = e.exc.cls.name
                                if any(k[0] == "null" for k in it.memo):
                                    return
                                if ok and it.events and any(x["base"].endswith("_size") for x in it.events):
                                    return
                            self.need(it, r is True if ok else r == "InvalidArgumentError", 0,
                                      "%s duration %d us and rate %d Hz: %s" % (
                                          "high resolution" if hr else "standard", dt, sr,
                                          "accepted" if r is True else "raises " + r))
                        self.scenario(cfg, f, True)

    def queries(self):
        """Values returned by the queries"""
        for side in ("encoder", "decoder"):
            for lib in (True, False):
                for hr in ([False, True] if lib else [False]):
                    for n in (1, 2, 3):
                        for rate in (None, "rate"):
                            self.query(side, lib, hr, n, rate)

    def query(self, side, lib, hr, n, rate):
        name = "%s queries lib=%d hr=%d channels=%d rate=%r" % (side, lib, hr, n, rate)

        def q(meth, arg, base, want):
            def f(it):
                kw, r = self.config(it, side, hr, n, rate)
                try:
                    o = self.make(it, side.capitalize(), **kw)
                except PyRaise:
                    return
                if r is not None and it.lo["rate"] == it.hi["rate"] == 0:
                    r = None
                pr = 48000 if r is None else r
                m = it.getattr(o, meth)
                a = [it.sym(arg, None, None)] if arg else []
                v = self.outcome(it, lambda: it.call(m, a), meth + "()")
                if v is None:
                    return
                w = want(it, pr, a[0] if a else None)
                self.need(it, any(self.same(it, v, x) for x in w), m.fn.node.lineno,
                          "%s() returns %r, expected %r" % (meth, v, w[0]))
            self.scenario(name + " " + meth, f, lib)

        def s(base, **named):
            return "%s(%s)" % (base, ", ".join("%s=%r" % x for x in sorted(named.items())))
        q("get_frame_samples", None, "frame_samples",
          lambda it, pr, a: [it.sym(s("frame_samples", hrmode=hr, dt_us=10000, sr_hz=pr), -1)])
        q("get_delay_samples", None, "delay_samples",
          lambda it, pr, a: [it.sym(s("delay_samples", hrmode=hr, dt_us=10000, sr_hz=pr), -1)])

        def w_bytes(it, pr, a):
            if lib:
                return [it.sym(s("frame_block_bytes", hrmode=hr, dt_us=10000, sr_hz=48000, nchannels=n, bitrate=a), -1)]
            return [it.sym(s("frame_block_bytes", hrmode=False, dt_us=10000, nframes=n, bitrate=a), -1),
                    scale(it.sym(s("frame_bytes", hrmode=False, dt_us=10000, bitrate=it.floordiv(a, n)), -1), n)]
        q("get_frame_bytes", "bitrate", "frame_block_bytes", w_bytes)

        def w_rate(it, pr, a):
            if lib:
                return [it.sym(s("resolve_bitrate", hrmode=hr, dt_us=10000, sr_hz=48000, nbytes=a), -1)]
            return [it.sym(s("resolve_bitrate", hrmode=False, dt_us=10000, nbytes=a), -1)]
        q("resolve_bitrate", "nbytes", "resolve_bitrate", w_rate)


def python_interface(run):
    """The Python wrapper gives the C interface what it expects"""
    a = Api(run)
    a.run_all(run.tier == "thorough")
    run.level = "proof"
    run.trusted = ["the abstract interpreter of Python of /verif/lib/pyinterp.py, and its model of ctypes",
                   "clang 18 front end (prototypes of include/lc3.h)",
                   "the rules of /verif/lib/pyapi.py"]
    run.coverage.update(scenarios=a.scenarios, paths=a.paths, calls_of_the_C_interface=a.calls,
        functions=sorted({n.name for n in ast.walk(a.tree) if isinstance(n, ast.FunctionDef)}),
        rule="types declared to ctypes match the C prototypes; memory sized by the size function of the same "
             "parameters; frames and samples of each channel inside their buffers, at the documented places; "
             "failures of the C side raised; memory freed once")
    run.samples = [{"prototypes": {k: repr(v) for k, v in list(a.protos.items())[:6]}}, {"formats": a.fmts}]
