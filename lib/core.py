"""Common machinery of the checks: builds the analysers and the IR of the
current sources of /repo, runs the analyses, reports."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LC3_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CLANG, CLANGXX = "clang-18", "clang++-18"
LLVM = "/usr/lib/llvm-18"
CFLAGS = ["-std=c11", "-O0", "-Xclang", "-disable-O0-optnone", "-g",
          "-ffp-contract=off", "-w"]
PASSES = "function(mem2reg),cgscc(function-attrs),function(early-cse<memssa>)"
JOBS = os.cpu_count() or 8

TRUSTED = [
    "clang 18 front end and the LLVM 18 passes mem2reg, function-attrs, early-cse<memssa> (C source to the analysed IR)",
    "the abstract interpreter of /verif/engine (soundness of its transfer functions, joins and widenings)",
    "the entry points of /verif/harness state what callers may do",
]


ALARM_KINDS = {"oob-read", "oob-write", "array-index", "overflow", "overflow64", "shift", "division",
               "null", "fp-conversion", "indirect-call", "readonly-write", "side-effect", "external",
               "assert", "uninit"}


def sorted_pairs(off):
    return [x for k in sorted(off[1::2]) for x in ("--off", k)]


class CheckError(Exception):
    """The check has no answer"""


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, **kw)
    return p


def must(cmd, what):
    p = sh(cmd)
    if p.returncode:
        raise CheckError("%s failed\n%s" % (what, (p.stdout + p.stderr)[-3000:]))
    return p.stdout


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fp:
            h.update(fp.read())
    return h.hexdigest()[:16]


def build_tool(name, sources, link_llvm=True):
    """Build an analyser, once per version of its sources"""
    src = [os.path.join(VERIF, "engine", s) for s in sources]
    key = digest(glob.glob(os.path.join(VERIF, "engine", "*.h")) + src)
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, "%s-%s" % (name, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        objs, procs = [], []
        for s in src:
            o = tmp + "." + os.path.basename(s) + ".o"
            objs.append(o)
            procs.append((s, subprocess.Popen(
                [CLANGXX, "-O2", "-std=c++17", "-w", "-I" + LLVM + "/include", "-c", s, "-o", o],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            out = p.communicate()[0]
            if p.returncode:
                raise CheckError("build of %s failed\n%s" % (s, out[-3000:]))
        must([CLANGXX, "-o", tmp] + objs +
             (["-L" + LLVM + "/lib", "-lLLVM-18"] if link_llvm else []), "link of " + name)
        for o in objs:
            os.unlink(o)
        os.rename(tmp, exe)
    return exe


class Run:
    """One run of a check"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.violations, self.samples = [], []
        self.obligations = self.failed = 0
        self.coverage, self.assumptions, self.trusted = {}, [], list(TRUSTED)
        self.level = "proof"
        self.functions = set()
        self.commands = []

    # -- Analysed program

    def repo_sources(self):
        src = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
        if len(src) < 5:
            raise CheckError("no library sources in %s/src" % REPO)
        return src

    def ir(self, harness=(), name="all", flags=(), sources=None, passes=PASSES):
        """Compile and link the library with harness files, to bitcode"""
        out = os.path.join(self.tmp, name)
        os.makedirs(out, exist_ok=True)
        files = [(f, []) for f in (self.repo_sources() if sources is None else sources)]
        files += [(os.path.join(VERIF, "harness", h), []) for h in harness]
        procs, bcs = [], []
        for i, (f, fl) in enumerate(files):
            bc = os.path.join(out, "%d-%s.bc" % (i, os.path.basename(f)))
            bcs.append(bc)
            cc = CLANGXX if f.endswith(".cpp") or f.endswith(".cc") else CLANG
            cf = [x for x in CFLAGS if not (cc == CLANGXX and x.startswith("-std"))]
            if cc == CLANGXX:
                cf += ["-std=c++17", "-fno-exceptions"]
            cmd = [cc] + cf + list(flags) + fl + [
                "-I" + REPO + "/include", "-I" + REPO + "/src",
                "-I" + os.path.join(VERIF, "harness"), "-emit-llvm", "-c", f, "-o", bc]
            procs.append((f, subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                              stderr=subprocess.STDOUT, text=True)))
        for f, p in procs:
            o = p.communicate()[0]
            if p.returncode:
                raise CheckError("compilation of %s failed\n%s" % (f, o[-3000:]))
        lbc, bc = os.path.join(out, "link.bc"), os.path.join(out, "opt.bc")
        must(["llvm-link-18"] + bcs + ["-o", lbc], "llvm-link")
        if passes:
            must(["opt-18", "-passes=" + passes, lbc, "-o", bc], "opt")
        else:
            bc = lbc
        return bc

    # -- Abstract interpretation

    def absint(self, bc, entries, contracts=(), timeout=600, grace=10, opts=(),
               kinds=None, budget=860):
        """Analyse the entry points; returns the results.  Alarms of the kinds
        given become violations."""
        exe = build_tool("absint", ["absint.cpp", "memory.cpp"])
        lst = os.path.join(self.tmp, "entries")
        with open(lst, "w") as fp:
            fp.write("\n".join(entries) + "\n")
        ct = []
        for c in contracts:
            ct += ["--contract", c]
        off = []
        if kinds is not None:
            for k in ALARM_KINDS - kinds:
                if k != "assert" or not any(x.startswith("assert") for x in kinds):
                    off += ["--off", k]
        cmd = [exe, bc] + ct + sorted_pairs(off) + list(opts) + ["--timeout", str(timeout), "--grace", str(grace),
                                             "-j", str(JOBS), "--", "@", lst]
        self.commands.append("absint %s %s -- %s" % (" ".join(ct), " ".join(opts), entries[0]))
        left = budget - (time.time() - self.t0)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=max(10, left))
        except subprocess.TimeoutExpired:
            raise CheckError("analysis out of time")
        res = {}
        for l in p.stdout.splitlines():
            if l.startswith("{"):
                d = json.loads(l)
                res[d["config"]] = d
        self.results(entries, res, p, kinds, ct)
        return res

    def results(self, entries, res, p, kinds, ct=()):
        errors = []
        for e in entries:
            d = res.get(e)
            if d is None:
                errors.append("%s: no result (%s)" % (e, p.stderr[-300:]))
                continue
            for a in d["alarms"]:
                # obligations of the harness are tagged with their subject
                if a["kind"] == "assert" and a["msg"].startswith("["):
                    a["kind"] = "assert:" + a["msg"][1:a["msg"].index("]")]
            sel = [a for a in d["alarms"] if kinds is None or a["kind"] in kinds]
            for a in sel:
                self.violation(
                    kind=a["kind"], fn=a["fn"], file=a["file"], line=a["line"],
                    msg=a["msg"], path=a["stack"], config=e)
            if kinds is None or "termination" in kinds:
                for w in d["widened"]:
                    self.violation(kind="termination", fn=str(w), file="", line=0,
                                   msg="no ranking function found for the loop", path=str(w), config=e)
                self.obligations += 1
            if d["error"] and not sel:
                errors.append("%s: %s" % (e, d["error"]))
            n = sum(v for k, v in d["checks"].items() if kinds is None or k in kinds
                    or (k == "assert" and any(x.startswith("assert:") for x in kinds)))
            self.obligations += n
            if len(self.samples) < 4:
                self.samples.append({"config": e, "sites": d["sites"], "steps": d["steps"],
                                     "checks": d["checks"]})
            self.functions.update(d["functions"])
        cov = self.coverage
        cov["configurations"] = cov.get("configurations", 0) + len(entries)
        cov["abstract_steps"] = cov.get("abstract_steps", 0) + sum(d["steps"] for d in res.values())
        cov["instruction_sites"] = cov.get("instruction_sites", 0) + sum(d["sites"] for d in res.values())
        if errors and not self.violations:
            raise CheckError("no answer for %d configurations\n%s" % (len(errors), "\n".join(errors[:10])))
        if errors:
            cov["undecided"] = errors[:20]

    # -- Reports

    def obligation(self, n=1):
        self.obligations += n

    def violation(self, kind, fn, file, line, msg, path="", config=""):
        key = (kind, fn, file, msg if kind .startswith("assert") or kind == "rule" else line)
        for v in self.violations:
            if v["key"] == key:
                v["count"] += 1
                if config and len(v["configs"]) < 8 and config not in v["configs"]:
                    v["configs"].append(config)
                return
        self.violations.append(dict(key=key, kind=kind, fn=fn, file=file, line=line, msg=msg,
                                    path=path, configs=[config] if config else [], count=1))

    def finish(self, known):
        """Evidence, report and exit status"""
        new = []
        for v in self.violations:
            k = [f for f in known if f["property"] == self.prop and f["status"] == "known"
                 and f["kind"] == v["kind"] and f["function"] == v["fn"]
                 and f.get("match", "") in v["msg"]]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k[0]["what"]))
            else:
                new.append(v)
        self.failed = len(self.violations)
        cov = dict(self.coverage)
        cov["samples"] = self.samples
        if self.functions:
            cov["functions_analysed"] = len(self.functions)
            cov["functions"] = sorted(self.functions)
        if self.level == "proof":
            cov.update(obligations=self.obligations, discharged=self.obligations - self.failed,
                       checker_cmd="./check %s --tier %s" % (self.prop, self.tier),
                       trusted_base=self.trusted)
        if self.commands:
            cov["commands"] = self.commands[:8]
        if self.obligations == 0:
            raise CheckError("nothing was analysed: an anchor of the check is gone")
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions, violations=len(new),
                  wall_s=round(time.time() - self.t0, 2))
        if self.violations:
            ev["coverage"]["reported"] = [dict((k, x) for k, x in v.items() if k != "key")
                                          for v in self.violations[:20]]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
            fp.write("\n")
        if new:
            rdir = os.path.join(CACHE, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, self.prop + ".txt")
            with open(path, "w") as fp:
                for v in new:
                    fp.write("%s in %s (%s:%s)\n  %s\n  call path: %s\n  configurations: %s\n  seen %d times\n" % (
                        v["kind"], v["fn"], v["file"], v["line"], v["msg"], v["path"],
                        " ".join(v["configs"]), v["count"]))
                for c in self.commands:
                    fp.write("  analysed by: %s\n" % c)
            for v in new[:20]:
                print("  %s: %s:%s %s: %s  [%s]" % (
                    v["kind"], os.path.relpath(v["file"], REPO) if v["file"].startswith(REPO) else v["file"],
                    v["line"], v["fn"], v["msg"], " ".join(v["configs"][:2])))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s obligations=%d wall=%.1fs" % (self.prop, self.obligations, time.time() - self.t0))
        return 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as fp:
        return json.load(fp)["findings"]
