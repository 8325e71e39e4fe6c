"""Effects of the library: globals, external calls, recursion, stack"""
import json, os
from core import *

# Functions of libc and libm with no effect but on the memory given
PURE = set("""memcpy memmove memset memcmp abs labs llabs
acos asin atan atan2 cos sin tan cosh sinh tanh exp exp2 expm1 frexp ldexp log
log10 log1p log2 logb modf scalbn cbrt fabs hypot pow sqrt erf erfc ceil floor
nearbyint rint lrint llrint round lround llround trunc fmod remainder copysign
nextafter fdim fmax fmin fma scalbln ilogb""".split())
PURE |= {f + "f" for f in PURE if not f.startswith("mem")}


def facts(run, bc):
    exe = build_tool("facts", ["facts.cpp"])
    return json.loads(must([exe, bc], "facts"))


def independence(run):
    """No state but the one given by the caller"""
    bc = run.ir(passes="function(mem2reg)", name="lib")
    f = facts(run, bc)
    run.level = "proof"
    run.trusted = TRUSTED[:1] + ["the rules of /verif/engine/facts.cpp and /verif/lib/effects.py: "
        "pointers followed through the call graph, casts, offsets, phis and initialisers",
        "libm and mem* functions have no effect but on the memory given"]
    fns = {x["name"]: x for x in f["functions"]}
    defined = [x for x in f["functions"] if x["defined"]]
    api = [x["name"] for x in defined if not x["internal"] and x["name"].startswith("lc3_")
           and x["file"].endswith("/lc3.c")]
    if len(api) < 10 or len(defined) < 50:
        raise CheckError("API functions not found in the library")

    # Mutable statics
    for w in f["writes"]:
        run.violation("global-write", w["fn"], w["file"], w["line"],
                      "%s modifies the static object '%s'" % (w["what"], w["global"]))
    for g in f["globals"]:
        run.obligation()
        if g["tls"] or (g["declaration"] and not g["const"]):
            run.violation("global-state", g["name"], g.get("file", ""), g.get("line", 0),
                          "thread local or external object '%s'" % g["name"])
    if f["constructors"] or f["module_asm"]:
        run.violation("constructor", "module", "", 0, "code run at load time")

    # External calls
    graph, ncalls, nind = {}, 0, 0
    for x in defined:
        graph[x["name"]] = set()
        for c in x["calls"]:
            ncalls += 1
            run.obligation()
            if c.get("callee") == "#asm":
                run.violation("effect", x["name"], c["file"], c["line"], "inline assembly")
                continue
            if c.get("indirect"):
                nind += 1
                if not c["targets"]:
                    run.violation("effect", x["name"], c["file"], c["line"],
                                  "call through a pointer that no function of the library matches")
            for t in c["targets"]:
                if fns[t]["defined"]:
                    graph[x["name"]].add(t)
                elif fns[t]["intrinsic"]:
                    if not t.startswith(("llvm.mem", "llvm.fabs", "llvm.floor", "llvm.fmuladd",
                                         "llvm.dbg", "llvm.lifetime", "llvm.smax", "llvm.smin",
                                         "llvm.umax", "llvm.umin", "llvm.abs", "llvm.min", "llvm.max",
                                         "llvm.sqrt", "llvm.fma", "llvm.ceil", "llvm.round", "llvm.rint",
                                         "llvm.trunc", "llvm.nearbyint", "llvm.exp", "llvm.log", "llvm.pow",
                                         "llvm.copysign", "llvm.c", "llvm.bswap", "llvm.bitreverse",
                                         "llvm.fsh", "llvm.is", "llvm.objectsize", "llvm.expect", "llvm.assume",
                                         "llvm.stack", "llvm.l", "llvm.u", "llvm.s", "llvm.va")) or t.startswith("llvm.trap"):
                        run.violation("effect", x["name"], c["file"], c["line"], "intrinsic " + t)
                elif t not in PURE:
                    run.violation("effect", x["name"], c["file"], c["line"],
                                  "call of the external function '%s'" % t)

    # Recursion, and depth of the stack
    depth, path = {}, []

    def visit(n):
        if n in path:
            cyc = path[path.index(n):] + [n]
            x = fns[n]
            run.violation("recursion", n, x.get("file", ""), x.get("line", 0), " -> ".join(cyc))
            return 0
        if n in depth:
            return depth[n]
        path.append(n)
        d = fns[n]["frame"] + max([visit(m) for m in sorted(graph[n])] + [0])
        path.pop()
        depth[n] = d
        return d
    for x in defined:
        run.obligation()
        visit(x["name"])
        for a in x["dynamic_alloca"]:
            run.violation("stack", x["name"], a["file"], a["line"], "storage of variable size on the stack")
    run.functions = {x["name"] for x in defined}
    run.coverage.update(
        api=sorted(api), call_sites=ncalls, indirect_call_sites=nind,
        static_objects=len(f["globals"]),
        static_objects_not_const=[g["name"] for g in f["globals"] if not g["const"]],
        stack_bytes_of_locals={a: depth[a] for a in sorted(api)},
        rule="no store, memory intrinsic or external call reaches a static object; external calls "
             "only of pure functions; acyclic call graph, indirect calls resolved to every function "
             "of a compatible prototype; no variable size on the stack")
    run.samples = [{"function": x["name"], "calls": sorted(graph[x["name"]])[:8], "frame": x["frame"]}
                   for x in defined[:3]]

    # No pointer of the caller is kept in the state
    import codec
    codec.no_pointer_kept(run)
