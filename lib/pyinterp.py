"""Abstract interpreter of Python modules that wrap a C library by ctypes.

Integers are affine forms over symbols with bounds; buffers are sequences of
segments (given by the caller, or zeros) of an affine length; pointers are a
buffer and an affine offset.  A branch that is not decided splits the trace.
Anything else is unknown (Top): its use is followed, and never ignored when it
reaches an obligation.  Nothing of the module is executed."""
import ast


class Undecided(Exception):
    """Construction out of the reach of the interpreter"""


class PyRaise(Exception):
    def __init__(self, exc, node):
        self.exc, self.node = exc, node


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# -- Values

class Top:
    def __init__(self, why="?"):
        self.why = why

    def __repr__(self):
        return "Top(%s)" % self.why


class Lin:
    """Affine form, sum of coef * symbol + constant"""

    def __init__(self, t, c):
        self.t, self.c = t, c

    def key(self):
        return (tuple(sorted(self.t.items())), self.c)

    def __repr__(self):
        s = " + ".join(("%d*%s" % (k, n)) if k != 1 else n for n, k in sorted(self.t.items()))
        return s + (" + %d" % self.c if self.c else "")


def lin(t, c):
    t = {k: v for k, v in t.items() if v}
    return Lin(t, c) if t else c


def parts(v):
    return (v.t, v.c) if isinstance(v, Lin) else ({}, int(v))


def isnum(v):
    return isinstance(v, (int, Lin))


def add(a, b, k=1):
    ta, ca = parts(a)
    tb, cb = parts(b)
    t = dict(ta)
    for n, x in tb.items():
        t[n] = t.get(n, 0) + k * x
    return lin(t, ca + k * cb)


def scale(a, k):
    t, c = parts(a)
    return lin({n: x * k for n, x in t.items()}, c * k)


class Cmp:
    """Comparison of an affine form to 0, not decided"""

    def __init__(self, op, d):
        self.op, self.d = op, d


class Buf:
    """Buffer of items: `item` bytes each; segments (kind, number of items)"""

    def __init__(self, kind, item, segs, elt=None):
        self.kind, self.item, self.elt = kind, item, elt
        self.segs = [s for s in segs if s[1] != 0]
        self.frozen = kind == "bytes"

    def n(self):
        r = 0
        for s in self.segs:
            r = add(r, s[1])
        return r

    def size(self):
        return scale(self.n(), self.item)


class View:
    """Pointer in a buffer, `size` bytes from `off`"""

    def __init__(self, buf, off, size, item=1):
        self.buf, self.off, self.vsize, self.item = buf, off, size, item

    def n(self):
        t, c = parts(self.vsize)
        return lin({k: v // self.item for k, v in t.items()}, c // self.item)

    def size(self):
        return self.vsize


class Rep:
    """[ value ] * n"""

    def __init__(self, v, n):
        self.v, self.n = v, n


class Mem:
    """Memory allocated"""

    def __init__(self, size, node):
        self.size, self.node = size, node
        self.freed = 0


class Handle:
    """Result of the setup of a codec, the memory it is given"""

    def __init__(self, mem, call):
        self.mem, self.call = mem, call


class CType:
    def __init__(self, name, size, kind):
        self.cname, self.csize, self.ckind = name, size, kind

    def __repr__(self):
        return self.cname


class CArr:
    def __init__(self, elt, n):
        self.elt, self.n = elt, n


class CVal:
    def __init__(self, ct, v):
        self.ct, self.v = ct, v


class Foreign:
    """Function of the C library"""

    def __init__(self, name):
        self.name, self.attrs = name, {}


class Lib:
    def __init__(self, has):
        self.has, self.attrs = has, {}


class PyClass:
    def __init__(self, name, bases, ns):
        self.name, self.bases, self.ns = name, bases, ns

    def mro(self):
        r = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, PyClass) else []):
                if c not in r:
                    r.append(c)
        return r

    def find(self, n):
        for c in self.mro():
            if n in c.ns:
                return c.ns[n]
        return None

    def sub(self, o):
        return o in self.mro()

    def ctype(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, CType):
                    return b
        return None

    def __repr__(self):
        return "class " + self.name


class PyObj:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}


class EInt(int):
    """Member of an IntEnum"""


class PyFunc:
    def __init__(self, node, env, cls, defaults, kwdefaults):
        self.node, self.env, self.cls = node, env, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.kind = "function"
        self.attrs = {}


class Bound:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Native:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Module:
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Env:
    def __init__(self, parent=None):
        self.v, self.parent = {}, parent
        self.nonlocals = {}

    def get(self, n):
        e = self
        while e:
            if n in e.nonlocals:
                return e.nonlocals[n].get(n)
            if n in e.v:
                return e.v[n]
            e = e.parent
        raise KeyError(n)

    def set(self, n, v):
        if n in self.nonlocals:
            self.nonlocals[n].v[n] = v
        else:
            self.v[n] = v


EXC = {}
for _n, _b in (("BaseException", None), ("Exception", "BaseException"), ("RuntimeError", "Exception"),
               ("ValueError", "Exception"), ("TypeError", "Exception"), ("AttributeError", "Exception"),
               ("KeyError", "Exception"), ("IndexError", "Exception"), ("OSError", "Exception"),
               ("ArithmeticError", "Exception"), ("ZeroDivisionError", "ArithmeticError"),
               ("OverflowError", "ArithmeticError"), ("MemoryError", "Exception"),
               ("StopIteration", "Exception"), ("NotImplementedError", "RuntimeError"),
               ("AssertionError", "Exception"), ("ImportError", "Exception"), ("NameError", "Exception")):
    EXC[_n] = PyClass(_n, [EXC[_b]] if _b else [], {})

CTYPES = {}
for _n, _s, _k in (("c_bool", 1, "bool"), ("c_byte", 1, "int"), ("c_char", 1, "int"), ("c_ubyte", 1, "uint"),
                   ("c_int8", 1, "int"), ("c_uint8", 1, "uint"), ("c_short", 2, "int"), ("c_ushort", 2, "uint"),
                   ("c_int16", 2, "int"), ("c_uint16", 2, "uint"), ("c_int", 4, "int"), ("c_uint", 4, "uint"),
                   ("c_int32", 4, "int"), ("c_uint32", 4, "uint"), ("c_long", 8, "int"), ("c_ulong", 8, "uint"),
                   ("c_longlong", 8, "int"), ("c_int64", 8, "int"), ("c_uint64", 8, "uint"),
                   ("c_size_t", 8, "uint"), ("c_ssize_t", 8, "int"), ("c_float", 4, "float"),
                   ("c_double", 8, "float"), ("c_void_p", 8, "ptr"), ("c_char_p", 8, "ptr"),
                   ("py_object", 8, "object")):
    CTYPES[_n] = CType(_n, _s, _k)


class Interp:
    """One trace; `dec` are the decisions taken at the branches not decided"""

    def __init__(self, tree, host, dec=()):
        self.tree, self.host = tree, host
        self.dec, self.pos = list(dec), 0
        self.lo, self.hi, self.nonzero = {}, {}, set()
        self.memo = {}
        self.steps = 0
        self.node = None
        self.events = []
        self.depth = 0
        self.problems = []
        self.sample = None      # value of all the samples given

    # Numbers

    def sym(self, name, lo=None, hi=None):
        if name not in self.lo:
            self.lo[name], self.hi[name] = lo, hi
        return Lin({name: 1}, 0)

    def opaque(self, op, *a, lo=None, hi=None):
        k = (op,) + tuple(x.key() if isinstance(x, Lin) else x for x in a)
        return self.sym("%s(%s)" % (op, ", ".join(map(repr, a))) if k else "", lo, hi)

    def range(self, v):
        t, c = parts(v)
        lo = hi = c
        for n, k in t.items():
            a, b = self.lo[n], self.hi[n]
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    def compare(self, op, a, b):
        return self.cmp0(op, add(a, b, -1))

    def cmp0(self, op, d):
        lo, hi = self.range(d)
        r = None
        if op == "<":
            r = True if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None
        elif op == "<=":
            r = True if hi is not None and hi <= 0 else False if lo is not None and lo > 0 else None
        elif op == "==":
            r = True if lo == hi == 0 else False if (lo is not None and lo > 0) or (hi is not None and hi < 0) else None
        return Cmp(op, d) if r is None else r

    def cmpop(self, op, a, b):
        if op == ">":
            return self.compare("<", b, a)
        if op == ">=":
            return self.compare("<=", b, a)
        if op == "!=":
            return self.negate(self.compare("==", a, b))
        return self.compare(op, a, b)

    def negate(self, v):
        if isinstance(v, bool):
            return not v
        if v.op == "<":        # not d < 0 : -d <= 0
            return Cmp("<=", scale(v.d, -1))
        if v.op == "<=":
            return Cmp("<", scale(v.d, -1))
        return Cmp("==" if v.op == "!=" else "!=", v.d)

    def learn(self, c, truth):
        if not truth:
            c = self.negate(c)
        if len(c.d.t) != 1:
            return
        (n, k), c0 = list(c.d.t.items())[0], c.d.c
        # k * n + c0 (op) 0
        if c.op in ("<", "<="):
            m = -c0 - (1 if c.op == "<" else 0)      # k * n <= m
            if k > 0:
                b = m // k
                self.hi[n] = b if self.hi[n] is None else min(b, self.hi[n])
            else:
                b = -(m // -k)
                self.lo[n] = b if self.lo[n] is None else max(b, self.lo[n])
        elif c0 % k == 0:
            v = -c0 // k
            if c.op == "==":
                self.lo[n] = self.hi[n] = v
            else:
                if self.lo[n] == v:
                    self.lo[n] += 1
                if self.hi[n] == v:
                    self.hi[n] -= 1
        if n in self.nonzero:
            if self.lo[n] == 0:
                self.lo[n] = 1
            if self.hi[n] == 0:
                self.hi[n] = -1

    def decide(self):
        if self.pos == len(self.dec):
            self.dec.append(True)
        r = self.dec[self.pos]
        self.pos += 1
        return r

    def truth(self, v):
        if isinstance(v, Cmp):
            r = self.decide()
            self.learn(v, r)
            return r
        if isinstance(v, Lin):
            return self.truth(self.negate(self.compare("==", v, 0)) if not isinstance(self.compare("==", v, 0), bool)
                              else not self.compare("==", v, 0))
        if isinstance(v, Top):
            return self.decide()
        if isinstance(v, (Buf, View)):
            return self.truth(v.n())
        if isinstance(v, Handle):
            k = ("null", id(v))
            if k not in self.memo:
                self.memo[k] = self.decide()
            return self.memo[k]
        if isinstance(v, (PyObj, PyFunc, PyClass, Native, Lib, Foreign, Mem, CType, CArr, Module, Bound)):
            return True
        return bool(v)

    def num(self, v):
        """Value as an integer"""
        if isinstance(v, Cmp):
            return int(self.truth(v))
        if isinstance(v, CVal):
            return self.num(v.v)
        if isinstance(v, (int, Lin)):
            return v
        return v

    def floordiv(self, a, b):
        if isinstance(b, int) and b != 0:
            t, c = parts(a)
            if all(x % b == 0 for x in t.values()):
                return lin({n: x // b for n, x in t.items()}, c // b)
            lo, hi = self.range(a)
            # part of the form that is divisible
            q = {n: x - x % b for n, x in t.items()}
            r = lin({n: x % b for n, x in t.items()}, c % b)
            rlo, rhi = self.range(r)
            if rlo is not None and rhi is not None and rlo // b == rhi // b:
                rest = rlo // b
            else:
                rest = self.opaque("div", r, b, lo=None if rlo is None or b < 0 else rlo // b,
                                   hi=None if rhi is None or b < 0 else rhi // b)
            return add(lin({n: x // b for n, x in q.items()}, c // b), rest)
        if b == 0:
            self.throw("ZeroDivisionError")
        return self.opaque("div", a, b)

    def mod(self, a, b):
        if isinstance(b, int) and b != 0:
            return add(a, scale(self.floordiv(a, b), b), -1)
        if b == 0:
            self.throw("ZeroDivisionError")
        return self.opaque("mod", a, b)

    def mul(self, a, b):
        if isinstance(a, int):
            return scale(b, int(a))
        if isinstance(b, int):
            return scale(a, int(b))
        x, y = sorted((a, b), key=lambda v: repr(v))
        la, lb = self.range(a)[0], self.range(b)[0]
        return self.opaque("mul", x, y, lo=0 if (la or -1) >= 0 and (lb or -1) >= 0 else None)

    def throw(self, name):
        raise PyRaise(PyObj(EXC[name]), self.node)

    def problem(self, msg):
        self.problems.append((getattr(self.node, "lineno", 0), msg))

    # Module

    def load(self):
        self.glob = Env()
        self.glob.v["__name__"] = "lc3"
        self.glob.v["__file__"] = "lc3.py"
        for n, f in self.builtins().items():
            self.glob.v[n] = f
        self.globals_ = Env(self.glob)
        self.block(self.tree.body, self.globals_, None)
        return self.globals_

    def block(self, body, env, cls):
        for s in body:
            self.stmt(s, env, cls)

    def mangle(self, n, cls):
        if cls and n.startswith("__") and not n.endswith("__"):
            return "_" + cls.lstrip("_") + n
        return n

    def stmt(self, s, env, cls):
        self.steps += 1
        if self.steps > 400000:
            raise Undecided("too many steps")
        self.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if not m:
            raise Undecided("statement %s, line %d" % (type(s).__name__, s.lineno))
        m(s, env, cls)

    def s_Expr(self, s, env, cls):
        self.expr(s.value, env, cls)

    def s_Pass(self, s, env, cls):
        pass

    def s_Global(self, s, env, cls):
        for n in s.names:
            env.nonlocals[n] = self.globals_

    def s_Nonlocal(self, s, env, cls):
        for n in s.names:
            e = env.parent
            while e and n not in e.v:
                e = e.parent
            env.nonlocals[n] = e

    def s_Import(self, s, env, cls):
        for a in s.names:
            m = self.module(a.name)
            env.set(a.asname or a.name.split(".")[0], m if a.asname or "." not in a.name
                    else self.module(a.name.split(".")[0]))

    def s_ImportFrom(self, s, env, cls):
        if s.module == "__future__":
            return
        m = self.module(s.module)
        for a in s.names:
            v = m.attrs.get(a.name) if isinstance(m, Module) else None
            env.set(a.asname or a.name, Top(a.name) if v is None else v)

    def s_Assign(self, s, env, cls):
        v = self.expr(s.value, env, cls)
        for t in s.targets:
            self.assign(t, v, env, cls)

    def s_AnnAssign(self, s, env, cls):
        if s.value:
            self.assign(s.target, self.expr(s.value, env, cls), env, cls)

    def s_AugAssign(self, s, env, cls):
        t = s.target
        ld = ast.copy_location({ast.Name: lambda: ast.Name(t.id, ast.Load()),
                                ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
                                ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load())}[type(t)](), t)
        cur, v = self.expr(ld, env, cls), self.expr(s.value, env, cls)
        if isinstance(s.op, ast.Add) and isinstance(cur, Buf) and not cur.frozen:
            self.buf_extend(cur, v)
            return
        if isinstance(s.op, ast.Add) and isinstance(cur, list):
            cur.extend(self.iterate(v))
            return
        self.assign(t, self.binop(s.op, cur, v), env, cls)

    def s_If(self, s, env, cls):
        if self.truth(self.expr(s.test, env, cls)):
            self.block(s.body, env, cls)
        else:
            self.block(s.orelse, env, cls)

    def s_Assert(self, s, env, cls):
        if not self.truth(self.expr(s.test, env, cls)):
            self.throw("AssertionError")

    def s_For(self, s, env, cls):
        for v in self.iterate(self.expr(s.iter, env, cls)):
            self.assign(s.target, v, env, cls)
            try:
                self.block(s.body, env, cls)
            except _Break:
                return
            except _Continue:
                pass
        self.block(s.orelse, env, cls)

    def s_While(self, s, env, cls):
        n = 0
        while self.truth(self.expr(s.test, env, cls)):
            n += 1
            if n > 64:
                raise Undecided("loop, line %d" % s.lineno)
            try:
                self.block(s.body, env, cls)
            except _Break:
                return
            except _Continue:
                pass
        self.block(s.orelse, env, cls)

    def s_Break(self, s, env, cls):
        raise _Break()

    def s_Continue(self, s, env, cls):
        raise _Continue()

    def s_Return(self, s, env, cls):
        raise _Return(self.expr(s.value, env, cls) if s.value else None)

    def s_Delete(self, s, env, cls):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.v.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, env, cls)
                if isinstance(o, PyObj):
                    o.attrs.pop(self.mangle(t.attr, cls), None)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, env, cls)
                if isinstance(o, list) and isinstance(t.slice, ast.Slice) and not t.slice.lower and not t.slice.upper:
                    o.clear()
                elif isinstance(o, (list, dict)):
                    del o[self.expr(t.slice, env, cls)]

    def s_Raise(self, s, env, cls):
        if s.exc is None:
            raise PyRaise(env_exc(env), s)
        v = self.expr(s.exc, env, cls)
        if isinstance(v, PyClass):
            v = PyObj(v)
        raise PyRaise(v, s)

    def s_Try(self, s, env, cls):
        try:
            try:
                self.block(s.body, env, cls)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ty = self.expr(h.type, env, cls)
                        ty = ty if isinstance(ty, tuple) else (ty,)
                        ok = any(isinstance(x, PyClass) and isinstance(e.exc, PyObj) and e.exc.cls.sub(x) for x in ty)
                    if ok:
                        if h.name:
                            env.set(h.name, e.exc)
                        env.v["%exc"] = e.exc
                        self.block(h.body, env, cls)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env, cls)
        except (PyRaise, _Return, _Break, _Continue):
            self.block(s.finalbody, env, cls)
            raise
        else:
            self.block(s.finalbody, env, cls)

    def s_With(self, s, env, cls):
        for i in s.items:
            v = self.expr(i.context_expr, env, cls)
            if i.optional_vars:
                self.assign(i.optional_vars, v, env, cls)
        self.block(s.body, env, cls)

    def s_Match(self, s, env, cls):
        v = self.expr(s.subject, env, cls)
        for c in s.cases:
            if self.match(c.pattern, v, env, cls) and (c.guard is None or self.truth(self.expr(c.guard, env, cls))):
                self.block(c.body, env, cls)
                return

    def match(self, p, v, env, cls):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.expr(p.value, env, cls)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env, cls) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern and not self.match(p.pattern, v, env, cls):
                return False
            if p.name:
                env.set(p.name, v)
            return True
        raise Undecided("pattern, line %d" % p.lineno)

    def s_FunctionDef(self, s, env, cls):
        f = self.mkfunc(s, env, cls)
        for d in reversed(s.decorator_list):
            dv = self.expr(d, env, cls)
            if dv in ("staticmethod", "classmethod", "property"):
                f.kind = dv
            elif isinstance(dv, Native) and dv.name == "overload":
                return
        env.set(self.mangle(s.name, cls), f)

    def mkfunc(self, s, env, cls):
        a = s.args
        return PyFunc(s, env, cls, [self.expr(d, env, cls) for d in a.defaults],
                      [None if d is None else self.expr(d, env, cls) for d in a.kw_defaults])

    def s_ClassDef(self, s, env, cls):
        bases = [self.expr(b, env, cls) for b in s.bases]
        e = Env(env)
        self.block(s.body, e, s.name)
        c = PyClass(s.name, bases, e.v)
        if any(isinstance(b, Native) and b.name == "enum" for b in bases) or \
           any(isinstance(b, PyClass) and b.ns.get("%enum") for b in bases):
            last = 0
            c.ns["%enum"] = True
            mem = []
            for n, v in list(c.ns.items()):
                if n.startswith(("_", "%")) or isinstance(v, PyFunc):
                    continue
                if isinstance(v, str) and v == "%auto":
                    v = last + 1
                if isinstance(v, int):
                    last = v
                    v = EInt(v)
                    v.name = n
                    v.value = int(v)
                    c.ns[n] = v
                    mem.append(v)
            c.ns["%members"] = mem
        env.set(self.mangle(s.name, cls), c)

    # Expressions

    def assign(self, t, v, env, cls):
        if isinstance(t, ast.Name):
            env.set(self.mangle(t.id, cls), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Top):
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, Top(v.why), env, cls)
                return
            vs = list(self.iterate(v))
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                vs = vs[:i] + [vs[i:len(vs) - k]] + vs[len(vs) - k:]
            if len(vs) != len(t.elts):
                self.throw("ValueError")
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, cls)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, env, cls), self.mangle(t.attr, cls), v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env, cls)
            if isinstance(o, (list, dict)) and not isinstance(t.slice, ast.Slice):
                i = self.expr(t.slice, env, cls)
                if isinstance(o, list) and not isinstance(i, int):
                    raise Undecided("store at an unknown index")
                o[i] = v
            elif isinstance(o, Buf) and isinstance(t.slice, ast.Slice):
                self.buf_store(o, t.slice, v, env, cls)
            elif isinstance(o, View) and isinstance(t.slice, ast.Slice):
                o.buf.segs = [("?", o.buf.n())]
            elif isinstance(o, Top):
                pass
            else:
                raise Undecided("store, line %d" % t.lineno)
        else:
            raise Undecided("target, line %d" % t.lineno)

    def buf_store(self, o, sl, v, env, cls):
        """buf[lo:hi] = value, of the same length"""
        lo = self.expr(sl.lower, env, cls) if sl.lower else 0
        hi = self.expr(sl.upper, env, cls) if sl.upper else o.n()
        src = self.tobuf(v, o.item)
        n = add(hi, lo, -1)
        if self.truthy(self.compare("==", n, src.n())) is not True:
            raise Undecided("store of a slice")
        a, rest = self.cut(o.segs, lo)
        b = self.cut(rest, n)[1]
        o.segs = [s for s in a + src.segs + b if s[1] != 0]

    def truthy(self, v):
        return v if isinstance(v, bool) else None

    def cut(self, segs, n):
        """Segments before and after the position"""
        a, b = [], list(segs)
        while b:
            if self.truthy(self.compare("==", n, 0)) is True:
                return a, b
            k, m = b[0]
            c = self.compare("<=", m, n)
            if isinstance(c, Cmp):
                c = self.truth(c)
            if c:
                a.append(b.pop(0))
                n = add(n, m, -1)
            else:
                a.append((k, n))
                b[0] = (k, add(m, n, -1))
                return a, b
        return a, b

    def tobuf(self, v, item):
        if isinstance(v, Buf):
            return v
        if isinstance(v, View):
            return Buf("bytes", item, [("?", v.n())])
        if isinstance(v, Rep):
            return Buf("list", item, [("zero" if self.iszero(v.v) else "?", v.n)])
        if isinstance(v, (list, tuple, bytes)):
            return Buf("list", item, [("zero" if all(self.iszero(x) for x in v) else "?", len(v))])
        return Buf("?", item, [("?", self.opaque("len", repr(v), lo=0))])

    def iszero(self, v):
        return isinstance(v, (int, float)) and v == 0 or v == b"\0" or v == b""

    def expr(self, e, env, cls):
        self.node = e
        m = getattr(self, "e_" + type(e).__name__, None)
        if not m:
            raise Undecided("expression %s, line %d" % (type(e).__name__, e.lineno))
        return m(e, env, cls)

    def e_Constant(self, e, env, cls):
        return e.value

    def e_Name(self, e, env, cls):
        try:
            return env.get(self.mangle(e.id, cls))
        except KeyError:
            if e.id in EXC:
                return EXC[e.id]
            if e.id in ("staticmethod", "classmethod", "property"):
                return e.id
            self.node = e
            self.throw("NameError")

    def e_Attribute(self, e, env, cls):
        return self.getattr(self.expr(e.value, env, cls), self.mangle(e.attr, cls))

    def e_JoinedStr(self, e, env, cls):
        return Top("str")

    def e_Tuple(self, e, env, cls):
        return tuple(self.elements(e, env, cls))

    def e_List(self, e, env, cls):
        return self.elements(e, env, cls)

    def e_Set(self, e, env, cls):
        return self.elements(e, env, cls)

    def elements(self, e, env, cls):
        r = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                r += list(self.iterate(self.expr(x.value, env, cls)))
            else:
                r.append(self.expr(x, env, cls))
        return r

    def e_Dict(self, e, env, cls):
        r = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                r.update(self.expr(v, env, cls))
            else:
                r[self.expr(k, env, cls)] = self.expr(v, env, cls)
        return r

    def e_Lambda(self, e, env, cls):
        return self.mkfunc(e, env, cls)

    def e_IfExp(self, e, env, cls):
        return self.expr(e.body if self.truth(self.expr(e.test, env, cls)) else e.orelse, env, cls)

    def e_BoolOp(self, e, env, cls):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.expr(x, env, cls)
            t = self.truth(v)
            if t != isand:
                return t if isinstance(v, Cmp) else v
        return self.expr(e.values[-1], env, cls)

    def e_NamedExpr(self, e, env, cls):
        v = self.expr(e.value, env, cls)
        env.set(e.target.id, v)
        return v

    def e_UnaryOp(self, e, env, cls):
        v = self.expr(e.operand, env, cls)
        if isinstance(e.op, ast.Not):
            return self.negate(v) if isinstance(v, Cmp) else not self.truth(v)
        v = self.num(v)
        if isinstance(e.op, ast.USub):
            return scale(v, -1) if isnum(v) else -v if isinstance(v, float) else Top("-")
        if isinstance(e.op, ast.UAdd):
            return v
        return ~v if isinstance(v, int) else add(-1, v, -1) if isinstance(v, Lin) else Top("~")

    def e_BinOp(self, e, env, cls):
        a = self.expr(e.left, env, cls)
        b = self.expr(e.right, env, cls)
        self.node = e
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (CType, CArr)) and isnum(y):
                    if self.truth(self.compare("<", y, 0)):
                        self.throw("ValueError")
                    return CArr(x, y)
                if isinstance(x, PyClass) and x.ctype() and isnum(y):
                    return CArr(x.ctype(), y)
                if isinstance(x, list) and isnum(self.num(y)):
                    y = self.num(y)
                    if len(x) == 1 and isinstance(y, Lin):
                        return Rep(x[0], self.maxi([y, 0]))
                    if isinstance(y, int):
                        return x * int(y)
                if isinstance(x, bytes) and isnum(self.num(y)):
                    y = self.num(y)
                    return Buf("bytes", 1, [("zero" if not any(x) else "?", self.mul(len(x), self.maxi([y, 0])))])
                if isinstance(x, (bytes, str, tuple)) and isinstance(y, int):
                    return x * y
        if isinstance(op, ast.Add):
            if isinstance(a, (Buf, bytes)) and isinstance(b, (Buf, bytes)):
                a, b = self.tobuf(a, 1), self.tobuf(b, 1)
                return Buf(a.kind if a.kind != "list" else "bytes", a.item, a.segs + b.segs)
            if isinstance(a, list) and isinstance(b, (list,)):
                return a + b
            if isinstance(a, (tuple, str)) and type(a) == type(b):
                return a + b
            if isinstance(a, View) and isnum(b):
                return View(a.buf, add(a.off, b), add(a.vsize, b, -1))
            if isinstance(b, View) and isnum(a):
                return View(b.buf, add(b.off, a), add(b.vsize, a, -1))
        a, b = self.num(a), self.num(b)
        if isnum(a) and isnum(b):
            if isinstance(op, ast.Add):
                return add(a, b)
            if isinstance(op, ast.Sub):
                return add(a, b, -1)
            if isinstance(op, ast.Mult):
                return self.mul(a, b)
            if isinstance(op, ast.FloorDiv):
                return self.floordiv(a, b)
            if isinstance(op, ast.Mod):
                return self.mod(a, b)
            if isinstance(op, ast.LShift) and isinstance(b, int):
                return self.mul(a, 1 << b)
            if isinstance(op, ast.RShift) and isinstance(b, int):
                return self.floordiv(a, 1 << b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                        ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
                        ast.Pow: lambda: a ** b, ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b,
                        ast.BitXor: lambda: a ^ b}[type(op)]()
            except (KeyError, ZeroDivisionError, TypeError):
                return Top("arith")
        for x, y in ((a, b), (b, a)):
            # not finite, or zero, whatever the length
            if isinstance(x, float) and isinstance(y, Lin):
                if x != x or x in (float("inf"), float("-inf")):
                    if not isinstance(op, ast.Div) or x is a:
                        return abs(x) if self.range(y)[0] is not None and self.range(y)[0] >= 0 else Top("float")
                if x == 0 and isinstance(op, (ast.Mult, ast.Div)) and x is a:
                    return 0.0
        if isinstance(op, ast.BitOr):
            return Top("type")
        return Top("arith")

    def e_Compare(self, e, env, cls):
        a = self.expr(e.left, env, cls)
        res = True
        for o, x in zip(e.ops, e.comparators):
            b = self.expr(x, env, cls)
            res = self.cmpvals(o, a, b)
            if len(e.ops) > 1:
                if not self.truth(res):
                    return False
                res = True
            a = b
        return res

    def cmpvals(self, o, a, b):
        if isinstance(o, ast.Is):
            return self.is_(a, b)
        if isinstance(o, ast.IsNot):
            r = self.is_(a, b)
            return r if isinstance(r, Top) else not r
        if isinstance(o, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(r, Top) else r if isinstance(o, ast.In) else not r
        if isinstance(o, ast.Eq):
            return self.eq(a, b)
        if isinstance(o, ast.NotEq):
            r = self.eq(a, b)
            return self.negate(r) if isinstance(r, (bool, Cmp)) else r
        a, b = self.num(a), self.num(b)
        if isnum(a) and isnum(b):
            return self.cmpop({ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(o)], a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(o)]
        return Top("compare")

    def is_(self, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("is")
        if isinstance(a, Handle) and b is None:
            return not self.truth(a)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        return a is b or (isinstance(a, int) and isinstance(b, int) and a == b)

    def eq(self, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("==")
        if a is None or b is None:
            return a is b
        a, b = self.num(a), self.num(b)
        if isnum(a) and isnum(b):
            return self.compare("==", a, b)
        if isinstance(a, (Lin, Buf, View)) or isinstance(b, (Lin, Buf, View)):
            return Top("==")
        return a == b if type(a) == type(b) or isinstance(a, (int, float)) else False

    def contains(self, c, v):
        if isinstance(c, Top):
            return Top("in")
        if isinstance(c, (dict, str)):
            return v in c
        if isinstance(c, PyClass):
            c = c.ns.get("%members", [])
        for x in self.iterate(c):
            if self.truth(self.eq(v, x)):
                return True
        return False

    def e_Subscript(self, e, env, cls):
        o = self.expr(e.value, env, cls)
        if isinstance(o, Native) or isinstance(o, (PyClass, CType)) or isinstance(o, Top):
            return Top("subscript")
        if isinstance(e.slice, ast.Slice):
            lo = self.expr(e.slice.lower, env, cls) if e.slice.lower else None
            hi = self.expr(e.slice.upper, env, cls) if e.slice.upper else None
            st = self.expr(e.slice.step, env, cls) if e.slice.step else None
            if isinstance(o, (list, tuple, str, bytes)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return o[lo:hi:st]
            if isinstance(o, (Buf, bytes)) and st is None:
                o = self.tobuf(o, 1)
                return self.slice(o, lo, hi)
            if isinstance(o, View) and st is None:
                a = scale(lo or 0, o.item)
                b = o.vsize if hi is None else scale(hi, o.item)
                b = self.mini([b, o.vsize])
                return View(o.buf, add(o.off, a), add(b, a, -1), o.item)
            return Top("slice")
        i = self.expr(e.slice, env, cls)
        if isinstance(o, dict):
            if i not in o:
                self.throw("KeyError")
            return o[i]
        if isinstance(o, (list, tuple, str, bytes)) and isinstance(i, int):
            if not -len(o) <= i < len(o):
                self.throw("IndexError")
            return o[i]
        return Top("item")

    def slice(self, o, lo, hi):
        n = o.n()
        lo = 0 if lo is None else lo
        hi = n if hi is None else hi
        for v in (lo, hi):
            if self.truthy(self.compare("<", v, 0)) is True:
                return Buf("bytes", o.item, [("?", self.opaque("slice", n, lo, hi, lo=0))])
        rest = self.cut(o.segs, lo)[1]
        m = self.maxi([add(hi, lo, -1), 0])
        return Buf(o.kind, o.item, self.cut(rest, m)[0])

    def e_ListComp(self, e, env, cls):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            o = self.expr(e.generators[0].iter, env, cls)
            if isinstance(o, (Buf, View)):
                v = list(self.comp(e, env, cls, [Top("sample") if self.sample is None else self.sample]))
                same = isinstance(e.elt, ast.Name) and isinstance(e.generators[0].target, ast.Name) and \
                    e.elt.id == e.generators[0].target.id
                return Buf("list", o.item, list(o.segs) if same and isinstance(o, Buf) else [("?", o.n())])
            return list(self.comp(e, env, cls, o))
        return list(self.comp(e, env, cls))

    def e_SetComp(self, e, env, cls):
        return list(self.comp(e, env, cls))

    def e_GeneratorExp(self, e, env, cls):
        # not evaluated before it is consumed
        it = self.expr(e.generators[0].iter, env, cls)
        return Gen(self, e, Env(env), cls, it)

    def e_DictComp(self, e, env, cls):
        r = {}
        env = Env(env)
        for _ in self.gens(e.generators, env, cls):
            r[self.expr(e.key, env, cls)] = self.expr(e.value, env, cls)
        return r

    def comp(self, e, env, cls, first=None):
        env = Env(env)
        for _ in self.gens(e.generators, env, cls, first):
            yield self.expr(e.elt, env, cls)

    def gens(self, gs, env, cls, first=None):
        if not gs:
            yield
            return
        g = gs[0]
        for v in self.iterate(self.expr(g.iter, env, cls) if first is None else first):
            self.assign(g.target, v, env, cls)
            if all(self.truth(self.expr(i, env, cls)) for i in g.ifs):
                yield from self.gens(gs[1:], env, cls)

    def e_Starred(self, e, env, cls):
        raise Undecided("starred")

    def e_Await(self, e, env, cls):
        raise Undecided("await")

    def e_Call(self, e, env, cls):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = env
            while "%self" not in f.v:
                f = f.parent
            return Super(f.v["%class"], f.v["%self"])
        f = self.expr(e.func, env, cls)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.expr(a.value, env, cls)))
            else:
                args.append(self.expr(a, env, cls))
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.expr(k.value, env, cls))
            else:
                kw[k.arg] = self.expr(k.value, env, cls)
        self.node = e
        return self.call(f, args, kw)

    # Calls

    def call(self, f, args, kw={}):
        self.depth += 1
        if self.depth > 60:
            raise Undecided("recursion")
        node = self.node
        try:
            return self.call1(f, args, kw)
        finally:
            self.depth -= 1
            self.node = node

    def call1(self, f, args, kw):
        if isinstance(f, Native):
            return f.fn(*args, **kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + args, kw)
        if isinstance(f, PyFunc):
            return self.call_py(f, args, kw)
        if isinstance(f, Foreign):
            if kw:
                self.throw("TypeError")
            return self.host.foreign(self, f, args)
        if isinstance(f, PyClass):
            if f.ctype():
                return CVal(f, args[0] if args else 0)
            if f.ns.get("%enum"):
                for m in f.ns["%members"]:
                    if m == args[0]:
                        return m
                self.throw("ValueError")
            o = PyObj(f)
            i = f.find("__init__")
            if i:
                self.call(i, [o] + args, kw)
            return o
        if isinstance(f, CArr):
            return self.carr_new(f, args)
        if isinstance(f, CType):
            return CVal(f, args[0] if args else 0)
        if isinstance(f, PyObj) and f.cls.find("__call__"):
            return self.call(f.cls.find("__call__"), [f] + args, kw)
        if isinstance(f, Top):
            return Top("call")
        self.throw("TypeError")

    def call_py(self, f, args, kw):
        a = f.node.args
        env = Env(f.env)
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = dict(zip(names, args))
        if len(args) > len(names):
            if not a.vararg:
                self.throw("TypeError")
        if a.vararg:
            env.v[a.vararg.arg] = tuple(args[len(names):])
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            if n not in vals:
                vals[n] = kw.pop(n) if n in kw else d
        for n in names:
            if n not in vals or (n in kw and n not in names[:len(args)]):
                if n in kw:
                    vals[n] = kw.pop(n)
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            vals[x.arg] = kw.pop(x.arg) if x.arg in kw else d
        for n in names:
            if n not in vals:
                self.throw("TypeError")
        if a.kwarg:
            env.v[a.kwarg.arg] = kw
        elif kw:
            self.throw("TypeError")
        env.v.update(vals)
        if f.cls and names:
            env.v["%self"], env.v["%class"] = vals[names[0]], f.cls
        if isinstance(f.node, ast.Lambda):
            return self.expr(f.node.body, env, f.cls)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            raise Undecided("generator function %s" % f.node.name)
        try:
            self.block(f.node.body, env, f.cls)
        except _Return as r:
            return r.v
        return None

    def carr_bytes(self, t):
        if isinstance(t, CArr):
            return self.mul(self.carr_bytes(t.elt), t.n)
        if isinstance(t, PyClass):
            t = t.ctype()
        return t.csize

    def carr_new(self, t, args):
        item = self.carr_bytes(t.elt)
        if args:
            return Buf("ctypes", item, [("?", t.n)], t.elt)
        return Buf("ctypes", item, [("zero", t.n)], t.elt)

    def from_buffer(self, t, buf, off=0, copy=False):
        size = self.carr_bytes(t)
        item = self.carr_bytes(t.elt) if isinstance(t, CArr) else size
        if isinstance(buf, bytes):
            buf = self.tobuf(buf, 1)
        if isinstance(buf, View):
            base, o0, avail = buf.buf, buf.off, buf.vsize
        elif isinstance(buf, Buf):
            base, o0, avail = buf, 0, buf.size()
            if buf.frozen and not copy:
                self.throw("TypeError")
        else:
            return Top("from_buffer")
        c = self.compare("<=", add(off, size), avail)
        if c is not True:
            if c is False or not self.truth(c):
                self.problem("buffer too small: %r bytes at %r, of %r" % (size, off, avail))
                self.throw("ValueError")
        if copy:
            return Buf("ctypes", item, [("copy", self.floordiv(size, item))], t)
        return View(base, add(o0, off), size, item)

    # Attributes

    def getattr(self, o, n, default=Ellipsis):
        if isinstance(o, PyObj):
            if n in o.attrs:
                return o.attrs[n]
            v = o.cls.find(n)
            if v is not None:
                return self.bind(v, o, o.cls)
            if n == "__class__":
                return o.cls
        elif isinstance(o, Super):
            cls = o.obj.cls if isinstance(o.obj, PyObj) else o.obj
            mro = cls.mro()
            i = [k for k, c in enumerate(mro) if c.name == o.cls]
            for c in mro[i[0] + 1:] if i else []:
                if n in c.ns:
                    return self.bind(c.ns[n], o.obj, cls)
            if n in ("__init__", "__del__"):
                return Native(n, lambda *a, **k: None)
        elif isinstance(o, PyClass):
            v = o.find(n)
            if v is not None:
                return self.bind(v, None, o)
            if n == "__name__":
                return o.name
        elif isinstance(o, Module):
            if n in o.attrs:
                return o.attrs[n]
            return Top(o.name + "." + n)
        elif isinstance(o, Lib):
            if n in o.attrs:
                return o.attrs[n]
            if o.has(n):
                return o.attrs.setdefault(n, Foreign(n))
        elif isinstance(o, Foreign):
            if n in o.attrs:
                return o.attrs[n]
            if n in ("argtypes", "restype"):
                return None
        elif isinstance(o, PyFunc):
            if n in o.attrs:
                return o.attrs[n]
            if n == "__name__":
                return getattr(o.node, "name", "<lambda>")
        elif isinstance(o, EInt) and n in ("name", "value"):
            return getattr(o, n)
        elif isinstance(o, (CArr, CType)) and n in ("from_buffer", "from_buffer_copy"):
            return Native(n, lambda b, off=0: self.from_buffer(o, b, off, n != "from_buffer"))
        elif isinstance(o, CVal) and n == "value":
            return o.v
        elif isinstance(o, Handle) and n == "value":
            return o
        elif isinstance(o, Mem) and n == "value":
            return o
        elif isinstance(o, (Buf, View)):
            r = self.buf_attr(o, n)
            if r is not None:
                return r
        elif isinstance(o, (list, dict, str, bytes, tuple)):
            r = self.seq_attr(o, n)
            if r is not None:
                return r
        elif isinstance(o, Top):
            return Top(o.why + "." + n)
        elif isinstance(o, Native):
            if (o.name, n) in self.nattrs:
                return self.nattrs[(o.name, n)]
            return Top(n)
        if default is not Ellipsis:
            return default
        self.throw("AttributeError")

    def bind(self, v, o, cls):
        if isinstance(v, PyFunc):
            if v.kind == "staticmethod":
                return v
            if v.kind == "classmethod":
                return Bound(v, cls)
            if v.kind == "property":
                return self.call(v, [o]) if o is not None else v
            return Bound(v, o) if o is not None else v
        return v

    def setattr(self, o, n, v):
        if isinstance(o, (PyObj, Lib, Foreign, PyFunc)):
            o.attrs[n] = v
        elif isinstance(o, PyClass):
            o.ns[n] = v
        elif isinstance(o, Native):
            self.nattrs[(o.name, n)] = v
        elif isinstance(o, Top):
            pass
        else:
            raise Undecided("attribute %s" % n)

    nattrs = {}

    def buf_extend(self, b, v):
        s = self.tobuf(v, b.item)
        b.segs = [x for x in b.segs + s.segs if x[1] != 0]

    def buf_attr(self, o, n):
        if isinstance(o, Buf):
            if n == "extend" or n == "frombytes" or n == "fromlist":
                return Native(n, lambda v: self.buf_extend(o, v))
            if n == "append":
                return Native(n, lambda v: self.buf_extend(o, [v]))
            if n == "ljust":
                def ljust(w, fill=b" "):
                    k = self.maxi([add(w, o.n(), -1), 0])
                    return Buf(o.kind, o.item, o.segs + [("zero" if self.iszero(fill) else "?", k)])
                return Native(n, ljust)
            if n in ("tobytes", "__bytes__"):
                return Native(n, lambda: self.b_bytes(o))
            if n == "raw":
                return self.b_bytes(o)
            if n == "copy":
                return Native(n, lambda: Buf(o.kind, o.item, o.segs))
        if n == "itemsize":
            return o.item
        if n == "nbytes":
            return o.size()
        if n == "cast":
            return Native(n, lambda f, *a: View(o.buf, o.off, o.vsize, {"B": 1, "b": 1, "f": 4, "h": 2}.get(f, 1)))
        return None

    def seq_attr(self, o, n):
        if isinstance(o, list):
            if n == "append":
                return Native(n, o.append)
            if n == "extend":
                return Native(n, lambda v: o.extend(self.iterate(v)))
            if n == "pop":
                return Native(n, lambda i=-1: o.pop(i) if o else self.throw("IndexError"))
            if n == "clear":
                return Native(n, o.clear)
            if n == "index":
                return Native(n, lambda v: o.index(v))
        if isinstance(o, dict):
            if n == "get":
                return Native(n, lambda k, d=None: o.get(k, d))
            if n in ("items", "keys", "values"):
                return Native(n, lambda: list(getattr(o, n)()))
        if n in ("join", "format", "strip", "lower", "upper", "startswith", "endswith", "encode"):
            return Native(n, lambda *a, **k: Top("str"))
        if isinstance(o, bytes) and n == "ljust":
            return self.buf_attr(self.tobuf(o, 1), n)
        return None

    # Builtins

    def iterate(self, v):
        if isinstance(v, (list, tuple, str, range)):
            return list(v) if not isinstance(v, list) else v
        if isinstance(v, Gen):
            return v.run()
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, PyClass) and "%members" in v.ns:
            return v.ns["%members"]
        if isinstance(v, Top):
            return []
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, (Buf, View, Rep)):
            # one sample stands for all
            return [Top("sample") if self.sample is None else self.sample]
        if isinstance(v, Lin):
            raise Undecided("loop of unknown count")
        return list(v)

    def maxi(self, vs):
        r = vs[0]
        for v in vs[1:]:
            if isinstance(v, float) and isinstance(r, (int, float)):
                r = max(r, v)
                continue
            if not (isnum(v) and isnum(r)):
                return Top("max")
            if self.truth(self.compare("<", r, v)):
                r = v
        return r

    def mini(self, vs):
        r = vs[0]
        for v in vs[1:]:
            if not (isnum(v) and isnum(r)):
                return Top("min")
            if self.truth(self.compare("<", v, r)):
                r = v
        return r

    def b_len(self, v):
        if isinstance(v, (Buf, View)):
            return v.n()
        if isinstance(v, Rep):
            return v.n
        if isinstance(v, Top):
            return self.opaque("len", repr(id(v)), lo=0)
        if isinstance(v, PyClass):
            return len(v.ns.get("%members", []))
        return len(v)

    def b_bytes(self, v=0, kind="bytes"):
        v = self.num(v)
        if isnum(v):
            if self.truth(self.compare("<", v, 0)):
                self.throw("ValueError")
            return Buf(kind, 1, [("zero", v)])
        if isinstance(v, Buf):
            return Buf(kind, 1, [(k, self.mul(n, v.item)) for k, n in v.segs], elt=v)
        if isinstance(v, View):
            return Buf(kind, 1, [("view", v.vsize)], elt=v)
        if isinstance(v, (list, bytes)):
            return self.tobuf(v, 1) if kind != "bytes" or not isinstance(v, bytes) else v
        if isinstance(v, Gen):
            raise Undecided("bytes of a generator")
        return Buf(kind, 1, [("?", self.opaque("len", repr(v), lo=0))])

    def b_array(self, code, v=()):
        item = {"f": 4, "d": 8, "h": 2, "H": 2, "i": 4, "b": 1, "B": 1}.get(code)
        if item is None:
            return Top("array")
        if isinstance(v, Buf):
            if v.kind in ("bytes", "bytearray") and v.item == 1:
                segs = []
                for k, n in v.segs:
                    q = self.floordiv(n, item)
                    if self.truthy(self.compare("==", scale(q, item), n)) is not True:
                        q = self.opaque("items", n, lo=0)
                    segs.append((k, q))
                return Buf("array", item, segs)
            return Buf("array", item, list(v.segs), elt=v)
        if isinstance(v, Gen):
            raise Undecided("array of a generator")
        b = self.tobuf(v, item)
        return Buf("array", item, b.segs)

    def b_range(self, *a):
        a = [self.num(x) for x in a]
        if any(not isinstance(x, int) for x in a):
            raise Undecided("range of unknown count")
        return list(range(*[int(x) for x in a]))

    def b_int(self, v=0, *a):
        v = self.num(v)
        if isnum(v):
            return v if isinstance(v, Lin) else int(v)
        if isinstance(v, float):
            return int(v)
        return Top("int")

    def b_sum(self, v, start=0):
        if isinstance(v, (Buf, View, Rep)) and self.sample is not None:
            return self.sample
        if isinstance(v, (Buf, View, Rep, Top)):
            return Top("sum")
        r = start
        for x in self.iterate(v):
            r = self.binop(ast.Add(), r, x)
        return r

    def b_isinstance(self, v, t):
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, PyClass):
                if isinstance(v, PyObj) and v.cls.sub(x):
                    return True
            elif isinstance(x, Native):
                k = x.name
                if k == "int" and isinstance(v, (int, Lin)) or k == "float" and isinstance(v, float) or \
                   k == "str" and isinstance(v, str) or k == "bool" and isinstance(v, bool) or \
                   k in ("list", "tuple", "dict") and type(v).__name__ == k or \
                   k == "bytes" and (isinstance(v, bytes) or isinstance(v, Buf) and v.kind == "bytes") or \
                   k == "bytearray" and isinstance(v, Buf) and v.kind == "bytearray":
                    return True
            elif isinstance(x, Top):
                return Top("isinstance")
        return Top("isinstance") if isinstance(v, Top) else False

    def b_abs(self, v):
        v = self.num(v)
        if isnum(v):
            return scale(v, -1) if self.truth(self.compare("<", v, 0)) else v
        return abs(v) if isinstance(v, float) else Top("abs")

    def b_anyall(self, v, isall):
        if isinstance(v, Top):
            return Top("any")
        r = isall
        for x in self.iterate(v):
            if self.truth(x) != isall:
                return not isall
        return r

    def builtins(self):
        N = Native
        self.nattrs = {}
        b = {
            "len": self.b_len, "max": lambda *a, **k: self.maxi(list(a) if len(a) > 1 else list(self.iterate(a[0]))),
            "min": lambda *a, **k: self.mini(list(a) if len(a) > 1 else list(self.iterate(a[0]))),
            "range": self.b_range, "int": self.b_int, "float": lambda v=0: float(v) if isinstance(v, (int, float)) else Top("float"),
            "bool": lambda v=False: v if isinstance(v, Cmp) else self.truth(v), "abs": self.b_abs, "sum": self.b_sum,
            "enumerate": lambda v, start=0: list(enumerate(self.iterate(v), start)),
            "zip": lambda *v, **k: list(zip(*[list(self.iterate(x)) for x in v])),
            "list": lambda v=(): v if isinstance(v, (Rep, Buf, View)) else list(self.iterate(v)),
            "tuple": lambda v=(): tuple(self.iterate(v)), "dict": lambda *a, **k: dict(*a, **k),
            "set": lambda v=(): list(self.iterate(v)), "frozenset": lambda v=(): list(self.iterate(v)),
            "reversed": lambda v: list(self.iterate(v))[::-1], "sorted": lambda v, **k: sorted(self.iterate(v)),
            "map": lambda f, *v: [self.call(f, list(x)) for x in zip(*[self.iterate(y) for y in v])],
            "filter": lambda f, v: [x for x in self.iterate(v) if self.truth(self.call(f, [x]))],
            "all": lambda v: self.b_anyall(v, True), "any": lambda v: self.b_anyall(v, False),
            "hasattr": lambda o, n: self.hasattr(o, n), "setattr": lambda o, n, v: self.setattr(o, n, v),
            "getattr": lambda o, n, *d: self.getattr(o, n, *d) if isinstance(n, str) else Top("attr"),
            "isinstance": self.b_isinstance, "issubclass": lambda *a: Top("issubclass"),
            "bytes": lambda v=0, *a: self.b_bytes(v), "bytearray": lambda v=0, *a: self.b_bytes(v, "bytearray"),
            "memoryview": lambda v: View(v, 0, v.size(), v.item) if isinstance(v, Buf) else v,
            "divmod": lambda a, c: (self.binop(ast.FloorDiv(), a, c), self.binop(ast.Mod(), a, c)),
            "str": lambda *a: Top("str"), "repr": lambda *a: Top("str"), "print": lambda *a, **k: None,
            "type": lambda o: o.cls if isinstance(o, PyObj) else Top("type"),
            "iter": lambda v: v, "callable": lambda v: True, "id": lambda v: Top("id"), "object": lambda: Top("object"),
            "round": lambda v, *a: v if isnum(v) else Top("round"), "pow": lambda a, c: a ** c, "hex": lambda v: Top("str"),
        }
        r = {k: N(k, v) for k, v in b.items()}
        r["NotImplemented"] = Top("NotImplemented")
        return r

    def hasattr(self, o, n):
        if isinstance(o, (Lib, PyObj)) and isinstance(n, str):
            if isinstance(o, Lib):
                return n in o.attrs or o.has(n)
            return n in o.attrs or o.cls.find(n) is not None
        return Top("hasattr")

    def module(self, name):
        N = Native
        if name in ("ctypes", "ctypes.util"):
            a = dict(CTYPES)
            load = N("load", lambda *p, **k: self.host.load(self, p[0] if p else None))
            cdll = Module("cdll", {"LoadLibrary": load})
            util = Module("ctypes.util", {"find_library": N("find_library", lambda n: self.host.find(self, n))})
            a.update(cdll=cdll, CDLL=load, util=util, PyDLL=load,
                     find_library=util.attrs["find_library"],
                     sizeof=N("sizeof", lambda t: t.size() if isinstance(t, (Buf, View)) else self.carr_bytes(t)),
                     byref=N("byref", lambda b, off=0: self.pointer(b, off)),
                     addressof=N("addressof", lambda b: self.pointer(b, 0)),
                     pointer=N("pointer", lambda b: self.pointer(b, 0)),
                     cast=N("cast", lambda b, t: self.pointer(b, 0) if isinstance(b, (Buf, View)) else b),
                     create_string_buffer=N("csb", lambda n, *k: Buf("ctypes", 1, [("zero", n)])),
                     POINTER=N("POINTER", lambda t: CType("POINTER", 8, "ptr")))
            return Module(name, a)
        if name == "array":
            return Module(name, {"array": N("array", self.b_array)})
        if name == "enum":
            e = N("enum", None)
            return Module(name, {"IntEnum": e, "Enum": e, "IntFlag": e, "auto": N("auto", lambda: "%auto")})
        if name == "typing":
            return Module(name, {"overload": N("overload", lambda f: f),
                                 "cast": N("cast", lambda t, v: v), "TYPE_CHECKING": False})
        if name == "functools":
            def partial(f, *a, **k):
                return N("partial", lambda *b, **k2: self.call(f, list(a) + list(b), {**k, **k2}))
            return Module(name, {"partial": N("partial", partial)})
        if name == "operator":
            return Module(name, {"index": N("index", lambda v: v)})
        if name == "math":
            import math
            def f(n):
                g = getattr(math, n)
                return N(n, lambda *a: g(*a) if all(isinstance(x, (int, float)) for x in a) else Top(n))
            m = {n: f(n) for n in ("isnan", "isfinite", "isinf", "fabs", "sqrt", "floor", "ceil")}
            m.update(inf=math.inf, nan=math.nan, fsum=N("fsum", self.b_sum))
            return Module(name, m)
        if name == "glob":
            return Module(name, {"glob": N("glob", lambda *a, **k: [])})
        return Module(name, {})

    def pointer(self, b, off):
        if isinstance(b, Buf):
            return View(b, off, add(b.size(), off, -1))
        if isinstance(b, View):
            return View(b.buf, add(b.off, off), add(b.vsize, off, -1), b.item)
        return Top("pointer")


class Gen:
    def __init__(self, it, e, env, cls, first):
        self.it, self.e, self.env, self.cls, self.first = it, e, env, cls, first
        self.done = False

    def run(self):
        if self.done:
            return
        self.done = True
        yield from self.it.comp(self.e, self.env, self.cls, self.first)


def env_exc(env):
    while env:
        if "%exc" in env.v:
            return env.v["%exc"]
        env = env.parent
    return PyObj(EXC["RuntimeError"])
