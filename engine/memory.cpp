#include "memory.h"

std::vector<std::vector<Target>> g_more;
u64 g_ver = 1;
static std::map<std::vector<Target>, int> g_moreIdx;
int internMore(const std::vector<Target> &t) {
  if (t.empty()) return -1;
  auto it = g_moreIdx.find(t);
  if (it != g_moreIdx.end()) return it->second;
  g_more.push_back(t);
  return g_moreIdx[t] = (int)g_more.size() - 1;
}

static void targetsOf(const Val &v, std::vector<Target> &t) {
  if (v.obj >= 0) t.push_back({v.obj, v.lo, v.hi, v.st});
  if (v.more >= 0) for (auto &x : g_more[v.more]) t.push_back(x);
}

static const double FTHR[] = {1.0, 4.0, 40.0, 32768.0, 1e6, 1e9, 1e14, 1e20, 1e30};
bool g_widenHard = false, g_widenInts = true, g_widenHardInts = false;
static double widenUp(double v) { if (g_widenHard) return INFINITY; if (v <= 0) return 0; for (double t : FTHR) if (v <= t) return t; return INFINITY; }
static double widenDn(double v) { if (g_widenHard) return v >= 0 ? 0 : -INFINITY; if (v >= 0) return 0; for (double t : FTHR) if (v >= -t) return -t; return -INFINITY; }
static i64 widenIUp(i64 v, int w) {
  if (!g_widenInts) return v; if (g_widenHardInts) return wmax(w);
  static const i64 T[] = {-1, 0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 127, 255, 511, 1023, 2047, 4095, 32767, 65535, 0xffffff, INT32_MAX, (1LL<<40), (1LL<<48), (1LL<<56)};
  for (i64 t : T) if (v <= t && t <= wmax(w)) return t; return wmax(w);
}
static i64 widenIDn(i64 v, int w) {
  if (!g_widenInts) return v; if (g_widenHardInts) return v >= 0 ? 0 : wmin(w);
  static const i64 T[] = {65536, 1, 0, -1, -2, -4, -8, -16, -32, -64, -128, -256, -512, -1024, -32768, -65536, INT32_MIN, -(1LL<<40), -(1LL<<48), -(1LL<<56)};
  for (i64 t : T) if (v >= t && t >= wmin(w)) return t; return wmin(w);
}

std::vector<std::pair<i64, i64>> g_sub;
int internSub(i64 lo, i64 hi) {
  static std::map<std::pair<i64, i64>, int> idx;
  auto it = idx.emplace(std::make_pair(lo, hi), (int)g_sub.size());
  if (it.second) g_sub.push_back({lo, hi});
  return it.first->second;
}
i64 (*g_sizeOf)(int obj) = nullptr;
static Val joinPtr(const Val &a, const Val &b, bool widen) {
  auto unknown = [](const Val &v) { return v.obj < 0 && v.more < 0 && !v.nul && !v.undef; };
  if (unknown(a) || unknown(b)) { Val r = unknown(a) ? a : b; r.undef = a.undef || b.undef; return r; }
  std::vector<Target> ta, tb;
  targetsOf(a, ta); targetsOf(b, tb);
  std::map<int, Target> m;
  for (auto &x : ta) { auto it = m.find(x.obj); if (it == m.end()) m[x.obj] = x; else {
      Val u = mkInt(64, it->second.lo, it->second.hi, it->second.st), v = mkInt(64, x.lo, x.hi, x.st); Val j = joinVal(u, v); it->second = {x.obj, j.lo, j.hi, j.st}; } }
  for (auto &x : tb) { auto it = m.find(x.obj); if (it == m.end()) m[x.obj] = x; else {
      Val u = mkInt(64, it->second.lo, it->second.hi, it->second.st), v = mkInt(64, x.lo, x.hi, x.st);
      Val j = joinVal(u, v); if (widen && !sameVal(j, u)) { i64 sz = g_sizeOf ? g_sizeOf(x.obj) : -1; i64 lo = u.lo, hi = u.hi; Val r = widenVal(u, v); if (v.lo < lo && v.lo >= 0) r.lo = 0; if (v.hi > hi && v.hi <= sz) r.hi = sz; if (r.lo != j.lo || r.hi != j.hi) r.st = (r.lo == 0 && j.lo % r.st == 0) || r.lo == j.lo ? r.st : 1; normst(r); j = r; } it->second = {x.obj, j.lo, j.hi, j.st}; } }
  Val r; r.k = K_PTR; r.w = 64; r.nul = a.nul || b.nul; r.undef = a.undef || b.undef;
  bool first = true; std::vector<Target> rest;
  for (auto &kv : m) {
    if (first) { r.obj = kv.second.obj; r.lo = kv.second.lo; r.hi = kv.second.hi; r.st = kv.second.st; first = false; }
    else rest.push_back(kv.second);
  }
  r.more = internMore(rest);
  if (r.more < 0 && r.obj >= 0) { bool an = a.obj < 0 && a.more < 0, bn = b.obj < 0 && b.more < 0; r.sub = an ? b.sub : bn ? a.sub : a.sub == b.sub ? a.sub : -1; }
  return r;
}

void (*g_settle)(int side, Val &v) = nullptr;
Val joinVal(const Val &a0, const Val &b0) {
  if (g_settle && (a0.sym >= 0 || b0.sym >= 0) && !sameVal(a0, b0)) { Val x = a0, y = b0; auto h = g_settle; if (x.sym >= 0) h(0, x); if (y.sym >= 0) h(1, y); g_settle = nullptr; Val r = joinVal(x, y); g_settle = h; return r; }
  const Val &a = a0, &b = b0;
  if (a.k == K_NONE) return b;
  if (b.k == K_NONE) return a;
  Val r;
  if (a.k != b.k || (a.w != b.w && a.k != K_PTR)) {
    // different views of the same bytes
    if (a.k == K_PTR || b.k == K_PTR) {
      const Val &o = a.k == K_PTR ? b : a, &p = a.k == K_PTR ? a : b;
      if (o.k == K_INT && o.lo == 0 && o.hi == 0) { r = p; r.nul = true; r.undef = a.undef || b.undef; r.sym = -1; return r; }
      if (o.k == K_INT && o.undef) { r = p; r.undef = true; r.sym = -1; return r; }
      return mkIntTop(64);
    }
    int w = std::max(a.w, b.w);
    if (a.w == b.w && a.k == K_FLT && b.k == K_INT) { r = joinVal(a, convertVal(b, {K_FLT, a.w, a.w / 8})); }
    else if (a.w == b.w && b.k == K_FLT && a.k == K_INT) { r = joinVal(convertVal(a, {K_FLT, b.w, b.w / 8}), b); }
    else r = mkIntTop(w);
    r.undef = a.undef || b.undef; return r;
  }
  switch (a.k) {
  case K_INT: {
    if (a.undef && !b.undef && false) return b;
    r = mkInt(a.w, std::min(a.lo, b.lo), std::max(a.hi, b.hi), 1);
    if (a.lo != a.hi || b.lo != b.hi || a.lo != b.lo) {
      i64 d = (i64)((u64)a.lo - (u64)b.lo);
      i64 g = gcd64(gcd64(a.st, b.st), d);
      if (g > 1) { r.st = g; normst(r); }
    }
    break; }
  case K_FLT: r = mkFlt(a.w, std::min(a.flo, b.flo), std::max(a.fhi, b.fhi), a.nan || b.nan); break;
  case K_PTR: r = joinPtr(a, b, false); break;
  default: break;
  }
  r.undef = a.undef || b.undef;
  if (a.sym >= 0 && a.sym == b.sym && a.symc == b.symc) { r.sym = a.sym; r.symc = a.symc; }
  if (a.bv >= 0 && a.bv == b.bv && a.k == K_INT) r.bv = a.bv;
  return r;
}

Val widenVal(const Val &a, const Val &b) {
  Val j = joinVal(a, b);
  if (a.k != b.k || sameVal(a, j)) return j;
  Val r = j;
  if (j.k == K_INT) {
    if (j.lo < a.lo) r.lo = widenIDn(j.lo, j.w);
    if (j.hi > a.hi) r.hi = widenIUp(j.hi, j.w);
    if (r.lo != j.lo || r.hi != j.hi) r.st = (r.st > 1 && r.lo == j.lo) ? r.st : 1;
    normst(r);
  } else if (j.k == K_FLT) {
    if (j.flo < a.flo) r.flo = widenDn(j.flo);
    if (j.fhi > a.fhi) r.fhi = widenUp(j.fhi);
  } else if (j.k == K_PTR) r = joinPtr(a, b, true), r.undef = j.undef;
  return r;
}

bool leqVal(const Val &a, const Val &b) {
  if (a.k == K_NONE) return true;
  if (sameVal(a, b)) return true;
  Val j = joinVal(b, a);
  return sameVal(j, b);
}

Val topOf(Ty t, bool undef) {
  Val v = t.k == K_FLT ? mkFltTop(t.w) : t.k == K_INT ? mkIntTop(t.w) : Val();
  if (t.k == K_PTR) { v = Val(); v.k = K_PTR; v.w = 64; v.obj = -1; v.nul = false; }
  v.undef = undef; return v;
}

static int32_t fbits(float f) { int32_t i; memcpy(&i, &f, 4); return i; }
static float bitsf(int32_t i) { float f; memcpy(&f, &i, 4); return f; }

Val convertVal(const Val &v, Ty t) {
  if (v.k == t.k && v.w == t.w) return v;
  if (v.k == K_NONE) return topOf(t, true);
  Val r = topOf(t, v.undef);
  if (t.k == K_PTR) {
    if (v.k == K_INT && v.lo == 0 && v.hi == 0) { r = mkNull(); r.undef = v.undef; }
    return r;
  }
  if (v.k == K_PTR) return r;
  if (v.k == K_INT && t.k == K_INT) {
    if (v.lo == v.hi && t.w < v.w) { i64 x = v.lo; if (t.w < 64) { x = (i64)((u64)x << (64 - t.w)) >> (64 - t.w); if (t.w == 1) x &= 1; } r = mkInt(t.w, x, x); }
    else if (t.w == 1 && v.lo >= 0 && v.hi <= 1) r = mkInt(1, v.lo, v.hi);
    else if (v.w == 1) r = mkInt(t.w, v.lo, v.hi);
    r.undef = v.undef; return r;
  }
  if (v.k == K_FLT && t.k == K_INT && v.w == 32 && t.w == 32) {
    if (!v.nan) {
      if (v.flo >= 0 && !std::signbit(v.flo)) r = mkInt(32, fbits((float)v.flo), fbits((float)v.fhi));
      else if (v.fhi < 0) r = mkInt(32, fbits((float)v.fhi), fbits((float)v.flo));
      else if (std::signbit(v.flo) && v.fhi >= 0) {
        float m = std::max(std::fabs((float)v.flo), std::fabs((float)v.fhi)); (void)m;
        r = mkIntTop(32);   // the sign bit may be set
        r.hi = std::max(fbits((float)v.fhi), 0);
      }
    }
    r.undef = v.undef; return r;
  }
  if (v.k == K_INT && t.k == K_FLT && v.w == 32 && t.w == 32) {
    const int32_t INFB = 0x7f800000;
    if (v.lo >= 0) {
      bool n = v.hi > INFB; r = mkFlt(32, v.lo > INFB ? -INFINITY : bitsf((int32_t)v.lo), n ? INFINITY : bitsf((int32_t)v.hi), n);
    } else if (v.hi < 0) {
      i64 a = v.lo & 0x7fffffff, b = v.hi & 0x7fffffff;   // |x| in [a,b]
      bool n = b > INFB; r = mkFlt(32, n ? -INFINITY : -bitsf((int32_t)b), a > INFB ? INFINITY : -bitsf((int32_t)a), n);
    } else if (v.lo > INT32_MIN || true) {
      i64 b1 = v.hi; bool n = true; (void)b1;
      r = mkFlt(32, -INFINITY, v.hi > INFB ? INFINITY : bitsf((int32_t)v.hi), n);
    }
    r.undef = v.undef; return r;
  }
  if (v.k == K_INT && v.lo == 0 && v.hi == 0 && t.k == K_FLT) { r = mkFlt(t.w, 0, 0); r.undef = v.undef; }
  return r;
}

Ref<Obj> newObj(i64 size, Fill f) {
  Ref<Obj> o(new Obj()); o->size = o->maxsize = size; o->fill = f;
  o->ch.resize(size > 0 ? (size + CH - 1) / CH : 0);
  return o;
}

static Val fillVal(Fill f, Ty t) {
  if (f == F_ZERO) {
    if (t.k == K_PTR) return mkNull();
    if (t.k == K_FLT) return mkFlt(t.w, 0, 0);
    return mkInt(t.w, 0, 0);
  }
  return topOf(t, f == F_UNDEF);
}

static void chunkPieces(const Chunk *c, Fill dflt, i64 base, int a, int b, std::vector<Piece> &out) {
  // bytes [a,b) of the chunk
  if (!c) { out.push_back({base + a, b - a, false, dflt, Val()}); return; }
  int p = a;
  for (auto &ce : c->cells) {
    int s = ce.off, e = ce.off + ce.sz;
    if (e <= p) continue;
    if (s >= b) break;
    if (s > p) { out.push_back({base + p, s - p, false, c->fill, Val()}); p = s; }
    if (s >= a && e <= b) { out.push_back({base + s, ce.sz, true, F_ANY, ce.v}); p = e; }
    else {
      int q = std::min(e, b);   // partially covered cell
      if (ce.v.k == K_INT && ce.v.lo == ce.v.hi && !ce.v.undef) {
        for (int i = p; i < q; i++) { i64 x = (int8_t)((u64)ce.v.lo >> (8 * (i - s))); out.push_back({base + i, 1, true, F_ANY, mkInt(8, x, x)}); }
      } else out.push_back({base + p, q - p, false, ce.v.undef ? F_UNDEF : F_ANY, Val()});
      p = q;
    }
  }
  if (p < b) out.push_back({base + p, b - p, false, c->fill, Val()});
}

void objPieces(const Obj &o, i64 off, i64 len, std::vector<Piece> &out) {
  i64 end = off + len;
  while (off < end) {
    i64 ci = off / CH; int a = off % CH; int b = (int)std::min<i64>(CH, a + (end - off));
    const Chunk *c = ci < (i64)o.ch.size() ? o.ch[ci].p : nullptr;
    chunkPieces(c, o.fill, ci * CH, a, b, out);
    off = ci * CH + b;
  }
}

Val objLoad(const Obj &o, i64 off, Ty t) {
  i64 ci = off / CH; int a = off % CH;
  if (a + t.sz <= CH) {
    const Chunk *c = ci < (i64)o.ch.size() ? o.ch[ci].p : nullptr;
    if (!c) return fillVal(o.fill, t);
    auto it = std::lower_bound(c->cells.begin(), c->cells.end(), a, [](const Cell &x, int v) { return x.off < v; });
    if (it != c->cells.end() && it->off == a && it->sz == t.sz) return convertVal(it->v, t);
  }
  std::vector<Piece> ps; objPieces(o, off, t.sz, ps);
  if (ps.size() == 1 && !ps[0].isCell) return fillVal(ps[0].fill, t);
  bool undef = false, allZero = true, allConst = true; u64 x = 0;
  for (auto &p : ps) {
    if (p.isCell) {
      undef |= p.v.undef;
      if (!(p.v.k == K_INT && p.v.lo == 0 && p.v.hi == 0)) allZero = false;
      if (p.v.k == K_INT && p.v.lo == p.v.hi && p.len <= 8) { u64 y = (u64)p.v.lo; if (p.len < 8) y &= (1ULL << (8 * p.len)) - 1; x |= y << (8 * (p.off - off)); }
      else allConst = false;
    } else { if (p.fill == F_UNDEF) undef = true; if (p.fill != F_ZERO) allZero = allConst = false; }
  }
  if (allZero) { Val v = fillVal(F_ZERO, t); v.undef = undef; return v; }
  if (allConst && t.k == K_INT) { i64 s = t.w < 64 ? (i64)(x << (64 - t.w)) >> (64 - t.w) : (i64)x; Val v = mkInt(t.w, s, s); v.undef = undef; return v; }
  if (t.k == K_INT && !undef && t.sz <= 4) { // assemble unsigned bytes
    i128 lo = 0, hi = 0; bool ok = true;
    for (auto &p : ps) { i64 l = 0, h = (1LL << (8 * p.len)) - 1; if (p.isCell && p.v.k == K_INT && p.v.lo >= 0) { l = p.v.lo; h = p.v.hi; } else if (!p.isCell && p.fill == F_ZERO) h = 0; lo += (i128)l << (8 * (p.off - off)); hi += (i128)h << (8 * (p.off - off)); }
    if (ok && hi <= wmax(t.w)) return mkInt(t.w, (i64)lo, (i64)hi);
  }
  return topOf(t, undef);
}

static Chunk *ownChunk(Ref<Obj> &o, i64 ci) {
  Obj *ob = o.own();
  if (ci >= (i64)ob->ch.size()) ob->ch.resize(ci + 1);
  if (!ob->ch[ci]) ob->ch[ci] = Ref<Chunk>(new Chunk(ob->fill));
  Chunk *c = ob->ch[ci].own(); c->ver = ++g_ver; return c;
}

static void putCell(Chunk *c, int off, int sz, const Val &v) {
  auto it = std::lower_bound(c->cells.begin(), c->cells.end(), off, [](const Cell &x, int v) { return x.off < v; });
  c->cells.insert(it, Cell{(uint8_t)off, (uint8_t)sz, v});
}

// remove bytes [a,b) from the cells; what remains of cut cells keeps definedness
static void cutCells(Chunk *c, int a, int b) {
  std::vector<Cell> add;
  size_t w = 0;
  for (size_t i = 0; i < c->cells.size(); i++) {
    Cell &ce = c->cells[i];
    int s = ce.off, e = s + ce.sz;
    if (e <= a || s >= b) { if (w != i) c->cells[w] = c->cells[i]; w++; continue; }
    for (int k = s; k < e; k++) if (k < a || k >= b) {
      Val v = mkIntTop(8); v.undef = ce.v.undef;
      if (ce.v.k == K_INT && ce.v.lo == ce.v.hi) { i64 x = (int8_t)((u64)ce.v.lo >> (8 * (k - s))); v = mkInt(8, x, x); v.undef = ce.v.undef; }
      add.push_back({(uint8_t)k, 1, v});
    }
  }
  c->cells.resize(w);
  for (auto &x : add) putCell(c, x.off, x.sz, x.v);
}

void objStore(Ref<Obj> &o, i64 off, int sz, const Val &v) {
  i64 ci = off / CH; int a = off % CH;
  if (a + sz > CH) { // crosses chunks: bytes of unknown value
    Val b = mkIntTop(8); b.undef = v.undef;
    for (int k = 0; k < sz; k++) objStore(o, off + k, 1, b);
    return;
  }
  Chunk *c = ownChunk(o, ci);
  auto it = std::lower_bound(c->cells.begin(), c->cells.end(), a, [](const Cell &x, int v) { return x.off < v; });
  if (it != c->cells.end() && it->off == a && it->sz == sz) { it->v = v; return; }
  bool clash = (it != c->cells.end() && it->off < a + sz) || (it != c->cells.begin() && (it - 1)->off + (it - 1)->sz > a);
  if (clash) cutCells(c, a, a + sz);
  putCell(c, a, sz, v);
}

void objFill(Ref<Obj> &o, i64 off, i64 len, Fill f) {
  i64 end = off + len;
  while (off < end) {
    i64 ci = off / CH; int a = off % CH; int b = (int)std::min<i64>(CH, a + (end - off));
    if (a == 0 && (b == CH || ci * CH + b >= o->maxsize)) {
      Obj *ob = o.own();
      if (ci >= (i64)ob->ch.size()) ob->ch.resize(ci + 1);
      if (ob->fill == f) ob->ch[ci] = Ref<Chunk>(); else ob->ch[ci] = Ref<Chunk>(new Chunk(f));
    } else {
      Chunk *c = ownChunk(o, ci);
      cutCells(c, a, b);
      if (c->fill != f) {
        int k = a;
        while (k < b) {
          int s = (k % 4 == 0 && k + 4 <= b) ? 4 : 1;
          Ty t{K_INT, s * 8, s};
          putCell(c, k, s, fillVal(f, t)); k += s;
        }
      }
    }
    off = ci * CH + b;
  }
}

static Chunk *joinChunk(const Chunk *a, const Chunk *b, Fill da, Fill db, bool widen) {
  Fill fa = a ? a->fill : da, fb = b ? b->fill : db;
  auto jf = [](Fill x, Fill y) { return x == y ? x : (x == F_UNDEF || y == F_UNDEF) ? F_UNDEF : F_ANY; };
  Chunk *r = new Chunk(jf(fa, fb));
  static const std::vector<Cell> none;
  const std::vector<Cell> &ca = a ? a->cells : none, &cb = b ? b->cells : none;
  size_t i = 0, j = 0;
  auto J = [&](const Val &x, const Val &y) { return widen ? widenVal(x, y) : joinVal(x, y); };
  while (i < ca.size() || j < cb.size()) {
    const Cell *x = i < ca.size() ? &ca[i] : nullptr, *y = j < cb.size() ? &cb[j] : nullptr;
    if (x && y && x->off == y->off && x->sz == y->sz) {
      Ty t{x->v.k, x->v.w, x->sz};
      Val yv = y->v, xv = x->v;
      if (yv.k == K_FLT && xv.k == K_INT && xv.lo == xv.hi && xv.w == yv.w) xv = convertVal(xv, {K_FLT, yv.w, x->sz}); // a float initialised by bytes
      else if (yv.k != xv.k && xv.k != K_PTR) yv = convertVal(yv, t);
      Val v = J(xv, yv);
      if (v.k == K_INT && v.w != x->sz * 8 && v.w != 1) { bool u = v.undef; v = mkIntTop(x->sz * 8); v.undef = u; }
      r->cells.push_back({x->off, x->sz, v}); i++; j++; continue;
    }
    // a cell against fill bytes or misaligned cells
    bool takeX = x && (!y || x->off < y->off || (x->off == y->off && x->sz > y->sz));
    const Cell *c = takeX ? x : y; 
    const std::vector<Cell> &oc = takeX ? cb : ca; size_t &oi = takeX ? j : i; size_t &mi = takeX ? i : j;
    Fill of = takeX ? fb : fa;
    if (oi >= oc.size() || oc[oi].off >= c->off + c->sz) {
      // other side is pure fill here
      Ty t{c->v.k, c->v.w, c->sz};
      Val f = fillVal(of, t);
      Val v;
      if (c->v.k == K_PTR && of == F_UNDEF) { v = c->v; v.undef = true; }
      else v = takeX ? J(c->v, f) : J(f, c->v);
      r->cells.push_back({c->off, c->sz, v}); mi++; continue;
    }
    // overlapping, different layouts: merge extents into bytes
    int s = c->off, e = c->off + c->sz; size_t i0 = i, j0 = j; mi++;
    bool grow = true;
    while (grow) {
      grow = false;
      while (i < ca.size() && ca[i].off < e) { e = std::max(e, ca[i].off + ca[i].sz); i++; grow = true; }
      while (j < cb.size() && cb[j].off < e) { e = std::max(e, cb[j].off + cb[j].sz); j++; grow = true; }
    }
    auto byteOf = [](const std::vector<Cell> &cs, size_t p, size_t q, Fill f, int k) {
      for (; p < q; p++) if (cs[p].off <= k && k < cs[p].off + cs[p].sz) {
        const Val &v = cs[p].v; Val r = mkIntTop(8);
        if (v.k == K_INT && cs[p].sz == 1) r = v; else if (v.k == K_INT && v.lo == v.hi) { i64 x = (int8_t)((u64)v.lo >> (8 * (k - cs[p].off))); r = mkInt(8, x, x); }
        r.undef = v.undef; r.sym = -1; return r; }
      return fillVal(f, Ty{K_INT, 8, 1}); };
    std::vector<Val> by; for (int k = s; k < e; k++) by.push_back(J(byteOf(ca, i0, i, fa, k), byteOf(cb, j0, j, fb, k)));
    for (int k = s; k < e; ) {
      int sz = (k % 4 == 0 && k + 4 <= e) ? 4 : (k % 2 == 0 && k + 2 <= e) ? 2 : 1;
      for (int q = 0; q < sz && sz > 1; q++) { const Val &v = by[k - s + q]; if (!(v.lo == -128 && v.hi == 127) || v.undef != by[k - s].undef) { sz = 1; break; } }
      Val v = sz > 1 ? mkIntTop(8 * sz) : by[k - s]; v.undef = by[k - s].undef; r->cells.push_back({(uint8_t)k, (uint8_t)sz, v}); k += sz; }
  }
  return r;
}

Ref<Obj> joinObj(const Ref<Obj> &a, const Ref<Obj> &b, bool widen) {
  if (a.p == b.p) return a;
  if (!a) return b;
  if (!b) return a;
  Ref<Obj> r(new Obj(*a));
  r->size = std::min(a->size, b->size); r->maxsize = std::max(a->maxsize, b->maxsize);
  if (a->sizeSym != b->sizeSym) r->sizeSym = -1;
  r->readonly = a->readonly || b->readonly; r->frozen = a->frozen || b->frozen; r->rel = a->rel && b->rel; r->keep = a->keep || b->keep;
  size_t n = std::max(a->ch.size(), b->ch.size()); r->ch.resize(n);
  for (size_t i = 0; i < n; i++) {
    const Chunk *x = i < a->ch.size() ? a->ch[i].p : nullptr, *y = i < b->ch.size() ? b->ch[i].p : nullptr;
    if (x == y && (x || a->fill == b->fill)) continue;
    r->ch[i] = Ref<Chunk>(joinChunk(x, y, a->fill, b->fill, widen));
  }
  return r;
}

static bool chunkUndefBytes(const Chunk *c, Fill f, u64 &mask) {
  if (!c) { mask = f == F_UNDEF ? ~0ULL : 0; return true; }
  mask = c->fill == F_UNDEF ? ~0ULL : 0;
  for (auto &x : c->cells) { u64 m = (x.sz == 64 ? ~0ULL : ((1ULL << x.sz) - 1)) << x.off; if (x.v.undef) mask |= m; else mask &= ~m; }
  return true;
}

bool sameDefinedness(const Obj &a, const Obj &b) {
  if (a.ch.size() != b.ch.size()) return false;
  for (size_t i = 0; i < a.ch.size(); i++) {
    if (a.ch[i].p == b.ch[i].p) continue;
    u64 x, y; chunkUndefBytes(a.ch[i].p, a.fill, x); chunkUndefBytes(b.ch[i].p, b.fill, y);
    u64 m = ~0ULL; i64 rest = a.maxsize - (i64)i * CH; if (rest < CH) m = (1ULL << rest) - 1;
    if ((x ^ y) & m) return false;
  }
  return true;
}

bool leqObj(const Obj &a, const Obj &b) {
  if (&a == &b) return true;
  if (a.ch.size() != b.ch.size()) return false;
  for (size_t i = 0; i < a.ch.size(); i++) {
    const Chunk *x = a.ch[i].p, *y = b.ch[i].p;
    if (x == y && (x || a.fill == b.fill)) continue;
    Ref<Chunk> j(joinChunk(y, x, b.fill, a.fill, false));
    // compare j and y
    if (!y) { bool same = j->fill == b.fill && j->cells.empty(); if (!same) {
        // every cell must be included in the fill
        if (j->fill != b.fill) return false;
        for (auto &c : j->cells) { Ty t{c.v.k, c.v.w, c.sz}; if (!sameVal(c.v, fillVal(b.fill, t))) return false; } }
      continue; }
    if (j->fill != y->fill) return false;
    if (j->cells.size() != y->cells.size()) return false;
    for (size_t k = 0; k < j->cells.size(); k++) {
      if (j->cells[k].off != y->cells[k].off || j->cells[k].sz != y->cells[k].sz) return false;
      if (!sameVal(j->cells[k].v, y->cells[k].v)) return false;
    }
  }
  return true;
}
