// Abstract interpreter over LLVM IR: data structures and value domain.
// Values are abstracted by intervals with a stride (integers), intervals with
// a NaN flag (floating point), and sets of (object, offset interval) pairs
// (pointers).  Nothing of the analysed program is ever executed.
#pragma once
#include <cstdint>
#include <cmath>
#include <cfloat>
#include <climits>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <utility>
#include <cstdio>
#include <cstdlib>

typedef int64_t i64;
typedef uint64_t u64;
typedef __int128 i128;

enum Kind : uint8_t { K_NONE, K_INT, K_FLT, K_PTR };

static const i64 PINF = INT64_MAX, NINF = INT64_MIN;

struct Val {
  Kind k = K_NONE;
  uint8_t w = 0;        // width in bits (int/float)
  bool undef = false;   // may be uninitialised
  bool nan = false;     // K_FLT: may be NaN
  bool nul = false;     // K_PTR: may be null
  int32_t obj = -1;     // K_PTR: object, -1 none
  int32_t more = -1;    // K_PTR: index of further targets
  int32_t sym = -1;     // relational symbol: value == S(sym) + symc
  i64 symc = 0;
  int32_t bv = -1;      // K_INT: where each bit comes from (see ai_bits)
  int32_t sub = -1;     // K_PTR: bounds of the array, in the object, that the pointer is formed from
  union { struct { i64 lo, hi, st; }; struct { double flo, fhi; }; };
  Val() : lo(0), hi(0), st(0) {}
};

static inline i64 wmin(int w) { return w >= 64 ? INT64_MIN : w == 1 ? 0 : -(1LL << (w - 1)); }
static inline i64 wmax(int w) { return w >= 64 ? INT64_MAX : w == 1 ? 1 : (1LL << (w - 1)) - 1; }

static inline i64 gcd64(i64 a, i64 b) {
  u64 x = a < 0 ? -(u64)a : a, y = b < 0 ? -(u64)b : b;
  while (y) { u64 t = x % y; x = y; y = t; }
  return x > (u64)INT64_MAX ? 1 : (i64)x;
}

static inline void normst(Val &v) {
  if (v.lo == v.hi) { v.st = 0; return; }
  if (v.st <= 0) v.st = 1;
  if (v.st > 1) {
    u64 d = (u64)v.hi - (u64)v.lo;
    v.hi = (i64)((u64)v.lo + d / (u64)v.st * (u64)v.st);
    if (v.lo == v.hi) v.st = 0;
  }
}
static inline Val mkInt(int w, i64 lo, i64 hi, i64 st = 1) {
  Val v; v.k = K_INT; v.w = w; v.lo = lo; v.hi = hi; v.st = st; normst(v); return v;
}
static inline Val mkIntTop(int w) { return mkInt(w, wmin(w), wmax(w), 1); }
static inline Val mkFlt(int w, double lo, double hi, bool nan = false) {
  Val v; v.k = K_FLT; v.w = w; v.flo = lo; v.fhi = hi; v.nan = nan; return v;
}
static inline Val mkFltTop(int w) { return mkFlt(w, -INFINITY, INFINITY, true); }
static inline Val mkPtr(int obj, i64 lo, i64 hi, i64 st = 1) {
  Val v; v.k = K_PTR; v.w = 64; v.obj = obj; v.lo = lo; v.hi = hi; v.st = st; normst(v); return v;
}
static inline Val mkNull() { Val v; v.k = K_PTR; v.w = 64; v.obj = -1; v.nul = true; return v; }
static inline bool isConstInt(const Val &v) { return v.k == K_INT && v.lo == v.hi; }

// further pointer targets, interned
struct Target { int obj; i64 lo, hi, st; 
  bool operator<(const Target &o) const { return std::tie(obj,lo,hi,st) < std::tie(o.obj,o.lo,o.hi,o.st); }
  bool operator==(const Target &o) const { return obj==o.obj&&lo==o.lo&&hi==o.hi&&st==o.st; } };
extern std::vector<std::vector<Target>> g_more;
int internMore(const std::vector<Target> &t);
extern std::vector<std::pair<i64, i64>> g_sub;
int internSub(i64 lo, i64 hi);

static inline bool sameVal(const Val &a, const Val &b) {
  if (a.k != b.k || a.undef != b.undef || a.sym != b.sym || a.symc != b.symc || a.bv != b.bv) return false;
  switch (a.k) {
  case K_NONE: return true;
  case K_INT: return a.w == b.w && a.lo == b.lo && a.hi == b.hi && a.st == b.st;
  case K_FLT: return a.w == b.w && a.nan == b.nan && memcmp(&a.flo, &b.flo, 8) == 0 && memcmp(&a.fhi, &b.fhi, 8) == 0;
  case K_PTR: return a.nul == b.nul && a.sub == b.sub && a.obj == b.obj && a.more == b.more && (a.obj < 0 || (a.lo == b.lo && a.hi == b.hi && a.st == b.st));
  }
  return false;
}
