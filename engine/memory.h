// Memory model: objects are split in 64-byte copy-on-write chunks of cells.
#pragma once
#include "absint.h"

template <class T> struct Ref {
  T *p = nullptr;
  Ref() {}
  explicit Ref(T *q) : p(q) { if (p) p->rc++; }
  Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; if (p && --p->rc == 0) delete p; p = o.p; return *this; }
  Ref &operator=(Ref &&o) noexcept { if (this != &o) { if (p && --p->rc == 0) delete p; p = o.p; o.p = nullptr; } return *this; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  explicit operator bool() const { return p; }
  T *own() { if (p->rc > 1) { T *q = new T(*p); q->rc = 1; p->rc--; p = q; } return p; }
};

enum Fill : uint8_t { F_UNDEF, F_ZERO, F_ANY };
static const int CH = 64;

struct Cell { uint8_t off, sz; Val v; };
extern u64 g_ver;
extern bool g_widenHard, g_widenInts, g_widenHardInts;
struct Chunk {
  int rc = 0; Fill fill; u64 ver; // changes with the content
  std::vector<Cell> cells;   // sorted by offset, not overlapping
  Chunk(Fill f) : fill(f), ver(++g_ver) {}
  Chunk(const Chunk &o) : rc(0), fill(o.fill), ver(o.ver), cells(o.cells) {}
};
struct Obj {
  int rc = 0;
  i64 size = 0;          // (lowest possible) size
  i64 maxsize = 0;
  int sizeSym = -1;
  Fill fill = F_UNDEF;
  bool readonly = false; // a write is a violation
  bool frozen = false;   // ditto, for "no side effect" obligations
  bool keep = false;     // partition on its constant integers (see ai_partition)
  bool rel = false;      // attach relational symbols to loaded values
  std::vector<Ref<Chunk>> ch;
  Obj() {}
  Obj(const Obj &o) : rc(0), size(o.size), maxsize(o.maxsize), sizeSym(o.sizeSym), fill(o.fill), readonly(o.readonly), frozen(o.frozen), rel(o.rel), keep(o.keep), ch(o.ch) {}
};

struct Ty { Kind k; int w; int sz; };

extern void (*g_settle)(int side, Val &v); // tightens a value by the relations of its state, while joining states
extern i64 (*g_sizeOf)(int obj); // size of an object, a threshold of the widening of pointers
Val joinVal(const Val &a, const Val &b);
Val widenVal(const Val &a, const Val &b);
Val convertVal(const Val &v, Ty t);
Val topOf(Ty t, bool undef);

Ref<Obj> newObj(i64 size, Fill f);
Val objLoad(const Obj &o, i64 off, Ty t);
void objStore(Ref<Obj> &o, i64 off, int sz, const Val &v);
void objFill(Ref<Obj> &o, i64 off, i64 len, Fill f);
struct Piece { i64 off; i64 len; bool isCell; Fill fill; Val v; };
void objPieces(const Obj &o, i64 off, i64 len, std::vector<Piece> &out);
Ref<Obj> joinObj(const Ref<Obj> &a, const Ref<Obj> &b, bool widen);
bool sameDefinedness(const Obj &a, const Obj &b);
bool leqObj(const Obj &a, const Obj &b);   // a included in b
bool leqVal(const Val &a, const Val &b);
