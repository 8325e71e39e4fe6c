// Abstract interpreter over LLVM IR (see absint.h, memory.h).
#include "memory.h"
#include <llvm-c/Core.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/DebugInfo.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <tuple>
#include <deque>

using std::string; using std::vector; using std::map; using std::set; using std::pair;

// ---------------------------------------------------------------- options
static long OPT_unroll = 30000; static long OPT_undecided = 0;
static int OPT_cap = 100;
static bool OPT_relall = false;
static bool OPT_trace = false;
static bool OPT_narrowloops = true;
static int OPT_delay = 2, OPT_delayInt = 12;
static double OPT_timeout = 600;
static set<string> OPT_off;       // alarm kinds that are not reported

// ---------------------------------------------------------------- program
struct Opd { int slot; };        // >=0 SSA slot, <0 constant -1-slot
struct GepIdx { i64 scale; Opd o; i64 limit; };
struct Inst {
  LLVMOpcode op; int dst = -1; Ty ty{K_NONE, 0, 0};
  vector<Opd> ops; int pred = 0; bool nsw = false, nuw = false;
  i64 cst = 0; vector<GepIdx> gep; vector<int> blocks; vector<i64> cases;
  int line = 0, col = 0; string callee; int calleeFn = -1; int slotObj = -1; Ty opty{K_NONE,0,0};
  vector<i64> lims; LLVMValueRef v = nullptr; int id = 0; bool isFast = false, compared = false; /* store of a value that is also compared */ int aggk = -1; int subn = -1; i64 subc = 0, subsz = 0; /* array designated: entries of gep and offset before it, its size */
};
struct Block { vector<Inst> phis, insts; vector<int> succs, preds; int loop = -1; string name; vector<int> next; /* x + c of the operands of the comparison that ends the block */ };
struct Loop { int header; int parent = -1; vector<char> in; bool history = false; int line = 0; vector<int> order; };
struct Fn {
  string name, file; bool defined = false; vector<Block> bl; int nslots = 0; int nparams = 0; vector<Ty> pty;
  vector<Loop> loops; vector<int> rpo; vector<int> rpoIdx; int nobj = 0; vector<pair<int,int>> def; // slot -> (block, idx)
  vector<vector<int>> dead, dead2; /* slots dead at the entry of each block */ int index; LLVMValueRef v; Ty ret{K_NONE,0,0}; int line = 0;
};
static vector<Fn> FNS; static map<string, int> FNIDX; static map<LLVMValueRef, int> FNREF;
static vector<Val> CONSTS; static vector<Ref<Obj>> GOBJ; static vector<string> GNAME; static vector<char> GCONST;
static map<LLVMValueRef, int> GREF; static const int FBASE = 1 << 28;
static LLVMTargetDataRef TD; static int NG = 0;
static map<string, string> CONTRACT;

static Ty tyOf(LLVMTypeRef t) {
  switch (LLVMGetTypeKind(t)) {
  case LLVMIntegerTypeKind: { int w = LLVMGetIntTypeWidth(t); return {K_INT, w, (w + 7) / 8}; }
  case LLVMFloatTypeKind: return {K_FLT, 32, 4};
  case LLVMDoubleTypeKind: return {K_FLT, 64, 8};
  case LLVMPointerTypeKind: return {K_PTR, 64, 8};
  case LLVMX86_FP80TypeKind: return {K_FLT, 64, 16};
  default: return {K_NONE, 0, 0};
  }
}
static Val constVal(LLVMValueRef v);
static Val gepConst(LLVMValueRef v) {
  Val b = constVal(LLVMGetOperand(v, 0)); i64 off = 0; LLVMTypeRef t = LLVMGetGEPSourceElementType(v);
  int n = LLVMGetNumOperands(v);
  for (int i = 1; i < n; i++) {
    LLVMValueRef o = LLVMGetOperand(v, i); i64 k = LLVMIsAConstantInt(o) ? LLVMConstIntGetSExtValue(o) : 0;
    if (i == 1) off += k * (i64)LLVMABISizeOfType(TD, t);
    else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { off += LLVMOffsetOfElement(TD, t, (unsigned)k); t = LLVMStructGetTypeAtIndex(t, (unsigned)k); }
    else { t = LLVMGetElementType(t); off += k * (i64)LLVMABISizeOfType(TD, t); }
  }
  if (b.obj >= 0) { b.lo += off; b.hi += off; }
  return b;
}
static Val constVal(LLVMValueRef v) {
  Ty t = tyOf(LLVMTypeOf(v));
  if (LLVMIsAConstantInt(v)) {
    if (t.w > 64) return mkIntTop(64);
    i64 x = LLVMConstIntGetSExtValue(v); if (t.w == 1) x &= 1; return mkInt(t.w, x, x); }
  if (LLVMIsAConstantFP(v)) { LLVMBool lost; double d = LLVMConstRealGetDouble(v, &lost); return std::isnan(d) ? mkFltTop(t.w) : mkFlt(t.w, d, d); }
  if (LLVMIsAConstantPointerNull(v)) return mkNull();
  if (LLVMIsUndef(v) || LLVMIsPoison(v)) return topOf(t, true);
  if (LLVMIsAGlobalVariable(v)) { auto it = GREF.find(v); if (it != GREF.end()) return mkPtr(it->second, 0, 0); }
  if (LLVMIsAFunction(v)) { auto it = FNREF.find(v); if (it != FNREF.end()) return mkPtr(FBASE + it->second, 0, 0); }
  if (LLVMIsAConstantExpr(v)) {
    switch (LLVMGetConstOpcode(v)) {
    case LLVMGetElementPtr: return gepConst(v);
    case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMAddrSpaceCast: return constVal(LLVMGetOperand(v, 0));
    case LLVMTrunc: return convertVal(constVal(LLVMGetOperand(v, 0)), t);
    case LLVMSub: { Val a = constVal(LLVMGetOperand(v,0)), b = constVal(LLVMGetOperand(v,1));
        if (a.k == K_PTR && b.k == K_PTR && a.obj == b.obj) return mkInt(64, a.lo - b.lo, a.lo - b.lo); return mkIntTop(t.w); }
    default: break;
    }
  }
  if (LLVMIsNull(v)) { if (t.k == K_INT) return mkInt(t.w, 0, 0); if (t.k == K_FLT) return mkFlt(t.w, 0, 0); }
  return topOf(t, false);
}
static void initGlobal(Ref<Obj> &o, i64 off, LLVMValueRef v) {
  LLVMTypeRef t = LLVMTypeOf(v); LLVMTypeKind k = LLVMGetTypeKind(t);
  if (LLVMIsNull(v) || LLVMIsAConstantAggregateZero(v)) return;  // zero filled already
  if (k == LLVMStructTypeKind) {
    unsigned n = LLVMCountStructElementTypes(t);
    for (unsigned i = 0; i < n; i++) initGlobal(o, off + LLVMOffsetOfElement(TD, t, i), LLVMGetAggregateElement(v, i));
  } else if (k == LLVMArrayTypeKind) {
    u64 n = LLVMGetArrayLength2(t); i64 es = LLVMABISizeOfType(TD, LLVMGetElementType(t));
    for (u64 i = 0; i < n; i++) initGlobal(o, off + (i64)i * es, LLVMGetAggregateElement(v, (unsigned)i));
  } else { Val x = constVal(v); objStore(o, off, (int)LLVMABISizeOfType(TD, t), x); }
}

static string baseName(const string &s) { // strip ".123" added by the linker
  size_t p = s.rfind('.'); if (p == string::npos || p + 1 >= s.size()) return s;
  for (size_t i = p + 1; i < s.size(); i++) if (!isdigit(s[i])) return s;
  return s.substr(0, p);
}

static void findLoops(Fn &f) {
  int n = (int)f.bl.size();
  vector<int> post; vector<char> st(n, 0);
  { vector<pair<int,size_t>> stk; stk.push_back({0, 0}); st[0] = 1;
    while (!stk.empty()) { auto &t = stk.back(); if (t.second < f.bl[t.first].succs.size()) { int s = f.bl[t.first].succs[t.second++]; if (!st[s]) { st[s] = 1; stk.push_back({s, 0}); } } else { post.push_back(t.first); stk.pop_back(); } } }
  f.rpo.assign(post.rbegin(), post.rend()); f.rpoIdx.assign(n, -1);
  for (size_t i = 0; i < f.rpo.size(); i++) f.rpoIdx[f.rpo[i]] = (int)i;
  vector<int> idom(n, -1); idom[0] = 0; bool ch = true;
  while (ch) { ch = false; for (int b : f.rpo) { if (b == 0) continue; int d = -1; for (int p : f.bl[b].preds) { if (f.rpoIdx[p] < 0 || idom[p] < 0) continue; if (d < 0) d = p; else { int x = p, y = d; while (x != y) { while (f.rpoIdx[x] > f.rpoIdx[y]) x = idom[x]; while (f.rpoIdx[y] > f.rpoIdx[x]) y = idom[y]; } d = x; } } if (d != idom[b]) { idom[b] = d; ch = true; } } }
  auto dominates = [&](int a, int b) { while (true) { if (a == b) return true; if (b == 0) return false; b = idom[b]; } };
  map<int, int> hdr;
  for (int b : f.rpo) for (int s : f.bl[b].succs) if (dominates(s, b)) {
    int li; auto it = hdr.find(s);
    if (it == hdr.end()) { li = (int)f.loops.size(); hdr[s] = li; Loop l; l.header = s; l.in.assign(n, 0); l.in[s] = 1; f.loops.push_back(l); } else li = it->second;
    vector<int> wk{b};
    while (!wk.empty()) { int x = wk.back(); wk.pop_back(); if (f.loops[li].in[x]) continue; f.loops[li].in[x] = 1; for (int p : f.bl[x].preds) if (f.rpoIdx[p] >= 0) wk.push_back(p); }
  }
  auto sz = [&](int l) { int c = 0; for (char x : f.loops[l].in) c += x; return c; };
  for (size_t l = 0; l < f.loops.size(); l++) {
    int best = -1; for (size_t m = 0; m < f.loops.size(); m++) if (m != l && f.loops[m].in[f.loops[l].header] && f.loops[m].header != f.loops[l].header) if (best < 0 || sz((int)m) < sz(best)) best = (int)m;
    f.loops[l].parent = best;
    for (auto &i : f.bl[f.loops[l].header].insts) if (i.callee == "ai_history") f.loops[l].history = true;
    for (auto &i : f.bl[f.loops[l].header].insts) if (i.line) { f.loops[l].line = i.line; break; }
  }
  for (int b = 0; b < n; b++) { int best = -1; for (size_t m = 0; m < f.loops.size(); m++) if (f.loops[m].in[b]) if (best < 0 || sz((int)m) < sz(best)) best = (int)m; f.bl[b].loop = best; }
  for (auto &l : f.loops) for (int b : f.rpo) if (l.in[b]) l.order.push_back(b);
}

// slots that cannot influence the execution from the entry of a block; the
// operands that a condition on a live value may refine are kept as well
static void findDead(Fn &f, bool phis, vector<vector<int>> &dead) {
  int n = (int)f.bl.size(), m = f.nslots; vector<vector<char>> in(n, vector<char>(m, 0)), gen = in, kill = in;
  vector<vector<int>> clo(m); 
  std::function<void(int,int,set<int>&)> close = [&](int x, int depth, set<int> &r) { if (!r.insert(x).second && depth) return; if (depth > 8) return; auto d = f.def[x]; if (d.first < 0) return; if (d.second < 0) { if (!phis) return; const Block &B = f.bl[d.first]; if (B.loop >= 0 && f.loops[B.loop].header == d.first) return; for (auto &p : B.phis) if (p.dst == x) for (auto &o : p.ops) if (o.slot >= 0) close(o.slot, depth + 1, r); return; } const Inst &I = f.bl[d.first].insts[d.second]; if (I.op == LLVMCall) return; for (auto &o : I.ops) if (o.slot >= 0) close(o.slot, depth + 1, r); for (auto &g : I.gep) if (g.o.slot >= 0) close(g.o.slot, depth + 1, r); };
  for (int x = 0; x < m; x++) { set<int> r; close(x, 0, r); clo[x].assign(r.begin(), r.end()); }
  for (int b = 0; b < n; b++) { Block &B = f.bl[b];
    for (auto &I : B.insts) { for (auto &o : I.ops) if (o.slot >= 0) for (int y : clo[o.slot]) if (!kill[b][y]) gen[b][y] = 1; for (auto &g : I.gep) if (g.o.slot >= 0) for (int y : clo[g.o.slot]) if (!kill[b][y]) gen[b][y] = 1; if (I.dst >= 0) kill[b][I.dst] = 1; } }
  bool ch = true;
  while (ch) { ch = false; for (size_t k = f.rpo.size(); k-- > 0;) { int b = f.rpo[k]; vector<char> out(m, 0);
      for (int t : f.bl[b].succs) { vector<char> w = in[t]; for (auto &p : f.bl[t].phis) w[p.dst] = 0; for (auto &p : f.bl[t].phis) for (size_t i = 0; i < p.blocks.size(); i++) if (p.blocks[i] == b && p.ops[i].slot >= 0) w[p.ops[i].slot] = 1; for (int x = 0; x < m; x++) out[x] |= w[x]; }
      for (int x = 0; x < m; x++) { char v = gen[b][x] | (out[x] & !kill[b][x]); if (v && !in[b][x]) { in[b][x] = 1; ch = true; } } } }
  dead.resize(n); for (int b = 0; b < n; b++) for (int x = 0; x < m; x++) if (!in[b][x]) dead[b].push_back(x);
}

static int g_instId = 0;
static void buildFn(Fn &f) {
  LLVMValueRef F = f.v; map<LLVMValueRef, int> slot; map<LLVMBasicBlockRef, int> bidx; map<LLVMValueRef, int> cidx;
  f.nparams = LLVMCountParams(F);
  for (int i = 0; i < f.nparams; i++) { LLVMValueRef p = LLVMGetParam(F, i); slot[p] = f.nslots++; f.pty.push_back(tyOf(LLVMTypeOf(p))); f.def.push_back({-1, -1}); }
  f.ret = tyOf(LLVMGetReturnType(LLVMGlobalGetValueType(F)));
  if (LLVMCountBasicBlocks(F) == 0) return;
  f.defined = true;
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(F); b; b = LLVMGetNextBasicBlock(b)) { int k = (int)bidx.size(); bidx[b] = k; for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) if (LLVMGetTypeKind(LLVMTypeOf(i)) != LLVMVoidTypeKind) { slot[i] = f.nslots++; f.def.push_back({-1, -1}); } }
  f.bl.resize(bidx.size());
  auto opd = [&](LLVMValueRef v) -> Opd { auto it = slot.find(v); if (it != slot.end()) return {it->second}; auto c = cidx.find(v); if (c != cidx.end()) return {c->second}; CONSTS.push_back(constVal(v)); int r = -(int)CONSTS.size(); cidx[v] = r; return {r}; };
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(F); b; b = LLVMGetNextBasicBlock(b)) {
    int bi = bidx[b]; Block &B = f.bl[bi]; B.name = LLVMGetBasicBlockName(b);
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
      Inst I; I.op = LLVMGetInstructionOpcode(i); I.v = i; I.id = g_instId++; I.ty = tyOf(LLVMTypeOf(i));
      auto s = slot.find(i); if (s != slot.end()) I.dst = s->second;
      I.line = LLVMGetDebugLocLine(i); I.col = LLVMGetDebugLocColumn(i);
      switch (I.op) {
      case LLVMPHI: { unsigned n = LLVMCountIncoming(i); for (unsigned k = 0; k < n; k++) { I.ops.push_back(opd(LLVMGetIncomingValue(i, k))); I.blocks.push_back(bidx[LLVMGetIncomingBlock(i, k)]); } break; }
      case LLVMCall: {
        int n = LLVMGetNumArgOperands(i); for (int k = 0; k < n; k++) { LLVMValueRef a = LLVMGetOperand(i, k); if (LLVMGetTypeKind(LLVMTypeOf(a)) == LLVMMetadataTypeKind) { I.ops.clear(); break; } I.ops.push_back(opd(a)); }
        LLVMValueRef c = LLVMGetCalledValue(i);
        if (LLVMIsAFunction(c)) { size_t l; I.callee = LLVMGetValueName2(c, &l); I.calleeFn = FNREF[c]; }
        else { if (LLVMIsAInlineAsm(c)) I.callee = "<asm>"; else I.ops.push_back(opd(c)); }
        if (I.callee.rfind("llvm.dbg", 0) == 0 || I.callee.rfind("llvm.lifetime", 0) == 0 || I.callee.rfind("llvm.assume", 0) == 0 || I.callee == "llvm.donothing" || I.callee.rfind("llvm.experimental.noalias", 0) == 0) continue;
        if (I.callee == "ai_object" || I.callee == "ai_bytes") I.slotObj = f.nobj++;
        break; }
      case LLVMGetElementPtr: {
        I.ops.push_back(opd(LLVMGetOperand(i, 0))); LLVMTypeRef t = LLVMGetGEPSourceElementType(i); int n = LLVMGetNumOperands(i);
        auto sub = [&]() { if (LLVMGetTypeKind(t) == LLVMArrayTypeKind && LLVMGetArrayLength2(t) > 1) { I.subn = I.gep.size(); I.subc = I.cst; I.subsz = LLVMABISizeOfType(TD, t); } };
        for (int k = 1; k < n; k++) {
          LLVMValueRef o = LLVMGetOperand(i, k); i64 lim = -1; i64 sc;
          if (k > 1) sub();
          if (k == 1) sc = LLVMABISizeOfType(TD, t);
          else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { unsigned x = (unsigned)LLVMConstIntGetZExtValue(o); I.cst += LLVMOffsetOfElement(TD, t, x); t = LLVMStructGetTypeAtIndex(t, x); continue; }
          else { lim = (i64)LLVMGetArrayLength2(t); t = LLVMGetElementType(t); sc = LLVMABISizeOfType(TD, t); }
          if (LLVMIsAConstantInt(o)) { i64 c = LLVMConstIntGetSExtValue(o); I.cst += sc * c; if (lim > 1 && (c < 0 || c > lim)) I.gep.push_back({0, opd(o), lim}); }
          else I.gep.push_back({sc, opd(o), lim > 1 ? lim : -1});
        }
        if (n > 1) sub();
        break; }
      case LLVMAlloca: { I.slotObj = f.nobj++; I.cst = LLVMABISizeOfType(TD, LLVMGetAllocatedType(i)); I.ops.push_back(opd(LLVMGetOperand(i, 0))); break; }
      case LLVMBr: { unsigned n = LLVMGetNumSuccessors(i); for (unsigned k = 0; k < n; k++) I.blocks.push_back(bidx[LLVMGetSuccessor(i, k)]); if (LLVMIsConditional(i)) I.ops.push_back(opd(LLVMGetCondition(i))); break; }
      case LLVMSwitch: { unsigned n = LLVMGetNumSuccessors(i); I.ops.push_back(opd(LLVMGetOperand(i, 0))); I.blocks.push_back(bidx[LLVMGetSwitchDefaultDest(i)]); for (unsigned k = 1; k < n; k++) { I.cases.push_back(LLVMConstIntGetSExtValue(LLVMGetOperand(i, 2 * k))); I.blocks.push_back(bidx[LLVMGetSuccessor(i, k)]); } break; }
      default: { int n = LLVMGetNumOperands(i); for (int k = 0; k < n; k++) I.ops.push_back(opd(LLVMGetOperand(i, k))); }
      }
      if (I.op == LLVMICmp) { I.pred = LLVMGetICmpPredicate(i); I.opty = tyOf(LLVMTypeOf(LLVMGetOperand(i, 0))); }
      if (I.op == LLVMFCmp) I.pred = LLVMGetFCmpPredicate(i);
      if (I.op == LLVMStore) { LLVMValueRef sv = LLVMGetOperand(i, 0); I.opty = tyOf(LLVMTypeOf(sv)); if (!LLVMIsConstant(sv)) for (LLVMUseRef u = LLVMGetFirstUse(sv); u; u = LLVMGetNextUse(u)) if (LLVMIsAICmpInst(LLVMGetUser(u)) || LLVMIsASwitchInst(LLVMGetUser(u))) I.compared = true; }
      if (I.op == LLVMAdd || I.op == LLVMSub || I.op == LLVMMul || I.op == LLVMShl) { I.nsw = LLVMGetNSW(i); I.nuw = LLVMGetNUW(i); }
      for (auto &o : I.ops) (void)o;
      if (!I.ops.empty() && (I.op == LLVMSExt || I.op == LLVMZExt || I.op == LLVMTrunc || I.op == LLVMFPToSI || I.op == LLVMFPToUI || I.op == LLVMSIToFP || I.op == LLVMUIToFP || I.op == LLVMFPExt || I.op == LLVMFPTrunc || I.op == LLVMBitCast)) I.opty = tyOf(LLVMTypeOf(LLVMGetOperand(i, 0)));
      if (I.op == LLVMPHI) { B.phis.push_back(I); if (I.dst >= 0) f.def[I.dst] = {bi, -1}; }
      else { if (I.dst >= 0) f.def[I.dst] = {bi, (int)B.insts.size()}; B.insts.push_back(I); }
    }
    auto &T = B.insts.back();
    if (T.op == LLVMBr && T.ops.size() == 1 && T.ops[0].slot >= 0) for (auto &C : B.insts) if (C.op == LLVMICmp && C.dst == T.ops[0].slot)
      for (size_t j = 0; j < B.insts.size(); j++) { auto &J = B.insts[j]; bool lin = J.op == LLVMGetElementPtr ? J.gep.empty() : (J.op == LLVMAdd || J.op == LLVMSub) && J.ops[1].slot < 0; if (lin && J.dst >= 0 && J.ops[0].slot >= 0 && (J.ops[0].slot == C.ops[0].slot || J.ops[0].slot == C.ops[1].slot)) B.next.push_back((int)j); }
    if (T.op == LLVMBr || T.op == LLVMSwitch) { for (int s2 : T.blocks) if (std::find(B.succs.begin(), B.succs.end(), s2) == B.succs.end()) B.succs.push_back(s2); }
  }
  for (size_t b = 0; b < f.bl.size(); b++) for (int s2 : f.bl[b].succs) f.bl[s2].preds.push_back((int)b);
  findLoops(f); findDead(f, false, f.dead); findDead(f, true, f.dead2);
}

// ---------------------------------------------------------------- state
struct Rel {
  int rc = 0; map<int, pair<i64,i64>> itv; map<pair<int,int>, i64> d; map<int, std::tuple<int,int,i64>> def; // sym = a - b + k
  Rel() {} Rel(const Rel &o) : rc(0), itv(o.itv), d(o.d), def(o.def) {}
};
// Marks of the states kept apart until the end of an iteration of a loop, or of a call
struct Tok { int depth, loop; u64 id; bool operator==(const Tok &o) const { return depth == o.depth && loop == o.loop && id == o.id; } };
struct State { vector<Tok> tok; vector<Val> env; vector<Ref<Obj>> mem; Ref<Rel> rel; Val ret; u64 part = 0, key = 0; uint8_t region = 0; vector<pair<int,int>> alias; /* values of phis, in a region */ };
static int g_sym = 1; static const int ZEROSYM = 0;

struct Alarm { string kind, fn, file, msg, stack; int line; long count; set<string> cfg; };
static map<std::tuple<string,string,int,string>, Alarm> ALARMS;
static set<pair<int,string>> SITES; static map<string, long> CHECKS; static set<string> FNSEEN; static long STEPS = 0;
static vector<pair<const Fn*, int>> STACK; static string CFG; static set<std::tuple<string,int>> WIDENED; static long MAXITER = 0; static size_t MAXDEPTH = 0;
static set<string> EXTERNS; static map<string,long> PROF; static bool OPT_profile = false;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double T0, TALARM = 0; static double OPT_grace = 1e9;

static i64 OPT_forkload = 0; static bool COUNTERS = false; static State *CURS; static void dumpVal(const Val &v, FILE *o); static bool OPT_dump = false;
static void alarm_(const Inst &I, const string &kind, const string &msg) {
  if (OPT_off.count(kind)) return;
  const Fn *f = STACK.back().first; string st;
  for (size_t i = STACK.size(); i-- > 0;) { if (!st.empty()) st += " < "; st += STACK[i].first->name + ":" + std::to_string(i + 1 == STACK.size() ? I.line : STACK[i].second); }
  auto key = std::make_tuple(kind, baseName(f->name), I.line, kind == "assert" ? msg : "");
  auto it = ALARMS.find(key);
  if (ALARMS.empty()) TALARM = now();
  if (it == ALARMS.end() && OPT_dump && CURS) { const Fn &F = *f; fprintf(stderr, "== %s %s %s\n", kind.c_str(), st.c_str(), msg.c_str()); for (auto &B : F.bl) { for (auto *v : {&B.phis, &B.insts}) for (auto &J : *v) if (J.dst >= 0 && CURS->env.size() > (size_t)J.dst && CURS->env[J.dst].k) { char *t = LLVMPrintValueToString(J.v); fprintf(stderr, "   %.90s   => ", t); dumpVal(CURS->env[J.dst], stderr); fputc('\n', stderr); } } }
  if (it == ALARMS.end()) { ALARMS[key] = {kind, baseName(f->name), f->file, msg, st, I.line, 1, {CFG}}; }
  else { it->second.count++; it->second.cfg.insert(CFG); }
}
static void check(const Inst &I, const char *kind) { CHECKS[kind]++; SITES.insert({I.id, kind}); }

static void relIns(State &s, int a, int b, i64 c);
static bool relTighten(State &s, int id, i64 lo, i64 hi) { // false when infeasible
  auto it = s.rel->itv.find(id); if (it == s.rel->itv.end()) return true;
  i64 l = std::max(it->second.first, lo), h = std::min(it->second.second, hi);
  if (l > h) return false;
  if (l == it->second.first && h == it->second.second) return true;
  Rel *r = s.rel.own(); r->itv[id] = {l, h};
  for (auto &kv : r->d) { // a - b <= c
    int a = kv.first.first, b = kv.first.second; i64 c = kv.second;
    if (b == id && h < PINF / 2) { if (!relTighten(s, a, NINF, h + c)) return false; r = s.rel.own(); }
    if (a == id && l > NINF / 2) { if (!relTighten(s, b, l - c, PINF)) return false; r = s.rel.own(); }
  }
  auto d = s.rel->def.find(id);
  if (d != s.rel->def.end()) { int a = std::get<0>(d->second), b = std::get<1>(d->second); i64 k = std::get<2>(d->second); // id = a - b + k
    if (h < PINF / 2) relIns(s, a, b, h - k); if (l > NINF / 2) relIns(s, b, a, k - l); }
  // intervals of the operands of the differences just bounded
  if (d != s.rel->def.end()) {
    int a = std::get<0>(d->second), b = std::get<1>(d->second);
    auto ia = s.rel->itv[a], ib = s.rel->itv[b];
    auto t1 = s.rel->d.find({a, b}); if (t1 != s.rel->d.end()) { if (ib.second < PINF/2 && !relTighten(s, a, NINF, ib.second + t1->second)) return false; if (ia.first > NINF/2 && !relTighten(s, b, ia.first - t1->second, PINF)) return false; }
    auto t2 = s.rel->d.find({b, a}); if (t2 != s.rel->d.end()) { if (ia.second < PINF/2 && !relTighten(s, b, NINF, ia.second + t2->second)) return false; if (ib.first > NINF/2 && !relTighten(s, a, ib.first - t2->second, PINF)) return false; }
  }
  return true;
}
static void relIns(State &s, int a, int b, i64 c) {
  if (a == b) return;
  auto it = s.rel->d.find({a, b}); if (it != s.rel->d.end() && it->second <= c) return;
  Rel *r = s.rel.own(); r->d[{a, b}] = c;
  vector<pair<pair<int,int>, i64>> add;
  for (auto &kv : r->d) { if (kv.first.first == b && kv.first.second != a) add.push_back({{a, kv.first.second}, c + kv.second}); if (kv.first.second == a && kv.first.first != b) add.push_back({{kv.first.first, b}, kv.second + c}); }
  for (auto &x : add) { auto j = r->d.find(x.first); if (j == r->d.end() || j->second > x.second) r->d[x.first] = x.second; }
}
static bool relAdd(State &s, int a, int b, i64 c) { // Sa - Sb <= c
  if (!s.rel) return true;
  if (a == b) return c >= 0;
  auto inv = s.rel->d.find({b, a}); if (inv != s.rel->d.end() && inv->second + c < 0) return false;
  relIns(s, a, b, c);
  auto ia = s.rel->itv.find(a), ib = s.rel->itv.find(b);
  if (ia == s.rel->itv.end() || ib == s.rel->itv.end()) return true;
  auto va = ia->second, vb = ib->second;
  if (vb.second < PINF / 2 && !relTighten(s, a, NINF, vb.second + c)) return false;
  if (va.first > NINF / 2 && !relTighten(s, b, va.first - c, PINF)) return false;
  // differences that are symbols themselves
  vector<int> ids; for (auto &kv : s.rel->def) ids.push_back(kv.first);
  for (int id : ids) { auto t = s.rel->def[id]; int x = std::get<0>(t), y = std::get<1>(t); i64 k = std::get<2>(t);
    auto p = s.rel->d.find({x, y}); if (p != s.rel->d.end() && !relTighten(s, id, NINF, p->second + k)) return false;
    auto q = s.rel->d.find({y, x}); if (q != s.rel->d.end() && !relTighten(s, id, k - q->second, PINF)) return false; }
  return true;
}
static i64 relBound(State &s, int a, int b) { // best c with Sa - Sb <= c
  if (a == b) return 0;
  i64 r = PINF; if (!s.rel) return r;
  auto it = s.rel->d.find({a, b}); if (it != s.rel->d.end()) r = it->second;
  auto x = s.rel->itv.find(a), y = s.rel->itv.find(b);
  if (x != s.rel->itv.end() && y != s.rel->itv.end() && x->second.second < PINF / 2 && y->second.first > NINF / 2) r = std::min(r, x->second.second - y->second.first);
  return r;
}
static int newSym(State &s, i64 lo, i64 hi) { if (!s.rel) s.rel = Ref<Rel>(new Rel()); int id = g_sym++; s.rel.own()->itv[id] = {lo, hi}; return id; }
static void effective(State &s, Val &v) {
  if (v.sym < 0 || !s.rel) return;
  auto it = s.rel->itv.find(v.sym); if (it == s.rel->itv.end()) { v.sym = -1; return; }
  i64 l = it->second.first > NINF / 2 ? it->second.first + v.symc : NINF, h = it->second.second < PINF / 2 ? it->second.second + v.symc : PINF;
  if (l > v.lo) { v.lo = v.st > 1 ? v.lo + (i64)(((u64)(l - v.lo) + v.st - 1) / v.st * v.st) : l; } if (h < v.hi) v.hi = h;
  if (v.lo > v.hi) v.hi = v.lo; normst(v);
}
static Ref<Rel> joinRel(const Ref<Rel> &a, const Ref<Rel> &b) {
  if (a.p == b.p) return a; if (!a || !b) return Ref<Rel>();
  Ref<Rel> r(new Rel());
  for (auto &kv : a->itv) { auto it = b->itv.find(kv.first); if (it != b->itv.end()) r->itv[kv.first] = {std::min(kv.second.first, it->second.first), std::max(kv.second.second, it->second.second)}; }
  auto bound = [](const Rel &R, int x, int y) { auto it = R.d.find({x, y}); i64 c = PINF; if (it != R.d.end()) c = it->second; auto i = R.itv.find(x), j = R.itv.find(y); if (i != R.itv.end() && j != R.itv.end() && i->second.second < PINF/2 && j->second.first > NINF/2) c = std::min(c, i->second.second - j->second.first); return c; };
  for (auto &kv : a->d) if (r->itv.count(kv.first.first) && r->itv.count(kv.first.second)) { i64 c = std::max(kv.second, bound(*b, kv.first.first, kv.first.second)); if (c < PINF / 2) r->d[kv.first] = c; }
  for (auto &kv : b->d) if (!a->d.count(kv.first) && r->itv.count(kv.first.first) && r->itv.count(kv.first.second)) { i64 c = std::max(kv.second, bound(*a, kv.first.first, kv.first.second)); if (c < PINF / 2) r->d[kv.first] = c; }
  for (auto &kv : a->def) if (b->def.count(kv.first) && r->itv.count(kv.first)) r->def[kv.first] = kv.second;
  return r;
}

// index of the first cell of a small object that cannot be zero
static int firstNonZero(const Obj &o) {
  if (o.ch.size() != 1 || !o.ch[0]) return -1;
  for (auto &c : o.ch[0]->cells) if (c.v.k == K_INT && !c.v.undef && (c.v.lo > 0 || c.v.hi < 0)) return c.off;
  return -1;
}
// In a partitioned region, the states are kept apart by their constant integers
// and pointers, and those stored in the objects selected by ai_keep()
static u64 regionKey(const State &s) {
  u64 h = 1469598103934665603ULL; auto mix = [&](u64 x) { h = (h ^ x) * 1099511628211ULL; h ^= h >> 29; };
  auto val = [&](u64 i, const Val &v) { if (v.k == K_INT && v.lo == v.hi) { mix(i); mix((u64)v.lo); } else if (v.k == K_PTR && (v.obj < 0 || v.lo == v.hi)) { mix(i); mix((u64)v.obj * 1000003 + (v.obj < 0 ? 0 : (u64)v.lo)); } };
  for (size_t i = 0; i < s.env.size(); i++) { const Val &v = s.env[i]; val(i, v); if (s.region > 1 && v.k == K_INT && v.sym >= 0 && v.lo < v.hi && (u64)v.hi - (u64)v.lo < 8) { mix(i); mix(v.sym); mix(v.lo); mix(v.hi); } }
  for (size_t i = 0; i < s.mem.size(); i++) { if (!s.mem[i]) continue; const Obj &o = *s.mem[i];
    if (o.keep) { for (size_t k = 0; k < o.ch.size(); k++) if (o.ch[k]) for (auto &c : o.ch[k]->cells) if (c.v.k == K_INT) val((i << 20) + k * CH + c.off + 77777, c.v); }
    else if (o.maxsize <= 64) { int z = firstNonZero(o); if (z >= 0) { mix(i + 999); mix(z); } } }
  for (auto &x : s.alias) { mix(x.first + 55555); mix(x.second); }
  val(1, s.ret); return h;
}
static bool mergeable(const State &a, const State &b) {
  if (a.part != b.part || a.tok != b.tok || a.mem.size() != b.mem.size() || a.region != b.region || a.key != b.key || a.alias != b.alias) return false;
  for (size_t i = 0; i < a.mem.size(); i++) { if (a.mem[i].p == b.mem[i].p || !a.mem[i] || !b.mem[i]) continue; if (!sameDefinedness(*a.mem[i], *b.mem[i])) return false; }
  return true;
}
static State *g_side[3];
static void settle(int side, Val &v) { effective(*g_side[side], v); }
static i64 sizeOf(int obj) { if (obj < 0 || obj >= FBASE || obj >= (int)g_side[2]->mem.size() || !g_side[2]->mem[obj]) return -1; return g_side[2]->mem[obj]->size; }
static void joinInto(State &a, const State &b, bool widen) {
  g_side[2] = &a; g_sizeOf = sizeOf;
  State ra, rb; ra.rel = a.rel; rb.rel = b.rel; g_side[0] = &ra; g_side[1] = &rb; g_settle = settle;
  for (size_t i = 0; i < a.env.size(); i++) {
    if (b.env[i].k == K_NONE) continue; if (sameVal(a.env[i], b.env[i])) continue;
    a.env[i] = widen ? widenVal(a.env[i], b.env[i]) : joinVal(a.env[i], b.env[i]);
  }
  for (size_t i = 0; i < a.mem.size() && i < b.mem.size(); i++) a.mem[i] = joinObj(a.mem[i], b.mem[i], widen);
  if (a.ret.k || b.ret.k) a.ret = joinVal(a.ret, b.ret);
  g_settle = nullptr; g_sizeOf = nullptr;
  a.rel = joinRel(a.rel, b.rel);
}
static bool leqState(const State &a, const State &b) {
  if (a.mem.size() != b.mem.size()) return false;
  if (a.rel.p != b.rel.p && b.rel) { // the relations on the common symbols
    if (!a.rel) return false;
    auto live = [&](int id) { return a.rel->itv.count(id); };
    for (auto &kv : b.rel->itv) if (live(kv.first)) { auto &x = a.rel->itv[kv.first]; if (x.first < kv.second.first || x.second > kv.second.second) return false; }
    State t; t.rel = a.rel; for (auto &kv : b.rel->d) if (live(kv.first.first) && live(kv.first.second) && relBound(t, kv.first.first, kv.first.second) > kv.second) return false; }
  State ra, rb; ra.rel = b.rel; rb.rel = a.rel; g_side[0] = &ra; g_side[1] = &rb; g_settle = settle; bool r = true;
  for (size_t i = 0; r && i < a.env.size(); i++) { if (a.env[i].k == K_NONE) continue; if (!leqVal(a.env[i], b.env[i])) r = false; }
  for (size_t i = 0; r && i < a.mem.size(); i++) { if (a.mem[i].p == b.mem[i].p) continue; if (!a.mem[i]) continue; if (!b.mem[i] || !leqObj(*a.mem[i], *b.mem[i])) r = false; }
  g_settle = nullptr; return r;
}
// forget the relational symbols that no value holds
static vector<vector<int>> PINS; // held by the callers
static void gcRel(State &s) {
  if (!s.rel || s.rel->itv.size() <= 12) return;
  set<int> live; for (auto &v : s.env) if (v.sym >= 0) live.insert(v.sym); if (s.ret.sym >= 0) live.insert(s.ret.sym);
  for (auto &o : s.mem) if (o) { if (o->sizeSym >= 0) live.insert(o->sizeSym); for (auto &c : o->ch) if (c) for (auto &x : c->cells) if (x.v.sym >= 0) live.insert(x.v.sym); }
  for (auto &p : PINS) live.insert(p.begin(), p.end());
  set<int> keep = live; for (int id : live) { auto d = s.rel->def.find(id); if (d != s.rel->def.end()) keep.insert(std::get<0>(d->second)), keep.insert(std::get<1>(d->second)); }
  Rel *r = s.rel.own();
  for (auto i = r->itv.begin(); i != r->itv.end();) if (!keep.count(i->first)) i = r->itv.erase(i); else ++i;
  for (auto i = r->def.begin(); i != r->def.end();) if (!live.count(i->first)) i = r->def.erase(i); else ++i;
  for (auto i = r->d.begin(); i != r->d.end();) if (!keep.count(i->first.first) || !keep.count(i->first.second)) i = r->d.erase(i); else ++i;
}
static void pushState(vector<State> &v, State &&s) {
  gcRel(s);
  s.key = s.region ? regionKey(s) : 0;
  for (auto &x : v) if (mergeable(x, s)) { joinInto(x, s, false); return; }
  if ((int)v.size() >= (s.region || s.tok.size() ? 5000 : OPT_cap)) { for (auto &x : v) if (x.part == s.part && x.tok == s.tok) { joinInto(x, s, false); return; } }
  v.push_back(std::move(s));
}

// ---------------------------------------------------------------- evaluation
static Val get(State &s, Opd o) {
  if (o.slot < 0) return CONSTS[-1 - o.slot];
  Val v = s.env[o.slot]; if (v.sym >= 0) effective(s, v); return v;
}
static void setv(State &s, const Inst &I, const Val &v) { if (I.dst >= 0) s.env[I.dst] = v; }
static inline bool fitsS(i128 l, i128 h, int w) { return l >= wmin(w) && h <= wmax(w); }

static Val wrapInt(int w, i128 lo, i128 hi, i64 st) {
  if (fitsS(lo, hi, w)) return mkInt(w, (i64)lo, (i64)hi, st);
  i128 m = (i128)1 << w; if (hi - lo >= m) { Val v = mkIntTop(w); return v; }
  i128 k = lo - wmin(w); i128 q = k >= 0 ? k / m : -((-k + m - 1) / m); lo -= q * m; hi -= q * m;
  if (fitsS(lo, hi, w)) return mkInt(w, (i64)lo, (i64)hi, st);
  // keep a power of two stride
  Val v = mkIntTop(w); return v;
}
static void unsignedView(const Val &v, int w, i128 &lo, i128 &hi) {
  lo = v.lo; hi = v.hi; i128 m = (i128)1 << w;
  if (lo >= 0) return; if (hi < 0) { lo += m; hi += m; return; } lo = 0; hi = m - 1;
}
static Val fromUnsigned(int w, i128 lo, i128 hi, i64 st = 1) { i128 mx = wmax(w); if (w == 1) return mkInt(1, (i64)lo, (i64)hi); if (hi <= mx) return mkInt(w, (i64)lo, (i64)hi, st); i128 m = (i128)1 << w; if (lo > mx) return mkInt(w, (i64)(lo - m), (i64)(hi - m), st); return mkIntTop(w); }
static i128 p2m1(i128 x) { i128 r = 0; while (r < x) r = r * 2 + 1; return r; }

static void overflow(const Inst &I, const char *what, i128 lo, i128 hi) {
  char b[200]; auto cl = [](i128 x) { return x > (i128)9e18 ? 9e18 : x < (i128)-9e18 ? -9e18 : (double)x; };
  snprintf(b, sizeof b, "signed %s may reach [%.0f, %.0f]", what, cl(lo), cl(hi)); alarm_(I, I.ty.w >= 64 ? "overflow64" : "overflow", b);
}
static Val ptrAdd(State &s, const Val &p, const Val &off);

// ---------------------------------------------------------------- provenance of bits
// Each bit of an integer: 0, 1, unknown (-1), or a bit of a value named by ai_bits (2 and more).
// Kept only for the integers that hold such bits.
static vector<vector<int>> BV; static map<vector<int>, int> BVIDX; static int BVSRC = 0;
static vector<int> bitsOf(const Val &v, int w) {
  if (v.bv >= 0 && (int)BV[v.bv].size() == w) return BV[v.bv];
  vector<int> r(w, -1);
  if (v.k != K_INT) return r;
  if (v.lo == v.hi) for (int i = 0; i < w; i++) r[i] = (int)((u64)v.lo >> i & 1);
  else { if (v.lo >= 0) for (int i = w - 1; i >= 0 && (i >= 63 || v.hi < (1LL << i)); i--) r[i] = 0;
    for (int i = 0; i < w && i < 62 && v.st > 1 && v.st % (2LL << i) == 0; i++) r[i] = (int)((u64)v.lo >> i & 1); }
  return r;
}
static void setBits(Val &v, const vector<int> &b) {
  bool src = false; for (int x : b) src |= x >= 2; v.bv = -1;
  if (!src || v.k != K_INT) return;
  auto it = BVIDX.find(b); if (it == BVIDX.end()) { it = BVIDX.emplace(b, (int)BV.size()).first; BV.push_back(b); }
  v.bv = it->second;
  int w = (int)b.size(); if (w < 2 || w > 63 || b[w - 1] != 0 || v.lo == v.hi) return;
  u64 lo = 0, hi = 0; for (int i = 0; i < w; i++) { if (b[i] != 0) hi |= 1ULL << i; if (b[i] == 1) lo |= 1ULL << i; } // tightens the interval
  i64 l = std::max(v.lo, (i64)lo), h = std::min(v.hi, (i64)hi); if (l > h || (l == v.lo && h == v.hi)) return;
  v.lo = l; v.hi = h; v.st = 1; normst(v);
}
static Val intOp0(State &s, const Inst &I, Val a, Val b);
static Val intOp(State &s, const Inst &I, Val a, Val b) {
  Val r = intOp0(s, I, a, b); r.bv = -1;
  if (!BVSRC || (a.bv < 0 && b.bv < 0) || r.k != K_INT || r.lo == r.hi || I.ty.w > 64) return r;
  int w = I.ty.w; vector<int> x = bitsOf(a, w), y = bitsOf(b, w), z(w, -1);
  switch (I.op) {
  case LLVMAnd: for (int i = 0; i < w; i++) z[i] = x[i] == 0 || y[i] == 0 ? 0 : x[i] == 1 ? y[i] : y[i] == 1 || x[i] == y[i] ? x[i] : -1; break;
  case LLVMOr: for (int i = 0; i < w; i++) z[i] = x[i] == 1 || y[i] == 1 ? 1 : x[i] == 0 ? y[i] : y[i] == 0 || x[i] == y[i] ? x[i] : -1; break;
  case LLVMXor: for (int i = 0; i < w; i++) z[i] = x[i] == 0 ? y[i] : y[i] == 0 ? x[i] : x[i] == y[i] && x[i] >= 0 ? 0 : x[i] == 1 && y[i] == 1 ? 0 : -1; break;
  case LLVMSub: if (b.lo != 0 || b.hi != 0) return r; z = x; break;
  case LLVMAdd: for (int i = 0; i < w; i++) { if (x[i] != 0 && y[i] != 0) { for (; i < w; i++) z[i] = -1; break; } z[i] = x[i] == 0 ? y[i] : x[i]; } break;
  case LLVMMul: { const Val &c = b.lo == b.hi ? b : a; const vector<int> &v = b.lo == b.hi ? x : y; if (c.lo != c.hi || c.lo <= 0 || (c.lo & (c.lo - 1))) return r;
      int k = __builtin_ctzll((u64)c.lo); for (int i = 0; i < w; i++) z[i] = i < k ? 0 : v[i - k]; break; }
  case LLVMShl: if (b.lo != b.hi || b.lo < 0 || b.lo >= w) return r; for (int i = 0; i < w; i++) z[i] = i < b.lo ? 0 : x[i - b.lo]; break;
  case LLVMLShr: case LLVMAShr: if (b.lo != b.hi || b.lo < 0 || b.lo >= w) return r;
      for (int i = 0; i < w; i++) z[i] = i + b.lo < w ? x[i + b.lo] : I.op == LLVMLShr ? 0 : x[w - 1]; break;
  case LLVMUDiv: case LLVMURem: { if (b.lo != b.hi || b.lo <= 0 || (b.lo & (b.lo - 1))) return r; int k = __builtin_ctzll((u64)b.lo);
      for (int i = 0; i < w; i++) z[i] = I.op == LLVMUDiv ? (i + k < w ? x[i + k] : 0) : i < k ? x[i] : 0; break; }
  default: return r;
  }
  setBits(r, z); return r;
}
static Val intOp0(State &s, const Inst &I, Val a, Val b) {
  int w = I.ty.w; if (w > 64) w = 64;
  bool undef = a.undef || b.undef; Val r;
  auto fin = [&](Val v) { v.undef = undef; return v; };
  if (a.k == K_PTR || b.k == K_PTR) {
    if (I.op == LLVMSub && a.k == K_PTR && b.k == K_PTR && a.obj == -1 && b.obj == -1 && a.nul && b.nul && !a.undef && !b.undef && a.more < 0 && b.more < 0) return fin(mkInt(I.ty.w, 0, 0));
    if (I.op == LLVMSub && a.k == K_PTR && b.k == K_PTR && a.obj >= 0 && a.obj == b.obj && a.more < 0 && b.more < 0) {
      i128 lo = (i128)a.lo - b.hi, hi = (i128)a.hi - b.lo;
      Val v = wrapInt(64, lo, hi, gcd64(gcd64(a.st, b.st), 0) ? gcd64(gcd64(a.st, b.st), 0) : 1);
      if (a.sym >= 0 || b.sym >= 0) {
        if (a.sym >= 0 && b.sym >= 0) {
          if (a.sym == b.sym) return fin(mkInt(64, a.symc - b.symc, a.symc - b.symc));
          i64 k = a.symc - b.symc, ub = relBound(s, a.sym, b.sym), lb = relBound(s, b.sym, a.sym);
          if (ub < PINF / 2) v.hi = std::min(v.hi, ub + k); if (lb < PINF / 2) v.lo = std::max(v.lo, k - lb); if (v.lo > v.hi) v.hi = v.lo; v.st = 1; normst(v);
          v.sym = newSym(s, v.lo, v.hi); v.symc = 0; s.rel.own()->def[v.sym] = std::make_tuple(a.sym, b.sym, k);
        } else if (a.sym >= 0 && b.lo == b.hi) { v.sym = a.sym; v.symc = a.symc - b.lo; }
      }
      return fin(v);
    }
    if ((I.op == LLVMAdd || I.op == LLVMSub) && a.k == K_PTR && b.k == K_INT) { Val o = b; if (I.op == LLVMSub) { o.lo = -b.hi; o.hi = -b.lo; o.sym = -1; } return fin(ptrAdd(s, a, o)); }
    if (I.op == LLVMAdd && b.k == K_PTR && a.k == K_INT) return fin(ptrAdd(s, b, a));
    return fin(mkIntTop(w));
  }
  if (a.k != K_INT || b.k != K_INT) return fin(mkIntTop(w));
  auto lessInt = [&](Val v, i64 k) { v.lo -= k, v.hi -= k; if (v.sym >= 0) v.symc -= k; v.w = w; v.undef = false; return v; };
  switch (I.op) {
  case LLVMAdd: case LLVMSub: {
    i128 lo = I.op == LLVMAdd ? (i128)a.lo + b.lo : (i128)a.lo - b.hi, hi = I.op == LLVMAdd ? (i128)a.hi + b.hi : (i128)a.hi - b.lo;
    i64 st = gcd64(a.st, b.st); if (!st) st = 1;
    bool fits = fitsS(lo, hi, w);
    Val v;
    if (I.nsw) { check(I, I.ty.w >= 64 ? "overflow64" : "overflow"); if (!fits) { if (!(COUNTERS && I.op == LLVMAdd && b.lo >= 0 && b.hi <= 1 && a.hi == wmax(w))) overflow(I, I.op == LLVMAdd ? "addition" : "subtraction", lo, hi); lo = std::max(lo, (i128)wmin(w)); hi = std::min(hi, (i128)wmax(w)); if (lo > hi) lo = hi = 0; st = 1; } v = mkInt(w, (i64)lo, (i64)hi, st); }
    else v = wrapInt(w, lo, hi, st);
    if (fits) {
      if (a.sym >= 0 && b.lo == b.hi) { v.sym = a.sym; v.symc = I.op == LLVMAdd ? a.symc + b.lo : a.symc - b.lo; }
      else if (b.sym >= 0 && I.op == LLVMAdd && a.lo == a.hi) { v.sym = b.sym; v.symc = b.symc + a.lo; }
      else if (b.sym >= 0 && I.op == LLVMSub && a.lo == a.hi && s.region > 1) { // k - b, by a symbol for zero
        if (!s.rel->itv.count(ZEROSYM)) s.rel.own()->itv[ZEROSYM] = {0, 0};
        v.sym = newSym(s, v.lo, v.hi); s.rel.own()->def[v.sym] = std::make_tuple(ZEROSYM, b.sym, a.lo - b.symc); }
      else if (a.sym >= 0 && b.sym >= 0 && I.op == LLVMSub) {
        if (a.sym == b.sym) return fin(mkInt(w, a.symc - b.symc, a.symc - b.symc));
        i64 k = a.symc - b.symc, ub = relBound(s, a.sym, b.sym), lb = relBound(s, b.sym, a.sym);
        if (ub < PINF / 2) v.hi = std::min(v.hi, ub + k); if (lb < PINF / 2) v.lo = std::max(v.lo, k - lb); if (v.lo > v.hi) v.hi = v.lo; normst(v);
        v.sym = newSym(s, v.lo, v.hi); s.rel.own()->def[v.sym] = std::make_tuple(a.sym, b.sym, k);
      }
    }
    return fin(v); }
  case LLVMMul: {
    i128 c[4] = {(i128)a.lo * b.lo, (i128)a.lo * b.hi, (i128)a.hi * b.lo, (i128)a.hi * b.hi}; i128 lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4);
    if (I.ops[0].slot == I.ops[1].slot) { i128 x = (i128)a.lo * a.lo, y = (i128)a.hi * a.hi; hi = std::max(x, y); lo = a.lo <= 0 && a.hi >= 0 ? 0 : std::min(x, y); }
    i64 st = 1; if (a.lo == a.hi && b.st) { i128 t = (i128)a.lo * b.st; if (t < 0) t = -t; st = t > 0 && t < ((i128)1 << 40) ? (i64)t : 1; } else if (b.lo == b.hi && a.st) { i128 t = (i128)b.lo * a.st; if (t < 0) t = -t; st = t > 0 && t < ((i128)1 << 40) ? (i64)t : 1; }
    if (I.nsw) { check(I, I.ty.w >= 64 ? "overflow64" : "overflow"); if (!fitsS(lo, hi, w)) { overflow(I, "multiplication", lo, hi); lo = std::max(lo, (i128)wmin(w)); hi = std::min(hi, (i128)wmax(w)); if (lo > hi) lo = hi = 0; st = 1; } return fin(mkInt(w, (i64)lo, (i64)hi, st)); }
    return fin(wrapInt(w, lo, hi, st)); }
  case LLVMSDiv: case LLVMSRem: {
    check(I, "division");
    if (b.lo <= 0 && b.hi >= 0 && !(b.lo == 0 && b.hi > 0 && b.st > 1 && false)) { alarm_(I, "division", "divisor may be zero"); if (b.lo == 0 && b.hi == 0) return fin(mkIntTop(w)); if (b.lo == 0) b.lo = 1; if (b.hi == 0) b.hi = -1; b.st = 1; normst(b); }
    if (a.lo == wmin(w) && b.lo <= -1 && b.hi >= -1 && w > 1) { alarm_(I, "overflow", "INT_MIN / -1"); }
    if (I.op == LLVMSRem) {
      i128 m = std::max(b.lo < 0 ? -(i128)b.lo : (i128)b.lo, b.hi < 0 ? -(i128)b.hi : (i128)b.hi) - 1;
      if (a.lo == a.hi && b.lo == b.hi && b.lo != 0 && !(b.lo == -1)) { i64 x = a.lo % b.lo; return fin(mkInt(w, x, x)); }
      if (a.lo >= 0 && b.lo > 0 && a.hi < b.lo) return fin(a);
      if (a.lo >= 0 && b.lo == b.hi && b.lo > 0) {
        if (a.lo / b.lo == a.hi / b.lo) return fin(lessInt(a, a.lo / b.lo * b.lo));
        if (a.st % b.lo == 0) return fin(mkInt(w, a.lo % b.lo, a.lo % b.lo)); }
      i64 st = 1; if (b.lo == b.hi && a.st && a.lo >= 0) { st = gcd64(gcd64(a.st, b.lo), a.lo); if (!st) st = 1; return fin(mkInt(w, 0, (i64)std::min((i128)a.hi, m), st)); }
      return fin(mkInt(w, a.lo >= 0 ? 0 : (i64)std::max((i128)a.lo, -m), a.hi <= 0 ? 0 : (i64)std::min((i128)a.hi, m))); }
    vector<i64> ds; ds.push_back(b.lo); ds.push_back(b.hi); if (b.lo < 0 && b.hi > 0) { ds.push_back(-1); ds.push_back(1); }
    i128 lo = ((i128)1 << 100), hi = -((i128)1 << 100); for (i64 d : ds) if (d) for (i64 n : {a.lo, a.hi}) { i128 q = (i128)n / d; lo = std::min(lo, q); hi = std::max(hi, q); }
    i64 st = 1; if (b.lo == b.hi && a.st && a.st % b.lo == 0 && (a.lo >= 0 || a.lo % b.lo == 0)) st = std::llabs(a.st / b.lo);
    lo = std::max(lo, (i128)wmin(w)); hi = std::min(hi, (i128)wmax(w));
    return fin(mkInt(w, (i64)lo, (i64)hi, st)); }
  case LLVMUDiv: case LLVMURem: {
    check(I, "division"); i128 al, ah, bl, bh; unsignedView(a, w, al, ah); unsignedView(b, w, bl, bh);
    if (bl == 0) { alarm_(I, "division", "divisor may be zero"); if (bh == 0) return fin(mkIntTop(w)); bl = 1; }
    if (I.op == LLVMUDiv) { Val v = fromUnsigned(w, al / bh, ah / bl); if (a.lo >= 0 && b.lo == b.hi && b.lo > 0 && a.st && a.st % b.lo == 0) v = mkInt(w, a.lo / b.lo, a.hi / b.lo, a.st / b.lo); return fin(v); }
    if (a.lo >= 0 && b.lo == b.hi && b.lo > 0) {
      if (a.lo / b.lo == a.hi / b.lo) return fin(lessInt(a, a.lo / b.lo * b.lo));
      if (a.st && a.st % b.lo == 0) return fin(mkInt(w, a.lo % b.lo, a.lo % b.lo)); }
    if (al == ah && bl == bh) return fin(fromUnsigned(w, al % bl, al % bl));
    if (ah < bl) return fin(a);
    return fin(fromUnsigned(w, 0, std::min(ah, bh - 1))); }
  case LLVMShl: {
    check(I, "shift"); if (b.lo < 0 || b.hi >= w) { alarm_(I, "shift", "shift count in [" + std::to_string(b.lo) + "," + std::to_string(b.hi) + "] for a " + std::to_string(w) + " bit value"); b.lo = std::max<i64>(b.lo, 0); b.hi = std::min<i64>(b.hi, w - 1); if (b.lo > b.hi) { b.lo = 0; b.hi = w - 1; } normst(b); }
    i128 c[4] = {(i128)a.lo << b.lo, (i128)a.lo << b.hi, (i128)a.hi << b.lo, (i128)a.hi << b.hi}; i128 lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4);
    i64 st = 1; if (b.lo == b.hi && a.st && b.lo < 40 && a.st < (1LL << 20)) st = a.st << b.lo;
    if (I.nsw) { check(I, I.ty.w >= 64 ? "overflow64" : "overflow"); if (!fitsS(lo, hi, w)) overflow(I, "shift", lo, hi); }
    Val v = wrapInt(w, lo, hi, st);
    if (v.lo == wmin(w) && v.hi == wmax(w) && b.lo > 0 && w > 1 && w < 64) { v.st = 1LL << b.lo; v.hi = wmax(w) - ((1LL << b.lo) - 1); normst(v); }
    return fin(v); }
  case LLVMLShr: case LLVMAShr: {
    check(I, "shift"); if (b.lo < 0 || b.hi >= w) { alarm_(I, "shift", "shift count in [" + std::to_string(b.lo) + "," + std::to_string(b.hi) + "] for a " + std::to_string(w) + " bit value"); b.lo = std::max<i64>(b.lo, 0); b.hi = std::min<i64>(b.hi, w - 1); if (b.lo > b.hi) { b.lo = 0; b.hi = w - 1; } normst(b); }
    if (I.op == LLVMAShr) { i128 c[4] = {(i128)a.lo >> b.lo, (i128)a.lo >> b.hi, (i128)a.hi >> b.lo, (i128)a.hi >> b.hi}; 
      i64 st = 1; if (b.lo == b.hi && b.lo < 62 && a.st && a.st % (1LL << b.lo) == 0) st = a.st >> b.lo;
      return fin(mkInt(w, (i64)*std::min_element(c, c + 4), (i64)*std::max_element(c, c + 4), st)); }
    if (b.lo == 0 && b.hi == 0) return fin(a);
    if (a.lo >= 0 && b.lo == b.hi && b.lo < 62 && a.st && a.st % (1LL << b.lo) == 0) return fin(mkInt(w, a.lo >> b.lo, a.hi >> b.lo, a.st >> b.lo));
    i128 al, ah; unsignedView(a, w, al, ah); return fin(fromUnsigned(w, al >> b.hi, ah >> b.lo)); }
  case LLVMAnd: {
    if (a.lo == a.hi && b.lo == b.hi) { i64 x = a.lo & b.lo; return fin(mkInt(w, x, x)); }
    if (b.lo == b.hi && b.lo > 0 && ((b.lo + 1) & b.lo) == 0 && a.st && a.st % (b.lo + 1) == 0) return fin(mkInt(w, a.lo & b.lo, a.lo & b.lo));
    if (b.lo == b.hi && b.lo > 0 && b.lo < PINF && ((b.lo + 1) & b.lo) == 0) { int k = __builtin_ctzll((u64)b.lo + 1); if (a.lo >> k == a.hi >> k) return fin(lessInt(a, (a.lo >> k) * (b.lo + 1))); }
    if (b.lo == b.hi && b.lo < 0 && b.lo > NINF && (-b.lo & (-b.lo - 1)) == 0 && w > 1) return fin(mkInt(w, a.lo & b.lo, a.hi & b.lo, -b.lo)); // rounds down
    if (a.lo >= 0 || b.lo >= 0) {
      i64 hi = a.lo >= 0 && b.lo >= 0 ? std::min(a.hi, b.hi) : a.lo >= 0 ? a.hi : b.hi;
      // x & (2^k - 1) of a value already in range
      if (b.lo == b.hi && b.lo >= 0 && a.lo >= 0 && ((b.lo + 1) & b.lo) == 0 && a.hi <= b.lo) return fin(a);
      i64 st = 1; if (b.lo == b.hi && b.lo > 0) st = b.lo & -b.lo; else if (a.lo == a.hi && a.lo > 0) st = a.lo & -a.lo;
      if (b.lo == b.hi && b.lo >= 0 && a.st > 1 && a.lo >= 0) { i64 p = a.st & -a.st; if (a.lo % p == 0 && p > st) st = p; }
      return fin(mkInt(w, 0, hi / st * st, st)); }
    return fin(mkInt(w, wmin(w), std::max(a.hi, b.hi) >= 0 ? (i64)std::max(a.hi, b.hi) : -1)); }
  case LLVMOr: case LLVMXor: {
    if (a.lo == a.hi && b.lo == b.hi) { i64 x = I.op == LLVMOr ? a.lo | b.lo : a.lo ^ b.lo; if (w == 1) x &= 1; return fin(mkInt(w, x, x)); }
    if (w == 1) { if (I.op == LLVMOr && (a.lo == 1 || b.lo == 1)) return fin(mkInt(1, 1, 1)); return fin(mkInt(1, 0, 1)); }
    { // disjoint bits: a | b == a ^ b == a + b
      auto tz = [](const Val &v) { i64 m = v.lo == v.hi ? v.lo : v.lo | v.st; return m ? __builtin_ctzll(m) : 62; };
      int ta = tz(a), tb = tz(b); i64 st = gcd64(a.lo == a.hi ? 0 : a.st, b.lo == b.hi ? 0 : b.st);
      if ((a.lo == a.hi || a.st) && b.lo >= 0 && b.hi < (1LL << std::min(ta, 62)) || (b.lo == b.hi || b.st) && a.lo >= 0 && a.hi < (1LL << std::min(tb, 62))) return fin(mkInt(w, a.lo + b.lo, a.hi + b.hi, std::max<i64>(st, 1))); }
    if (a.lo >= 0 && b.lo >= 0) { i64 h = (i64)p2m1(std::max(a.hi, b.hi)); 
      i64 st = 1; return fin(mkInt(w, I.op == LLVMOr ? std::max(a.lo, b.lo) : 0, h, st)); }
    if (I.op == LLVMOr && b.lo == b.hi && b.lo < 0) return fin(mkInt(w, b.lo, -1));
    if (I.op == LLVMXor && b.lo == b.hi && b.lo == -1) return fin(mkInt(w, ~a.hi, ~a.lo, a.st ? a.st : 1));
    if (I.op == LLVMOr && (a.hi < 0 || b.hi < 0)) return fin(mkInt(w, std::min(a.lo, b.lo), -1));
    return fin(mkIntTop(w)); }
  default: return fin(mkIntTop(w));
  }
}

static double rnd(double x, int w) { return w == 32 ? (double)(float)x : x; }
static Val fltOp(const Inst &I, const Val &a, const Val &b) {
  int w = I.ty.w; bool undef = a.undef || b.undef;
  if (a.k != K_FLT || b.k != K_FLT) { Val v = mkFltTop(w); v.undef = undef; return v; }
  double lo, hi; bool nan = a.nan || b.nan; double inf = INFINITY;
  auto isinf_ = [](double x) { return std::isinf(x); };
  switch (I.op) {
  case LLVMFAdd: lo = a.flo + b.flo; hi = a.fhi + b.fhi; if ((a.flo == -inf && b.fhi == inf) || (a.fhi == inf && b.flo == -inf)) nan = true; if (std::isnan(lo)) lo = -inf; if (std::isnan(hi)) hi = inf; break;
  case LLVMFSub: lo = a.flo - b.fhi; hi = a.fhi - b.flo; if ((a.flo == -inf && b.flo == -inf) || (a.fhi == inf && b.fhi == inf)) nan = true; if (std::isnan(lo)) lo = -inf; if (std::isnan(hi)) hi = inf; break;
  case LLVMFMul: {
    bool za = a.flo <= 0 && a.fhi >= 0, zb = b.flo <= 0 && b.fhi >= 0, ia = isinf_(a.flo) || isinf_(a.fhi), ib = isinf_(b.flo) || isinf_(b.fhi);
    if ((za && ib) || (zb && ia)) nan = true;
    if (I.ops.size() > 1 && I.ops[0].slot == I.ops[1].slot) { double x = a.flo * a.flo, y = a.fhi * a.fhi; hi = std::max(x, y); lo = za ? 0 : std::min(x, y); nan = a.nan; break; }
    double c[4] = {a.flo * b.flo, a.flo * b.fhi, a.fhi * b.flo, a.fhi * b.fhi}; lo = inf; hi = -inf;
    for (double x : c) { if (std::isnan(x)) x = 0; lo = std::min(lo, x); hi = std::max(hi, x); } break; }
  case LLVMFDiv: {
    if (b.flo <= 0 && b.fhi >= 0) { lo = -inf; hi = inf; if ((a.flo <= 0 && a.fhi >= 0) || isinf_(a.flo) || isinf_(a.fhi)) nan = true;
      if (b.flo >= 0 && a.flo >= 0) lo = 0; // signed zeros are not distinguished: x/-0 needs b == -0
      if (b.flo >= 0 && a.flo >= 0 && std::signbit(b.flo)) lo = -inf;
      break; }
    if ((isinf_(a.flo) || isinf_(a.fhi)) && (isinf_(b.flo) || isinf_(b.fhi))) nan = true;
    double c[4] = {a.flo / b.flo, a.flo / b.fhi, a.fhi / b.flo, a.fhi / b.fhi}; lo = inf; hi = -inf;
    for (double x : c) { if (std::isnan(x)) x = 0; lo = std::min(lo, x); hi = std::max(hi, x); } break; }
  default: lo = -inf; hi = inf; nan = true;
  }
  Val v = mkFlt(w, rnd(lo, w), rnd(hi, w), nan); v.undef = undef; return v;
}

static Val ptrAdd(State &s, const Val &p, const Val &off) {
  if (p.k != K_PTR) return p;
  Val r = p; r.undef = p.undef || off.undef; r.sym = -1;
  if (p.obj >= 0) {
    i128 lo = (i128)p.lo + off.lo, hi = (i128)p.hi + off.hi; i128 L = (i128)1 << 50;
    if (lo < -L) lo = -L; if (hi > L) hi = L; if (lo > hi) lo = hi;
    r.lo = (i64)lo; r.hi = (i64)hi; r.st = gcd64(p.st, off.st); if (!r.st) r.st = 1; normst(r);
    if (p.sym >= 0 && off.lo == off.hi) { r.sym = p.sym; r.symc = p.symc + off.lo; }
    else if (p.sym < 0 && p.lo == p.hi && off.sym >= 0) { r.sym = off.sym; r.symc = off.symc + p.lo; }
  }
  else if (p.nul && p.more < 0 && (off.k != K_INT || off.lo || off.hi)) r.nul = false;    // not an address any more
  if (p.more >= 0) { vector<Target> t = g_more[p.more]; for (auto &x : t) { Val q = mkPtr(x.obj, x.lo, x.hi, x.st); Val z = off; z.sym = -1; q = ptrAdd(s, q, z); x.lo = q.lo; x.hi = q.hi; x.st = q.st; } r.more = internMore(t); }
  return r;
}

static void targets(const Val &v, vector<Target> &t) { if (v.obj >= 0) t.push_back({v.obj, v.lo, v.hi, v.st}); if (v.more >= 0) for (auto &x : g_more[v.more]) t.push_back(x); }
static string objName(int o) { if (o >= FBASE) return "function " + FNS[o - FBASE].name; if (o < NG) return "'" + GNAME[o] + "'"; return "object #" + std::to_string(o - NG); }

// offsets of an access of `len` bytes clamped to the object, reporting violations
static bool accessRange(State &s, const Inst &I, const Val &p, const Target &t, i64 len, bool write, i64 &lo, i64 &hi, bool first) {
  const char *kind = write ? "oob-write" : "oob-read"; check(I, kind);
  if (t.obj >= FBASE) { alarm_(I, kind, "access to a function as data"); return false; }
  const Ref<Obj> &o = (t.obj < NG && GCONST[t.obj]) ? GOBJ[t.obj] : s.mem[t.obj];
  if (!o) { alarm_(I, kind, "access to dead object"); return false; }
  lo = t.lo; hi = t.hi; i64 size = o->size; bool bad = lo < 0;
  if (o->sizeSym >= 0 && s.rel && s.rel->itv.count(o->sizeSym)) {
    auto si = s.rel->itv[o->sizeSym]; bool ok = hi + len <= si.first;
    if (!ok && first && p.sym >= 0) { i64 b = relBound(s, p.sym, o->sizeSym); if (b < PINF / 2 && b + p.symc + len <= 0) ok = true; }
    if (!ok) bad = true; size = si.second;
  } else if (hi + len > size) bad = true;
  if (bad) { char m[200]; snprintf(m, sizeof m, "%s of %lld byte(s) at offset [%lld, %lld] of %s of %lld bytes", write ? "write" : "read", (long long)len, (long long)lo, (long long)hi, objName(t.obj).c_str(), (long long)size); alarm_(I, kind, m); }
  else if (p.sub >= 0 && p.more < 0 && o->sizeSym < 0 && (lo < g_sub[p.sub].first || hi + len > g_sub[p.sub].second)) { char m[200]; snprintf(m, sizeof m, "%s of %lld byte(s) at offset [%lld, %lld] from an array of %lld bytes", write ? "write" : "read", (long long)len, (long long)(lo - g_sub[p.sub].first), (long long)(hi - g_sub[p.sub].first), (long long)(g_sub[p.sub].second - g_sub[p.sub].first)); alarm_(I, kind, m); }
  lo = std::max<i64>(lo, 0); if (t.st > 1 && lo != t.lo) { i64 k = (lo - t.lo + t.st - 1) / t.st; lo = t.lo + k * t.st; }
  hi = std::min<i64>(hi, o->maxsize - len); if (t.st > 1) hi = lo <= hi ? lo + (hi - lo) / t.st * t.st : hi;
  if (write && (o->readonly || (t.obj < NG && GCONST[t.obj]))) { alarm_(I, "readonly-write", "write to read-only " + objName(t.obj)); }
  if (write && o->frozen) alarm_(I, "side-effect", "write to " + objName(t.obj) + " that must be left unchanged");
  return lo <= hi;
}
static bool derefOk(const Inst &I, Val &p, bool write) {
  const char *kind = write ? "oob-write" : "oob-read";
  if (p.undef) { alarm_(I, "uninit", "uninitialised pointer"); p.undef = false; }
  if (p.k != K_PTR) { alarm_(I, kind, "access through an integer"); return false; }
  if (p.nul) { alarm_(I, "null", "null pointer dereference"); }
  if (p.obj < 0 && p.more < 0) { if (!p.nul) alarm_(I, kind, "access through an invalid pointer"); return false; }
  return true;
}
static map<std::tuple<int,i64,i64,i64,int,int>, Val> CLOAD;
static Val loadVal(State &s, const Inst &I, Val p, Ty t) {
  if (!derefOk(I, p, false)) return topOf(t, false);
  vector<Target> ts; targets(p, ts); Val r; bool first = true; u64 tag = 0;
  for (auto &x : ts) {
    i64 lo, hi; if (!accessRange(s, I, p, x, t.sz, false, lo, hi, first)) { first = false; continue; } first = false;
    bool cg = x.obj < NG && GCONST[x.obj]; const Ref<Obj> &o = cg ? GOBJ[x.obj] : s.mem[x.obj];
    Val v;
    if (lo == hi) { v = objLoad(*o, lo, t);
      if (!cg && ts.size() == 1 && (v.k == K_INT || v.k == K_FLT) && lo / CH < (i64)o->ch.size() && o->ch[lo / CH]) { u64 ver = o->ch[lo / CH]->ver; tag = ver; } }
    else {
      std::tuple<int,i64,i64,i64,int,int> key(x.obj, lo, hi, x.st, (int)t.k, t.w);
      auto it = cg ? CLOAD.find(key) : CLOAD.end();
      if (it != CLOAD.end()) v = it->second;
      else {
        i64 st = std::max<i64>(x.st, 1), n = (hi - lo) / st + 1;
        if (!cg && n > 20000) v = topOf(t, false);
        else for (i64 k = 0; k < n; k++) { Val e = objLoad(*o, lo + k * st, t); v = k ? joinVal(v, e) : e;
          if (v.k == K_INT && v.lo == wmin(v.w) && v.hi == wmax(v.w) && (v.undef || o->fill == F_ANY) && !cg && n > 256) break; }
        if (cg) CLOAD[key] = v;
      }
    }
    if ((o->rel || OPT_relall) && lo == hi && (v.k == K_INT || (v.k == K_PTR && v.more < 0)) && v.sym < 0 && v.lo < v.hi && !cg && !(v.k == K_PTR && v.obj < 0) && ts.size() == 1) {
      v.sym = newSym(s, v.lo, v.hi); v.symc = 0; Val w = v; objStore(s.mem[x.obj], lo, t.sz, w);
    }
    r = r.k == K_NONE ? v : joinVal(r, v);
  }
  if (r.k == K_NONE) r = topOf(t, false);
  if (r.k == K_INT || r.k == K_FLT) { r.obj = -1; r.more = -1; if (tag && ts.size() == 1) { const Ref<Obj> &o = s.mem[ts[0].obj]; u64 ver = o->ch[ts[0].lo / CH]->ver; r.obj = (int32_t)(ver & 0x7fffffff); r.more = (int32_t)(ver >> 31); } }
  return r;
}
static void storeVal(State &s, const Inst &I, Val p, Ty t, const Val &v0) {
  Val v = v0; if (v.k == K_NONE) v = topOf(t, true);
  if (!derefOk(I, p, true)) return;
  vector<Target> ts; targets(p, ts); bool strong = ts.size() == 1, first = true;
  for (auto &x : ts) {
    i64 lo, hi; if (!accessRange(s, I, p, x, t.sz, true, lo, hi, first)) { first = false; continue; } first = false;
    if (x.obj < NG && GCONST[x.obj]) continue;
    Ref<Obj> &o = s.mem[x.obj];
    if (lo == hi && strong) { objStore(o, lo, t.sz, v); continue; }
    i64 st = std::max<i64>(x.st, 1), n = (hi - lo) / st + 1; 
    for (i64 k = 0; k < n; k++) { i64 off = lo + k * st; Val old = objLoad(*o, off, {t.k, t.w, t.sz}); 
      if (t.k == K_PTR && old.undef && old.obj < 0) { Val j = v; j.undef = true; objStore(o, off, t.sz, j); continue; }
      Val j = joinVal(old, v); j.sym = -1; if (!sameVal(j, old)) objStore(o, off, t.sz, j); }
  }
}

// ---- memory block operations
static bool singleTarget(const Val &p) { return p.k == K_PTR && p.obj >= 0 && p.more < 0 && p.lo == p.hi; }
static void blockRange(State &s, const Inst &I, Val p, const Val &len, bool write, i64 &lenlo, i64 &lenhi, bool &ok) {
  ok = true; lenlo = len.lo; lenhi = len.hi; if (len.undef) alarm_(I, "uninit", "uninitialised length");
  if (lenlo < 0) { check(I, write ? "oob-write" : "oob-read"); alarm_(I, write ? "oob-write" : "oob-read", "length of a block operation may be negative: " + std::to_string(lenlo)); lenlo = 0; lenhi = std::max<i64>(lenhi, 0); ok = lenhi > 0; }
}
static void memFill(State &s, const Inst &I, Val p, const Val &byte, const Val &len) {
  i64 ll, lh; bool ok; blockRange(s, I, p, len, true, ll, lh, ok); if (lh <= 0) return;
  if (!derefOk(I, p, true)) return;
  Fill f = isConstInt(byte) && byte.lo == 0 ? F_ZERO : F_ANY; if (byte.undef) f = F_UNDEF;
  vector<Target> ts; targets(p, ts); bool first = true;
  for (auto &x : ts) {
    i64 lo, hi;
    // a relational length: p + len against the size
    Target t = x; bool r = true;
    if (len.sym >= 0 && x.obj < (int)s.mem.size() && s.mem[x.obj] && s.mem[x.obj]->sizeSym == len.sym && x.hi + len.symc <= 0 && x.lo >= 0) { lo = x.lo; hi = x.hi; lh = std::min<i64>(lh, s.mem[x.obj]->maxsize - x.hi); check(I, "oob-write"); if (s.mem[x.obj]->readonly) alarm_(I, "readonly-write", "write to read-only " + objName(x.obj)); if (s.mem[x.obj]->frozen) alarm_(I, "side-effect", "write to " + objName(x.obj)); }
    else r = accessRange(s, I, p, t, lh, true, lo, hi, first);
    first = false;
    if (x.obj < NG && GCONST[x.obj]) continue;
    if (x.obj >= FBASE || !s.mem[x.obj]) continue;
    Ref<Obj> &o = s.mem[x.obj]; if (!r) { lo = std::max<i64>(0, x.lo); hi = lo; }
    if (lo == hi && ll == lh && ts.size() == 1) { i64 n = std::min<i64>(lh, o->maxsize - lo); if (n > 0) objFill(o, lo, n, f); }
    else {
      // weak: join with the filled version; the part written in all cases is strong
      Ref<Obj> o2 = o; i64 n = std::min<i64>(hi + lh, o->maxsize) - lo; if (n <= 0) continue; 
      if (lo == hi && ts.size() == 1) { if (ll > 0) objFill(o, lo, std::min(ll, n), f); o2 = o; objFill(o2, lo, n, f); o = joinObj(o, o2, false); }
      else { objFill(o2, lo, n, f); o = joinObj(o, o2, false); }
    }
  }
}
static void memCopy(State &s, const Inst &I, Val d, Val src, const Val &len) {
  i64 ll, lh; bool ok; blockRange(s, I, d, len, true, ll, lh, ok); if (lh <= 0) return;
  if (!derefOk(I, src, false) || !derefOk(I, d, true)) return;
  vector<Target> td, tsv; targets(d, td); targets(src, tsv);
  for (auto &y : tsv) { i64 lo, hi; accessRange(s, I, src, y, lh, false, lo, hi, &y == &tsv[0]); }
  if (td.size() == 1 && tsv.size() == 1 && d.lo == d.hi && ll == lh && src.lo == src.hi) {
    i64 lo, hi, slo = src.lo; if (!accessRange(s, I, d, td[0], lh, true, lo, hi, true)) return;
    int so = tsv[0].obj; if (so >= FBASE) return; bool cg = so < NG && GCONST[so]; const Ref<Obj> &S = cg ? GOBJ[so] : s.mem[so];
    if (!S || slo < 0) return; i64 n = std::min(lh, S->maxsize - slo); if (n <= 0) return;
    vector<Piece> ps; objPieces(*S, slo, n, ps); if (td[0].obj < NG && GCONST[td[0].obj]) return;
    Ref<Obj> &D = s.mem[td[0].obj]; n = std::min(n, D->maxsize - lo);
    i64 delta = lo - slo; 
    for (auto &p : ps) if (!p.isCell) objFill(D, p.off + delta, std::min(p.len, D->maxsize - p.off - delta), p.fill);
    for (auto &p : ps) if (p.isCell && p.off + delta + p.len <= D->maxsize) objStore(D, p.off + delta, (int)p.len, p.v);
    return;
  }
  // imprecise copy: destination bytes become arbitrary; uninitialised when the source may be
  bool undef = false;
  for (auto &y : tsv) { if (y.obj >= FBASE) continue; bool cg = y.obj < NG && GCONST[y.obj]; const Ref<Obj> &S = cg ? GOBJ[y.obj] : s.mem[y.obj]; if (!S) continue;
    i64 a = std::max<i64>(0, y.lo), b = std::min<i64>(S->maxsize, y.hi + lh); vector<Piece> ps; if (b > a) objPieces(*S, a, b - a, ps); for (auto &p : ps) undef |= p.isCell ? p.v.undef : p.fill == F_UNDEF; }
  for (auto &x : td) { i64 lo, hi; if (!accessRange(s, I, d, x, lh, true, lo, hi, &x == &td[0])) continue; if (x.obj < NG && GCONST[x.obj]) continue; Ref<Obj> &o = s.mem[x.obj]; Ref<Obj> o2 = o; i64 n = std::min<i64>(hi + lh, o->maxsize) - lo; if (n <= 0) continue; objFill(o2, lo, n, undef ? F_UNDEF : F_ANY); if (td.size() == 1 && lo == hi && ll == lh) o = o2; else o = joinObj(o, o2, false); }
}

// ---------------------------------------------------------------- comparison
static int cmpI(State &s, int pred, const Val &a, const Val &b, int w) { // 1 true, 0 false, -1 unknown
  if (a.k == K_PTR || b.k == K_PTR) {
    Val x = a, y = b; if (x.k == K_INT && x.lo == 0 && x.hi == 0) x = mkNull(); if (y.k == K_INT && y.lo == 0 && y.hi == 0) y = mkNull();
    if (x.k != K_PTR || y.k != K_PTR) return -1;
    bool xn = x.obj < 0 && x.more < 0, yn = y.obj < 0 && y.more < 0;
    if ((xn && !x.nul) || (yn && !y.nul)) return -1;
    if (pred == LLVMIntEQ || pred == LLVMIntNE) {
      int eq = -1;
      if (xn && yn) eq = 1; else if (xn && !y.nul) eq = 0; else if (yn && !x.nul) eq = 0;
      else if (!xn && !yn && !x.nul && !y.nul && x.more < 0 && y.more < 0) { if (x.obj != y.obj) eq = 0; else if (x.lo == x.hi && y.lo == y.hi) eq = x.lo == y.lo; else if (x.hi < y.lo || y.hi < x.lo) eq = 0; else if (x.sym >= 0 && x.sym == y.sym) eq = x.symc == y.symc; }
      if (eq < 0) return -1; return pred == LLVMIntEQ ? eq : !eq;
    }
    if (x.obj != y.obj || x.more >= 0 || y.more >= 0 || xn || yn) return -1;
    int sp = pred; switch (pred) { case LLVMIntULT: sp = LLVMIntSLT; break; case LLVMIntULE: sp = LLVMIntSLE; break; case LLVMIntUGT: sp = LLVMIntSGT; break; case LLVMIntUGE: sp = LLVMIntSGE; break; }
    Val u = mkInt(64, x.lo, x.hi), v = mkInt(64, y.lo, y.hi); u.sym = x.sym; u.symc = x.symc; v.sym = y.sym; v.symc = y.symc;
    return cmpI(s, sp, u, v, 64);
  }
  if (a.k != K_INT || b.k != K_INT) return -1;
  i128 al = a.lo, ah = a.hi, bl = b.lo, bh = b.hi;
  switch (pred) { case LLVMIntULT: case LLVMIntULE: case LLVMIntUGT: case LLVMIntUGE: unsignedView(a, w, al, ah); unsignedView(b, w, bl, bh); default: break; }
  bool ss = a.sym >= 0 && b.sym >= 0; i64 ub = PINF, lb = PINF; // a-b <= ub ; b-a <= lb
  if (ss) { i64 k = a.symc - b.symc; i64 u = relBound(s, a.sym, b.sym), l = relBound(s, b.sym, a.sym); if (u < PINF / 2) ub = u + k; if (l < PINF / 2) lb = l - k; }
  switch (pred) {
  case LLVMIntEQ: case LLVMIntNE: { int eq = -1; if (al == ah && bl == bh && al == bl) eq = 1; else if (ah < bl || bh < al) eq = 0; else if (ss && (ub < 0 || lb < 0)) eq = 0; else if (ss && ub == 0 && lb == 0) eq = 1;
      else if (a.st > 1 && bl == bh && (((u64)(i64)bl - (u64)a.lo) % (u64)a.st) != 0) eq = 0; else if (b.st > 1 && al == ah && (((u64)(i64)al - (u64)b.lo) % (u64)b.st) != 0) eq = 0;
      if (eq < 0 && (a.bv >= 0 || b.bv >= 0) && w <= 64) { vector<int> x = bitsOf(a, w), y = bitsOf(b, w); eq = 1; for (int i = 0; i < w; i++) if (x[i] != y[i] && x[i] >= 0 && x[i] < 2 && y[i] >= 0 && y[i] < 2) { eq = 0; break; } else if (x[i] < 0 || x[i] != y[i]) eq = -1; }
      if (eq < 0) return -1; return pred == LLVMIntEQ ? eq : !eq; }
  case LLVMIntULT: if (ah < bl) return 1; if (al >= bh) return 0; return -1;
  case LLVMIntULE: if (ah <= bl) return 1; if (al > bh) return 0; return -1;
  case LLVMIntUGT: if (al > bh) return 1; if (ah <= bl) return 0; return -1;
  case LLVMIntUGE: if (al >= bh) return 1; if (ah < bl) return 0; return -1;
  case LLVMIntSLT: if (ah < bl || ub < 0) return 1; if (al >= bh || lb <= 0) return 0; return -1;
  case LLVMIntSLE: if (ah <= bl || ub <= 0) return 1; if (al > bh || lb < 0) return 0; return -1;
  case LLVMIntSGT: if (al > bh || lb < 0) return 1; if (ah <= bl || ub <= 0) return 0; return -1;
  case LLVMIntSGE: if (al >= bh || lb <= 0) return 1; if (ah < bl || ub < 0) return 0; return -1;
  }
  return -1;
}
static int cmpF(int pred, const Val &a, const Val &b) {
  if (a.k != K_FLT || b.k != K_FLT) return -1;
  bool nan = a.nan || b.nan; int r = -1; bool unord = false;
  if (pred == LLVMRealORD) return nan ? -1 : 1; if (pred == LLVMRealUNO) return nan ? -1 : 0; if (pred == LLVMRealPredicateTrue) return 1; if (pred == LLVMRealPredicateFalse) return 0;
  switch (pred) {
  case LLVMRealUEQ: unord = true; case LLVMRealOEQ: if (a.flo == a.fhi && b.flo == b.fhi && a.flo == b.flo) r = 1; else if (a.fhi < b.flo || b.fhi < a.flo) r = 0; break;
  case LLVMRealUNE: unord = true; case LLVMRealONE: if (a.flo == a.fhi && b.flo == b.fhi && a.flo == b.flo) r = 0; else if (a.fhi < b.flo || b.fhi < a.flo) r = 1; break;
  case LLVMRealULT: unord = true; case LLVMRealOLT: if (a.fhi < b.flo) r = 1; else if (a.flo >= b.fhi) r = 0; break;
  case LLVMRealULE: unord = true; case LLVMRealOLE: if (a.fhi <= b.flo) r = 1; else if (a.flo > b.fhi) r = 0; break;
  case LLVMRealUGT: unord = true; case LLVMRealOGT: if (a.flo > b.fhi) r = 1; else if (a.fhi <= b.flo) r = 0; break;
  case LLVMRealUGE: unord = true; case LLVMRealOGE: if (a.flo >= b.fhi) r = 1; else if (a.fhi < b.flo) r = 0; break;
  }
  if (r < 0) return -1; if (nan && r != (unord ? 1 : 0)) return -1; return r;
}

// ---------------------------------------------------------------- refinement
static bool refineCond(const Fn &f, State &s, Opd c, bool truth, int depth);
static bool refineSlot(const Fn &f, State &s, Opd o, const Val &nv, int depth) {
  // nv: refined value of the same kind; false when infeasible
  if (o.slot < 0 || depth > 8) return true;
  Val &cur = s.env[o.slot];
  if (nv.k == K_INT && nv.lo > nv.hi) return false;
  if (nv.k == K_FLT && !(nv.flo <= nv.fhi) && !nv.nan) return false;
  if (nv.k == K_PTR && nv.obj >= 0 && nv.lo > nv.hi) return false;
  Val n = nv; n.sym = cur.sym; n.symc = cur.symc; n.undef = cur.undef; n.bv = cur.bv; cur = n;
  if (n.sym >= 0 && (n.k == K_INT || (n.k == K_PTR && n.obj >= 0)) && s.rel) { if (!relTighten(s, n.sym, n.lo - n.symc, n.hi - n.symc)) return false; }
  auto d = f.def[o.slot]; if (d.first < 0) return true;
  if (d.second < 0) { for (auto &x : s.alias) if (x.first == o.slot && s.env[x.second].k == n.k) return refineSlot(f, s, Opd{x.second}, n, depth + 1); return true; }
  const Inst &I = f.bl[d.first].insts[d.second];
  auto meetI = [&](Opd p, i128 lo, i128 hi) -> bool { if (p.slot < 0) return true; Val v = get(s, p); if (v.k != K_INT) return true; if (lo > v.lo) v.lo = v.st > 1 ? (i64)((i128)v.lo + ((lo - v.lo) + v.st - 1) / v.st * v.st) : (i64)std::min(lo, (i128)PINF); if (hi < v.hi) v.hi = (i64)std::max(hi, (i128)NINF); if (v.lo > v.hi) return false; normst(v); return refineSlot(f, s, p, v, depth + 1); };
  auto meetP = [&](Opd p, i128 lo, i128 hi) -> bool { if (p.slot < 0) return true; Val v = get(s, p); if (v.k != K_PTR || v.obj < 0 || v.more >= 0) return true; if (lo > v.lo) v.lo = v.st > 1 ? (i64)((i128)v.lo + ((lo - v.lo) + v.st - 1) / v.st * v.st) : (i64)lo; if (hi < v.hi) v.hi = (i64)hi; if (v.lo > v.hi) return false; normst(v); return refineSlot(f, s, p, v, depth + 1); };
  switch (I.op) {
  case LLVMLoad: if ((n.k == K_INT || n.k == K_FLT) && nv.obj >= 0) { // the cell still holds the loaded value
      Val p = get(s, I.ops[0]); u64 ver = (u64)nv.obj | ((u64)nv.more << 31);
      if (p.k == K_PTR && p.obj >= 0 && p.obj < FBASE && p.more < 0 && p.lo == p.hi && p.lo >= 0 && !p.nul && p.obj < (int)s.mem.size() && s.mem[p.obj] && !(p.obj < NG && GCONST[p.obj])) {
        i64 ci = p.lo / CH; Ref<Obj> &o = s.mem[p.obj];
        if (ci < (i64)o->ch.size() && o->ch[ci] && o->ch[ci]->ver == ver && p.lo % CH + I.ty.sz <= CH) {
          Val c = objLoad(*o, p.lo, I.ty); if (c.k == n.k) { Val w = n; w.undef = c.undef; if (n.k == K_FLT) { w.nan = w.nan && c.nan; } objStore(o, p.lo, I.ty.sz, w); o->ch[ci]->ver = ver; } } }
    } break;
  case LLVMSExt: if (n.k == K_INT) { Val v = get(s, I.ops[0]); if (v.k == K_INT && v.w > 1) return meetI(I.ops[0], n.lo, n.hi); } break;
  case LLVMZExt: if (n.k == K_INT) {
      if (I.opty.w == 1) { if (n.lo == n.hi) return refineCond(f, s, I.ops[0], n.lo != 0, depth + 1); break; }
      Val v = get(s, I.ops[0]); if (v.k == K_INT && (v.lo >= 0 || (n.lo >= 0 && n.hi <= wmax(I.opty.w)))) return meetI(I.ops[0], n.lo, n.hi); } break;
  case LLVMTrunc: if (n.k == K_INT) { Val v = get(s, I.ops[0]); if (v.k == K_INT && v.lo >= wmin(I.ty.w) && v.hi <= wmax(I.ty.w)) return meetI(I.ops[0], n.lo, n.hi);
      if (v.k == K_INT && I.ty.w == 1 && v.lo >= 0 && v.hi <= 1) return meetI(I.ops[0], n.lo, n.hi); } break;
  case LLVMAdd: if (n.k == K_INT) { Val a = get(s, I.ops[0]), b = get(s, I.ops[1]); if (a.k != K_INT || b.k != K_INT) break; if (!fitsS((i128)a.lo + b.lo, (i128)a.hi + b.hi, I.ty.w)) break;
      if (b.lo == b.hi) return meetI(I.ops[0], (i128)n.lo - b.lo, (i128)n.hi - b.lo); if (a.lo == a.hi) return meetI(I.ops[1], (i128)n.lo - a.lo, (i128)n.hi - a.lo);
      if (!meetI(I.ops[0], (i128)n.lo - b.hi, (i128)n.hi - b.lo)) return false; return meetI(I.ops[1], (i128)n.lo - a.hi, (i128)n.hi - a.lo); } break;
  case LLVMSub: if (n.k == K_INT) { Val a = get(s, I.ops[0]), b = get(s, I.ops[1]);
      if (a.k == K_PTR && b.k == K_PTR && a.obj >= 0 && a.obj == b.obj && a.more < 0 && b.more < 0) {
        if (b.lo == b.hi && !meetP(I.ops[0], (i128)n.lo + b.lo, (i128)n.hi + b.lo)) return false;
        if (a.lo == a.hi && !meetP(I.ops[1], (i128)a.lo - n.hi, (i128)a.lo - n.lo)) return false;
        return true; }
      if (a.k != K_INT || b.k != K_INT) break; if (!fitsS((i128)a.lo - b.hi, (i128)a.hi - b.lo, I.ty.w)) break;
      if (b.lo == b.hi) return meetI(I.ops[0], (i128)n.lo + b.lo, (i128)n.hi + b.lo); if (a.lo == a.hi) return meetI(I.ops[1], (i128)a.lo - n.hi, (i128)a.lo - n.lo); } break;
  case LLVMFNeg: if (n.k == K_FLT) { Val v = get(s, I.ops[0]); if (v.k == K_FLT) { v.flo = std::max(v.flo, -n.fhi); v.fhi = std::min(v.fhi, -n.flo); v.nan = v.nan && n.nan; return refineSlot(f, s, I.ops[0], v, depth + 1); } } break;
  case LLVMSIToFP: if (n.k == K_FLT) { Val v = get(s, I.ops[0]); if (v.k == K_INT && v.w <= 32 && std::fabs(n.flo) < 1e15 && std::fabs(n.fhi) < 1e15 && I.ty.w == 64) return meetI(I.ops[0], (i128)std::ceil(n.flo), (i128)std::floor(n.fhi)); } break;
  case LLVMPtrToInt: if (n.k == K_PTR && n.obj >= 0 && n.more < 0) return meetP(I.ops[0], n.lo, n.hi); break;
  case LLVMSDiv: if (n.k == K_INT && I.ops[1].slot < 0) { Val a = get(s, I.ops[0]), b = get(s, I.ops[1]); if (a.k == K_INT && b.lo == b.hi && b.lo > 0) { // truncation towards zero
        return meetI(I.ops[0], n.lo > 0 ? (i128)n.lo * b.lo : (i128)(n.lo - 1) * b.lo + 1, n.hi < 0 ? (i128)n.hi * b.lo : (i128)(n.hi + 1) * b.lo - 1); } } break;
  case LLVMMul: if (n.k == K_INT && I.nsw) { Val a = get(s, I.ops[0]), b = get(s, I.ops[1]); if (a.k == K_INT && b.k == K_INT && b.lo == b.hi && b.lo > 0) { auto fl = [](i128 x, i128 y) { i128 q = x / y; return x % y && x < 0 ? q - 1 : q; };
        return meetI(I.ops[0], -fl(-(i128)n.lo, b.lo), fl(n.hi, b.lo)); } } break;
  case LLVMGetElementPtr: if (n.k == K_PTR && n.obj >= 0 && n.more < 0 && I.gep.size() <= 1) { Val p = get(s, I.ops[0]);
      if (p.k != K_PTR || p.obj != n.obj || p.more >= 0) break;
      if (I.gep.empty()) return meetP(I.ops[0], (i128)n.lo - I.cst, (i128)n.hi - I.cst);
      i64 sc = I.gep[0].scale; if (sc <= 0) break; Val x = get(s, I.gep[0].o); if (x.k != K_INT) break;
      if (p.lo == p.hi) { i128 l = (i128)n.lo - p.lo - I.cst, h = (i128)n.hi - p.lo - I.cst; auto fl = [](i128 a, i128 b) { i128 q = a / b; return a % b && a < 0 ? q - 1 : q; }; return meetI(I.gep[0].o, -fl(-l, sc), fl(h, sc)); }
      if (x.lo == x.hi) return meetP(I.ops[0], (i128)n.lo - I.cst - (i128)x.lo * sc, (i128)n.hi - I.cst - (i128)x.lo * sc);
    } break;
  case LLVMLShr: case LLVMAShr: if (n.k == K_INT) { Val a = get(s, I.ops[0]), b = get(s, I.ops[1]); if (a.k == K_INT && b.k == K_INT && a.lo >= 0 && b.lo == b.hi && b.lo >= 0 && b.lo < 63) return meetI(I.ops[0], (i128)n.lo << b.lo, ((i128)(n.hi + 1) << b.lo) - 1); } break;
  case LLVMOr: if (n.k == K_INT && n.lo >= 0) return meetI(I.ops[0], 0, n.hi) && meetI(I.ops[1], 0, n.hi); break;
  case LLVMAnd: if (n.k == K_INT && n.lo > 0) { Val a = get(s, I.ops[0]), b = get(s, I.ops[1]); if (a.k == K_INT && a.lo >= 0 && isConstInt(b)) return meetI(I.ops[0], n.lo, PINF); } break;
  default: break;
  }
  return true;
}
static bool meetCmp(const Fn &f, State &s, Opd o, const Val &v, i128 lo, i128 hi, int depth) {
  if (o.slot < 0) return lo <= v.hi && hi >= v.lo; Val n = v;
  if (lo > n.lo) n.lo = n.st > 1 ? (i64)((i128)n.lo + ((lo - n.lo) + n.st - 1) / n.st * n.st) : (i64)std::min(lo, (i128)PINF); if (hi < n.hi) n.hi = (i64)std::max(hi, (i128)NINF);
  if (n.lo > n.hi) return false; normst(n); return refineSlot(f, s, o, n, depth + 1);
}
static bool refineCond(const Fn &f, State &s, Opd c, bool truth, int depth) {
  if (c.slot < 0) { const Val &v = CONSTS[-1 - c.slot]; return !(isConstInt(v) && (v.lo != 0) != truth); }
  Val cv = get(s, c); if (cv.k == K_INT && cv.lo == cv.hi && (cv.lo != 0) != truth) return false;
  if (cv.k == K_INT && !cv.undef) { s.env[c.slot].lo = s.env[c.slot].hi = truth; s.env[c.slot].st = 0; }
  auto d = f.def[c.slot]; if (d.first < 0 || d.second < 0 || depth > 8) return true;
  const Inst &I = f.bl[d.first].insts[d.second];
  if (I.op == LLVMAnd && truth) return refineCond(f, s, I.ops[0], true, depth + 1) && refineCond(f, s, I.ops[1], true, depth + 1);
  if (I.op == LLVMOr && !truth) return refineCond(f, s, I.ops[0], false, depth + 1) && refineCond(f, s, I.ops[1], false, depth + 1);
  if (I.op == LLVMXor) { Val b = get(s, I.ops[1]); if (isConstInt(b) && b.lo == 1) return refineCond(f, s, I.ops[0], !truth, depth + 1); return true; }
  if (I.op == LLVMSelect) { Val t = get(s, I.ops[1]), e = get(s, I.ops[2]);
    if (isConstInt(e) && e.lo == 0 && truth) return refineCond(f, s, I.ops[0], true, depth + 1) && refineCond(f, s, I.ops[1], true, depth + 1);
    if (isConstInt(t) && t.lo == 1 && !truth) return refineCond(f, s, I.ops[0], false, depth + 1) && refineCond(f, s, I.ops[2], false, depth + 1); return true; }
  if (I.op == LLVMTrunc) { Val v = get(s, I.ops[0]); if (v.k == K_INT && v.lo >= 0 && v.hi <= 1) return meetCmp(f, s, I.ops[0], v, truth, truth, depth); return true; }
  if (I.op == LLVMFCmp) {
    Val a = get(s, I.ops[0]), b = get(s, I.ops[1]); if (a.k != K_FLT || b.k != K_FLT) return true;
    int p = I.pred; bool ord = p >= LLVMRealOEQ && p <= LLVMRealONE; // ordered predicates
    bool nanPossible; // is NaN possible on this branch?
    if (ord || p == LLVMRealORD) nanPossible = !truth; else nanPossible = truth;
    int rel = -1; // 0 eq 1 ne 2 lt 3 le 4 gt 5 ge
    switch (p) { case LLVMRealOEQ: case LLVMRealUEQ: rel = 0; break; case LLVMRealONE: case LLVMRealUNE: rel = 1; break; case LLVMRealOLT: case LLVMRealULT: rel = 2; break; case LLVMRealOLE: case LLVMRealULE: rel = 3; break; case LLVMRealOGT: case LLVMRealUGT: rel = 4; break; case LLVMRealOGE: case LLVMRealUGE: rel = 5; break; default: return true; }
    if (!truth) { static const int neg[] = {1, 0, 5, 4, 3, 2}; rel = neg[rel]; }
    bool anan = a.nan, bnan = b.nan;
    auto up = [&](double x) { return a.w == 32 ? (double)nextafterf((float)x, INFINITY) : nextafter(x, INFINITY); }; auto dn = [&](double x) { return a.w == 32 ? (double)nextafterf((float)x, -INFINITY) : nextafter(x, -INFINITY); };
    Val x = a, y = b; bool infeas = false;
    switch (rel) {
    case 0: x.flo = y.flo = std::max(a.flo, b.flo); x.fhi = y.fhi = std::min(a.fhi, b.fhi); break;
    case 1: if (b.flo == b.fhi) { if (a.flo == b.flo && a.fhi == b.flo) infeas = true; else if (a.flo == b.flo && b.flo != 0) x.flo = up(x.flo); else if (a.fhi == b.flo && b.flo != 0) x.fhi = dn(x.fhi); else if (b.flo == 0 && a.flo == 0) x.flo = a.w == 32 ? 1e-45f : 5e-324; else if (b.flo == 0 && a.fhi == 0) x.fhi = a.w == 32 ? -1e-45f : -5e-324; } break;
    case 2: x.fhi = std::min(a.fhi, dn(b.fhi)); y.flo = std::max(b.flo, up(a.flo)); break;
    case 3: x.fhi = std::min(a.fhi, b.fhi); y.flo = std::max(b.flo, a.flo); break;
    case 4: x.flo = std::max(a.flo, up(b.flo)); y.fhi = std::min(b.fhi, dn(a.fhi)); break;
    case 5: x.flo = std::max(a.flo, b.flo); y.fhi = std::min(b.fhi, a.fhi); break;
    }
    if (rel == 4 && a.flo < 0 && b.flo == 0 && b.fhi == 0) x.flo = a.w == 32 ? 1e-45f : 5e-324;
    if (x.flo > x.fhi || y.flo > y.fhi) infeas = true;
    bool canNan = nanPossible && (anan || bnan);
    if (infeas && !canNan) return false;
    if (canNan) { // only the ordered part could be refined
      return true; }
    x.nan = y.nan = false;
    if (I.ops[0].slot >= 0 && !refineSlot(f, s, I.ops[0], x, depth + 1)) return false;
    if (I.ops[1].slot >= 0 && !refineSlot(f, s, I.ops[1], y, depth + 1)) return false;
    return true;
  }
  if (I.op != LLVMICmp) return true;
  int p = I.pred; if (!truth) { switch (p) { case LLVMIntEQ: p = LLVMIntNE; break; case LLVMIntNE: p = LLVMIntEQ; break; case LLVMIntULT: p = LLVMIntUGE; break; case LLVMIntULE: p = LLVMIntUGT; break; case LLVMIntUGT: p = LLVMIntULE; break; case LLVMIntUGE: p = LLVMIntULT; break; case LLVMIntSLT: p = LLVMIntSGE; break; case LLVMIntSLE: p = LLVMIntSGT; break; case LLVMIntSGT: p = LLVMIntSLE; break; case LLVMIntSGE: p = LLVMIntSLT; break; } }
  Val a = get(s, I.ops[0]), b = get(s, I.ops[1]);
  if (cmpI(s, p, a, b, I.opty.w ? I.opty.w : 64) == 0) return false;
  if (a.k == K_PTR || b.k == K_PTR) {
    auto isnull = [](const Val &v) { return (v.k == K_PTR && v.obj < 0 && v.more < 0 && v.nul) || (v.k == K_INT && v.lo == 0 && v.hi == 0); };
    if (p == LLVMIntEQ || p == LLVMIntNE) {
      for (int q = 0; q < 2; q++) { Val &x = q ? b : a; Val &y = q ? a : b; Opd ox = I.ops[q]; if (x.k == K_PTR && isnull(y) && !isnull(x) && ox.slot >= 0) { Val n = x; if (p == LLVMIntNE) n.nul = false; else { if (!x.nul) return false; n = mkNull(); } s.env[ox.slot] = n; return true; } }
    }
    if (a.k != K_PTR || b.k != K_PTR || a.obj != b.obj || a.more >= 0 || b.more >= 0 || a.obj < 0) return true;
    switch (p) { case LLVMIntULT: p = LLVMIntSLT; break; case LLVMIntULE: p = LLVMIntSLE; break; case LLVMIntUGT: p = LLVMIntSGT; break; case LLVMIntUGE: p = LLVMIntSGE; break; }
  } else if (a.k != K_INT || b.k != K_INT) return true;
  // unsigned comparisons of values known to be non-negative are signed ones
  switch (p) { case LLVMIntULT: case LLVMIntULE: case LLVMIntUGT: case LLVMIntUGE:
      if (a.lo >= 0 && b.lo >= 0) p = p == LLVMIntULT ? LLVMIntSLT : p == LLVMIntULE ? LLVMIntSLE : p == LLVMIntUGT ? LLVMIntSGT : LLVMIntSGE;
      else if (b.lo >= 0 && (p == LLVMIntULT || p == LLVMIntULE)) { // a <u b, b non-negative: a in [0, b.hi]
        return meetCmp(f, s, I.ops[0], a, 0, p == LLVMIntULT ? (i128)b.hi - 1 : (i128)b.hi, depth); }
      else if (a.lo >= 0 && (p == LLVMIntUGT || p == LLVMIntUGE)) { return meetCmp(f, s, I.ops[1], b, 0, p == LLVMIntUGT ? (i128)a.hi - 1 : (i128)a.hi, depth); }
      else return true; }
  if (OPT_undecided && depth == 0 && a.lo < a.hi && b.lo < b.hi && I.ops[0].slot >= 0 && I.ops[1].slot >= 0) // name both sides, to relate them
    for (int q = 0; q < 2; q++) { Val &x = q ? b : a; if (x.sym < 0 && !x.undef) { x.sym = newSym(s, x.lo, x.hi); x.symc = 0; Val &e = s.env[I.ops[q].slot]; e.sym = x.sym; e.symc = 0; } }
  bool ss = a.sym >= 0 && b.sym >= 0; i64 k = b.symc - a.symc; // Sa + a.symc < Sb + b.symc  <=> Sa - Sb <= k - 1
  switch (p) {
  case LLVMIntEQ: { i128 lo = std::max(a.lo, b.lo), hi = std::min(a.hi, b.hi); if (ss && (!relAdd(s, a.sym, b.sym, k) || !relAdd(s, b.sym, a.sym, -k))) return false; return meetCmp(f, s, I.ops[0], a, lo, hi, depth) && meetCmp(f, s, I.ops[1], b, lo, hi, depth); }
  case LLVMIntNE: {
      if (b.lo == b.hi) { if (a.lo == b.lo && !meetCmp(f, s, I.ops[0], a, (i128)a.lo + 1, PINF, depth)) return false; else if (a.hi == b.lo && a.lo != b.lo && !meetCmp(f, s, I.ops[0], a, NINF, (i128)a.hi - 1, depth)) return false; }
      else if (a.lo == a.hi) { if (b.lo == a.lo && !meetCmp(f, s, I.ops[1], b, (i128)b.lo + 1, PINF, depth)) return false; else if (b.hi == a.lo && b.lo != a.lo && !meetCmp(f, s, I.ops[1], b, NINF, (i128)b.hi - 1, depth)) return false; }
      return true; }
  case LLVMIntSLT: if (ss && !relAdd(s, a.sym, b.sym, k - 1)) return false; return meetCmp(f, s, I.ops[0], get(s, I.ops[0]), NINF, (i128)b.hi - 1, depth) && meetCmp(f, s, I.ops[1], get(s, I.ops[1]), (i128)a.lo + 1, PINF, depth);
  case LLVMIntSLE: if (ss && !relAdd(s, a.sym, b.sym, k)) return false; return meetCmp(f, s, I.ops[0], get(s, I.ops[0]), NINF, b.hi, depth) && meetCmp(f, s, I.ops[1], get(s, I.ops[1]), a.lo, PINF, depth);
  case LLVMIntSGT: if (ss && !relAdd(s, b.sym, a.sym, -k - 1)) return false; return meetCmp(f, s, I.ops[0], get(s, I.ops[0]), (i128)b.lo + 1, PINF, depth) && meetCmp(f, s, I.ops[1], get(s, I.ops[1]), NINF, (i128)a.hi - 1, depth);
  case LLVMIntSGE: if (ss && !relAdd(s, b.sym, a.sym, -k)) return false; return meetCmp(f, s, I.ops[0], get(s, I.ops[0]), b.lo, PINF, depth) && meetCmp(f, s, I.ops[1], get(s, I.ops[1]), NINF, a.hi, depth);
  }
  return true;
}

// ---------------------------------------------------------------- calls
static vector<State> execFn(int fi, const vector<Val> &args, State &&in);
struct Timeout {};
struct Fatal { string msg; };

static void useCheck(const Inst &I, Val &v, const char *what) { check(I, "uninit"); if (v.undef) { alarm_(I, "uninit", string("use of an uninitialised value as ") + what); v.undef = false; } }
static string cstr(const Val &v) { string r; if (v.k == K_PTR && v.obj >= 0 && v.obj < NG && GCONST[v.obj]) { Ref<Obj> &o = GOBJ[v.obj]; for (i64 i = v.lo; i < o->size; i++) { Val c = objLoad(*o, i, {K_INT, 8, 1}); if (!isConstInt(c) || c.lo == 0) break; r += (char)c.lo; } } return r; }
static void dumpVal(const Val &v, FILE *o) {
  switch (v.k) { case K_NONE: fprintf(o, "-"); break; case K_INT: fprintf(o, "i%d[%lld,%lld]%%%lld", v.w, (long long)v.lo, (long long)v.hi, (long long)v.st); break; case K_FLT: fprintf(o, "f%d[%g,%g]%s", v.w, v.flo, v.fhi, v.nan ? "?nan" : ""); break; case K_PTR: fprintf(o, "p%s(%d:[%lld,%lld])", v.nul ? "?" : "", v.obj, (long long)v.lo, (long long)v.hi); break; }
  if (v.undef) fprintf(o, "?U"); if (v.sym >= 0) fprintf(o, "{s%d%+lld}", v.sym, (long long)v.symc);
}

static Val mathFn(const Inst &I, const string &n, vector<Val> &a, bool &ok) {
  ok = true; int w = I.ty.w; bool undef = false; for (auto &x : a) undef |= x.undef; Val r = mkFltTop(w);
  auto base = n; if (base.rfind("llvm.", 0) == 0) { base = base.substr(5); size_t p = base.find('.'); if (p != string::npos) base = base.substr(0, p); } else if (base.size() > 1 && base.back() == 'f' && base != "erf") base.pop_back();
  auto mono = [&](double (*f)(double)) { r = mkFlt(w, rnd(f(a[0].flo), w), rnd(f(a[0].fhi), w), a[0].nan); };
  if (I.ty.k == K_FLT && !a.empty() && a[0].k == K_FLT) {
    if (base == "fabs") { double l = a[0].flo, h = a[0].fhi; r = mkFlt(w, l <= 0 && h >= 0 ? 0 : std::min(std::fabs(l), std::fabs(h)), std::max(std::fabs(l), std::fabs(h)), a[0].nan); }
    else if (base == "sqrt") { r = mkFlt(w, rnd(std::sqrt(std::max(a[0].flo, 0.)), w), rnd(std::sqrt(std::max(a[0].fhi, 0.)), w), a[0].nan || a[0].flo < 0); }
    else if (base == "floor") mono(std::floor); else if (base == "ceil") mono(std::ceil); else if (base == "round") mono(std::round); else if (base == "trunc") mono(std::trunc); else if (base == "rint" || base == "nearbyint") mono(std::nearbyint); else if (base == "roundeven") mono(std::nearbyint);
    else if ((base == "maxnum" || base == "fmax") && a.size() == 2) { // NaN operands are dropped
      const Val &x = a[0], &y = a[1]; double lo = std::max(x.flo, y.flo), hi = std::max(x.fhi, y.fhi); if (x.nan) lo = std::min(lo, y.flo); if (y.nan) lo = std::min(lo, x.flo); r = mkFlt(w, lo, hi, x.nan && y.nan); }
    else if ((base == "minnum" || base == "fmin") && a.size() == 2) { const Val &x = a[0], &y = a[1]; double lo = std::min(x.flo, y.flo), hi = std::min(x.fhi, y.fhi); if (x.nan) hi = std::max(hi, y.fhi); if (y.nan) hi = std::max(hi, x.fhi); r = mkFlt(w, lo, hi, x.nan && y.nan); }
    else if (base == "fmuladd" || base == "fma") { Inst J = I; J.op = LLVMFMul; J.ops = {I.ops[0], I.ops[1]}; Val m = fltOp(J, a[0], a[1]); J.op = LLVMFAdd; J.ops.clear(); r = fltOp(J, m, a[2]); }
    else if (base == "copysign") { double h = std::max(std::fabs(a[0].flo), std::fabs(a[0].fhi)); r = mkFlt(w, -h, h, a[0].nan); }
    else if (base == "cos" || base == "sin") r = mkFlt(w, -1, 1, a[0].nan || std::isinf(a[0].flo) || std::isinf(a[0].fhi));
    else if (base == "log10" || base == "log2" || base == "log" || base == "pow" || base == "exp" || base == "exp2" || base == "atan" || base == "tan") { if ((base == "log10") && a[0].flo > 0) r = mkFlt(w, rnd(std::nextafter(log10(a[0].flo), -INFINITY), w), rnd(log10(a[0].fhi), w), a[0].nan); }
    else ok = false;
  } else if (I.ty.k == K_INT && a.size() >= 1 && a[0].k == K_INT && n.rfind("llvm.", 0) == 0) {
    if (base == "abs") { i64 l = a[0].lo, h = a[0].hi; i64 m = std::max(l == wmin(w) ? wmax(w) : std::llabs(l), std::llabs(h)); r = mkInt(w, l <= 0 && h >= 0 ? 0 : std::min(std::llabs(l), std::llabs(h)), m); }
    else if (base == "smax") r = mkInt(w, std::max(a[0].lo, a[1].lo), std::max(a[0].hi, a[1].hi)); else if (base == "smin") r = mkInt(w, std::min(a[0].lo, a[1].lo), std::min(a[0].hi, a[1].hi));
    else if (base == "ctlz" && a[0].lo >= 0) { auto lz = [&](i64 x) { int k = 0; while (k < w && !(x >> (w - 1 - k) & 1)) k++; return k; }; r = mkInt(w, lz(a[0].hi), lz(a[0].lo)); }
    else if (base == "ctlz" || base == "cttz" || base == "ctpop") r = mkInt(w, 0, w);
    else if (base == "expect") r = a[0];
    else if (base == "umin" || base == "umax") r = (a[0].lo >= 0 && a[1].lo >= 0) ? (base == "umin" ? mkInt(w, std::min(a[0].lo, a[1].lo), std::min(a[0].hi, a[1].hi)) : mkInt(w, std::max(a[0].lo, a[1].lo), std::max(a[0].hi, a[1].hi))) : mkIntTop(w);
    else if (base == "bswap" || base == "fshl" || base == "fshr") r = mkIntTop(w);
    else ok = false;
  } else if (base == "abs" && a.size() == 1 && a[0].k == K_INT) { i64 l = a[0].lo, h = a[0].hi; i64 m = std::max(l == wmin(w) ? wmax(w) : std::llabs(l), std::llabs(h)); r = mkInt(w, l <= 0 && h >= 0 ? 0 : std::min(std::llabs(l), std::llabs(h)), m); }
  else ok = false;
  if (base == "expect" && !a.empty()) { r = a[0]; ok = true; }
  r.undef = undef; return r;
}

// returns false if not an intrinsic
static bool intrinsic(const Fn &f, State &s, const Inst &I, vector<Val> &a, vector<State> &extra, bool &dead) {
  const string &n = I.callee; dead = false;
  if (n.rfind("ai_", 0) == 0) {
    if (n == "ai_int" || n == "ai_long") { setv(s, I, mkInt(I.ty.w, a[0].lo, a[1].hi)); return true; }
    if (n == "ai_step") { setv(s, I, mkInt(I.ty.w, a[0].lo, a[1].hi, a[2].lo)); return true; }
    if (n == "ai_bits") { int w = (int)a[0].lo, k = I.ty.w; if (a[0].lo != a[0].hi || w < 1 || w > k) throw Fatal{"ai_bits"}; vector<int> z(k, 0);
      for (int i = 0; i < w; i++) z[i] = 2 + BVSRC * 64 + i; BVSRC++; Val v = w == k ? mkIntTop(k) : mkInt(k, 0, (1LL << w) - 1); setBits(v, z); setv(s, I, v); return true; }
    if (n == "ai_uint") { setv(s, I, mkIntTop(I.ty.w)); return true; }
    if (n == "ai_bool" || n == "ai_history") { setv(s, I, mkInt(I.ty.w, 0, 1)); return true; }
    if (n == "ai_float") { Val v = mkFlt(I.ty.w, a[0].flo, a[1].fhi); setv(s, I, v); return true; }
    if (n == "ai_anyfloat") { setv(s, I, mkFltTop(I.ty.w)); return true; }
    if (n == "ai_ptrany") { setv(s, I, topOf(I.ty, false)); return true; }
    if (n == "ai_object" || n == "ai_bytes") {
      int id = (int)(STACK.back().second); (void)id;
      int oid = (int)s.env[f.nslots].lo + I.slotObj; Fill fl = n == "ai_bytes" ? F_ANY : F_UNDEF; Val sz = a[0];
      if (sz.k != K_INT || sz.hi > (1 << 26)) throw Fatal{"object size too large"};
      i64 m = std::max<i64>(sz.hi, 0); Ref<Obj> o = newObj(m, fl); o->size = std::max<i64>(sz.lo, 0); o->maxsize = m;
      if (sz.lo != sz.hi) { int sym; i64 c = 0; if (sz.sym >= 0 && sz.symc == 0) sym = sz.sym; else { sym = newSym(s, sz.lo, sz.hi); 
            // attach the symbol to the argument and what it was extended from
            Opd x = I.ops[0]; while (x.slot >= 0) { s.env[x.slot].sym = sym; s.env[x.slot].symc = c; auto d = f.def[x.slot]; if (d.first < 0 || d.second < 0) break; const Inst &J = f.bl[d.first].insts[d.second]; if (J.op == LLVMSExt || J.op == LLVMZExt) x = J.ops[0]; else break; } }
        o->sizeSym = sym; }
      s.mem[oid] = o; setv(s, I, mkPtr(oid, 0, 0)); return true; }
    auto objOf = [&](const Val &p) -> Ref<Obj> * { if (p.k != K_PTR || p.obj < 0 || p.obj >= FBASE || p.more >= 0) return nullptr; if (p.obj < NG && GCONST[p.obj]) return nullptr; return &s.mem[p.obj]; };
    if (n == "ai_readonly" || n == "ai_writable") { if (auto o = objOf(a[0])) o->own()->readonly = n == "ai_readonly"; return true; }
    if (n == "ai_freeze" || n == "ai_unfreeze") { if (auto o = objOf(a[0])) o->own()->frozen = n == "ai_freeze"; return true; }
    if (n == "ai_keep") { if (auto o = objOf(a[0])) o->own()->keep = true; return true; }
    if (n == "ai_unroll") { OPT_unroll = a[0].lo; return true; }
    if (n == "ai_rel") { if (auto o = objOf(a[0])) o->own()->rel = true; return true; }
    if (n == "ai_undef") { Val u = mkIntTop(8); u.undef = true; memFill(s, I, a[0], u, a[1]); return true; }
    if (n == "ai_forkload") { OPT_forkload = a[0].lo; return true; }
    if (n == "ai_partition") { s.region = (uint8_t)a[0].lo; if (!s.region) s.alias.clear(); return true; }
    if (n == "ai_counters") { COUNTERS = a[0].lo != 0; return true; }
    if (n == "ai_any") { memFill(s, I, a[0], mkIntTop(8), a[1]); return true; }
    if (n == "ai_assert") { check(I, "assert"); if (a[0].undef) alarm_(I, "assert", cstr(a[1]) + " (depends on uninitialised data)"); else if (!(a[0].k == K_INT && (a[0].lo > 0 || a[0].hi < 0))) alarm_(I, "assert", cstr(a[1])); return true; }
    if (n == "ai_reach") { check(I, "assert"); alarm_(I, "assert", cstr(a[0])); return true; }
    if (n == "ai_assume") { if (isConstInt(a[0]) && a[0].lo == 0) { dead = true; return true; }
      if (I.ops[0].slot >= 0) { auto d = f.def[I.ops[0].slot]; Opd c = I.ops[0]; if (d.first >= 0 && d.second >= 0) { const Inst &J = f.bl[d.first].insts[d.second]; if (J.op == LLVMZExt) c = J.ops[0]; } if (!refineCond(f, s, c, true, 0)) dead = true; } return true; }
    if (n == "ai_defined") { check(I, "uninit"); Val p = a[0]; if (p.k == K_PTR && p.obj >= 0 && p.more < 0 && a[1].k == K_INT) { Ref<Obj> *o = objOf(p); if (o && p.lo >= 0) { vector<Piece> ps; if (p.hi + a[1].hi > (*o)->size) alarm_(I, "assert", cstr(a[2]) + " (beyond the end of the object)"); i64 len = std::min<i64>(a[1].hi + (p.hi - p.lo), (*o)->maxsize - p.lo); objPieces(**o, p.lo, len, ps); for (auto &x : ps) if (x.isCell ? x.v.undef : x.fill == F_UNDEF) { alarm_(I, "assert", cstr(a[2]) + " (byte " + std::to_string(x.off - p.lo) + ")"); break; } } } else alarm_(I, "assert", cstr(a[2]) + " (cannot resolve)"); return true; }
    if (n == "ai_splitobj") { // a state for each value of the integers of the object with few possible values
      vector<State> sts; sts.push_back(s); Ref<Obj> *o = objOf(a[0]); if (o && a[0].lo == 0 && a[0].hi == 0) { vector<Piece> ps; objPieces(**o, 0, (*o)->maxsize, ps); int oid = a[0].obj;
        for (auto &x : ps) if (x.isCell && x.v.k == K_INT && !x.v.undef && x.v.w == 32 && x.v.lo < x.v.hi) { i64 st = std::max<i64>(x.v.st, 1), cnt = (x.v.hi - x.v.lo) / st + 1; if (cnt > a[1].lo || cnt * (i64)sts.size() > 256) continue;
          vector<State> nx; for (auto &t : sts) for (i64 k = 0; k < cnt; k++) { State u = t; i64 v = x.v.lo + k * st; objStore(u.mem[oid], x.off, 4, mkInt(32, v, v)); u.part = u.part * 1000003 + (u64)v + 77 + x.off * 131; nx.push_back(std::move(u)); } sts.swap(nx); } }
      if (sts.size() > 1) { for (auto &t : sts) extra.push_back(std::move(t)); dead = true; } return true; }
    if (n == "ai_noptr") { check(I, "assert"); Val p = a[0]; Ref<Obj> *o = objOf(p); if (o && p.lo == p.hi && p.lo >= 0) { vector<Piece> ps; objPieces(**o, p.lo, std::min<i64>(a[1].hi, (*o)->maxsize - p.lo), ps); for (auto &x : ps) if (x.isCell && x.v.k == K_PTR && (x.v.obj >= 0 || x.v.more >= 0)) { alarm_(I, "assert", cstr(a[2]) + " (byte " + std::to_string(x.off - p.lo) + ")"); break; } } else alarm_(I, "assert", cstr(a[2]) + " (cannot resolve)"); return true; }
    if (n == "ai_split" || n == "ai_splitall") { if (a[0].k == K_INT && a[0].lo < a[0].hi) { i64 st = std::max<i64>(a[0].st, 1), cnt = (a[0].hi - a[0].lo) / st + 1; if (cnt <= (n == "ai_split" ? 64 : 4096)) { for (i64 k = 0; k < cnt; k++) { State t = s; i64 x = a[0].lo + k * st; if (I.ops[0].slot >= 0 && !refineSlot(f, t, I.ops[0], mkInt(a[0].w, x, x), 0)) continue; if (I.dst >= 0) t.env[I.dst] = mkInt(I.ty.w, x, x); t.part = t.part * 1000003 + (u64)x + 77 + I.id * 131; extra.push_back(std::move(t)); } dead = true; return true; } } setv(s, I, a[0]); return true; }
    if (n == "ai_merge") { s.part = 0; return true; }
    if (n == "ai_dump" || n == "ai_dumpf") { fprintf(stderr, "dump %s: ", CFG.c_str()); for (auto &x : a) { dumpVal(x, stderr); fputc(' ', stderr); } fputc('\n', stderr); return true; }
    if (n == "ai_dumpmem") { Ref<Obj> *o = objOf(a[0]); if (o) { vector<Piece> ps; objPieces(**o, a[0].lo, std::min<i64>(a[1].lo, (*o)->maxsize - a[0].lo), ps); for (auto &p : ps) { fprintf(stderr, "  +%lld:", (long long)p.off); if (p.isCell) dumpVal(p.v, stderr); else fprintf(stderr, "fill%d(%lld)", p.fill, (long long)p.len); } fputc('\n', stderr); } return true; }
    throw Fatal{"unknown intrinsic " + n};
  }
  if (n.rfind("llvm.memset", 0) == 0 || n == "memset") { memFill(s, I, a[0], a[1], a[2]); if (I.dst >= 0) setv(s, I, a[0]); return true; }
  if (n.rfind("llvm.memcpy", 0) == 0 || n.rfind("llvm.memmove", 0) == 0 || n == "memcpy" || n == "memmove") { memCopy(s, I, a[0], a[1], a[2]); if (I.dst >= 0) setv(s, I, a[0]); return true; }
  if (n.rfind("llvm.stacksave", 0) == 0) { setv(s, I, mkNull()); return true; } if (n.rfind("llvm.stackrestore", 0) == 0 || n.rfind("llvm.va_", 0) == 0 || n == "llvm.trap") return true;
  if (n.find(".with.overflow.") != string::npos) return false;
  bool ok; Val r = mathFn(I, n, a, ok); if (ok) { setv(s, I, r); return true; }
  return false;
}

// ---------------------------------------------------------------- execution
struct Frame { vector<long> pushes; int fi; vector<vector<State>> pend; vector<State> rets; };

static Val castVal0(State &s, const Inst &I, Val v);
static Val castVal(State &s, const Inst &I, Val v) {
  Val r = castVal0(s, I, v); int w = I.ty.w; if (I.op != LLVMBitCast) r.bv = -1;
  if (!BVSRC || v.bv < 0 || v.k != K_INT || r.k != K_INT || w > 64) return r;
  if (I.op == LLVMZExt || I.op == LLVMSExt || I.op == LLVMTrunc) { vector<int> x = bitsOf(v, v.w), z(w, 0);
    for (int i = 0; i < w; i++) z[i] = i < (int)x.size() ? x[i] : I.op == LLVMSExt ? x.back() : 0; setBits(r, z); }
  return r;
}
static Val castVal0(State &s, const Inst &I, Val v) {
  bool undef = v.undef; Val r = topOf(I.ty, undef);
  switch (I.op) {
  case LLVMSExt: if (v.k == K_INT) { if (v.w == 1) r = mkInt(I.ty.w, v.hi ? -1 : 0, v.lo ? -1 : 0); else { r = mkInt(I.ty.w, v.lo, v.hi, v.st ? v.st : 1); r.sym = v.sym; r.symc = v.symc; } } break;
  case LLVMZExt: if (v.k == K_INT) { if (v.lo >= 0) { r = mkInt(I.ty.w, v.lo, v.hi, v.st ? v.st : 1); r.sym = v.sym; r.symc = v.symc; } else { i128 l, h; unsignedView(v, v.w, l, h); i64 st = 1; if (v.hi < 0) st = v.st ? v.st : 1; else if (v.st > 1 && (v.st & (v.st - 1)) == 0 && v.lo % v.st == 0) { st = v.st; h = h / st * st; } r = mkInt(I.ty.w, (i64)l, (i64)h, st); } } break;
  case LLVMTrunc: if (v.k == K_INT) { if (I.ty.w == 1) { if (v.lo == v.hi) r = mkInt(1, v.lo & 1, v.lo & 1); else if (v.st > 1 && v.st % 2 == 0) r = mkInt(1, v.lo & 1, v.lo & 1); else r = mkInt(1, 0, 1); }
      else { r = wrapInt(I.ty.w, v.lo, v.hi, v.st ? v.st : 1); if (v.lo >= wmin(I.ty.w) && v.hi <= wmax(I.ty.w)) { r.sym = v.sym; r.symc = v.symc; } else if (v.st > 1 && (v.st & (v.st - 1)) == 0 && v.st < (1LL << (I.ty.w - 1)) && v.lo % v.st == 0 && r.lo == wmin(I.ty.w)) { r.st = v.st; r.hi = wmax(I.ty.w) / v.st * v.st; normst(r); } } } break;
  case LLVMBitCast: r = convertVal(v, I.ty); break;
  case LLVMPtrToInt: case LLVMIntToPtr: if (v.k == K_PTR) { r = v; } else if (v.k == K_INT && v.lo == 0 && v.hi == 0) r = mkNull(); else if (v.k == K_INT && I.op == LLVMIntToPtr) r = topOf({K_PTR, 64, 8}, false); break;
  case LLVMSIToFP: if (v.k == K_INT) { r = mkFlt(I.ty.w, I.ty.w == 32 ? (double)(float)v.lo : (double)v.lo, I.ty.w == 32 ? (double)(float)v.hi : (double)v.hi); } break;
  case LLVMUIToFP: if (v.k == K_INT) { i128 l, h; unsignedView(v, v.w, l, h); r = mkFlt(I.ty.w, rnd((double)l, I.ty.w), rnd((double)h, I.ty.w)); } break;
  case LLVMFPExt: if (v.k == K_FLT) { r = v; r.w = I.ty.w; } break;
  case LLVMFPTrunc: if (v.k == K_FLT) { r = mkFlt(32, (double)(float)v.flo, (double)(float)v.fhi, v.nan); } break;
  case LLVMFPToSI: case LLVMFPToUI: if (v.k == K_FLT) {
      check(I, "fp-conversion"); bool un = I.op == LLVMFPToUI; double lim = std::ldexp(1.0, un ? I.ty.w : I.ty.w - 1);
      double lo = std::trunc(v.flo), hi = std::trunc(v.fhi); double mn = un ? 0 : -lim;
      if (v.nan || lo < mn || hi >= lim) { char b[160]; snprintf(b, sizeof b, "value in [%g, %g]%s does not fit the %d bit %s integer it is converted to", v.flo, v.fhi, v.nan ? " or NaN" : "", I.ty.w, un ? "unsigned" : "signed"); alarm_(I, "fp-conversion", b); }
      if (un) { r = fromUnsigned(I.ty.w, lo < 0 ? 0 : lo >= lim ? 0 : (i128)lo, hi >= lim ? ((i128)1 << I.ty.w) - 1 : hi < 0 ? 0 : (i128)hi); if (lo >= lim || hi < 0) r = mkIntTop(I.ty.w); }
      else { i64 L = lo < -lim ? wmin(I.ty.w) : lo >= lim ? wmax(I.ty.w) : (i64)lo, H = hi >= lim ? wmax(I.ty.w) : hi < -lim ? wmin(I.ty.w) : (i64)hi; r = mkInt(I.ty.w, L, H); if (lo >= lim || hi < -lim || v.nan) r = joinVal(r, mkIntTop(I.ty.w)); if (v.nan) r = mkIntTop(I.ty.w); } } break;
  default: break;
  }
  r.undef = undef || r.undef; return r;
}

// an arithmetic operand that is the undecided result of a comparison of the
// other operand: `x + (x < c)`
static bool boolOperand(const Fn &f, State &s, const Inst &I, Opd &bc) {
  for (int k = 0; k < 2; k++) {
    Opd o = I.ops[k], other = I.ops[1 - k]; if (o.slot < 0 || other.slot < 0) continue;
    const Val &v = s.env[o.slot]; if (v.k != K_INT || v.lo == v.hi || v.lo < -1 || v.hi > 1) continue;
    auto d = f.def[o.slot]; if (d.first < 0 || d.second < 0) continue; const Inst &J = f.bl[d.first].insts[d.second];
    if (J.op != LLVMZExt && J.op != LLVMSExt) continue; Opd c = J.ops[0]; if (c.slot < 0) continue;
    auto e = f.def[c.slot]; if (e.first < 0 || e.second < 0) continue; const Inst &C = f.bl[e.first].insts[e.second];
    if (C.op != LLVMICmp) continue; if (s.env[c.slot].undef) continue;
    if (C.ops[0].slot == other.slot || C.ops[1].slot == other.slot) { bc = c; return true; }
  }
  return false;
}
static void fixBool(const Fn &f, State &s, const Inst &I, Opd bc, int truth) {
  for (int k = 0; k < 2; k++) { Opd o = I.ops[k]; if (o.slot < 0) continue; auto d = f.def[o.slot]; if (d.first < 0 || d.second < 0) continue; const Inst &J = f.bl[d.first].insts[d.second];
    if ((J.op == LLVMZExt || J.op == LLVMSExt) && J.ops[0].slot == bc.slot) { i64 x = truth ? (J.op == LLVMSExt ? -1 : 1) : 0; bool u = s.env[o.slot].undef; s.env[o.slot] = mkInt(J.ty.w, x, x); s.env[o.slot].undef = u; } }
}

static bool isOr(const Fn &f, Opd o) {
  if (o.slot < 0) return false; auto d = f.def[o.slot]; if (d.first < 0 || d.second < 0) return false; const Inst &I = f.bl[d.first].insts[d.second];
  return I.op == LLVMOr && I.ops[0].slot >= 0 && I.ops[1].slot >= 0;
}
static void goTo(Frame &fr, State &&s, int from, int to) {
  const Fn &f = FNS[fr.fi]; const Block &B = f.bl[to];
  for (size_t i = 0; i < s.tok.size();) { auto &x = s.tok[i]; if (x.depth == (int)STACK.size() && x.loop >= 0 && (to == f.loops[x.loop].header || !f.loops[x.loop].in[to])) s.tok.erase(s.tok.begin() + i); else i++; }
  if (!B.phis.empty()) { vector<Val> nv; nv.reserve(B.phis.size()); for (auto &p : B.phis) { size_t k = 0; while (k < p.blocks.size() && p.blocks[k] != from) k++; nv.push_back(get(s, p.ops[k])); } for (size_t i = 0; i < nv.size(); i++) s.env[B.phis[i].dst] = nv[i]; }
  if (s.region > 1) {
    int l = B.loop >= 0 && f.loops[B.loop].header == to ? B.loop : -1;
    auto inLoop = [&](int slot) { int b = f.def[slot].first; return l >= 0 && b >= 0 && f.loops[l].in[b]; };
    vector<pair<int,int>> n; for (auto &x : s.alias) if (!inLoop(x.first) && !inLoop(x.second)) n.push_back(x);
    for (auto &p : B.phis) if (p.ty.k == K_INT) { size_t k = 0; while (k < p.blocks.size() && p.blocks[k] != from) k++; int o = p.ops[k].slot; if (o >= 0 && !inLoop(o) && s.env[o].k == K_INT && s.env[o].lo < s.env[o].hi) n.push_back({p.dst, o}); }
    for (int x : f.dead2[to]) n.erase(std::remove_if(n.begin(), n.end(), [&](const pair<int,int> &y) { return y.first == x || y.second == x; }), n.end());
    std::sort(n.begin(), n.end()); s.alias = std::move(n);
  }
  // a block that only branches on the outcome of a short-circuit: keep the ways to reach it apart
  if (B.insts.size() == 1 && B.insts[0].op == LLVMBr && B.insts[0].ops.size() == 1 && !(B.loop >= 0 && f.loops[B.loop].header == to)) {
    const Inst &I = B.insts[0]; for (auto &p : B.phis) if (p.dst == I.ops[0].slot) {
      size_t k = 0; while (k < p.blocks.size() && p.blocks[k] != from) k++; Val c = get(s, p.ops[k]); if (c.k != K_INT || c.undef) break;
      for (int x : s.region > 1 ? f.dead2[to] : f.dead[to]) if (x != p.ops[k].slot) s.env[x] = Val();
      for (int truth = 1; truth >= 0; truth--) { if (c.lo == c.hi && (c.lo != 0) != truth) continue; State t = s; if (!refineCond(f, t, p.ops[k], truth, 0)) continue; t.env[p.dst] = mkInt(1, truth, truth); goTo(fr, std::move(t), to, I.blocks[truth ? 0 : 1]); }
      return; } }
  // likewise for a comparison of the value reached with a constant, that bounds the value it comes from
  if (B.insts.size() == 2 && B.insts[0].op == LLVMICmp && B.insts[0].ops[0].slot >= 0 && B.insts[0].ops[1].slot < 0 && B.insts[1].op == LLVMBr && B.insts[1].ops.size() == 1 && B.insts[1].ops[0].slot == B.insts[0].dst && !(B.loop >= 0 && f.loops[B.loop].header == to)) {
    const Inst &I = B.insts[0], &J = B.insts[1]; for (auto &p : B.phis) if (p.dst == I.ops[0].slot) {
      size_t k = 0; while (k < p.blocks.size() && p.blocks[k] != from) k++; Val c = get(s, p.ops[k]); Opd o = p.ops[k]; if (s.region > 1 || o.slot < 0 || c.k != K_INT || c.undef || c.lo == c.hi) break;
      State u = s; { for (int x : f.dead[to]) if (x != o.slot) u.env[x] = Val(); int r = cmpI(u, I.pred, c, get(u, I.ops[1]), I.opty.w ? I.opty.w : 64); Val cv = mkInt(1, r == 1 ? 1 : 0, r == 0 ? 0 : 1); u.env[I.dst] = cv;
        for (int truth = 1; truth >= 0; truth--) { if (cv.k == K_INT && cv.lo == cv.hi && (cv.lo != 0) != truth) continue; State t = u; if (!refineCond(f, t, J.ops[0], truth, 0)) continue; Val n = get(t, I.ops[0]); if (n.k == K_INT && !refineSlot(f, t, o, n, 0)) continue; t.env[I.dst] = mkInt(1, truth, truth); goTo(fr, std::move(t), to, J.blocks[truth ? 0 : 1]); }
        return; } } }
  for (int x : s.region > 1 ? f.dead2[to] : f.dead[to]) s.env[x] = Val();
  // values selected together, out of a loop
  if (OPT_forkload && B.loop < 0 && std::count_if(B.phis.begin(), B.phis.end(), [](const auto &p) { return p.ty.k == K_INT; }) >= 2) s.tok.push_back({(int)STACK.size(), -1, (u64)1 << 63 | (u64)to << 20 | (u64)from});
  if (OPT_undecided && (int)fr.pushes.size() > to) fr.pushes[to]++;
  pushState(fr.pend[to], std::move(s));
}

// The comparison that ends a block bounds x; x + c, computed before it, follows
static void refineNext(const Block &B, State &t) {
  for (int j : B.next) { const Inst &J = B.insts[j]; Val &r = t.env[J.dst]; bool gep = J.op == LLVMGetElementPtr; Val x = get(t, J.ops[0]); i64 c = J.cst;
    if (!gep) { Val k = get(t, J.ops[1]); if (k.k != K_INT || k.lo != k.hi) continue; c = J.op == LLVMSub ? -k.lo : k.lo; if (x.k != K_INT || r.k != K_INT || !J.nsw || x.w > 64) continue; }
    else if (x.k != K_PTR || r.k != K_PTR || x.obj != r.obj || x.more >= 0 || r.more >= 0) continue;
    if (r.undef || x.undef) continue; i128 lo = (i128)x.lo + c, hi = (i128)x.hi + c;
    if (r.lo >= r.hi || lo <= r.lo && hi >= r.hi) continue; i64 st = std::max<i64>(r.st, 1), L = lo > r.lo ? (i64)lo : r.lo, H = hi < r.hi ? (i64)hi : r.hi;
    L = r.lo + (L - r.lo + st - 1) / st * st; H = r.lo + (H - r.lo) / st * st; if (L <= H) { r.lo = L; r.hi = H; normst(r); } }
}
// executes the instructions of a block from index ip
// In a partitioned region, tell apart the few values of a related operand
static bool forkSmall(const Fn &f, State &s, const Inst &I, int k, vector<pair<State, size_t>> &work, size_t ip) {
  if (s.region < 2 || I.ops[k].slot < 0) return false;
  Val x = get(s, I.ops[k]);
  if (0) { fprintf(stderr, "fork? %s:%d k%d ", f.name.c_str(), I.line, k); dumpVal(x, stderr); fputc(10, stderr); }
  if (x.k != K_INT || x.sym < 0 || x.undef || x.lo >= x.hi || x.st < 1 || (u64)(x.hi - x.lo) / x.st >= 8) return false;
  for (i64 c = x.lo; c <= x.hi; c += x.st) { State t = s; Val r = x; r.lo = r.hi = c; r.st = 0; if (!refineSlot(f, t, I.ops[k], r, 0)) continue; Val n = get(t, I.ops[k]); if (n.lo != n.hi) t.env[I.ops[k].slot] = mkInt(x.w, c, c); work.push_back({std::move(t), ip}); }
  return true;
}
static void runBlock(Frame &fr, int b, State &&s0) {
  const Fn &f = FNS[fr.fi]; const Block &B = f.bl[b]; if (OPT_profile) PROF[f.name] += B.insts.size();
  vector<pair<State, size_t>> work; work.push_back({std::move(s0), 0});
  while (!work.empty()) {
    State s = std::move(work.back().first); size_t ip = work.back().second; work.pop_back(); bool alive = true;
    for (; alive && ip < B.insts.size(); ip++) {
      const Inst &I = B.insts[ip]; STEPS++; if ((STEPS & 0xffff) == 0) { double t = now(); if (t - T0 > OPT_timeout) throw Timeout(); if (TALARM > 0 && t - TALARM > OPT_grace) throw Fatal{"stopped after alarms"}; }
      STACK.back().second = I.line; CURS = &s;
      switch (I.op) {
      case LLVMRet: { while (s.tok.size() && s.tok.back().depth >= (int)STACK.size()) s.tok.pop_back(); s.ret = I.ops.empty() ? Val() : get(s, I.ops[0]); s.ret.sym = s.ret.sym; int base = (int)s.env[f.nslots].lo; s.mem.resize(base); s.env.clear(); pushState(fr.rets, std::move(s)); alive = false; break; }
      case LLVMUnreachable: alive = false; break;
      case LLVMBr: {
        if (I.ops.empty()) { goTo(fr, std::move(s), b, I.blocks[0]); alive = false; break; }
        Val c = get(s, I.ops[0]); useCheck(I, c, "branch condition");
        if (c.k == K_INT && c.lo == c.hi) { goTo(fr, std::move(s), b, I.blocks[c.lo ? 0 : 1]); alive = false; break; }
        State t = s; if (refineCond(f, t, I.ops[0], true, 0)) { refineNext(B, t); goTo(fr, std::move(t), b, I.blocks[0]); } if (refineCond(f, s, I.ops[0], false, 0)) { refineNext(B, s); goTo(fr, std::move(s), b, I.blocks[1]); } alive = false; break; }
      case LLVMSwitch: {
        Val c = get(s, I.ops[0]); useCheck(I, c, "switch value"); bool dflt = true;
        if (c.k == K_INT) {
          for (size_t k = 0; k < I.cases.size(); k++) { i64 x = I.cases[k]; if (x < c.lo || x > c.hi || (c.st > 1 && (x - c.lo) % c.st)) continue; State t = s; if (!refineSlot(f, t, I.ops[0], mkInt(c.w, x, x), 0)) continue; goTo(fr, std::move(t), b, I.blocks[k + 1]); if (c.lo == c.hi) { dflt = false; break; } }
          if (dflt) { i64 lo = c.lo, hi = c.hi; bool ch = true; i64 st = std::max<i64>(c.st, 1); while (ch && lo <= hi) { ch = false; for (i64 x : I.cases) { if (x == lo) { lo += st; ch = true; } if (x == hi && lo <= hi) { hi -= st; ch = true; } } } if (lo > hi) dflt = false; else if (!refineSlot(f, s, I.ops[0], mkInt(c.w, lo, hi, st), 0)) dflt = false; }
        }
        if (dflt) goTo(fr, std::move(s), b, I.blocks[0]); alive = false; break; }
      case LLVMAlloca: { int id = (int)s.env[f.nslots].lo + I.slotObj; Val n = get(s, I.ops[0]); i64 cnt = n.k == K_INT ? n.hi : 1; if (n.k == K_INT && n.lo != n.hi && cnt > (1 << 20)) throw Fatal{"alloca too large"}; s.mem[id] = newObj(I.cst * cnt, F_UNDEF); if (n.lo != n.hi) s.mem[id]->size = I.cst * std::max<i64>(n.lo, 0); setv(s, I, mkPtr(id, 0, 0)); break; }
      case LLVMLoad: { Val p = get(s, I.ops[0]); if (I.ty.k == K_NONE) throw Fatal{"aggregate load"}; setv(s, I, loadVal(s, I, p, I.ty));
        if (OPT_forkload && I.dst >= 0 && I.ty.k == K_INT && (I.ty.w == 32 || I.ty.w == 8)) { Val v = s.env[I.dst]; i64 st = std::max<i64>(v.st, 1); if (v.k == K_INT && !v.undef && (I.ty.w == 8 ? v.lo == 0 && v.hi == 1 : (v.hi - v.lo) / st >= 2) && (v.hi - v.lo) / st < OPT_forkload) {
          bool one = p.k == K_PTR && p.obj >= 0 && p.more < 0 && p.lo == p.hi && p.obj < FBASE && !(p.obj < NG && GCONST[p.obj]);
          for (i64 c = v.lo; c <= v.hi; c += st) { State t = s; Val n = mkInt(I.ty.w, c, c); setv(t, I, n); if (one) objStore(t.mem[p.obj], p.lo, I.ty.w / 8, n); t.tok.push_back({(int)STACK.size(), -1, (u64)I.id << 20 | (u64)(c - v.lo)}); work.push_back({std::move(t), ip + 1}); }
          alive = false; } }
        break; }
      case LLVMStore: { Val v = get(s, I.ops[0]), p = get(s, I.ops[1]); if (I.opty.k == K_NONE) throw Fatal{"aggregate store"};
        if (I.ops[0].slot >= 0 && v.sym < 0 && v.k == K_INT && v.lo < v.hi && !v.undef && p.k == K_PTR && p.obj >= 0 && p.obj < (int)s.mem.size() && p.more < 0 && s.mem[p.obj] && (s.mem[p.obj]->rel || OPT_relall || I.compared && v.hi - v.lo <= 64)) { v.sym = newSym(s, v.lo, v.hi); v.symc = 0; s.env[I.ops[0].slot] = v; }
        storeVal(s, I, p, I.opty, v); break; }
      case LLVMGetElementPtr: {
        Val p = get(s, I.ops[0]); Val off = mkInt(64, I.cst, I.cst); int sub = -2;
        if (I.subn >= 0 && p.k == K_PTR && p.obj >= 0 && p.more < 0) { i64 base = p.lo + I.subc; sub = -1; bool ok = p.lo == p.hi;
          for (int q = 0; ok && q < I.subn; q++) { Val x = get(s, I.gep[q].o); if (x.k == K_INT && x.lo == x.hi) base += x.lo * I.gep[q].scale; else ok = false; } if (ok) sub = internSub(base, base + I.subsz); }
        for (auto &g : I.gep) { Val x = get(s, g.o); if (x.k != K_INT) { off = mkIntTop(64); off.undef = x.undef; continue; }
          if (g.limit >= 0) { check(I, "array-index"); if (!x.undef && (x.lo < 0 || x.hi > g.limit)) alarm_(I, "array-index", "index in [" + std::to_string(x.lo) + ", " + std::to_string(x.hi) + "] for an array of " + std::to_string(g.limit) + " elements"); }
          if (g.scale == 0) continue;
          i128 lo = (i128)off.lo + (i128)x.lo * g.scale, hi = (i128)off.hi + (i128)x.hi * g.scale; i128 L = (i128)1 << 50; lo = std::max(lo, -L); hi = std::min(hi, L); bool u = off.undef || x.undef; int sym = -1; i64 symc = 0;
          if (g.scale == 1 && x.sym >= 0 && off.lo == off.hi) { sym = x.sym; symc = x.symc + off.lo; }
          i64 st = gcd64(off.st, x.st * g.scale); off = mkInt(64, (i64)lo, (i64)hi, st ? st : 1); off.undef = u; off.sym = sym; off.symc = symc; }
        Val q = ptrAdd(s, p, off); if (sub > -2 && q.k == K_PTR) q.sub = sub; setv(s, I, q); break; }
      case LLVMTrunc: if (forkSmall(f, s, I, 0, work, ip)) { alive = false; break; } setv(s, I, castVal(s, I, get(s, I.ops[0]))); break;
      case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMSDiv: case LLVMSRem: case LLVMUDiv: case LLVMURem: case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor:
        if (I.op == LLVMMul || I.op == LLVMShl) { if (forkSmall(f, s, I, 1, work, ip) || forkSmall(f, s, I, 0, work, ip)) { alive = false; break; } }
        if (s.region && (I.op == LLVMAShr || I.op == LLVMLShr || I.op == LLVMSDiv || I.op == LLVMUDiv) && I.ops[0].slot >= 0) { // partition on a small quotient
          Val a = get(s, I.ops[0]), b = get(s, I.ops[1]); if (a.k == K_INT && !a.undef && b.k == K_INT && b.lo == b.hi && b.lo > 0 && a.lo >= 0 && a.lo < a.hi && (I.op == LLVMSDiv || I.op == LLVMUDiv || b.lo < 32)) {
            i64 q = (I.op == LLVMSDiv || I.op == LLVMUDiv) ? b.lo : 1LL << b.lo, l = a.lo / q, h = a.hi / q; if (h > l && h - l < 8) {
              for (i64 x = l; x <= h; x++) { State t = s; Val r = a; r.lo = std::max(a.lo, x * q); r.hi = std::min(a.hi, x * q + q - 1); r.st = 1; if (a.st > 1) { r.lo = a.lo + (r.lo - a.lo + a.st - 1) / a.st * a.st; r.hi = a.lo + (r.hi - a.lo) / a.st * a.st; r.st = a.st; if (r.lo > r.hi) continue; } normst(r);
                if (!refineSlot(f, t, I.ops[0], r, 0)) continue; setv(t, I, mkInt(I.ty.w, x, x)); work.push_back({std::move(t), ip + 1}); }
              alive = false; break; } } }
        if ((I.op == LLVMLShr || I.op == LLVMAShr) && isOr(f, I.ops[0])) { // cases on the number of bits of a|b
          Val a = get(s, I.ops[0]), b = get(s, I.ops[1]); if (a.k == K_INT && !a.undef && isConstInt(b) && b.lo >= 0 && b.lo < a.w && a.hi - a.lo >= 65536) {
            i128 al, ah; unsignedView(a, a.w, al, ah); i128 half = (i128)1 << (a.w - 1);
            for (int j = 0; j <= a.w; j++) { i128 l = j ? (i128)1 << (j - 1) : 0, h = ((i128)1 << j) - 1; l = std::max(l, al); h = std::min(h, ah); if (l > h) continue; State t = s;
              Val r = l < half ? mkInt(a.w, (i64)l, (i64)std::min(h, half - 1)) : mkInt(a.w, (i64)(l - 2 * half), (i64)(h - 2 * half)); if (!refineSlot(f, t, I.ops[0], r, 0)) continue;
              setv(t, I, intOp(t, I, get(t, I.ops[0]), get(t, I.ops[1]))); t.tok.push_back({(int)STACK.size(), B.loop, (u64)I.id << 20 | (u64)j}); work.push_back({std::move(t), ip + 1}); }
            alive = false; break; } }
        { Opd bc; if (boolOperand(f, s, I, bc)) { State t = s, e = s; bool a1 = refineCond(f, t, bc, true, 0), a2 = refineCond(f, e, bc, false, 0); Val v; bool have = false;
            if (a1) { fixBool(f, t, I, bc, 1); v = intOp(t, I, get(t, I.ops[0]), get(t, I.ops[1])); have = true; } if (a2) { fixBool(f, e, I, bc, 0); Val w = intOp(e, I, get(e, I.ops[0]), get(e, I.ops[1])); v = have ? joinVal(v, w) : w; have = true; }
            if (have) { v.sym = -1; setv(s, I, v); } else alive = false; break; }
          setv(s, I, intOp(s, I, get(s, I.ops[0]), get(s, I.ops[1]))); break; }
      case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem: setv(s, I, fltOp(I, get(s, I.ops[0]), get(s, I.ops[1]))); break;
      case LLVMFNeg: { Val v = get(s, I.ops[0]); Val r = v.k == K_FLT ? mkFlt(v.w, -v.fhi, -v.flo, v.nan) : mkFltTop(I.ty.w); r.undef = v.undef; setv(s, I, r); break; }
      case LLVMICmp: if (s.region > 1) for (int k = 0; k < 2; k++) { int o = I.ops[k].slot; if (o >= 0 && s.env[o].k == K_INT && s.env[o].w >= 8 && s.env[o].sym < 0 && s.env[o].lo < s.env[o].hi && !s.env[o].undef) { s.env[o].sym = newSym(s, s.env[o].lo, s.env[o].hi); s.env[o].symc = 0; } }
        if (forkSmall(f, s, I, 0, work, ip)) { alive = false; break; }
        { Val x = get(s, I.ops[0]), y = get(s, I.ops[1]); int r = cmpI(s, I.pred, x, y, I.opty.w ? I.opty.w : 64); Val v = mkInt(1, r == 1 ? 1 : 0, r == 0 ? 0 : 1); v.undef = x.undef || y.undef; setv(s, I, v); break; }
      case LLVMFCmp: { Val x = get(s, I.ops[0]), y = get(s, I.ops[1]); int r = cmpF(I.pred, x, y); Val v = mkInt(1, r == 1 ? 1 : 0, r == 0 ? 0 : 1); v.undef = x.undef || y.undef; setv(s, I, v); break; }
      case LLVMSelect: { Val c = get(s, I.ops[0]); useCheck(I, c, "condition"); if (c.lo == c.hi) setv(s, I, get(s, I.ops[c.lo ? 1 : 2]));
        else if (s.region && I.ty.k == K_INT && I.ops[0].slot >= 0) { State t = s; bool a1 = refineCond(f, t, I.ops[0], true, 0), a2 = refineCond(f, s, I.ops[0], false, 0);
          t.env[I.ops[0].slot] = mkInt(1, 1, 1); s.env[I.ops[0].slot] = mkInt(1, 0, 0); setv(t, I, get(t, I.ops[1])); setv(s, I, get(s, I.ops[2]));
          if (a1 && a2) work.push_back({std::move(t), ip + 1}); else if (a1) s = std::move(t); else if (!a2) alive = false; }
        else { State t = s, e = s; bool a1 = refineCond(f, t, I.ops[0], true, 0), a2 = refineCond(f, e, I.ops[0], false, 0); Val v; if (a1) v = get(t, I.ops[1]); if (a2) { Val w = get(e, I.ops[2]); v = a1 ? joinVal(v, w) : w; } if (v.k == K_NONE) v = topOf(I.ty, false); setv(s, I, v); } break; }
      case LLVMFreeze: { Val v = get(s, I.ops[0]); v.undef = false; setv(s, I, v); break; }
      case LLVMZExt: if ((s.region || OPT_forkload > 2 && B.loop < 0) && I.opty.w == 1 && I.ops[0].slot >= 0) { Val c = get(s, I.ops[0]); if (c.k == K_INT && c.lo < c.hi && !c.undef) { // partition on the truth of a condition
            State t = s; bool a1 = refineCond(f, t, I.ops[0], true, 0), a2 = refineCond(f, s, I.ops[0], false, 0); t.env[I.ops[0].slot] = mkInt(1, 1, 1); s.env[I.ops[0].slot] = mkInt(1, 0, 0);
            setv(t, I, mkInt(I.ty.w, 1, 1)); setv(s, I, mkInt(I.ty.w, 0, 0)); if (!s.region && a1 && a2) { u64 id = (u64)I.id << 20; t.tok.push_back({(int)STACK.size(), -1, id | 1}); s.tok.push_back({(int)STACK.size(), -1, id}); }
            if (a1 && a2) { work.push_back({std::move(t), ip + 1}); break; } if (a1) { s = std::move(t); break; } if (a2) break; alive = false; break; } }
        setv(s, I, castVal(s, I, get(s, I.ops[0]))); break;
      case LLVMSExt: case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMSIToFP: case LLVMUIToFP: case LLVMFPExt: case LLVMFPTrunc: case LLVMFPToSI: case LLVMFPToUI:
        setv(s, I, castVal(s, I, get(s, I.ops[0]))); break;
      case LLVMCall: {
        vector<Val> a; for (auto &o : I.ops) a.push_back(get(s, o));
        vector<State> extra; bool dead;
        if (!I.callee.empty() && (I.calleeFn < 0 || !FNS[I.calleeFn].defined)) {
          if (intrinsic(f, s, I, a, extra, dead)) { for (auto &e : extra) work.push_back({std::move(e), ip + 1}); if (dead) alive = false; break; }
          EXTERNS.insert(I.callee); alarm_(I, "external", "call of an unmodelled external function " + I.callee); if (I.dst >= 0) setv(s, I, topOf(I.ty, false)); break;
        }
        vector<int> callees; 
        if (!I.callee.empty()) callees.push_back(I.calleeFn);
        else { Val fp = a.back(); a.pop_back(); check(I, "indirect-call"); if (fp.undef) { alarm_(I, "uninit", "call through an uninitialised pointer"); }
          if (fp.k != K_PTR || fp.nul) alarm_(I, "null", "indirect call through a pointer that may be null"); vector<Target> ts; if (fp.k == K_PTR) targets(fp, ts); for (auto &t : ts) { if (t.obj >= FBASE) { if ((int)FNS[t.obj - FBASE].nparams == (int)a.size()) callees.push_back(t.obj - FBASE); else alarm_(I, "indirect-call", "indirect call with a wrong number of arguments"); } else alarm_(I, "indirect-call", "indirect call of a data object"); } if (ts.empty()) alarm_(I, "indirect-call", "indirect call with an unknown target"); }
        if (callees.empty()) { if (I.dst >= 0) setv(s, I, topOf(I.ty, false)); break; }
        vector<State> outs;
        for (size_t k = 0; k < callees.size(); k++) {
          int ci = callees[k]; auto ct = CONTRACT.find(baseName(FNS[ci].name)); if (ct != CONTRACT.end()) { auto it = FNIDX.find(ct->second); if (it != FNIDX.end() && FNS[it->second].nparams == FNS[ci].nparams && baseName(f.name) != ct->second) ci = it->second; }
          if (!FNS[ci].defined) { EXTERNS.insert(FNS[ci].name); alarm_(I, "external", "indirect call of external " + FNS[ci].name); continue; }
          State in; in.mem = s.mem; in.rel = s.rel; in.part = s.part; in.tok = s.tok; in.region = s.region; if (k + 1 == callees.size()) s.mem.clear();
          STACK.back().second = I.line; vector<int> pins; if (in.rel) for (auto &v : s.env) if (v.sym >= 0) pins.push_back(v.sym); PINS.push_back(std::move(pins)); auto rs = execFn(ci, a, std::move(in)); PINS.pop_back(); for (auto &r : rs) outs.push_back(std::move(r));
        }
        if (outs.empty()) { alive = false; break; }
        for (size_t k = 1; k < outs.size(); k++) { State t; t.env = s.env; t.mem = std::move(outs[k].mem); t.rel = outs[k].rel; t.part = outs[k].part; t.tok = outs[k].tok; t.region = outs[k].region; if (t.region) t.alias = s.alias; if (I.dst >= 0) t.env[I.dst] = outs[k].ret.k ? outs[k].ret : topOf(I.ty, true); work.push_back({std::move(t), ip + 1}); }
        s.mem = std::move(outs[0].mem); s.rel = outs[0].rel; s.part = outs[0].part; s.tok = outs[0].tok; s.region = outs[0].region; if (!s.region) s.alias.clear(); if (I.dst >= 0) { Val r = outs[0].ret; s.env[I.dst] = r.k ? r : topOf(I.ty, true); }
        if (OPT_forkload > 2 && I.dst >= 0 && I.ty.k == K_INT && I.ty.w == 32) { // cases on the few values returned
          auto cases = [&](State &x) { Val v = x.env[I.dst]; i64 st = std::max<i64>(v.st, 1), n = (v.hi - v.lo) / st; if (v.k != K_INT || v.undef || n < 2 || n >= 16 || n >= OPT_forkload) return false;
            for (i64 c = v.lo; c <= v.hi; c += st) { State t = x; t.env[I.dst] = mkInt(32, c, c); t.tok.push_back({(int)STACK.size(), -1, (u64)I.id << 20 | (u64)(c - v.lo)}); work.push_back({std::move(t), ip + 1}); } return true; };
          size_t nw = work.size(), n0 = nw - (outs.size() - 1); vector<pair<State, size_t>> w; for (size_t k = n0; k < nw; k++) w.push_back(std::move(work[k])); work.resize(n0);
          for (auto &x : w) if (!cases(x.first)) work.push_back(std::move(x));
          if (cases(s)) alive = false; }
        break; }
      case LLVMFence: break;
      default: throw Fatal{"unsupported instruction opcode " + std::to_string(I.op) + " in " + f.name + " line " + std::to_string(I.line)};
      }
    }
  }
}

static void runRegion(Frame &fr, int loop);
static void runRegion(Frame &fr, int loop);
// A loop widened to the invariant W ends when an integer, bounded by W, moves
// in one direction in each iteration
static bool ranked(Frame &fr, int li, const vector<State> &W) {
  const Fn &f = FNS[fr.fi]; const Loop &L = f.loops[li];
  for (auto &w : W) {
    State s = w; struct C { int slot, obj, off, sz; int sym; bool dn, up; }; vector<C> cs;
    auto tag = [&](Val &v) -> bool { if (v.k != K_INT || v.w < 8 || v.undef || v.lo >= v.hi) return false; int o = v.sym; i64 oc = v.symc; v.sym = newSym(s, v.lo, v.hi); v.symc = 0; if (o >= 0) { relAdd(s, v.sym, o, oc); relAdd(s, o, v.sym, -oc); } return true; };
    for (auto &p : f.bl[L.header].phis) { Val &v = s.env[p.dst]; if (tag(v)) cs.push_back({p.dst, -1, 0, 0, v.sym, v.lo >= -65536, v.hi < wmax(v.w) - 65536}); }
    for (size_t o = NG; o < s.mem.size(); o++) if (s.mem[o] && s.mem[o]->rel) for (size_t c = 0; c < s.mem[o]->ch.size(); c++) { if (!s.mem[o]->ch[c]) continue; auto cells = s.mem[o]->ch[c]->cells;
      for (auto &x : cells) { Val v = x.v; effective(s, v); if (tag(v)) { objStore(s.mem[o], c * CH + x.off, x.sz, v); cs.push_back({-1, (int)o, (int)(c * CH + x.off), x.sz, v.sym, v.lo >= -65536, v.hi < wmax(v.w) - 65536}); } } }
    vector<State> keep = std::move(fr.pend[L.header]); fr.pend[L.header].clear(); fr.pend[L.header].push_back(std::move(s));
    vector<vector<State>> pend = fr.pend; vector<State> rets = fr.rets; runRegion(fr, li);
    vector<State> out = std::move(fr.pend[L.header]); fr.pend = std::move(pend); fr.rets = std::move(rets); fr.pend[L.header] = std::move(keep);
    bool ok = out.empty();
    for (auto &c : cs) { bool dn = c.dn, up = c.up; for (auto &t : out) { Val v = c.slot >= 0 ? t.env[c.slot] : t.mem[c.obj] ? objLoad(*t.mem[c.obj], c.off, {K_INT, c.sz * 8, c.sz}) : Val(); if (v.sym != c.sym) { dn = up = false; break; } if (v.symc >= 0) dn = false; if (v.symc <= 0) up = false; } if (dn || up) { ok = true; break; } }
    if (!ok) return false;
  }
  return true;
}
// Invariant of a loop: widened, then narrowed once; the alarms and the exits
// are the ones of the invariant found
static bool narrowLoop(Frame &fr, int li, const vector<State> &entry) {
  const Fn &f = FNS[fr.fi]; const Loop &L = f.loops[li];
  auto alarms = ALARMS; auto pend = fr.pend; auto rets = fr.rets; auto pushes = fr.pushes;
  auto clean = [&](State &s) { for (int b : L.order) { for (auto &I : f.bl[b].insts) { if (I.dst >= 0) s.env[I.dst] = Val(); if (I.slotObj >= 0) s.mem[(int)s.env[f.nslots].lo + I.slotObj] = Ref<Obj>(); } if (b != L.header) for (auto &p : f.bl[b].phis) s.env[p.dst] = Val(); } };
  auto restore = [&]() { ALARMS = alarms; fr.pend = pend; fr.rets = rets; fr.pushes = pushes; };
  auto body = [&](const vector<State> &in) { for (auto &s : in) fr.pend[L.header].push_back(s); runRegion(fr, li); vector<State> out = std::move(fr.pend[L.header]); fr.pend[L.header].clear(); for (auto &s : out) clean(s); return out; };
  auto group = [&](vector<State> &W, const State &s) { for (auto &w : W) if (mergeable(w, s)) { if (!leqState(s, w)) { g_widenHard = g_widenInts = g_widenHardInts = false; joinInto(w, s, false); } return; } W.push_back(s); };
  auto in = [&](const vector<State> &W, const State &s) { for (auto &w : W) if (mergeable(w, s)) return leqState(s, w); return false; };
  vector<State> E; for (auto s : entry) { clean(s); group(E, s); }
  vector<State> W; vector<int> cnt; vector<State> cur = E;
  while (!cur.empty()) {
    vector<State> todo;
    for (auto &s : cur) {
      int hit = -1; for (size_t k = 0; k < W.size(); k++) if (mergeable(W[k], s)) { hit = (int)k; break; }
      if (hit < 0) { W.push_back(s); cnt.push_back(0); todo.push_back(s); continue; }
      if (leqState(s, W[hit])) continue;
      g_widenHard = cnt[hit] > OPT_delay + 2; g_widenInts = true; g_widenHardInts = g_widenHard; joinInto(W[hit], s, true); cnt[hit]++; todo.push_back(W[hit]);
      if (cnt[hit] > 60) throw Fatal{"no fixpoint in " + f.name};
    }
    if (todo.empty()) break;
    cur = body(todo); restore();
  }
  if (!ranked(fr, li, W)) WIDENED.insert({f.name, L.line});
  restore();
  vector<State> N = E; for (auto &s : body(W)) group(N, s); restore();
  bool ok = true; for (auto &s : N) ok = ok && in(W, s);
  if (ok) { vector<State> out = body(N); for (auto &s : out) ok = ok && in(N, s); if (ok) return true; restore(); }
  body(W);
  return true;
}
static void execLoop(Frame &fr, int li) {
  const Fn &f = FNS[fr.fi]; const Loop &L = f.loops[li]; long iter = 0; vector<State> cur = std::move(fr.pend[L.header]); fr.pend[L.header].clear();
  bool widening = L.history; vector<State> W; vector<int> cnt; bool over = false;
  vector<State> prev; long undecided = 0;
  while (!cur.empty()) {
    iter++; MAXITER = std::max(MAXITER, widening ? 0 : iter);
    if (!widening && iter > OPT_unroll) { widening = true; over = true; W.clear(); cnt.clear(); }
    vector<State> todo;
    if (widening) {
      for (auto &s : cur) {
        for (int b : L.order) { for (auto &I : f.bl[b].insts) { if (I.dst >= 0) s.env[I.dst] = Val(); if (I.slotObj >= 0) s.mem[(int)s.env[f.nslots].lo + I.slotObj] = Ref<Obj>(); } if (b != L.header) for (auto &p : f.bl[b].phis) s.env[p.dst] = Val(); }
        int hit = -1; for (size_t k = 0; k < W.size(); k++) if (mergeable(W[k], s)) { hit = (int)k; break; }
        if (hit < 0) { W.push_back(s); cnt.push_back(0); todo.push_back(std::move(s)); continue; }
        if (leqState(s, W[hit])) continue;
        g_widenHard = cnt[hit] > OPT_delay + 2; g_widenInts = over || cnt[hit] > OPT_delayInt; g_widenHardInts = over ? g_widenHard : cnt[hit] > OPT_delayInt + 4; joinInto(W[hit], s, ++cnt[hit] > OPT_delay || over); todo.push_back(W[hit]);
        if (cnt[hit] > 60) throw Fatal{"no fixpoint in " + f.name};
      }
      if (OPT_trace && L.history) fprintf(stderr, "[%s] %s loop line %d: iteration %ld, %zu state(s), %ld steps %.1fs\n", CFG.c_str(), f.name.c_str(), L.line, iter, todo.size(), STEPS, now() - T0);
    } else {
      todo = std::move(cur);
      if ((iter & (iter - 1)) == 0 && iter >= 64) { // a state seen before: the loop has no static bound
        bool all = !prev.empty() && prev.size() == todo.size(); for (size_t k = 0; all && k < todo.size(); k++) all = leqState(todo[k], prev[k]); if (all) { if (!ranked(fr, li, prev)) WIDENED.insert({f.name, L.line}); break; } prev = todo; }
    }
    cur.clear();
    if (todo.empty()) { if (over && !ranked(fr, li, W)) WIDENED.insert({f.name, L.line}); break; }
    for (auto &s : todo) fr.pend[L.header].push_back(std::move(s));
    auto left = [&]() { size_t c = fr.rets.size(); for (size_t b = 0; b < fr.pushes.size(); b++) if (!L.in[b]) c += fr.pushes[b]; return c; };
    size_t out0 = OPT_undecided && !widening ? left() : 0;
    runRegion(fr, li);
    cur = std::move(fr.pend[L.header]); fr.pend[L.header].clear();
    // a loop left in several of its iterations, that may go on: its number of iterations depends on the data
    if (OPT_undecided && !widening && left() > out0 && ++undecided >= OPT_undecided && !cur.empty() && narrowLoop(fr, li, cur)) return;
  }
}
static void runRegion(Frame &fr, int loop) {
  const Fn &f = FNS[fr.fi]; const vector<int> &order = loop < 0 ? f.rpo : f.loops[loop].order;
  for (int b : order) {
    if (fr.pend[b].empty()) continue;
    int bl = f.bl[b].loop;
    if (bl == loop) { vector<State> ss = std::move(fr.pend[b]); fr.pend[b].clear(); for (auto &s : ss) runBlock(fr, b, std::move(s)); }
    else if (bl >= 0 && f.loops[bl].header == b && f.loops[bl].parent == loop) execLoop(fr, bl);
    else { // header of a deeper loop entered through an outer one, or an inner block: handled there
      int x = bl; while (x >= 0 && f.loops[x].parent != loop) x = f.loops[x].parent; if (x >= 0 && f.loops[x].header == b) execLoop(fr, x); }
  }
}
static vector<State> execFn(int fi, const vector<Val> &args, State &&in) {
  const Fn &f = FNS[fi]; FNSEEN.insert(baseName(f.name)); if (STACK.size() > 60) throw Fatal{"call depth exceeded (recursion?) in " + f.name};
  for (auto &x : STACK) if (x.first == &f) throw Fatal{"recursive call of " + f.name};
  STACK.push_back({&f, f.line}); MAXDEPTH = std::max(MAXDEPTH, STACK.size());
  State s; s.mem = std::move(in.mem); s.rel = in.rel; s.part = in.part; s.tok = in.tok; s.region = in.region; s.env.resize(f.nslots + 1); int base = (int)s.mem.size(); s.mem.resize(base + f.nobj); s.env[f.nslots] = mkInt(64, base, base);
  for (int i = 0; i < f.nparams && i < (int)args.size(); i++) s.env[i] = args[i];
  Frame fr; fr.fi = fi; fr.pend.resize(f.bl.size()); if (OPT_undecided) fr.pushes.resize(f.bl.size()); fr.pend[0].push_back(std::move(s));
  runRegion(fr, -1);
  STACK.pop_back();
  return std::move(fr.rets);
}

// ---------------------------------------------------------------- driver
static void jstr(FILE *o, const string &s) { fputc('"', o); for (char c : s) { if (c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); } else if ((unsigned char)c < 32) fprintf(o, "\\u%04x", c); else fputc(c, o); } fputc('"', o); }

static void runEntry(const string &entry, const vector<long> &args, FILE *out) {
  ALARMS.clear(); SITES.clear(); CHECKS.clear(); FNSEEN.clear(); STEPS = 0; WIDENED.clear(); MAXITER = 0; MAXDEPTH = 0; EXTERNS.clear(); STACK.clear(); T0 = now(); TALARM = 0; g_sym = 0;
  CFG = entry; for (long a : args) CFG += "," + std::to_string(a);
  string err;
  auto it = FNIDX.find(entry);
  if (it == FNIDX.end() || !FNS[it->second].defined) err = "entry point " + entry + " not found";
  else try {
    State s; s.mem.resize(NG); for (int i = 0; i < NG; i++) if (!GCONST[i]) s.mem[i] = GOBJ[i];
    vector<Val> a; Fn &f = FNS[it->second]; for (int i = 0; i < f.nparams; i++) { long x = i < (int)args.size() ? args[i] : 0; a.push_back(f.pty[i].k == K_INT ? mkInt(f.pty[i].w, x, x) : mkNull()); }
    execFn(it->second, a, std::move(s));
  } catch (Fatal &e) { err = e.msg; string st; for (size_t i = STACK.size(); i-- > 0;) st += " < " + STACK[i].first->name + ":" + std::to_string(STACK[i].second); err += st; } catch (Timeout &) { err = "timeout"; string st; for (size_t i = STACK.size(); i-- > 0;) st += " < " + STACK[i].first->name + ":" + std::to_string(STACK[i].second); err += st; }
  if (OPT_profile) { vector<pair<long,string>> v; for (auto &k : PROF) v.push_back({k.second, k.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 15; i++) fprintf(stderr, "  %12ld %s\n", v[i].first, v[i].second.c_str()); PROF.clear(); }
  fprintf(out, "{\"config\":"); jstr(out, CFG); fprintf(out, ",\"error\":"); if (err.empty()) fprintf(out, "null"); else jstr(out, err);
  fprintf(out, ",\"steps\":%ld,\"seconds\":%.2f,\"max_unroll\":%ld,\"max_depth\":%zu,\"sites\":%zu,\"checks\":{", STEPS, now() - T0, MAXITER, MAXDEPTH, SITES.size());
  bool first = true; for (auto &k : CHECKS) { fprintf(out, "%s\"%s\":%ld", first ? "" : ",", k.first.c_str(), k.second); first = false; }
  fprintf(out, "},\"functions\":["); first = true; for (auto &k : FNSEEN) { if (!first) fputc(',', out); jstr(out, k); first = false; }
  fprintf(out, "],\"widened\":["); first = true; for (auto &k : WIDENED) { if (!first) fputc(',', out); fprintf(out, "["); jstr(out, std::get<0>(k)); fprintf(out, ",%d]", std::get<1>(k)); first = false; }
  fprintf(out, "],\"alarms\":["); first = true; for (auto &k : ALARMS) { Alarm &A = k.second; if (!first) fputc(',', out); first = false; fprintf(out, "{\"kind\":"); jstr(out, A.kind); fprintf(out, ",\"fn\":"); jstr(out, A.fn); fprintf(out, ",\"file\":"); jstr(out, A.file); fprintf(out, ",\"line\":%d,\"count\":%ld,\"msg\":", A.line, A.count); jstr(out, A.msg); fprintf(out, ",\"stack\":"); jstr(out, A.stack); fprintf(out, "}"); }
  fprintf(out, "]}\n"); fflush(out);
}

int main(int argc, char **argv) {
  if (argc < 2) { fprintf(stderr, "usage: absint module.bc [options] -- entry,arg,arg ...\n"); return 2; }
  int jobs = 8; vector<string> runs; string bc = argv[1];
  for (int i = 2; i < argc; i++) { string a = argv[i];
    if (a == "-j") jobs = atoi(argv[++i]); else if (a == "--unroll") OPT_unroll = atol(argv[++i]); else if (a == "--undecided") OPT_undecided = atol(argv[++i]); else if (a == "--cap") OPT_cap = atoi(argv[++i]); else if (a == "--trace") OPT_trace = true; else if (a == "--dump") OPT_dump = true; else if (a == "--profile") OPT_profile = true; else if (a == "--rel") OPT_relall = true; else if (a == "--timeout") OPT_timeout = atof(argv[++i]); else if (a == "--grace") OPT_grace = atof(argv[++i]); else if (a == "--delay") OPT_delay = atoi(argv[++i]);
    else if (a == "--off") { OPT_off.insert(argv[++i]); } else if (a == "--contract") { string c = argv[++i]; size_t p = c.find('='); CONTRACT[c.substr(0, p)] = c.substr(p + 1); }
    else if (a == "@") { char buf[256]; FILE *fp = fopen(argv[++i], "r"); while (fp && fgets(buf, sizeof buf, fp)) { string s = buf; while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); if (!s.empty()) runs.push_back(s); } if (fp) fclose(fp); }
    else if (a != "--") runs.push_back(a); }
  LLVMContextRef ctx = LLVMContextCreate(); LLVMMemoryBufferRef mb; char *msg = nullptr; LLVMModuleRef M;
  if (LLVMCreateMemoryBufferWithContentsOfFile(bc.c_str(), &mb, &msg) || LLVMParseIRInContext(ctx, mb, &M, &msg)) { fprintf(stderr, "absint: %s\n", msg ? msg : "cannot read module"); return 2; }
  TD = LLVMCreateTargetData(LLVMGetDataLayoutStr(M));
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) { size_t l; Fn F; F.name = LLVMGetValueName2(f, &l); F.v = f; F.index = (int)FNS.size(); LLVMMetadataRef sp = LLVMGetSubprogram(f); if (sp) { F.line = LLVMDISubprogramGetLine(sp); LLVMMetadataRef fi = LLVMDIScopeGetFile(sp); unsigned n; const char *p = fi ? LLVMDIFileGetFilename(fi, &n) : nullptr; if (p) F.file = string(p, n); } FNREF[f] = F.index; FNIDX[F.name] = F.index; FNS.push_back(F); }
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) { GREF[g] = NG++; size_t l; GNAME.push_back(LLVMGetValueName2(g, &l)); GCONST.push_back(LLVMIsGlobalConstant(g)); }
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) { LLVMTypeRef t = LLVMGlobalGetValueType(g); LLVMValueRef in = LLVMGetInitializer(g); Ref<Obj> o = newObj(LLVMABISizeOfType(TD, t), in ? F_ZERO : F_ANY); if (in) initGlobal(o, 0, in); GOBJ.push_back(o); }
  for (auto &f : FNS) buildFn(f);
  // deal the runs to child processes
  if (jobs <= 1 || runs.size() <= 1) { for (auto &r : runs) { string e; vector<long> a; size_t p = r.find(','); e = r.substr(0, p); while (p != string::npos) { size_t q = r.find(',', p + 1); a.push_back(atol(r.substr(p + 1, q - p - 1).c_str())); p = q; } runEntry(e, a, stdout); } return 0; }
  int pfd[2]; if (pipe(pfd)) return 2; for (size_t i = 0; i < runs.size(); i++) { int k = (int)i; if (write(pfd[1], &k, sizeof k) != sizeof k) return 2; } close(pfd[1]);
  fflush(stdout); vector<pid_t> kids; vector<FILE *> outs; 
  for (int j = 0; j < jobs; j++) { FILE *tf = tmpfile(); outs.push_back(tf); pid_t c = fork(); if (c == 0) { int k; while (read(pfd[0], &k, sizeof k) == sizeof k) { string &r = runs[k]; string e; vector<long> a; size_t p = r.find(','); e = r.substr(0, p); while (p != string::npos) { size_t q = r.find(',', p + 1); a.push_back(atol(r.substr(p + 1, q - p - 1).c_str())); p = q; } runEntry(e, a, tf); } fflush(tf); _exit(0); } kids.push_back(c); }
  close(pfd[0]); int bad = 0; for (pid_t c : kids) { int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
  for (FILE *tf : outs) { rewind(tf); char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, tf)) > 0) fwrite(buf, 1, n, stdout); }
  return bad ? 3 : 0;
}
