// Facts about a linked module: call graph, writes to globals, stack frames.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace llvm;

static json::Object where(const Instruction &I) {
  json::Object o;
  const Function *F = I.getFunction();
  o["fn"] = F->getName().str();
  std::string file; unsigned line = 0;
  if (const DebugLoc &d = I.getDebugLoc()) { file = d->getFilename().str(); line = d.getLine(); }
  else if (DISubprogram *sp = F->getSubprogram()) { file = sp->getFilename().str(); line = sp->getLine(); }
  o["file"] = file; o["line"] = line;
  return o;
}

int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("facts", errs()); return 2; }
  const DataLayout &DL = M->getDataLayout();
  json::Object out; json::Array fns, globals, writes;

  std::vector<Function *> taken;
  for (Function &F : *M) if (F.hasAddressTaken()) taken.push_back(&F);

  auto callees = [&](const CallBase &cb) {
    std::vector<Function *> r;
    const Value *v = cb.getCalledOperand()->stripPointerCasts();
    if (auto *F = dyn_cast<Function>(v)) r.push_back(const_cast<Function *>(F));
    else if (!isa<InlineAsm>(v)) for (Function *F : taken)
      if (F->arg_size() == cb.arg_size() && F->getReturnType() == cb.getType()) r.push_back(F);
    return r;
  };

  for (Function &F : *M) {
    json::Object o; o["name"] = F.getName().str(); o["defined"] = !F.isDeclaration();
    o["intrinsic"] = F.isIntrinsic(); o["taken"] = F.hasAddressTaken();
    o["internal"] = F.hasLocalLinkage();
    if (DISubprogram *sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = sp->getLine(); }
    json::Array calls, dyn; uint64_t frame = 0; uint64_t n = 0, stores = 0;
    for (Instruction &I : instructions(F)) {
      n++;
      if (auto *a = dyn_cast<AllocaInst>(&I)) {
        if (auto sz = a->getAllocationSize(DL)) frame += *sz; else dyn.push_back(where(I));
      }
      if (isa<StoreInst>(I)) stores++;
      if (auto *cb = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object c = where(I);
        if (isa<InlineAsm>(cb->getCalledOperand())) c["callee"] = "#asm";
        else if (!isa<Function>(cb->getCalledOperand()->stripPointerCasts())) c["indirect"] = true;
        json::Array t; for (Function *G : callees(*cb)) t.push_back(G->getName().str());
        c["targets"] = std::move(t);
        calls.push_back(std::move(c));
      }
    }
    o["calls"] = std::move(calls); o["dynamic_alloca"] = std::move(dyn);
    o["frame"] = frame; o["instructions"] = n; o["stores"] = stores;
    fns.push_back(std::move(o));
  }

  // Returned values of functions, and their call sites
  std::map<Function *, std::vector<CallBase *>> sites;
  std::vector<LoadInst *> ploads;
  for (Function &F : *M) for (Instruction &I : instructions(F)) {
    if (auto *cb = dyn_cast<CallBase>(&I)) for (Function *G : callees(*cb)) sites[G].push_back(cb);
    if (auto *l = dyn_cast<LoadInst>(&I)) if (l->getType()->isPointerTy()) ploads.push_back(l);
  }

  for (GlobalVariable &G : M->globals()) {
    if (G.getName().starts_with("llvm.") && !G.getName().starts_with("llvm.global_")) continue;
    json::Object o; o["name"] = G.getName().str(); o["const"] = G.isConstant();
    o["declaration"] = G.isDeclaration(); o["tls"] = G.isThreadLocal();
    o["size"] = G.getValueType()->isSized() ? (int64_t)DL.getTypeAllocSize(G.getValueType()) : 0;
    SmallVector<DIGlobalVariableExpression *, 1> dv; G.getDebugInfo(dv);
    if (!dv.empty()) { o["file"] = dv[0]->getVariable()->getFilename().str(); o["line"] = dv[0]->getVariable()->getLine(); }
    // Values that may point into G
    std::set<Value *> seen; std::vector<Value *> wl; bool blob = false; uint64_t reads = 0;
    auto add = [&](Value *v) { if (seen.insert(v).second) wl.push_back(v); };
    std::set<Value *> holders; // globals, and derived pointers, holding the address in their initialiser
    add(&G);
    auto loads_from = [&](Value *h, auto &&self) -> void {
      if (!holders.insert(h).second) return;
      for (User *u : h->users()) {
        if (auto *l = dyn_cast<LoadInst>(u)) { if (l->getType()->isPointerTy()) add(l); }
        else if (isa<GEPOperator>(u) || isa<BitCastOperator>(u) || isa<PHINode>(u) || isa<SelectInst>(u)) self(u, self);
        else if (auto *cb = dyn_cast<CallBase>(u)) { for (Function *F : callees(*cb)) for (unsigned i = 0; i < cb->arg_size() && i < F->arg_size(); i++) if (cb->getArgOperand(i) == h) self(F->getArg(i), self);
          if (isa<MemTransferInst>(cb)) blob = true; }
        else if (isa<ReturnInst>(u)) { for (CallBase *cb : sites[cast<Instruction>(u)->getFunction()]) self(cb, self); }
        else if (isa<Constant>(u)) self(u, self);
      }
    };
    auto report = [&](Instruction &I, const char *what) {
      json::Object w = where(I); w["global"] = G.getName().str(); w["what"] = what; w["const"] = G.isConstant();
      writes.push_back(std::move(w));
    };
    bool blobbed = false;
    while (!wl.empty()) {
      Value *v = wl.back(); wl.pop_back();
      for (Use &U : v->uses()) {
        User *u = U.getUser();
        if (auto *s = dyn_cast<StoreInst>(u)) {
          if (U.getOperandNo() == 1) report(*s, "store");
          else if (auto *h = dyn_cast<GlobalVariable>(s->getPointerOperand()->stripInBoundsOffsets())) loads_from(h, loads_from);
          else blob = true;
        } else if (isa<AtomicRMWInst>(u) || isa<AtomicCmpXchgInst>(u)) report(*cast<Instruction>(u), "atomic");
        else if (isa<LoadInst>(u)) reads++;
        else if (auto *mi = dyn_cast<MemIntrinsic>(u)) { if (U.getOperandNo() == 0) report(*mi, "memory intrinsic"); else reads++; }
        else if (auto *cb = dyn_cast<CallBase>(u)) {
          if (isa<DbgInfoIntrinsic>(cb) || !cb->isArgOperand(&U)) continue;
          unsigned i = cb->getArgOperandNo(&U);
          for (Function *F : callees(*cb)) {
            if (F->isDeclaration()) { if (!F->isIntrinsic() && !cb->onlyReadsMemory(i)) {
                StringRef n = F->getName();
                if (i == 0 || !(n == "memcpy" || n == "memmove" || n == "memcmp")) report(*cb, "address given to an external function"); else reads++; } }
            else if (i < F->arg_size()) add(F->getArg(i));
            else blob = true;
          }
        } else if (isa<ReturnInst>(u)) { for (CallBase *cb : sites[cast<Instruction>(u)->getFunction()]) add(cb); }
        else if (isa<GEPOperator>(u) || isa<BitCastOperator>(u) || isa<PHINode>(u) || isa<SelectInst>(u) || isa<AddrSpaceCastOperator>(u)) add(u);
        else if (isa<PtrToIntOperator>(u) || isa<PtrToIntInst>(u)) { blob = true; }
        else if (auto *g = dyn_cast<GlobalVariable>(u)) loads_from(g, loads_from);
        else if (isa<Constant>(u)) { // aggregate initialiser
          std::vector<Constant *> cs{cast<Constant>(u)}; std::set<Constant *> cseen;
          while (!cs.empty()) { Constant *c = cs.back(); cs.pop_back(); if (!cseen.insert(c).second) continue;
            if (auto *g = dyn_cast<GlobalVariable>(c)) { loads_from(g, loads_from); continue; }
            for (User *w : c->users()) if (auto *k = dyn_cast<Constant>(w)) cs.push_back(k); else if (isa<Instruction>(w)) blob = true; }
        }
      }
      if (wl.empty() && blob && !blobbed && !G.isConstant()) { blobbed = true; for (LoadInst *l : ploads) add(l); }
    }
    o["reads"] = reads; o["through_memory"] = blob;
    globals.push_back(std::move(o));
  }
  bool ctors = M->getNamedGlobal("llvm.global_ctors") || M->getNamedGlobal("llvm.global_dtors");
  out["functions"] = std::move(fns); out["globals"] = std::move(globals); out["writes"] = std::move(writes);
  out["constructors"] = ctors; out["module_asm"] = M->getModuleInlineAsm();
  outs() << json::Value(std::move(out)) << "\n";
  return 0;
}
