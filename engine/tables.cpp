// Constant initialisers of the globals of a module, as JSON.
#include <llvm/IR/Constants.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

static json::Value val(const Constant *c, const DataLayout &DL) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return i->getBitWidth() <= 64 ? json::Value(i->getSExtValue()) : json::Value(nullptr);
  if (auto *f = dyn_cast<ConstantFP>(c)) {
    double d = f->getType()->isFloatTy() ? (double)f->getValueAPF().convertToFloat() : f->getType()->isDoubleTy() ? f->getValueAPF().convertToDouble() : 0;
    if (!(d - d == 0)) return json::Object{{"float", "special"}};
    return json::Value(d);
  }
  if (isa<ConstantPointerNull>(c)) return json::Value(nullptr);
  if (isa<UndefValue>(c)) return json::Object{{"undef", true}};
  if (c->getType()->isPointerTy()) {
    APInt off(64, 0);
    const Value *b = c->stripAndAccumulateConstantOffsets(DL, off, true);
    return json::Object{{"ref", b->getName().str()}, {"off", off.getSExtValue()}};
  }
  if (auto *t = dyn_cast<ArrayType>(c->getType())) {
    json::Array a; for (uint64_t k = 0; k < t->getNumElements(); k++) a.push_back(val(c->getAggregateElement((unsigned)k), DL));
    return a;
  }
  if (auto *t = dyn_cast<StructType>(c->getType())) {
    json::Array a; for (unsigned k = 0; k < t->getNumElements(); k++) a.push_back(val(c->getAggregateElement(k), DL));
    return a;
  }
  return json::Object{{"opaque", true}};
}

int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("tables", errs()); return 2; }
  json::Array out;
  for (auto &g : M->globals()) if (g.hasInitializer()) {
    SmallVector<DIGlobalVariableExpression *, 1> d; g.getDebugInfo(d);
    std::string file; unsigned line = 0; if (!d.empty()) { auto *v = d[0]->getVariable(); file = v->getFilename().str(); line = v->getLine(); }
    out.push_back(json::Object{{"name", g.getName().str()}, {"constant", g.isConstant()}, {"internal", g.hasLocalLinkage()}, {"file", file}, {"line", line}, {"value", val(g.getInitializer(), M->getDataLayout())}});
  }
  outs() << json::Value(std::move(out)) << "\n";
}
