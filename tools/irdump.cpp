// irdump: prints an LLVM module as JSON for the analyses in /verif/lib (no execution of the module).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/MapVector.h>
#include <map>
using namespace llvm;
static const DataLayout *DL;
static std::map<const Value*, int> ids;

static std::string ty(Type *t) {
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isPointerTy()) return "p";
  if (t->isVoidTy()) return "v";
  if (t->isStructTy()) return "S";
  if (t->isArrayTy()) return "A";
  if (t->isVectorTy()) return "V";
  if (t->isFloatTy()) return "f32";
  if (t->isDoubleTy()) return "f64";
  return "?";
}
static json::Value val(const Value *v);
static json::Value constv(const Constant *c) {
  if (auto ci = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; ci->getValue().toStringUnsigned(s);
    return json::Array{"c", ty(ci->getType()), std::string(s)};
  }
  if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
  if (isa<PoisonValue>(c)) return json::Array{"poison", ty(c->getType())};
  if (isa<UndefValue>(c)) return json::Array{"undef", ty(c->getType()), (int64_t)(c->getType()->isSized() ? DL->getTypeAllocSize(c->getType()) : 0)};
  if (auto f = dyn_cast<Function>(c)) return json::Array{"f", f->getName().str()};
  if (auto a = dyn_cast<GlobalAlias>(c)) return constv(a->getAliasee());
  if (auto g = dyn_cast<GlobalVariable>(c)) return json::Array{"g", g->getName().str()};
  if (auto f = dyn_cast<ConstantFP>(c)) { SmallString<40> s; f->getValueAPF().toString(s); return json::Array{"fp", std::string(s)}; }
  if (isa<ConstantAggregateZero>(c)) return json::Array{"zero", ty(c->getType()), (int64_t)DL->getTypeAllocSize(c->getType())};
  if (auto d = dyn_cast<ConstantDataSequential>(c)) {
    json::Array el; for (unsigned i = 0; i < d->getNumElements(); i++) el.push_back(constv(d->getElementAsConstant(i)));
    return json::Array{"arr", (int64_t)DL->getTypeAllocSize(d->getElementType()), std::move(el)};
  }
  if (auto a = dyn_cast<ConstantAggregate>(c)) {
    json::Array el;
    if (auto st = dyn_cast<StructType>(a->getType())) {
      auto sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < a->getNumOperands(); i++) el.push_back(json::Array{(int64_t)sl->getElementOffset(i), val(a->getOperand(i))});
      return json::Array{"struct", (int64_t)DL->getTypeAllocSize(st), std::move(el)};
    }
    for (unsigned i = 0; i < a->getNumOperands(); i++) el.push_back(val(a->getOperand(i)));
    Type *et = a->getType()->isArrayTy() ? a->getType()->getArrayElementType() : cast<VectorType>(a->getType())->getElementType();
    return json::Array{"arr", (int64_t)DL->getTypeAllocSize(et), std::move(el)};
  }
  if (auto ce = dyn_cast<ConstantExpr>(c)) {
    if (auto gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off))
        return json::Array{"off", val(gep->getPointerOperand()), off.getSExtValue()};
    }
    json::Array ops; for (auto &o : ce->operands()) ops.push_back(val(o));
    return json::Array{"ce", ce->getOpcodeName(), ty(ce->getType()), std::move(ops)};
  }
  return json::Array{"?"};
}
static json::Value val(const Value *v) {
  if (auto c = dyn_cast<Constant>(v)) return constv(c);
  auto it = ids.find(v);
  if (it != ids.end()) return json::Array{"r", it->second};
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  return json::Array{"?"};
}
static void fieldOffsets(Type *t, uint64_t base, json::Array &out) {
  if (auto st = dyn_cast<StructType>(t)) {
    auto sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) out.push_back((int64_t)(base + sl->getElementOffset(i)));
  } else if (auto at = dyn_cast<ArrayType>(t)) {
    for (unsigned i = 0; i < at->getNumElements(); i++) out.push_back((int64_t)(base + i * DL->getTypeAllocSize(at->getElementType())));
  }
}
int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print("irdump", errs()); return 1; }
  DL = &m->getDataLayout();
  json::OStream J(outs());
  J.objectBegin();
  J.attributeBegin("globals"); J.objectBegin();
  for (auto &g : m->globals()) {
    J.attributeBegin(g.getName()); J.objectBegin();
    J.attribute("size", (int64_t)DL->getTypeAllocSize(g.getValueType()));
    J.attribute("const", g.isConstant());
    if (g.hasInitializer()) J.attribute("init", constv(g.getInitializer()));
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  J.attributeBegin("functions"); J.objectBegin();
  for (auto &f : *m) {
    J.attributeBegin(f.getName()); J.objectBegin();
    J.attribute("dem", demangle(f.getName().str()));
    J.attribute("decl", f.isDeclaration());
    J.attribute("ret", ty(f.getReturnType()));
    J.attribute("nounwind", f.doesNotThrow());
    J.attribute("noreturn", f.doesNotReturn());
    if (auto sp = f.getSubprogram()) { J.attribute("file", sp->getFilename()); J.attribute("line", (int64_t)sp->getLine()); }
    ids.clear(); int n = 0;
    J.attributeBegin("args"); J.arrayBegin();
    for (auto &a : f.args()) {
      ids[&a] = n; J.arrayBegin(); J.value(n++); J.value(ty(a.getType()));
      J.value(a.hasStructRetAttr() ? "sret" : (a.hasByValAttr() ? "byval" : ""));
      J.value((int64_t)(a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()) : a.hasStructRetAttr() ? DL->getTypeAllocSize(a.getParamStructRetType()) : 0));
      J.arrayEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    std::map<const BasicBlock*, int> bid; int bn = 0;
    for (auto &b : f) { bid[&b] = bn++; for (auto &i : b) ids[&i] = n++; }
    if (!f.isDeclaration()) {
      J.attributeBegin("blocks"); J.arrayBegin();
      for (auto &b : f) {
        J.arrayBegin();
        for (auto &i : b) {
          if (isa<DbgInfoIntrinsic>(i)) continue;
          J.objectBegin();
          J.attribute("id", ids[&i]); J.attribute("op", i.getOpcodeName()); J.attribute("ty", ty(i.getType()));
          if (auto &dl = i.getDebugLoc()) {
            J.attribute("line", (int64_t)dl.getLine());
            if (auto sc = dyn_cast_or_null<DIScope>(dl.getScope())) if (sc->getFilename() != (f.getSubprogram() ? f.getSubprogram()->getFilename() : "")) J.attribute("file", sc->getFilename());
          }
          if (auto *a = dyn_cast<AllocaInst>(&i)) {
            J.attribute("size", (int64_t)DL->getTypeAllocSize(a->getAllocatedType()));
            J.attribute("n", val(a->getArraySize()));
          } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
            APInt off(64, 0); MapVector<Value*, APInt> vo;
            J.attribute("base", val(g->getPointerOperand()));
            if (g->collectOffset(*DL, 64, vo, off)) {
              J.attribute("off", off.getSExtValue());
              J.attributeBegin("var"); J.arrayBegin();
              for (auto &kv : vo) { J.arrayBegin(); J.value(val(kv.first)); J.value(kv.second.getSExtValue()); J.value(ty(kv.first->getType())); J.arrayEnd(); }
              J.arrayEnd(); J.attributeEnd();
            }
          } else if (auto *l = dyn_cast<LoadInst>(&i)) {
            J.attribute("ptr", val(l->getPointerOperand()));
            J.attribute("size", (int64_t)DL->getTypeStoreSize(l->getType()));
            if (l->isAtomic()) J.attribute("atomic", true);
            json::Array fo; fieldOffsets(l->getType(), 0, fo); if (!fo.empty()) J.attribute("fo", std::move(fo));
          } else if (auto *s = dyn_cast<StoreInst>(&i)) {
            J.attribute("ptr", val(s->getPointerOperand())); J.attribute("val", val(s->getValueOperand()));
            J.attribute("vty", ty(s->getValueOperand()->getType()));
            J.attribute("size", (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()));
            if (s->isAtomic()) J.attribute("atomic", true);
            json::Array fo; fieldOffsets(s->getValueOperand()->getType(), 0, fo); if (!fo.empty()) J.attribute("fo", std::move(fo));
          } else if (auto *c = dyn_cast<CallBase>(&i)) {
            J.attribute("callee", val(c->getCalledOperand()));
            J.attributeBegin("args"); J.arrayBegin();
            for (auto &a : c->args()) { J.arrayBegin(); J.value(val(a)); J.value(ty(a->getType())); J.arrayEnd(); }
            J.arrayEnd(); J.attributeEnd();
            J.attributeBegin("byval"); J.arrayBegin();
            for (unsigned k = 0; k < c->arg_size(); k++) J.value((int64_t)(c->isByValArgument(k) ? DL->getTypeAllocSize(c->getParamByValType(k)) : 0));
            J.arrayEnd(); J.attributeEnd();
            if (auto *iv = dyn_cast<InvokeInst>(c)) { J.attribute("normal", bid[iv->getNormalDest()]); J.attribute("unwind", bid[iv->getUnwindDest()]); }
          } else if (auto *br = dyn_cast<BranchInst>(&i)) {
            if (br->isConditional()) J.attribute("cond", val(br->getCondition()));
            J.attributeBegin("succ"); J.arrayBegin();
            for (unsigned k = 0; k < br->getNumSuccessors(); k++) J.value(bid[br->getSuccessor(k)]);
            J.arrayEnd(); J.attributeEnd();
          } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
            J.attribute("cond", val(sw->getCondition())); J.attribute("default", bid[sw->getDefaultDest()]);
            J.attributeBegin("cases"); J.arrayBegin();
            for (auto &cs : sw->cases()) { J.arrayBegin(); J.value(val(cs.getCaseValue())); J.value(bid[cs.getCaseSuccessor()]); J.arrayEnd(); }
            J.arrayEnd(); J.attributeEnd();
          } else if (auto *ph = dyn_cast<PHINode>(&i)) {
            J.attributeBegin("in"); J.arrayBegin();
            for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) { J.arrayBegin(); J.value(val(ph->getIncomingValue(k))); J.value(bid[ph->getIncomingBlock(k)]); J.arrayEnd(); }
            J.arrayEnd(); J.attributeEnd();
          } else {
            J.attributeBegin("ops"); J.arrayBegin(); for (auto &o : i.operands()) J.value(val(o)); J.arrayEnd(); J.attributeEnd();
            J.attributeBegin("oty"); J.arrayBegin(); for (auto &o : i.operands()) J.value(ty(o->getType())); J.arrayEnd(); J.attributeEnd();
            if (auto *ic = dyn_cast<CmpInst>(&i)) J.attribute("pred", CmpInst::getPredicateName(ic->getPredicate()));
            if (auto *ev = dyn_cast<ExtractValueInst>(&i)) { J.attributeBegin("idx"); J.arrayBegin(); for (auto x : ev->indices()) J.value((int64_t)x); J.arrayEnd(); J.attributeEnd(); }
            if (auto *ev = dyn_cast<InsertValueInst>(&i)) { J.attributeBegin("idx"); J.arrayBegin(); for (auto x : ev->indices()) J.value((int64_t)x); J.arrayEnd(); J.attributeEnd(); }
            if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&i)) { if (ob->hasNoSignedWrap()) J.attribute("nsw", true); if (ob->hasNoUnsignedWrap()) J.attribute("nuw", true); }
          }
          J.objectEnd();
        }
        J.arrayEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    }
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  J.objectEnd();
  return 0;
}
