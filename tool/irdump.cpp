// irdump: reads LLVM IR modules (textual or bitcode), promotes memory to
// registers, and writes a JSON description of every function: blocks,
// instructions, resolved address arithmetic, callees, exception edges, debug
// locations, plus globals with their initialisers.  No code is executed.
#include <llvm/ADT/MapVector.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Analysis/LoopInfo.h>
#include <map>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> ids;

static std::string tyStr(Type *T) {
  if (T->isPointerTy()) return "ptr";
  if (T->isVoidTy()) return "void";
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (T->isFloatTy()) return "float";
  if (T->isDoubleTy()) return "double";
  std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str();
}
static std::string intStr(const APInt &v) { SmallString<40> s; v.toStringUnsigned(s); return std::string(s.str()); }

static json::Value operand(const Value *V);

static json::Value constOperand(const Constant *C) {
  if (auto *ci = dyn_cast<ConstantInt>(C))
    return json::Array{"c", (int64_t)ci->getBitWidth(), intStr(ci->getValue())};
  if (isa<ConstantPointerNull>(C)) return json::Array{"null"};
  if (auto *cf = dyn_cast<ConstantFP>(C)) {
    SmallString<32> s; cf->getValueAPF().toString(s);
    return json::Array{"fp", tyStr(C->getType()), std::string(s.str())};
  }
  if (isa<UndefValue>(C)) return json::Array{"undef", tyStr(C->getType())};
  if (auto *f = dyn_cast<Function>(C)) return json::Array{"f", f->getName().str()};
  if (auto *g = dyn_cast<GlobalVariable>(C)) return json::Array{"g", g->getName().str(), 0};
  if (auto *a = dyn_cast<GlobalAlias>(C)) return constOperand(a->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    APInt off(64, 0);
    const Value *base = ce;
    if (ce->getType()->isPointerTy()) {
      base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *al = dyn_cast<GlobalAlias>(base)) base = al->getAliasee();
      if (auto *g = dyn_cast<GlobalVariable>(base))
        return json::Array{"g", g->getName().str(), off.getSExtValue()};
      if (auto *f = dyn_cast<Function>(base)) return json::Array{"f", f->getName().str()};
    }
    if (ce->getOpcode() == Instruction::IntToPtr)
      return json::Array{"inttoptr", constOperand(cast<Constant>(ce->getOperand(0)))};
    if (ce->getOpcode() == Instruction::PtrToInt)
      return json::Array{"ptrtoint", constOperand(cast<Constant>(ce->getOperand(0)))};
    std::string s; raw_string_ostream os(s); C->print(os);
    return json::Array{"ce", os.str()};
  }
  if (isa<ConstantAggregateZero>(C)) return json::Array{"zero", tyStr(C->getType())};
  std::string s; raw_string_ostream os(s); C->print(os);
  return json::Array{"const", os.str()};
}

static json::Value operand(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constOperand(C);
  auto it = ids.find(V);
  if (it != ids.end()) return json::Array{"r", it->second};
  if (isa<BasicBlock>(V)) return json::Array{"b", it->second};
  if (isa<MetadataAsValue>(V)) return json::Array{"md"};
  std::string s; raw_string_ostream os(s); V->printAsOperand(os);
  return json::Array{"x", os.str()};
}

// flatten a constant initialiser to cells (offset,size,operand)
static void flatten(const Constant *C, uint64_t off, json::Array &cells, int &budget) {
  if (budget-- < 0) return;
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return; // zero handled by reader
  if (auto *cds = dyn_cast<ConstantDataSequential>(C)) {
    uint64_t es = cds->getElementByteSize();
    if (es == 1) {
      std::string hex;
      static const char *d = "0123456789abcdef";
      for (unsigned char c : cds->getRawDataValues()) { hex += d[c >> 4]; hex += d[c & 15]; }
      cells.push_back(json::Array{(int64_t)off, "bytes", hex});
      return;
    }
    for (unsigned i = 0; i < cds->getNumElements(); i++)
      cells.push_back(json::Array{(int64_t)(off + i * es), (int64_t)es, constOperand(cds->getElementAsConstant(i))});
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(C)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) flatten(ca->getOperand(i), off + i * es, cells, budget);
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(C)) {
    const StructLayout *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++)
      flatten(cs->getOperand(i), off + (uint64_t)sl->getElementOffset(i), cells, budget);
    return;
  }
  cells.push_back(json::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(T), constOperand(C)});
}

static std::string fileOf(const DIScope *s) {
  if (!s) return "";
  std::string d = s->getDirectory().str(), f = s->getFilename().str();
  if (!f.empty() && f[0] == '/') return f;
  return d.empty() ? f : d + "/" + f;
}

int main(int argc, char **argv) {
  LLVMContext ctx;
  json::OStream J(outs());
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM; FPM.addPass(PromotePass());
    ModulePassManager MPM; MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
  }
  J.objectBegin();
  J.attribute("source", M->getSourceFileName());
  J.attributeBegin("globals"); J.arrayBegin();
  for (auto &g : M->globals()) {
    J.objectBegin();
    J.attribute("n", g.getName());
    J.attribute("dem", demangle(g.getName().str()));
    J.attribute("const", g.isConstant());
    J.attribute("decl", g.isDeclaration());
    J.attribute("internal", g.hasLocalLinkage());
    J.attribute("tls", g.isThreadLocal());
    J.attribute("size", (int64_t)DL->getTypeAllocSize(g.getValueType()));
    SmallVector<DIGlobalVariableExpression *, 1> dg; g.getDebugInfo(dg);
    if (!dg.empty()) {
      auto *v = dg[0]->getVariable();
      J.attribute("file", fileOf(v->getFile())); J.attribute("line", (int64_t)v->getLine());
    }
    if (g.hasInitializer()) {
      json::Array cells; int budget = 20000; flatten(g.getInitializer(), 0, cells, budget);
      J.attribute("cells", std::move(cells));
    }
    J.objectEnd();
  }
  J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("aliases"); J.arrayBegin();
  for (auto &A : M->aliases())
    if (auto *F = dyn_cast<Function>(A.getAliaseeObject()))
      J.value(json::Array{A.getName(), demangle(A.getName().str()), F->getName(), A.hasLocalLinkage()});
  J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("functions"); J.arrayBegin();
  for (auto &F : *M) {
    J.objectBegin();
    J.attribute("n", F.getName());
    J.attribute("dem", demangle(F.getName().str()));
    J.attribute("internal", F.hasLocalLinkage());
    J.attribute("ret", tyStr(F.getReturnType()));
    J.attribute("vararg", F.isVarArg());
    J.attribute("nounwind", F.doesNotThrow());
    if (F.isIntrinsic()) J.attribute("intr", true);
    json::Array ps;
    for (auto &A : F.args()) {
      json::Object o{{"t", tyStr(A.getType())}};
      if (A.hasStructRetAttr()) o["sret"] = true;
      if (A.hasByValAttr()) o["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType());
      ps.push_back(std::move(o));
    }
    J.attribute("params", std::move(ps));
    if (auto *sp = F.getSubprogram()) {
      J.attribute("file", fileOf(sp->getFile())); J.attribute("line", (int64_t)sp->getLine());
      J.attribute("sname", sp->getName());
    }
    if (!F.isDeclaration()) {
      ids.clear(); int n = 0, b = 0;
      std::map<const BasicBlock *, int> bid;
      for (auto &A : F.args()) ids[&A] = n++;
      for (auto &B : F) { bid[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
      DominatorTree DT(F); LoopInfo LI(DT);
      json::Array heads;
      for (auto &B : F) if (LI.isLoopHeader(&B)) heads.push_back(bid[&B]);
      J.attribute("heads", std::move(heads));
      J.attributeBegin("blocks"); J.arrayBegin();
      for (auto &B : F) {
        J.arrayBegin();
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          J.objectBegin();
          J.attribute("o", I.getOpcodeName());
          if (ids.count(&I)) J.attribute("d", ids[&I]);
          if (!I.getType()->isVoidTy()) J.attribute("t", tyStr(I.getType()));
          if (const DebugLoc &dl = I.getDebugLoc()) J.attribute("l", (int64_t)dl.getLine());
          if (auto *ai = dyn_cast<AllocaInst>(&I)) {
            J.attribute("size", (int64_t)DL->getTypeAllocSize(ai->getAllocatedType()));
            J.attribute("ty", tyStr(ai->getAllocatedType()));
            J.attribute("name", ai->getName());
            if (ai->isArrayAllocation()) J.attribute("count", json::Array{operand(ai->getArraySize())});
          } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            J.attribute("base", operand(g->getPointerOperand()));
            unsigned bw = 64; MapVector<Value *, APInt> vo; APInt co(bw, 0);
            if (g->collectOffset(*DL, bw, vo, co)) {
              J.attribute("off", co.getSExtValue());
              json::Array vs;
              for (auto &p : vo) vs.push_back(json::Array{operand(p.first), p.second.getSExtValue()});
              J.attribute("vars", std::move(vs));
            } else J.attribute("unknown", true);
            J.attribute("inb", g->isInBounds());
          } else if (auto *cb = dyn_cast<CallBase>(&I)) {
            J.attribute("f", operand(cb->getCalledOperand()));
            json::Array as;
            for (unsigned i = 0; i < cb->arg_size(); i++) as.push_back(operand(cb->getArgOperand(i)));
            J.attribute("a", std::move(as));
            for (unsigned i = 0; i < cb->arg_size(); i++) {
              if (cb->paramHasAttr(i, Attribute::StructRet)) {
                J.attribute("sret", (int64_t)i);
                J.attribute("sretsz", (int64_t)DL->getTypeAllocSize(cb->getParamStructRetType(i)));
              }
              if (cb->isByValArgument(i)) J.attribute("byval" + std::to_string(i), (int64_t)DL->getTypeAllocSize(cb->getParamByValType(i)));
            }
            if (cb->isInlineAsm()) J.attribute("asm", true);
            if (auto *iv = dyn_cast<InvokeInst>(&I)) {
              J.attribute("nb", bid[iv->getNormalDest()]); J.attribute("ub", bid[iv->getUnwindDest()]);
            }
          } else if (auto *p = dyn_cast<PHINode>(&I)) {
            json::Array as;
            for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
              as.push_back(json::Array{bid[p->getIncomingBlock(i)], operand(p->getIncomingValue(i))});
            J.attribute("in", std::move(as));
          } else if (auto *br = dyn_cast<BranchInst>(&I)) {
            json::Array s;
            for (unsigned i = 0; i < br->getNumSuccessors(); i++) s.push_back(bid[br->getSuccessor(i)]);
            J.attribute("s", std::move(s));
            if (br->isConditional()) J.attribute("a", json::Array{operand(br->getCondition())});
          } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            J.attribute("a", json::Array{operand(sw->getCondition())});
            J.attribute("def", bid[sw->getDefaultDest()]);
            json::Array cs;
            for (auto &c : sw->cases()) cs.push_back(json::Array{intStr(c.getCaseValue()->getValue()), bid[c.getCaseSuccessor()]});
            J.attribute("cases", std::move(cs));
          } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
            J.attribute("cleanup", lp->isCleanup());
            json::Array cs;
            for (unsigned i = 0; i < lp->getNumClauses(); i++)
              cs.push_back(json::Array{lp->isCatch(i) ? "catch" : "filter", operand(lp->getClause(i))});
            J.attribute("clauses", std::move(cs));
          } else {
            json::Array as;
            for (auto &u : I.operands()) as.push_back(operand(u));
            J.attribute("a", std::move(as));
            if (auto *c = dyn_cast<CmpInst>(&I)) J.attribute("p", CmpInst::getPredicateName(c->getPredicate()));
            if (auto *ld = dyn_cast<LoadInst>(&I)) J.attribute("sz", (int64_t)DL->getTypeStoreSize(ld->getType()));
            if (auto *st = dyn_cast<StoreInst>(&I)) J.attribute("sz", (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()));
            if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) J.attribute("nsw", true); if (ob->hasNoUnsignedWrap()) J.attribute("nuw", true); }
            if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto i : ev->indices()) x.push_back((int64_t)i); J.attribute("ix", std::move(x)); }
            if (auto *iv = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (auto i : iv->indices()) x.push_back((int64_t)i); J.attribute("ix", std::move(x)); }
            if (isa<CastInst>(I)) J.attribute("st", tyStr(I.getOperand(0)->getType()));
          }
          J.objectEnd();
        }
        J.arrayEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    }
    J.objectEnd();
  }
  J.arrayEnd(); J.attributeEnd();
  J.objectEnd();
  outs() << "\n";
  return 0;
}
