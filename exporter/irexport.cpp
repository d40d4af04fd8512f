// irexport: reads LLVM bitcode, canonicalises it (memory
// promoted, loops simplified) and writes the resolved program as JSON on stdout.
#include "llvm/ADT/MapVector.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

static const DataLayout *DL;
static std::map<std::string, int> FileIdx;
static std::vector<std::string> Files;
static int fileIndex(const DIScope *S) {
  std::string n = (S->getDirectory() + "/" + S->getFilename()).str();
  if (S->getFilename().starts_with("/")) n = S->getFilename().str();
  auto it = FileIdx.find(n);
  if (it != FileIdx.end()) return it->second;
  int k = Files.size();
  Files.push_back(n);
  FileIdx[n] = k;
  return k;
}

static json::Value typeJ(Type *T) {
  if (T->isVoidTy()) return "void";
  if (T->isPointerTy()) return "ptr";
  if (T->isDoubleTy()) return "double";
  if (T->isFloatTy()) return "float";
  if (T->isX86_FP80Ty()) return "x86_fp80";
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (auto *S = dyn_cast<StructType>(T)) {
    if (S->isOpaque()) return "opaque";
    json::Array el;
    auto *L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); ++i)
      el.push_back(json::Array{(int64_t)L->getElementOffset(i), typeJ(S->getElementType(i))});
    return json::Array{"s", (int64_t)L->getSizeInBytes(), std::move(el)};
  }
  if (auto *A = dyn_cast<ArrayType>(T))
    return json::Array{"a", (int64_t)A->getNumElements(), (int64_t)DL->getTypeAllocSize(A->getElementType()), typeJ(A->getElementType())};
  if (auto *V = dyn_cast<FixedVectorType>(T))
    return json::Array{"v", (int64_t)V->getNumElements(), (int64_t)DL->getTypeAllocSize(V->getElementType()), typeJ(V->getElementType())};
  return "other";
}

static std::map<const Value *, int> Ids;
static json::Value constJ(const Constant *C);

static json::Value opJ(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constJ(C);
  auto it = Ids.find(V);
  if (it != Ids.end()) return json::Array{"v", it->second};
  return json::Array{"x"};
}

static std::string fpStr(const APFloat &F) {
  SmallVector<char, 32> S;
  APFloat G = F;
  bool lose;
  G.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
  double d = G.convertToDouble();
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}

static json::Value constJ(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    SmallString<32> s;
    I->getValue().toString(s, 10, true);
    return json::Array{"i", (int64_t)I->getBitWidth(), s.str().str()};
  }
  if (auto *F = dyn_cast<ConstantFP>(C)) return json::Array{"d", fpStr(F->getValueAPF())};
  if (isa<ConstantPointerNull>(C)) return json::Array{"n"};
  if (isa<UndefValue>(C)) return json::Array{"u"};
  if (auto *G = dyn_cast<GlobalValue>(C)) return json::Array{"g", G->getName().str(), 0};
  if (isa<ConstantAggregateZero>(C)) return json::Array{"z", typeJ(C->getType())};
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (auto *G = dyn_cast<GEPOperator>(CE)) {
      APInt off(64, 0);
      if (G->accumulateConstantOffset(*DL, off))
        return json::Array{"cgep", constJ(cast<Constant>(G->getPointerOperand())), (int64_t)off.getSExtValue()};
    }
    if (CE->isCast()) return constJ(cast<Constant>(CE->getOperand(0)));
    return json::Array{"x"};
  }
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    json::Array a;
    for (unsigned i = 0; i < CDS->getNumElements(); ++i) a.push_back(constJ(CDS->getElementAsConstant(i)));
    return json::Array{"agg", typeJ(C->getType()), std::move(a)};
  }
  if (isa<ConstantAggregate>(C)) {
    json::Array a;
    for (unsigned i = 0; i < C->getNumOperands(); ++i) a.push_back(constJ(cast<Constant>(C->getOperand(i))));
    return json::Array{"agg", typeJ(C->getType()), std::move(a)};
  }
  return json::Array{"x"};
}

static json::Value dbg(const Instruction &I) {
  if (const DebugLoc &D = I.getDebugLoc())
    return json::Array{fileIndex(cast<DIScope>(D->getScope())->getFile()), (int64_t)D.getLine()};
  return nullptr;
}

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irexport", errs()); return 2; }
  DL = &M->getDataLayout();
  for (auto &F : *M) { F.removeFnAttr(Attribute::OptimizeNone); }
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  const char *pipe = argc > 2 ? argv[2] : "function(simplifycfg,sroa,simplifycfg,loop-simplify,lcssa)";
  if (auto E = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(E)) << "\n"; return 2; }
  MPM.run(*M, MAM);

  json::Array funcs;
  for (auto &F : *M) {
    json::Object fo;
    fo["name"] = F.getName().str();
    fo["dem"] = demangle(F.getName().str());
    fo["linkage"] = (int64_t)F.getLinkage();
    fo["decl"] = F.isDeclaration();
    fo["ret"] = typeJ(F.getReturnType());
    if (auto *SP = F.getSubprogram()) {
      fo["file"] = fileIndex(SP->getFile());
      fo["line"] = (int64_t)SP->getLine();
    }
    Ids.clear();
    int id = 0;
    json::Array args;
    for (auto &A : F.args()) {
      Ids[&A] = id;
      json::Object ao;
      ao["id"] = id++;
      ao["type"] = typeJ(A.getType());
      if (A.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(A.getParamStructRetType());
      if (A.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType());
      if (A.hasZExtAttr()) ao["zext"] = true;
      args.push_back(std::move(ao));
    }
    fo["args"] = std::move(args);
    if (!F.isDeclaration()) {
      std::map<const BasicBlock *, int> bid;
      int nb = 0;
      for (auto &B : F) bid[&B] = nb++;
      for (auto &B : F)
        for (auto &I : B)
          if (!I.getType()->isVoidTy()) Ids[&I] = id++;
      json::Array blocks;
      for (auto &B : F) {
        json::Array ins;
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I) || isa<NoAliasScopeDeclInst>(I)) continue;
          json::Object o;
          o["op"] = I.getOpcodeName();
          if (!I.getType()->isVoidTy()) { o["id"] = Ids[&I]; o["t"] = typeJ(I.getType()); }
          auto d = dbg(I);
          if (d.kind() != json::Value::Null) o["d"] = d;
          if (auto *P = dyn_cast<PHINode>(&I)) {
            json::Array in;
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
              in.push_back(json::Array{bid[P->getIncomingBlock(i)], opJ(P->getIncomingValue(i))});
            o["in"] = std::move(in);
          } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value *, APInt> var;
            APInt off(64, 0);
            o["base"] = opJ(G->getPointerOperand());
            if (cast<GEPOperator>(G)->collectOffset(*DL, 64, var, off)) {
              o["off"] = (int64_t)off.getSExtValue();
              json::Array vs;
              for (auto &kv : var) vs.push_back(json::Array{opJ(kv.first), (int64_t)kv.second.getSExtValue()});
              o["var"] = std::move(vs);
              if (G->getNumIndices() == 1) o["hint"] = (int64_t)DL->getTypeAllocSize(G->getSourceElementType());
            } else
              o["bad"] = true;
          } else if (auto *BI = dyn_cast<BranchInst>(&I)) {
            json::Array s;
            for (unsigned k = 0; k < BI->getNumSuccessors(); ++k) s.push_back(bid[BI->getSuccessor(k)]);
            o["succ"] = std::move(s);
            if (BI->isConditional()) o["cond"] = opJ(BI->getCondition());
          } else if (auto *SI = dyn_cast<SwitchInst>(&I)) {
            o["cond"] = opJ(SI->getCondition());
            o["def"] = bid[SI->getDefaultDest()];
            json::Array cs;
            for (auto &c : SI->cases()) cs.push_back(json::Array{constJ(c.getCaseValue()), bid[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs);
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            o["callee"] = opJ(CB->getCalledOperand());
            json::Array as;
            for (auto &A : CB->args()) as.push_back(opJ(A.get()));
            o["args"] = std::move(as);
            if (auto *IN = dyn_cast<InvokeInst>(&I)) {
              o["succ"] = json::Array{bid[IN->getNormalDest()]};
              o["unwind"] = bid[IN->getUnwindDest()];
            }
          } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
            json::Array cl;
            for (unsigned k = 0; k < LP->getNumClauses(); ++k)
              cl.push_back(LP->isCatch(k) ? constJ(cast<Constant>(LP->getClause(k))) : json::Value(json::Array{"filter"}));
            o["clauses"] = std::move(cl);
            o["cleanup"] = LP->isCleanup();
          } else {
            json::Array os;
            for (auto &U : I.operands()) os.push_back(opJ(U.get()));
            o["o"] = std::move(os);
            if (auto *CI = dyn_cast<CmpInst>(&I)) o["p"] = CmpInst::getPredicateName(CI->getPredicate()).str();
            if (auto *AI = dyn_cast<AllocaInst>(&I)) { o["size"] = (int64_t)DL->getTypeAllocSize(AI->getAllocatedType()); o["at"] = typeJ(AI->getAllocatedType()); }
            if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { if (OB->hasNoSignedWrap()) o["nsw"] = true; if (OB->hasNoUnsignedWrap()) o["nuw"] = true; }
            if (auto *LI = dyn_cast<LoadInst>(&I)) { (void)LI; }
            if (auto *ST = dyn_cast<StoreInst>(&I)) o["st"] = typeJ(ST->getValueOperand()->getType());
            if (I.isCast()) o["from"] = typeJ(I.getOperand(0)->getType());
            if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : EV->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
            if (auto *IV = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : IV->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
          }
          ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
      }
      fo["blocks"] = std::move(blocks);
      DominatorTree DT(F);
      LoopInfo LI(DT);
      json::Array loops;
      for (Loop *L : LI.getLoopsInPreorder()) {
        json::Object lo;
        lo["header"] = bid[L->getHeader()];
        json::Array bs;
        for (auto *B : L->blocks()) bs.push_back(bid[B]);
        lo["blocks"] = std::move(bs);
        json::Array ls;
        SmallVector<BasicBlock *, 4> lat;
        L->getLoopLatches(lat);
        for (auto *B : lat) ls.push_back(bid[B]);
        lo["latches"] = std::move(ls);
        loops.push_back(std::move(lo));
      }
      fo["loops"] = std::move(loops);
    }
    funcs.push_back(std::move(fo));
  }
  json::Array globals;
  for (auto &G : M->globals()) {
    json::Object o;
    o["name"] = G.getName().str();
    o["dem"] = demangle(G.getName().str());
    o["const"] = G.isConstant();
    o["linkage"] = (int64_t)G.getLinkage();
    o["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType());
    o["type"] = typeJ(G.getValueType());
    if (G.hasInitializer()) o["init"] = constJ(G.getInitializer());
    SmallVector<DIGlobalVariableExpression *, 1> GV;
    G.getDebugInfo(GV);
    if (!GV.empty()) { o["file"] = fileIndex(GV[0]->getVariable()->getFile()); o["line"] = (int64_t)GV[0]->getVariable()->getLine(); }
    globals.push_back(std::move(o));
  }
  json::Object root;
  root["functions"] = std::move(funcs);
  root["globals"] = std::move(globals);
  json::Array fs;
  for (auto &f : Files) fs.push_back(f);
  root["files"] = std::move(fs);
  outs() << json::Value(std::move(root)) << "\n";
  return 0;
}
