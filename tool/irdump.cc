// irdump: reads LLVM bitcode files (one per C source of MSTK), normalises every
// function (helpers with internal linkage and helpers that are not part of the
// known API are inlined, locals are promoted to SSA) and writes one JSON object
// per line: struct layouts, global initialisers, functions.
//
// usage: irdump KEEP.txt OUT.jsonl FILE.bc...
//   KEEP.txt: names of the functions never inlined (one per line)
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/IRBuilder.h"
#include <functional>
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/IRBuilder.h"
#include <functional>
#include "llvm/Transforms/Utils/SSAUpdater.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

static std::string diName(DIType *T) {
  std::string s;
  while (T) {
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef) return D->getName().str() + s;
      if (D->getTag() == dwarf::DW_TAG_pointer_type) { s = "*" + s; T = D->getBaseType(); if (!T) s = "void" + s; continue; }
      T = D->getBaseType();
      continue;
    }
    if (auto *C = dyn_cast<DICompositeType>(T))
      if (C->getTag() == dwarf::DW_TAG_array_type) { s = "[]" + s; T = C->getBaseType(); continue; }
    return T->getName().str() + s;
  }
  return s;
}

static std::string tyName(Type *T) {
  if (T->isPointerTy()) return "ptr";
  if (auto *S = dyn_cast<StructType>(T)) {
    if (S->hasName()) {
      StringRef n = S->getName();
      n.consume_front("struct.");
      n.consume_front("union.");
      auto p = n.rfind('.');
      if (p != StringRef::npos && n.drop_front(p + 1).find_if([](char c) {
            return !isdigit(c); }) == StringRef::npos)
        n = n.take_front(p);
      return ("%" + n).str();
    }
  }
  std::string s;
  raw_string_ostream o(s);
  T->print(o);
  return o.str();
}

struct Dumper {
  const DataLayout &DL;
  std::map<const Value *, int> ids;
  json::OStream &J;
  std::map<std::string, std::map<uint64_t, std::string>> fields; // by bit offset
  std::map<std::string, const DICompositeType *> comps;

  Dumper(const DataLayout &D, json::OStream &J) : DL(D), J(J) {}

  std::string fieldName(StructType *S, unsigned idx) {
    std::string n = tyName(S);
    if (!n.empty() && n[0] == '%') n = n.substr(1);
    auto it = fields.find(n);
    uint64_t off = DL.getStructLayout(S)->getElementOffsetInBits(idx).getFixedValue();
    if (it != fields.end()) {
      auto f = it->second.find(off);
      if (f != it->second.end()) return f->second;
    }
    return "#" + std::to_string(idx);
  }

  void constant(const Constant *C, int depth = 0) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      J.arrayBegin(); J.value("c");
      if (CI->getBitWidth() <= 64) J.value(CI->getSExtValue()); else J.value(0);
      J.arrayEnd();
    } else if (auto *CF = dyn_cast<ConstantFP>(C)) {
      J.arrayBegin(); J.value("f");
      SmallString<32> s; CF->getValueAPF().toString(s); J.value(s.str());
      J.arrayEnd();
    } else if (isa<ConstantPointerNull>(C)) {
      J.arrayBegin(); J.value("null"); J.arrayEnd();
    } else if (isa<UndefValue>(C)) {
      J.arrayBegin(); J.value("u"); J.arrayEnd();
    } else if (auto *F = dyn_cast<Function>(C)) {
      J.arrayBegin(); J.value("fn"); J.value(F->getName()); J.arrayEnd();
    } else if (auto *G = dyn_cast<GlobalVariable>(C)) {
      // string literal: give its text
      J.arrayBegin();
      if (G->isConstant() && G->hasInitializer() && G->hasPrivateLinkage())
        if (auto *S = dyn_cast<ConstantDataSequential>(G->getInitializer()))
          if (S->isString()) {
            J.value("s");
            std::string t = S->isCString() ? S->getAsCString().str() : S->getAsString().str();
            J.value(json::fixUTF8(t));
            J.arrayEnd();
            return;
          }
      J.value("g"); J.value(G->getName()); J.arrayEnd();
    } else if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (CE->getOpcode() == Instruction::GetElementPtr) {
        APInt off(64, 0);
        auto *GO = cast<GEPOperator>(CE);
        bool ok = GO->accumulateConstantOffset(DL, off);
        J.arrayBegin(); J.value("gc");
        constant(cast<Constant>(GO->getPointerOperand()));
        J.value(ok ? off.getSExtValue() : -1);
        J.arrayEnd();
      } else {
        J.arrayBegin(); J.value("ce"); J.value(CE->getOpcodeName());
        for (auto &o : CE->operands()) constant(cast<Constant>(o.get()), depth + 1);
        J.arrayEnd();
      }
    } else if (auto *A = dyn_cast<ConstantAggregate>(C)) {
      J.arrayBegin(); J.value("agg");
      J.arrayBegin();
      for (auto &o : A->operands()) constant(cast<Constant>(o.get()), depth + 1);
      J.arrayEnd();
      J.arrayEnd();
    } else if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
      if (D->isString()) {
        J.arrayBegin(); J.value("s");
        J.value(json::fixUTF8(D->isCString() ? D->getAsCString() : D->getAsString()));
        J.arrayEnd();
        return;
      }
      J.arrayBegin(); J.value("agg");
      J.arrayBegin();
      for (unsigned i = 0; i < D->getNumElements(); i++)
        constant(D->getElementAsConstant(i), depth + 1);
      J.arrayEnd();
      J.arrayEnd();
    } else if (isa<ConstantAggregateZero>(C)) {
      J.arrayBegin(); J.value("zero"); J.value(tyName(C->getType())); J.arrayEnd();
    } else {
      J.arrayBegin(); J.value("u"); J.arrayEnd();
    }
  }

  void val(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) { constant(C); return; }
    J.arrayBegin();
    if (auto *A = dyn_cast<Argument>(V)) { J.value("a"); J.value((int)A->getArgNo()); }
    else if (auto *B = dyn_cast<BasicBlock>(V)) { J.value("b"); J.value(ids[B]); }
    else if (ids.count(V)) { J.value("i"); J.value(ids[V]); }
    else { J.value("u"); }
    J.arrayEnd();
  }

  void func(Function &F) {
    ids.clear();
    int n = 0, b = 0;
    for (auto &B : F) {
      ids[&B] = b++;
      for (auto &I : B) ids[&I] = n++;
    }
    J.objectBegin();
    J.attribute("k", "func");
    J.attribute("name", F.getName());
    std::string file;
    int line = 0;
    std::vector<std::string> argn(F.arg_size()), argt(F.arg_size());
    std::string rett;
    if (auto *SP = F.getSubprogram()) {
      file = SP->getFilename().str();
      line = SP->getLine();
      for (auto *N : SP->getRetainedNodes())
        if (auto *LV = dyn_cast<DILocalVariable>(N))
          if (LV->getArg() && LV->getArg() <= argn.size())
            argn[LV->getArg() - 1] = LV->getName().str();
      if (auto *ST = SP->getType()) {
        auto TA = ST->getTypeArray();
        for (unsigned i = 0; i < TA.size(); i++) {
          std::string s = diName(TA[i]);
          if (i == 0) rett = s; else if (i - 1 < argt.size()) argt[i - 1] = s;
        }
      }
    }
    for (auto &A : F.args())
      if (argn[A.getArgNo()].empty()) argn[A.getArgNo()] = A.getName().str();
    J.attribute("file", file);
    J.attribute("line", line);
    J.attribute("internal", F.hasInternalLinkage());
    J.attribute("ret", tyName(F.getReturnType()));
    J.attribute("dret", rett);
    J.attributeArray("args", [&] { for (auto &a : argn) J.value(a); });
    J.attributeArray("targs", [&] { for (auto &A : F.args()) J.value(tyName(A.getType())); });
    J.attributeArray("dargs", [&] { for (auto &a : argt) J.value(a); });
    J.attributeBegin("blocks");
    J.arrayBegin();
    for (auto &B : F) {
      J.arrayBegin();
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        J.objectBegin();
        J.attribute("i", ids[&I]);
        J.attribute("op", I.getOpcodeName());
        if (!I.getType()->isVoidTy()) J.attribute("t", tyName(I.getType()));
        if (auto &L = I.getDebugLoc()) {
          // report the outermost location (call site of an inlined helper) too
          J.attribute("l", (int)L->getLine());
          if (auto *IA = L->getInlinedAt()) {
            const DILocation *o = IA;
            while (o->getInlinedAt()) o = o->getInlinedAt();
            J.attribute("ol", (int)o->getLine());
            J.attribute("if", cast<DISubprogram>(L->getScope()->getSubprogram())->getName());
          }
        }
        if (auto *C = dyn_cast<CallBase>(&I)) {
          J.attributeBegin("fn"); val(C->getCalledOperand()); J.attributeEnd();
          J.attributeBegin("o"); J.arrayBegin();
          for (auto &a : C->args()) val(a.get());
          J.arrayEnd(); J.attributeEnd();
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          J.attributeBegin("o"); J.arrayBegin(); val(G->getPointerOperand()); J.arrayEnd(); J.attributeEnd();
          // path: list of ["f",struct,field] | ["x",value,elemsize]
          J.attributeBegin("path"); J.arrayBegin();
          for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
            if (auto *S = it.getStructTypeOrNull()) {
              unsigned idx = cast<ConstantInt>(it.getOperand())->getZExtValue();
              J.arrayBegin(); J.value("f"); J.value(tyName(S)); J.value(fieldName(S, idx));
              J.arrayEnd();
            } else {
              J.arrayBegin(); J.value("x"); val(it.getOperand());
              J.value((int64_t)DL.getTypeAllocSize(it.getIndexedType()).getFixedValue());
              J.arrayEnd();
            }
          }
          J.arrayEnd(); J.attributeEnd();
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          J.attributeBegin("o"); J.arrayBegin();
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
            J.arrayBegin(); val(P->getIncomingValue(i)); J.value(ids[P->getIncomingBlock(i)]); J.arrayEnd();
          }
          J.arrayEnd(); J.attributeEnd();
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          J.attributeBegin("o"); J.arrayBegin(); val(S->getCondition()); J.arrayEnd(); J.attributeEnd();
          J.attribute("def", ids[S->getDefaultDest()]);
          J.attributeBegin("cases"); J.arrayBegin();
          for (auto &c : S->cases()) { J.arrayBegin(); J.value(c.getCaseValue()->getSExtValue()); J.value(ids[c.getCaseSuccessor()]); J.arrayEnd(); }
          J.arrayEnd(); J.attributeEnd();
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          J.attributeBegin("o"); J.arrayBegin();
          if (Br->isConditional()) val(Br->getCondition());
          J.arrayEnd(); J.attributeEnd();
          J.attributeBegin("succ"); J.arrayBegin();
          for (unsigned i = 0; i < Br->getNumSuccessors(); i++) J.value(ids[Br->getSuccessor(i)]);
          J.arrayEnd(); J.attributeEnd();
        } else {
          J.attributeBegin("o"); J.arrayBegin();
          for (auto &o : I.operands()) val(o.get());
          J.arrayEnd(); J.attributeEnd();
          if (auto *Cm = dyn_cast<CmpInst>(&I)) J.attribute("p", CmpInst::getPredicateName(Cm->getPredicate()));
          if (auto *St = dyn_cast<StoreInst>(&I)) J.attribute("at", tyName(St->getValueOperand()->getType()));
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            J.attribute("at", tyName(A->getAllocatedType()));
            J.attribute("sz", (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue());
            // source variable
            for (auto *U : findDbgDeclares(A)) { J.attribute("v", U->getVariable()->getName()); J.attribute("dt", diName(U->getVariable()->getType())); break; }
          }
          if (auto *Ld = dyn_cast<LoadInst>(&I)) if (Ld->isVolatile()) J.attribute("vol", true);
        }
        J.objectEnd();
      }
      J.arrayEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
  }
};

// The value of "a && b" kept in a variable and tested afterwards is the same
// control flow as testing it in place: a predecessor that fixes the outcome of
// the test goes to its target directly.
static bool threadBools(Function &F) {
  bool any = false;
  for (bool again = true; again;) {
    again = false;
    DominatorTree DT(F);
    LoopInfo LI(DT);
    for (auto &B : F) {
      auto *Br = dyn_cast<BranchInst>(B.getTerminator());
      if (!Br || !Br->isConditional() || LI.isLoopHeader(&B) || !DT.isReachableFromEntry(&B)) continue;
      if (Br->getSuccessor(0) == &B || Br->getSuccessor(1) == &B) continue;
      if (!isa<PHINode>(B.front())) continue;
      bool ok = true;
      for (auto &I : B) {
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I) || I.isTerminator()) continue;
        if (!isa<CastInst>(I) && !isa<ICmpInst>(I) && !isa<FreezeInst>(I) && !(isa<BinaryOperator>(I) && I.getOpcode() == Instruction::Xor)) { ok = false; break; }
        for (auto *U : I.users()) { auto *UI = dyn_cast<Instruction>(U); if (!UI || UI->getParent() != &B) ok = false; }
      }
      if (!ok) continue;
      const DataLayout &DL = F.getParent()->getDataLayout();
      for (BasicBlock *P : predecessors(&B)) {
        // outcome when coming from P
        std::map<Value *, Constant *> val;
        auto get = [&](Value *V) -> Constant * { if (auto *C = dyn_cast<Constant>(V)) return C; auto it = val.find(V); return it == val.end() ? nullptr : it->second; };
        for (auto &I : B) {
          if (auto *N = dyn_cast<PHINode>(&I)) { if (auto *C = dyn_cast<Constant>(N->getIncomingValueForBlock(P))) val[&I] = C; continue; }
          if (isa<DbgInfoIntrinsic>(I) || I.isTerminator()) continue;
          SmallVector<Constant *, 2> ops; bool all = true;
          for (auto &O : I.operands()) { auto *C = get(O.get()); if (!C) { all = false; break; } ops.push_back(C); }
          if (!all) continue;
          Constant *C = isa<ICmpInst>(I) ? ConstantFoldCompareInstOperands(cast<ICmpInst>(I).getPredicate(), ops[0], ops[1], DL) : ConstantFoldInstOperands(&I, ops, DL);
          if (C) val[&I] = C;
        }
        auto *C = dyn_cast_or_null<ConstantInt>(get(Br->getCondition()));
        if (!C || isa<ConstantInt>(Br->getCondition())) continue;
        auto *PB = dyn_cast<BranchInst>(P->getTerminator());
        if (!PB) continue;
        int n = 0;
        for (unsigned i = 0; i < PB->getNumSuccessors(); i++) n += PB->getSuccessor(i) == &B;
        if (n != 1) continue;
        BasicBlock *S = Br->getSuccessor(C->isZero() ? 1 : 0);
        BasicBlock *Q = P;
        if (PB->isConditional()) {
          Q = BasicBlock::Create(F.getContext(), "thread", &F, &B);
          auto *J = BranchInst::Create(&B, Q);
          J->setDebugLoc(PB->getDebugLoc());
          for (unsigned i = 0; i < PB->getNumSuccessors(); i++) if (PB->getSuccessor(i) == &B) PB->setSuccessor(i, Q);
          for (auto &N : B.phis()) N.setIncomingBlock(N.getBasicBlockIndex(P), Q);
        }
        for (auto &N : S->phis()) {
          Value *V = N.getIncomingValueForBlock(&B);
          if (auto *I = dyn_cast<PHINode>(V)) if (I->getParent() == &B) V = I->getIncomingValueForBlock(Q);
          N.addIncoming(V, Q);
        }
        cast<BranchInst>(Q->getTerminator())->setSuccessor(0, S);
        SmallVector<PHINode *, 8> phis;
        for (auto &N : B.phis()) phis.push_back(&N);
        for (auto *N : phis) {
          Value *V = N->getIncomingValueForBlock(Q);
          SmallVector<Use *, 8> out;
          for (auto &U : N->uses()) {
            auto *UI = cast<Instruction>(U.getUser());
            if (auto *UP = dyn_cast<PHINode>(UI)) { if (UP->getIncomingBlock(U) == &B) continue; }
            else if (UI->getParent() == &B) continue;
            out.push_back(&U);
          }
          if (!out.empty()) {
            SSAUpdater Up;
            Up.Initialize(N->getType(), N->getName());
            Up.AddAvailableValue(&B, N);
            Up.AddAvailableValue(Q, V);
            for (auto *U : out) Up.RewriteUse(*U);
          }
        }
        for (auto *N : phis) N->removeIncomingValue(Q, false);
        any = again = true;
        break;
      }
      if (again) break;
    }
  }
  return any;
}

// A pointer that walks over an array is the same as an index into it.
static bool indexPointers(Function &F) {
  bool any = false;
  const DataLayout &DL = F.getParent()->getDataLayout();
  for (bool again = true; again;) {
    again = false;
    DominatorTree DT(F);
    LoopInfo LI(DT);
    for (auto *L : LI.getLoopsInPreorder()) {
      BasicBlock *H = L->getHeader(), *Pre = L->getLoopPredecessor(), *La = L->getLoopLatch();
      if (!Pre || !La) continue;
      for (auto &N : H->phis()) {
        if (!N.getType()->isPointerTy()) continue;
        // increment: a chain of constant geps of one element type back to the phi
        APInt off(64, 0);
        Type *ET = nullptr;
        Value *V = N.getIncomingValueForBlock(La);
        bool ok = true, some = false;
        while (V != &N) {
          auto *G = dyn_cast<GetElementPtrInst>(V);
          if (!G || !L->contains(G) || G->getNumIndices() != 1 || !isa<ConstantInt>(G->idx_begin()->get())) { ok = false; break; }
          if (!ET) ET = G->getSourceElementType();
          else if (ET != G->getSourceElementType()) { ok = false; break; }
          off += cast<ConstantInt>(G->idx_begin()->get())->getValue().sextOrTrunc(64);
          V = G->getPointerOperand();
          some = true;
        }
        if (!ok || !some || off == 0) continue;
        int64_t st = off.getSExtValue();
        Value *Base = N.getIncomingValueForBlock(Pre);
        Type *I64 = Type::getInt64Ty(F.getContext());
        // a counter that starts at a constant and is stepped by one
        Value *Idx = nullptr;
        IRBuilder<> B(&*H->getFirstInsertionPt());
        for (auto &M : H->phis()) {
          if (!M.getType()->isIntegerTy() || M.getType()->getIntegerBitWidth() < 32) continue;
          auto *C = dyn_cast<ConstantInt>(M.getIncomingValueForBlock(Pre));
          auto *A = dyn_cast<BinaryOperator>(M.getIncomingValueForBlock(La));
          if (!C || !A || A->getOpcode() != Instruction::Add || A->getOperand(0) != &M) continue;
          auto *S = dyn_cast<ConstantInt>(A->getOperand(1));
          if (!S || !S->isOne()) continue;
          Value *W = B.CreateSExt(&M, I64);
          if (!C->isZero()) W = B.CreateSub(W, ConstantInt::get(I64, C->getSExtValue()));
          Idx = W;
          break;
        }
        if (!Idx) {
          auto *P = PHINode::Create(I64, 2, N.getName() + ".idx", &*H->begin());
          P->addIncoming(ConstantInt::get(I64, 0), Pre);
          IRBuilder<> BL(La->getTerminator());
          auto *A = BL.CreateNSWAdd(P, ConstantInt::get(I64, 1));
          P->addIncoming(A, La);
          Idx = P;
        }
        if (st != 1) Idx = B.CreateNSWMul(Idx, ConstantInt::get(I64, st));
        // geps of the phi by a constant: one gep of the base
        std::function<void(Value *, int64_t)> repl = [&](Value *Q, int64_t d) {
          SmallVector<User *, 8> us(Q->users());
          for (auto *U : us) {
            auto *G = dyn_cast<GetElementPtrInst>(U);
            if (!G || G->getPointerOperand() != Q || G->getNumIndices() != 1 || G->getSourceElementType() != ET) continue;
            IRBuilder<> BG(G);
            Value *I2 = G->idx_begin()->get();
            if (auto *C = dyn_cast<ConstantInt>(I2)) {
              repl(G, d + C->getSExtValue());
              if (G->use_empty()) continue;
              Value *W = BG.CreateNSWAdd(Idx, ConstantInt::get(I64, d + C->getSExtValue()));
              Value *R = BG.CreateInBoundsGEP(ET, Base, W);
              G->replaceAllUsesWith(R);
            } else {
              Value *W = BG.CreateNSWAdd(Idx, BG.CreateSExtOrTrunc(I2, I64));
              if (d) W = BG.CreateNSWAdd(W, ConstantInt::get(I64, d));
              Value *R = BG.CreateInBoundsGEP(ET, Base, W);
              if (auto *RI = dyn_cast<Instruction>(R)) RI->setDebugLoc(G->getDebugLoc());
              G->replaceAllUsesWith(R);
            }
          }
        };
        // compares with the end of the array
        for (auto *U : SmallVector<User *, 8>(N.users())) {
          auto *C = dyn_cast<ICmpInst>(U);
          if (!C) continue;
          Value *O = C->getOperand(C->getOperand(0) == &N ? 1 : 0);
          auto *E = dyn_cast<GetElementPtrInst>(O);
          if (!E || E->getPointerOperand() != Base || E->getNumIndices() != 1 || E->getSourceElementType() != ET) continue;
          auto P = C->getOperand(0) == &N ? C->getPredicate() : C->getSwappedPredicate();
          if (ICmpInst::isUnsigned(P)) P = ICmpInst::getSignedPredicate(P);
          IRBuilder<> BC(C);
          Value *En = BC.CreateSExtOrTrunc(E->idx_begin()->get(), I64);
          Value *R = BC.CreateICmp(P, Idx, En);
          if (auto *RI = dyn_cast<Instruction>(R)) RI->setDebugLoc(C->getDebugLoc());
          C->replaceAllUsesWith(R);
        }
        repl(&N, 0);
        Value *R = B.CreateInBoundsGEP(ET, Base, Idx);
        auto *LV = N.getIncomingValueForBlock(La);
        (void)LV;
        N.replaceAllUsesWith(R);
        N.eraseFromParent();
        any = again = true;
        break;
      }
      if (again) break;
    }
  }
  return any;
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: irdump KEEP OUT FILE.bc...\n"; return 2; }
  std::set<std::string> keep;
  {
    auto B = MemoryBuffer::getFile(argv[1]);
    if (!B) { errs() << "cannot read " << argv[1] << "\n"; return 2; }
    StringRef s = (*B)->getBuffer();
    while (!s.empty()) { auto p = s.split('\n'); if (!p.first.trim().empty()) keep.insert(p.first.trim().str()); s = p.second; }
  }
  LLVMContext Ctx;
  auto M = std::make_unique<Module>("mstk", Ctx);
  Linker L(*M);
  for (int i = 3; i < argc; i++) {
    SMDiagnostic E;
    auto N = parseIRFile(argv[i], E, Ctx);
    if (!N) { E.print(argv[0], errs()); return 2; }
    if (L.linkInModule(std::move(N))) { errs() << "link failed: " << argv[i] << "\n"; return 2; }
  }
  // helpers: inline
  std::set<std::string> taken;
  for (auto &F : *M)
    if (F.hasAddressTaken()) taken.insert(F.getName().str());
  bool nokeep = keep.empty();
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    bool known = nokeep ? !F.hasInternalLinkage() : keep.count(F.getName().str()) != 0;
    if (!known && !taken.count(F.getName().str()) && !F.isVarArg()) {
      // direct recursion: leave alone
      bool rec = false;
      for (auto &I : instructions(F))
        if (auto *C = dyn_cast<CallBase>(&I)) if (C->getCalledFunction() == &F) rec = true;
      if (!rec) F.addFnAttr(Attribute::AlwaysInline);
    }
  }
  if (getenv("IRDUMP_UNDEF"))
    // local variables start with a value that can be recognised
    for (auto &F : *M)
      if (!F.isDeclaration())
        for (auto &I : make_early_inc_range(F.getEntryBlock()))
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            Type *T = A->getAllocatedType();
            if (A->isArrayAllocation() || !(T->isIntegerTy() || T->isFloatingPointTy() || T->isPointerTy())) continue;
            std::string tn; raw_string_ostream o(tn); T->print(o); o.flush();
            auto U = M->getOrInsertFunction("__undef." + tn + "." + A->getName().str(), FunctionType::get(T, false));
            if (auto *G = dyn_cast<Function>(U.getCallee())) { G->setDoesNotAccessMemory(); G->setDoesNotThrow(); G->setWillReturn(); }
            auto *C = CallInst::Create(U, "", A->getNextNode());
            new StoreInst(C, A, C->getNextNode());
          }
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  auto pipeline = [&](const char *p) {
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, p)) { errs() << toString(std::move(E)) << "\n"; exit(2); }
    MPM.run(*M, MAM);
  };
  const char *pipe = getenv("IRDUMP_PIPE");
  pipeline(pipe ? pipe : "always-inline,function(sroa<preserve-cfg>,mem2reg,instsimplify,adce)");
  bool any = false;
  for (auto &F : *M) if (!F.isDeclaration()) { any |= threadBools(F); any |= indexPointers(F); }
  if (any) {
    if (verifyModule(*M, &errs())) return 2;
    MAM.clear(); FAM.clear(); LAM.clear(); CAM.clear();
    pipeline("function(instsimplify,adce)");
  }

  std::error_code ec;
  raw_fd_ostream out(argv[2], ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  const DataLayout &DL = M->getDataLayout();
  // struct fields from debug info
  std::map<std::string, std::map<uint64_t, std::string>> fields;
  DebugInfoFinder DF;
  DF.processModule(*M);
  std::string buf;
  {
    auto emit = [&](const DICompositeType *CT, StringRef name) {
      if (!CT || CT->getTag() != dwarf::DW_TAG_structure_type || fields.count(name.str())) return;
      if (CT->getElements().empty()) return;
      auto &fm = fields[name.str()];
      for (auto *N : CT->getElements())
        if (auto *D = dyn_cast_or_null<DIDerivedType>(N))
          if (!fm.count(D->getOffsetInBits())) fm[D->getOffsetInBits()] = D->getName().str();
    };
    for (auto *T : DF.types()) {
      if (auto *CT = dyn_cast<DICompositeType>(T)) if (!CT->getName().empty()) emit(CT, CT->getName());
      if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *CT = dyn_cast_or_null<DICompositeType>(D->getBaseType())) if (CT->getName().empty()) emit(CT, D->getName());
    }
  }
  auto line = [&](auto fn) {
    std::string s; raw_string_ostream o(s);
    { json::OStream J(o); fn(J); }
    out << o.str() << "\n";
  };
  for (auto &kv : fields)
    line([&](json::OStream &J) {
      J.objectBegin(); J.attribute("k", "struct"); J.attribute("name", kv.first);
      J.attributeArray("fields", [&] { for (auto &f : kv.second) { J.arrayBegin(); J.value((int64_t)f.first); J.value(f.second); J.arrayEnd(); } });
      J.objectEnd();
    });
  for (auto &G : M->globals()) {
    line([&](json::OStream &J) {
      Dumper D(DL, J);
      J.objectBegin(); J.attribute("k", "global"); J.attribute("name", G.getName());
      J.attribute("const", G.isConstant());
      J.attribute("internal", G.hasLocalLinkage());
      J.attribute("ty", tyName(G.getValueType()));
      SmallVector<DIGlobalVariableExpression *, 1> gv;
      G.getDebugInfo(gv);
      if (!gv.empty()) { J.attribute("file", gv[0]->getVariable()->getFilename()); J.attribute("line", (int)gv[0]->getVariable()->getLine()); }
      if (G.hasInitializer()) { J.attributeBegin("init"); D.constant(G.getInitializer()); J.attributeEnd(); }
      J.objectEnd();
    });
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    line([&](json::OStream &J) { Dumper D(DL, J); D.fields = fields; D.func(F); });
  }
  return 0;
}
