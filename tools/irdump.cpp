// irdump: load LLVM bitcode/IR and dump the resolved program as JSON for the
// abstract interpreter in /verif/sa.  Purely a frontend: no analysis here.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> Ids;

static std::string tyStr(Type *T) {
  std::string s;
  if (T->isPointerTy()) return "ptr";
  if (T->isStructTy()) {
    s = "{";
    for (unsigned i = 0; i < T->getStructNumElements(); i++) {
      if (i) s += ",";
      s += tyStr(T->getStructElementType(i));
    }
    return s + "}";
  }
  if (T->isArrayTy()) {
    return "[" + std::to_string(T->getArrayNumElements()) + "x" +
           tyStr(T->getArrayElementType()) + "]";
  }
  raw_string_ostream os(s);
  T->print(os);
  return os.str();
}

static uint64_t tySize(Type *T) {
  if (!T->isSized()) return 0;
  return DL->getTypeAllocSize(T);
}
static uint64_t tyStore(Type *T) {
  if (!T->isSized()) return 0;
  return DL->getTypeStoreSize(T);
}

static json::Value val(const Value *V);

static bool constPtr(const Constant *C, const GlobalValue *&G, int64_t &Off) {
  APInt A(DL->getPointerSizeInBits(), 0);
  const Value *B = C->stripAndAccumulateConstantOffsets(*DL, A, true);
  if (auto *GV = dyn_cast<GlobalValue>(B)) {
    G = GV;
    Off = A.getSExtValue();
    return true;
  }
  return false;
}

static json::Value val(const Value *V) {
  auto it = Ids.find(V);
  if (it != Ids.end()) return json::Array{"v", it->second};
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    SmallString<40> S;
    CI->getValue().toString(S, 10, false);
    return json::Array{"c", (int64_t)CI->getBitWidth(), std::string(S.str())};
  }
  if (isa<ConstantPointerNull>(V)) return json::Array{"n"};
  if (isa<PoisonValue>(V) || isa<UndefValue>(V))
    return json::Array{"u", tyStr(V->getType())};
  if (auto *F = dyn_cast<Function>(V)) return json::Array{"g", F->getName(), 0};
  if (auto *G = dyn_cast<GlobalVariable>(V))
    return json::Array{"g", G->getName(), 0};
  if (auto *G = dyn_cast<GlobalAlias>(V)) return val(G->getAliasee());
  if (auto *C = dyn_cast<ConstantAggregateZero>(V))
    return json::Array{"z", tyStr(C->getType())};
  if (isa<ConstantFP>(V)) {
    std::string s;
    raw_string_ostream os(s);
    V->printAsOperand(os);
    return json::Array{"f", os.str()};
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
    json::Array A;
    A.push_back("a");
    for (unsigned i = 0; i < CA->getNumOperands(); i++)
      A.push_back(val(CA->getOperand(i)));
    return A;
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(V)) {
    json::Array A;
    A.push_back("a");
    for (unsigned i = 0; i < CD->getNumElements(); i++)
      A.push_back(val(CD->getElementAsConstant(i)));
    return A;
  }
  if (auto *C = dyn_cast<Constant>(V)) {
    const GlobalValue *G;
    int64_t Off;
    if (C->getType()->isPointerTy() && constPtr(C, G, Off))
      return json::Array{"g", G->getName(), Off};
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      json::Array A;
      A.push_back("x");
      A.push_back(CE->getOpcodeName());
      A.push_back(tyStr(CE->getType()));
      for (unsigned i = 0; i < CE->getNumOperands(); i++)
        A.push_back(val(CE->getOperand(i)));
      return A;
    }
  }
  if (auto *MV = dyn_cast<MetadataAsValue>(V)) {
    (void)MV;
    return json::Array{"m"};
  }
  if (auto *IA = dyn_cast<InlineAsm>(V))
    return json::Array{"asm", IA->getAsmString(), IA->getConstraintString()};
  if (isa<BasicBlock>(V)) return json::Array{"bb"};
  return json::Array{"?"};
}

static void initBytes(const Constant *C, uint64_t Off, json::Array &Out) {
  // emit [offset, size, value]
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) {
    Out.push_back(json::Array{(int64_t)Off, (int64_t)tyStore(C->getType()), json::Array{"zero"}});
    return;
  }
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    auto *L = DL->getStructLayout(S->getType());
    for (unsigned i = 0; i < S->getNumOperands(); i++)
      initBytes(S->getOperand(i), Off + L->getElementOffset(i), Out);
    return;
  }
  if (auto *A = dyn_cast<ConstantArray>(C)) {
    uint64_t sz = tySize(A->getType()->getElementType());
    for (unsigned i = 0; i < A->getNumOperands(); i++)
      initBytes(A->getOperand(i), Off + i * sz, Out);
    return;
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    uint64_t sz = tySize(CD->getElementType());
    for (unsigned i = 0; i < CD->getNumElements(); i++)
      initBytes(CD->getElementAsConstant(i), Off + i * sz, Out);
    return;
  }
  Out.push_back(json::Array{(int64_t)Off, (int64_t)tyStore(C->getType()), val(C)});
}

static json::Value loc(const Instruction &I) {
  const DILocation *L = I.getDebugLoc();
  if (!L) return nullptr;
  return json::Array{L->getFilename(), (int64_t)L->getLine()};
}

int main(int argc, char **argv) {
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) {
    Err.print(argv[0], errs());
    return 2;
  }
  DL = &M->getDataLayout();
  json::Object Root;
  // debug struct layouts
  json::Object Structs;
  DebugInfoFinder Finder;
  Finder.processModule(*M);
  for (auto *T : Finder.types()) {
    auto *CT = dyn_cast<DICompositeType>(T);
    if (!CT || CT->isForwardDecl()) continue;
    if (CT->getTag() != dwarf::DW_TAG_structure_type &&
        CT->getTag() != dwarf::DW_TAG_union_type &&
        CT->getTag() != dwarf::DW_TAG_enumeration_type)
      continue;
    if (CT->getName().empty()) continue;
    json::Array Mem;
    for (auto *E : CT->getElements()) {
      if (auto *D = dyn_cast<DIDerivedType>(E)) {
        std::string tn;
        bool isptr = false;
        auto *BT = D->getBaseType();
        while (BT && isa<DIDerivedType>(BT) &&
               (BT->getTag() == dwarf::DW_TAG_typedef ||
                BT->getTag() == dwarf::DW_TAG_const_type ||
                BT->getTag() == dwarf::DW_TAG_volatile_type))
          BT = cast<DIDerivedType>(BT)->getBaseType();
        if (BT) {
          tn = BT->getName().str();
          if (BT->getTag() == dwarf::DW_TAG_pointer_type) {
            isptr = true;
            auto *PT = cast<DIDerivedType>(BT)->getBaseType();
            while (PT && isa<DIDerivedType>(PT) &&
               (PT->getTag() == dwarf::DW_TAG_typedef ||
                PT->getTag() == dwarf::DW_TAG_const_type))
              PT = cast<DIDerivedType>(PT)->getBaseType();
            if (PT) tn = PT->getName().str();
            if (PT && isa<DISubroutineType>(PT)) tn = "<fn>";
          }
        }
        Mem.push_back(json::Array{D->getName(), (int64_t)D->getOffsetInBits() / 8,
                                  (int64_t)D->getSizeInBits() / 8, tn, isptr});
      } else if (auto *EN = dyn_cast<DIEnumerator>(E)) {
        Mem.push_back(json::Array{EN->getName(), EN->getValue().getSExtValue()});
      }
    }
    std::string nm = CT->getName().str();
    if (!Structs.get(nm))
      Structs[nm] = json::Object{{"size", (int64_t)CT->getSizeInBits() / 8},
                               {"file", CT->getFilename()},
                               {"members", std::move(Mem)}};
  }
  Root["structs"] = std::move(Structs);

  json::Object Globals;
  for (auto &G : M->globals()) {
    json::Object O;
    O["size"] = (int64_t)tySize(G.getValueType());
    O["const"] = G.isConstant();
    O["tls"] = G.isThreadLocal();
    O["local"] = G.hasLocalLinkage();
    O["decl"] = G.isDeclaration();
    SmallVector<DIGlobalVariableExpression *, 1> GVs;
    G.getDebugInfo(GVs);
    if (!GVs.empty()) {
      O["file"] = GVs[0]->getVariable()->getFilename();
      O["line"] = (int64_t)GVs[0]->getVariable()->getLine();
    }
    if (G.hasInitializer()) {
      json::Array A;
      initBytes(G.getInitializer(), 0, A);
      O["init"] = std::move(A);
    }
    Globals[G.getName().str()] = std::move(O);
  }
  Root["globals"] = std::move(Globals);

  json::Object Funcs;
  for (auto &F : *M) {
    json::Object FO;
    FO["decl"] = F.isDeclaration();
    FO["local"] = F.hasLocalLinkage();
    FO["avail"] = F.hasAvailableExternallyLinkage();
    FO["vararg"] = F.isVarArg();
    FO["noreturn"] = F.doesNotReturn();
    FO["ret"] = tyStr(F.getReturnType());
    if (auto *SP = F.getSubprogram()) {
      FO["file"] = SP->getFilename();
      FO["line"] = (int64_t)SP->getLine();
    }
    Ids.clear();
    int n = 0;
    json::Array Args;
    for (auto &A : F.args()) {
      Ids[&A] = n;
      json::Object AO{{"id", n}, {"ty", tyStr(A.getType())}, {"name", A.getName()}};
      if (A.hasByValAttr()) AO["byval"] = (int64_t)tySize(A.getParamByValType());
      if (A.hasStructRetAttr()) AO["sret"] = true;
      Args.push_back(std::move(AO));
      n++;
    }
    FO["args"] = std::move(Args);
    if (!F.isDeclaration()) {
      std::map<const BasicBlock *, int> BB;
      int b = 0;
      for (auto &B : F) BB[&B] = b++;
      for (auto &I : instructions(F))
        if (!I.getType()->isVoidTy()) Ids[&I] = n++;
      // parameter / local names from dbg intrinsics
      json::Object Names;
      json::Array Blocks;
      for (auto &B : F) {
        json::Array Insts;
        for (auto &I : B) {
          if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
            if (DV->getNumVariableLocationOps() == 1) {
              Value *V = DV->getVariableLocationOp(0);
              if (V && Ids.count(V))
                Names[std::to_string(Ids[V])] = DV->getVariable()->getName();
            }
            continue;
          }
          if (isa<DbgInfoIntrinsic>(&I)) continue;
          json::Object O;
          O["op"] = I.getOpcodeName();
          if (!I.getType()->isVoidTy()) {
            O["id"] = Ids[&I];
            O["ty"] = tyStr(I.getType());
          }
          O["loc"] = loc(I);
          json::Array Ops;
          if (auto *C = dyn_cast<CallBase>(&I)) {
            for (auto &A : C->args()) Ops.push_back(val(A));
            O["callee"] = val(C->getCalledOperand());
            O["nr"] = C->doesNotReturn();
            json::Array bv;
            for (unsigned i = 0; i < C->arg_size(); i++)
              if (C->isByValArgument(i))
                bv.push_back(json::Array{(int64_t)i, (int64_t)tySize(C->getParamByValType(i))});
            if (!bv.empty()) O["byval"] = std::move(bv);
            json::Array tys;
            for (auto &A : C->args()) tys.push_back(tyStr(A->getType()));
            O["atys"] = std::move(tys);
          } else if (auto *P = dyn_cast<PHINode>(&I)) {
            for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
              Ops.push_back(json::Array{BB[P->getIncomingBlock(i)], val(P->getIncomingValue(i))});
          } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
            if (Br->isConditional()) {
              Ops.push_back(val(Br->getCondition()));
              O["succ"] = json::Array{BB[Br->getSuccessor(0)], BB[Br->getSuccessor(1)]};
            } else
              O["succ"] = json::Array{BB[Br->getSuccessor(0)]};
          } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
            Ops.push_back(val(S->getCondition()));
            json::Array Cs;
            for (auto &C : S->cases())
              Cs.push_back(json::Array{val(C.getCaseValue()), BB[C.getCaseSuccessor()]});
            O["cases"] = std::move(Cs);
            O["default"] = BB[S->getDefaultDest()];
          } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            Ops.push_back(val(G->getPointerOperand()));
            MapVector<Value *, APInt> VO;
            APInt CO(DL->getPointerSizeInBits(), 0);
            if (!G->collectOffset(*DL, DL->getPointerSizeInBits(), VO, CO)) {
              O["bad"] = true;
            }
            O["off"] = CO.getSExtValue();
            json::Array Vs;
            for (auto &kv : VO)
              Vs.push_back(json::Array{val(kv.first), kv.second.getSExtValue(),
                                       (int64_t)kv.first->getType()->getIntegerBitWidth()});
            O["idx"] = std::move(Vs);
            O["inb"] = G->isInBounds();
            if (auto *ST = dyn_cast<StructType>(G->getSourceElementType()))
              if (ST->hasName()) O["sty"] = ST->getName();
          } else {
            for (auto &Op : I.operands()) Ops.push_back(val(Op));
            if (auto *C = dyn_cast<CmpInst>(&I)) {
              O["pred"] = CmpInst::getPredicateName(C->getPredicate());
              O["oty"] = tyStr(C->getOperand(0)->getType());
            }
            if (auto *L = dyn_cast<LoadInst>(&I)) {
              O["size"] = (int64_t)tyStore(L->getType());
              if (L->isVolatile()) O["vol"] = true;
              if (L->isAtomic()) O["atomic"] = toIRString(L->getOrdering());
            }
            if (auto *S = dyn_cast<StoreInst>(&I)) {
              O["size"] = (int64_t)tyStore(S->getValueOperand()->getType());
              O["vty"] = tyStr(S->getValueOperand()->getType());
              if (S->isVolatile()) O["vol"] = true;
              if (S->isAtomic()) O["atomic"] = toIRString(S->getOrdering());
            }
            if (auto *A = dyn_cast<AllocaInst>(&I)) {
              O["size"] = (int64_t)tySize(A->getAllocatedType());
            }
            if (auto *CI = dyn_cast<CastInst>(&I)) O["sty"] = tyStr(CI->getSrcTy());
            if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
              json::Array ix;
              for (auto i : E->indices()) ix.push_back((int64_t)i);
              O["ix"] = std::move(ix);
            }
            if (auto *E = dyn_cast<InsertValueInst>(&I)) {
              json::Array ix;
              for (auto i : E->indices()) ix.push_back((int64_t)i);
              O["ix"] = std::move(ix);
            }
            if (auto *R = dyn_cast<AtomicRMWInst>(&I)) {
              O["rmw"] = AtomicRMWInst::getOperationName(R->getOperation());
              O["size"] = (int64_t)tyStore(R->getType());
              O["atomic"] = toIRString(R->getOrdering());
            }
            if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) {
              O["size"] = (int64_t)tyStore(X->getCompareOperand()->getType());
              O["atomic"] = toIRString(X->getSuccessOrdering());
            }
            if (auto *B = dyn_cast<OverflowingBinaryOperator>(&I)) {
              if (B->hasNoSignedWrap()) O["nsw"] = true;
              if (B->hasNoUnsignedWrap()) O["nuw"] = true;
            }
          }
          O["ops"] = std::move(Ops);
          Insts.push_back(std::move(O));
        }
        Blocks.push_back(std::move(Insts));
      }
      FO["blocks"] = std::move(Blocks);
      FO["names"] = std::move(Names);
    }
    Funcs[F.getName().str()] = std::move(FO);
  }
  Root["funcs"] = std::move(Funcs);
  json::Value V(std::move(Root));
  outs() << V << "\n";
  return 0;
}
