// irdump: read LLVM bitcode, mark functions (no)inline by demangled name, run a
// pass pipeline, and write the selected functions' SSA form as JSON.
//
//   irdump --passes=PIPE --roots=REGEX [--noinline=REGEX] [--opaque=REGEX] [--all] in.bc... > out.json
//
// --roots    functions (demangled name) that are dumped and kept
// --noinline functions that must stay calls (still dumped when they match --dump)
// --opaque   functions whose bodies are dropped
// --dump     extra functions to dump
#include <llvm/ADT/MapVector.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/AliasAnalysis.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>

using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Passes("pipe", cl::init(""));
static cl::opt<std::string> Roots("roots", cl::init("^probe_"));
static cl::opt<std::string> NoInline("noinline", cl::init(""));
static cl::opt<std::string> Opaque("opaque", cl::init(""));
static cl::opt<std::string> Dump("dump", cl::init(""));
static cl::opt<std::string> SaveLL("save-ll", cl::init(""));

static std::string demangled(StringRef Name) {
  return demangle(Name.str());
}

static std::string tyStr(Type *T) {
  std::string S;
  raw_string_ostream OS(S);
  T->print(OS, false, true);
  return S;
}

struct Dumper {
  Module &M;
  DataLayout const &DL;
  json::OStream &J;
  DenseMap<Value const *, int> Ids;
  int Next = 0;

  Dumper(Module &M_, json::OStream &J_) : M(M_), DL(M_.getDataLayout()), J(J_) {}

  int id(Value const *V) {
    auto It = Ids.find(V);
    if (It != Ids.end()) return It->second;
    return Ids[V] = Next++;
  }

  void constant(Constant const *C) {
    if (auto *I = dyn_cast<ConstantInt>(C)) {
      J.attribute("k", "i");
      SmallString<32> S;
      I->getValue().toString(S, 10, true);
      J.attribute("v", StringRef(S));
      J.attribute("w", (int64_t)I->getBitWidth());
    } else if (auto *F = dyn_cast<ConstantFP>(C)) {
      J.attribute("k", "f");
      bool Loses;
      APFloat A = F->getValueAPF();
      A.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &Loses);
      uint64_t Bits = A.bitcastToAPInt().getZExtValue();
      J.attribute("v", std::to_string(Bits));
      J.attribute("t", tyStr(C->getType()));
    } else if (isa<UndefValue>(C)) {
      J.attribute("k", "u");
      J.attribute("t", tyStr(C->getType()));
      if (C->getType()->isSized()) J.attribute("sz", (int64_t)DL.getTypeAllocSize(C->getType()).getFixedValue());
    } else if (isa<ConstantPointerNull>(C)) {
      J.attribute("k", "n");
    } else if (isa<ConstantAggregateZero>(C)) {
      J.attribute("k", "z");
      J.attribute("t", tyStr(C->getType()));
      J.attribute("sz", (int64_t)DL.getTypeAllocSize(C->getType()).getFixedValue());
      if (auto *VT = dyn_cast<FixedVectorType>(C->getType()))
        J.attribute("n", (int64_t)VT->getNumElements());
    } else if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
      J.attribute("k", "a");
      J.attributeArray("v", [&] {
        for (unsigned I = 0; I < CDS->getNumElements(); ++I) operand(CDS->getElementAsConstant(I));
      });
    } else if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
      J.attribute("k", "a");
      J.attribute("sz", (int64_t)DL.getTypeAllocSize(C->getType()).getFixedValue());
      if (auto *ST = dyn_cast<StructType>(C->getType())) {
        auto *SL = DL.getStructLayout(ST);
        J.attributeArray("off", [&] {
          for (unsigned I = 0; I < CA->getNumOperands(); ++I) J.value((int64_t)SL->getElementOffset(I).getFixedValue());
        });
      }
      J.attributeArray("v", [&] {
        for (unsigned I = 0; I < CA->getNumOperands(); ++I) operand(CA->getOperand(I));
      });
    } else if (auto *G = dyn_cast<GlobalValue>(C)) {
      J.attribute("k", "g");
      J.attribute("v", G->getName());
      if (isa<Function>(G)) J.attribute("fn", true);
    } else if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (CE->getOpcode() == Instruction::GetElementPtr) {
        J.attribute("k", "ge");
        APInt Off(DL.getIndexTypeSizeInBits(CE->getType()), 0);
        Value const *B = CE->stripAndAccumulateConstantOffsets(DL, Off, true);
        J.attributeBegin("b");
        operand(B);
        J.attributeEnd();
        J.attribute("o", Off.getSExtValue());
      } else {
        J.attribute("k", "ce");
        J.attribute("op", CE->getOpcodeName());
        J.attributeArray("v", [&] {
          for (auto &O : CE->operands()) operand(O);
        });
      }
    } else {
      J.attribute("k", "?");
    }
  }

  void operand(Value const *V) {
    J.object([&] {
      if (auto *C = dyn_cast<Constant>(V)) {
        constant(C);
      } else if (auto *BB = dyn_cast<BasicBlock>(V)) {
        J.attribute("k", "b");
        J.attribute("v", id(BB));
      } else if (isa<MetadataAsValue>(V)) {
        J.attribute("k", "m");
      } else {
        J.attribute("k", "v");
        J.attribute("v", id(V));
      }
    });
  }

  void loc(Instruction const &I) {
    if (DILocation *L = I.getDebugLoc()) {
      J.attributeArray("loc", [&] {
        int N = 0;
        while (L && N++ < 6) {
          StringRef SP;
          if (auto *S = L->getScope()->getSubprogram()) SP = S->getName();
          J.value((L->getFilename() + ":" + Twine(L->getLine()) + ":" + SP).str());
          L = L->getInlinedAt();
        }
      });
    }
  }

  void instr(Instruction const &I) {
    J.object([&] {
      J.attribute("id", id(&I));
      J.attribute("op", I.getOpcodeName());
      J.attribute("ty", tyStr(I.getType()));
      loc(I);
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value *, APInt> Var;
        unsigned BW = DL.getIndexTypeSizeInBits(G->getType());
        APInt C(BW, 0);
        if (cast<GEPOperator>(G)->collectOffset(DL, BW, Var, C)) {
          J.attributeBegin("b");
          operand(G->getPointerOperand());
          J.attributeEnd();
          J.attribute("o", C.getSExtValue());
          J.attributeArray("var", [&] {
            for (auto &P : Var) {
              J.array([&] {
                operand(P.first);
                J.value(P.second.getSExtValue());
              });
            }
          });
        } else {
          J.attribute("bad", true);
        }
        return;
      }
      if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      if (auto *B = dyn_cast<OverflowingBinaryOperator>(&I)) {
        J.attribute("nsw", B->hasNoSignedWrap());
        J.attribute("nuw", B->hasNoUnsignedWrap());
      }
      if (auto *C = dyn_cast<CastInst>(&I)) J.attribute("sty", tyStr(C->getSrcTy()));
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        auto Sz = A->getAllocationSize(DL);
        J.attribute("size", Sz ? (int64_t)Sz->getFixedValue() : -1);
        J.attribute("aty", tyStr(A->getAllocatedType()));
      }
      if (auto *L = dyn_cast<LoadInst>(&I)) J.attribute("sz", (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue());
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        J.attribute("sz", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue());
        J.attribute("vty", tyStr(S->getValueOperand()->getType()));
      }
      if (auto *S = dyn_cast<ShuffleVectorInst>(&I)) {
        J.attributeArray("mask", [&] {
          for (int X : S->getShuffleMask()) J.value(X);
        });
      }
      if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
        J.attributeArray("idx", [&] {
          for (unsigned X : E->getIndices()) J.value((int64_t)X);
        });
      }
      if (auto *E = dyn_cast<InsertValueInst>(&I)) {
        J.attributeArray("idx", [&] {
          for (unsigned X : E->getIndices()) J.value((int64_t)X);
        });
      }
      if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attributeArray("in", [&] {
          for (unsigned K = 0; K < P->getNumIncomingValues(); ++K) {
            J.array([&] {
              operand(P->getIncomingValue(K));
              J.value(id(P->getIncomingBlock(K)));
            });
          }
        });
        return;
      }
      if (auto *S = dyn_cast<SwitchInst>(&I)) {
        J.attributeBegin("c");
        operand(S->getCondition());
        J.attributeEnd();
        J.attribute("def", id(S->getDefaultDest()));
        J.attributeArray("cases", [&] {
          for (auto &C : S->cases()) {
            J.array([&] {
              SmallString<32> T;
              C.getCaseValue()->getValue().toString(T, 10, true);
              J.value(StringRef(T));
              J.value(id(C.getCaseSuccessor()));
            });
          }
        });
        return;
      }
      if (auto *C = dyn_cast<CallBase>(&I)) {
        Value const *Callee = C->getCalledOperand()->stripPointerCasts();
        if (auto *F = dyn_cast<Function>(Callee)) {
          J.attribute("fn", F->getName());
          J.attribute("dem", demangled(F->getName()));
          if (F->doesNotReturn() || C->doesNotReturn()) J.attribute("noreturn", true);
          if (C->onlyReadsMemory()) J.attribute("ro", true);
          if (C->doesNotAccessMemory()) J.attribute("rn", true);
        } else {
          J.attributeBegin("fp");
          operand(Callee);
          J.attributeEnd();
        }
        J.attributeArray("ops", [&] {
          for (auto &A : C->args()) operand(A);
        });
        J.attributeArray("sret", [&] {
          for (unsigned K = 0; K < C->arg_size(); ++K)
            if (C->paramHasAttr(K, Attribute::StructRet)) J.value((int64_t)K);
        });
        if (auto *In = dyn_cast<InvokeInst>(&I)) {
          J.attribute("normal", id(In->getNormalDest()));
          J.attribute("unwind", id(In->getUnwindDest()));
        }
        return;
      }
      J.attributeArray("ops", [&] {
        for (auto &O : I.operands()) operand(O);
      });
    });
  }

  void function(Function &F) {
    Ids.clear();
    Next = 0;
    J.object([&] {
      J.attribute("name", F.getName());
      J.attribute("dem", demangled(F.getName()));
      if (auto *SP = F.getSubprogram()) J.attribute("file", (SP->getFilename() + ":" + Twine(SP->getLine())).str());
      J.attributeArray("args", [&] {
        for (auto &A : F.args()) {
          J.object([&] {
            J.attribute("id", id(&A));
            J.attribute("ty", tyStr(A.getType()));
            J.attribute("name", A.getName());
            J.attribute("sret", A.hasStructRetAttr());
            J.attribute("ro", A.onlyReadsMemory());
          });
        }
      });
      J.attribute("ret", tyStr(F.getReturnType()));
      DominatorTree DT(F);
      LoopInfo LI(DT);
      for (auto &B : F) id(&B);
      J.attributeArray("blocks", [&] {
        for (auto &B : F) {
          J.object([&] {
            J.attribute("id", id(&B));
            if (auto *L = LI.getLoopFor(&B)) {
              J.attribute("loop", id(L->getHeader()));
              J.attribute("depth", (int64_t)L->getLoopDepth());
            }
            J.attributeArray("succ", [&] {
              for (auto *S : successors(&B)) J.value(id(S));
            });
            J.attributeArray("ins", [&] {
              for (auto &I : B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (I.isLifetimeStartOrEnd()) continue;
                instr(I);
              }
            });
          });
        }
      });
      J.attributeArray("loops", [&] {
        for (auto *L : LI.getLoopsInPreorder()) {
          J.object([&] {
            J.attribute("header", id(L->getHeader()));
            if (auto *P = L->getParentLoop()) J.attribute("parent", id(P->getHeader()));
            J.attributeArray("latches", [&] {
              SmallVector<BasicBlock *> Ls;
              L->getLoopLatches(Ls);
              for (auto *B : Ls) J.value(id(B));
            });
            J.attributeArray("blocks", [&] {
              for (auto *B : L->blocks()) J.value(id(B));
            });
          });
        }
      });
    });
  }
};

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx;
  SMDiagnostic Err;
  std::unique_ptr<Module> M;
  for (auto &P : Inputs) {
    auto N = parseIRFile(P, Err, Ctx);
    if (!N) {
      Err.print("irdump", errs());
      return 3;
    }
    if (!M) {
      M = std::move(N);
    } else if (Linker::linkModules(*M, std::move(N))) {
      return 3;
    }
  }
  // constructor aliases stand for the function they name
  for (GlobalAlias &A : M->aliases())
    if (auto *F = dyn_cast<Function>(A.getAliaseeObject())) A.replaceAllUsesWith(F);
  Regex RRoots(Roots), RNo(NoInline.empty() ? "^$" : NoInline.getValue()),
      ROp(Opaque.empty() ? "^$" : Opaque.getValue()), RDump(Dump.empty() ? "^$" : Dump.getValue());
  SmallVector<GlobalValue *> Keep;
  for (Function &F : *M) {
    std::string D = demangled(F.getName());
    if (!F.isDeclaration() && ROp.match(D)) {
      F.deleteBody();
      F.setComdat(nullptr);
    }
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    bool Root = RRoots.match(D);
    if (Root || RNo.match(D)) {
      F.removeFnAttr(Attribute::AlwaysInline);
      F.addFnAttr(Attribute::NoInline);
    } else {
      F.removeFnAttr(Attribute::NoInline);
    }
    if (Root || RDump.match(D)) {
      Keep.push_back(&F);
    } else {
      F.setLinkage(GlobalValue::InternalLinkage);
      F.setComdat(nullptr);
    }
  }
  if (!Keep.empty()) appendToCompilerUsed(*M, Keep);
  // dynamic initialisers are analysed only when they are roots themselves
  for (char const *N : {"llvm.global_ctors", "llvm.global_dtors"}) {
    if (auto *G = M->getNamedGlobal(N)) G->eraseFromParent();
  }
  if (!Passes.empty()) {
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CAM;
    ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, Passes)) {
      errs() << toString(std::move(E)) << "\n";
      return 3;
    }
    MPM.run(*M, MAM);
  }
  if (!SaveLL.empty()) {
    std::error_code EC;
    raw_fd_ostream OS(SaveLL, EC);
    M->print(OS, nullptr);
  }
  json::OStream J(outs());
  Dumper D(*M, J);
  J.object([&] {
    J.attributeArray("functions", [&] {
      for (Function &F : *M) {
        if (F.isDeclaration()) continue;
        D.function(F);
      }
    });
    J.attributeArray("globals", [&] {
      for (auto &G : M->globals()) {
        if (!G.hasInitializer() || !G.isConstant()) continue;
        J.object([&] {
          J.attribute("name", G.getName());
          J.attribute("ty", tyStr(G.getValueType()));
          if (auto *CDS = dyn_cast<ConstantDataSequential>(G.getInitializer())) {
            if (CDS->isString()) {
              J.attribute("str", json::fixUTF8(CDS->getAsString().rtrim('\0')));
              return;
            }
          }
          auto *VT = dyn_cast<ArrayType>(G.getValueType());
          J.attribute("esz", VT ? (int64_t)M->getDataLayout().getTypeAllocSize(VT->getElementType()).getFixedValue()
                                : (int64_t)M->getDataLayout().getTypeAllocSize(G.getValueType()).getFixedValue());
          J.attributeBegin("init");
          D.operand(G.getInitializer());
          J.attributeEnd();
        });
      }
    });
  });
  outs() << "\n";
  return 0;
}
