// LLVM 18 pass plugin: instruments every function so that a shadow expression
// is computed next to every scalar SSA value (dynamic symbolic execution).
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <set>
#include <string>
using namespace llvm;

namespace {
#include "../rt/ops.h"

const std::set<std::string> kModelled = {
    "memcpy", "memmove", "memset", "memcmp", "bcmp", "memchr", "strlen",
    "strcmp", "strncmp", "sqrt", "fabs", "sin", "cos", "tan", "exp", "log",
    "asin", "acos", "atan", "atan2", "pow", "hypot", "fmod", "floor", "ceil",
    "round", "nearbyint", "rint", "trunc", "remainder", "lround", "llround",
    "sincos", "log2", "log10", "isdigit", "isalpha", "isalnum", "isspace",
    "isxdigit", "tolower", "toupper", "free", "strtod", "std_ostream_insert",
    "lrint", "llrint", "cexp"};

struct Instr {
  Function &F;
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  IntegerType *I32, *I64, *I8, *I1;
  PointerType *Ptr;
  DenseMap<Value *, SmallVector<Value *, 2>> sh;
  FunctionCallee fEnter, fBin, fBinW, fCmp, fFBin, fFCmp, fFUn, fCast, fIte, fIteF,
      fBranch, fSwitch, fConc, fLoad, fStore, fAddr, fPrecall, fGetRet,
      fMemcpy, fMemset, fClear, fGep, fIntr, fFun, fToBits, fFromBits, fCastW, fAlloca;
  GlobalVariable *gArgs, *gVals, *gCallee, *gRet, *gRetFn;
  Value *Zero;

  Instr(Function &F)
      : F(F), M(*F.getParent()), C(F.getContext()), DL(M.getDataLayout()) {
    I32 = Type::getInt32Ty(C);
    I64 = Type::getInt64Ty(C);
    I8 = Type::getInt8Ty(C);
    I1 = Type::getInt1Ty(C);
    Ptr = PointerType::get(C, 0);
    Zero = ConstantInt::get(I32, 0);
    auto V = Type::getVoidTy(C);
    auto fn = [&](const char *n, Type *r, ArrayRef<Type *> a) {
      auto fc = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
      if (auto *f = dyn_cast<Function>(fc.getCallee()))
        f->setDoesNotThrow();
      return fc;
    };
    fEnter = fn("__sym_enter", Ptr, {Ptr, I32});
    fBin = fn("__sym_bin", I32, {I32, I32, I64, I32, I64, I32});
    fBinW = fn("__sym_binw", I32, {I32, I32, I64, I64, I32, I64, I64, I32});
    fCmp = fn("__sym_cmp", I32, {I32, I32, I64, I32, I64, I32});
    fFBin = fn("__sym_fbin", I32, {I32, I64, I32, I64, I32});
    fFCmp = fn("__sym_fcmp", I32, {I32, I64, I32, I64, I32});
    fFUn = fn("__sym_fun1", I32, {I32, I64, I32});
    fFun = fn("__sym_fun2", I32, {I32, I64, I32, I64, I32});
    fCast = fn("__sym_cast", I32, {I32, I32, I32, I64, I32});
    fCastW = fn("__sym_castw", I32, {I32, I32, I32, I64, I64, I32});
    fIte = fn("__sym_ite", I32, {I32, I1, I32, I64, I32, I64, I32});
    fBranch = fn("__sym_branch", I1, {I1, I32, I64});
    fSwitch = fn("__sym_switch", V, {I64, I32, I32, I32, Ptr, Ptr});
    fConc = fn("__sym_concretize", V, {I64, I32, I32});
    fLoad = fn("__sym_load", I32, {Ptr, I32, I32, I64});
    fStore = fn("__sym_store", V, {Ptr, I32, I32, I64});
    fAddr = fn("__sym_addr", I32, {Ptr, I32, I32, I32});
    fPrecall = fn("__sym_precall", V, {Ptr, I32});
    fGetRet = fn("__sym_getret", Ptr, {Ptr});
    fMemcpy = fn("__sym_memcpy", V, {Ptr, I32, Ptr, I32, I64, I32});
    fMemset = fn("__sym_memset", V, {Ptr, I32, I8, I32, I64, I32});
    fClear = fn("__sym_clear", V, {Ptr, I64});
    fGep = fn("__sym_gep", I32, {I64, I32, I64, I32, I64});
    fIntr = fn("__sym_intr", I32, {I32, I32, I64, I32, I64, I32, I64, I32});
    auto glob = [&](const char *n, Type *t) {
      auto *g = M.getGlobalVariable(n);
      if (!g)
        g = new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage,
                               nullptr, n);
      return g;
    };
    gArgs = glob("__sym_args", ArrayType::get(I32, 256));
    gVals = glob("__sym_argvals", ArrayType::get(I64, 256));
    gCallee = glob("__sym_callee", Ptr);
    gRet = glob("__sym_ret", ArrayType::get(I32, 64));
    gRetFn = glob("__sym_ret_fn", Ptr);
  }

  static unsigned leaves(Type *T) {
    if (T->isVoidTy() || T->isTokenTy() || T->isLabelTy() || T->isMetadataTy())
      return 0;
    if (auto *S = dyn_cast<StructType>(T)) {
      unsigned n = 0;
      for (auto *E : S->elements())
        n += leaves(E);
      return n;
    }
    if (auto *A = dyn_cast<ArrayType>(T))
      return A->getNumElements() * leaves(A->getElementType());
    if (auto *V = dyn_cast<FixedVectorType>(T))
      return V->getNumElements();
    return 1;
  }
  Type *leafType(Type *T, unsigned i) {
    if (auto *S = dyn_cast<StructType>(T)) {
      for (auto *E : S->elements()) {
        unsigned n = leaves(E);
        if (i < n)
          return leafType(E, i);
        i -= n;
      }
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      return leafType(A->getElementType(), i % leaves(A->getElementType()));
    } else if (auto *V = dyn_cast<FixedVectorType>(T)) {
      return V->getElementType();
    }
    return T;
  }
  uint64_t leafOffset(Type *T, unsigned i) {
    if (auto *S = dyn_cast<StructType>(T)) {
      for (unsigned k = 0; k < S->getNumElements(); ++k) {
        unsigned n = leaves(S->getElementType(k));
        if (i < n)
          return DL.getStructLayout(S)->getElementOffset(k).getFixedValue() +
                 leafOffset(S->getElementType(k), i);
        i -= n;
      }
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      unsigned n = leaves(A->getElementType());
      return (i / n) * DL.getTypeAllocSize(A->getElementType()).getFixedValue() +
             leafOffset(A->getElementType(), i % n);
    } else if (auto *V = dyn_cast<FixedVectorType>(T)) {
      return i * DL.getTypeStoreSize(V->getElementType()).getFixedValue();
    }
    return 0;
  }
  Value *leafValue(IRBuilder<> &B, Value *V, unsigned i) {
    Type *T = V->getType();
    if (auto *S = dyn_cast<StructType>(T)) {
      for (unsigned k = 0; k < S->getNumElements(); ++k) {
        unsigned n = leaves(S->getElementType(k));
        if (i < n)
          return leafValue(B, B.CreateExtractValue(V, {k}), i);
        i -= n;
      }
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      unsigned n = leaves(A->getElementType());
      return leafValue(B, B.CreateExtractValue(V, {i / n}), i % n);
    } else if (isa<FixedVectorType>(T)) {
      return B.CreateExtractElement(V, (uint64_t)i);
    }
    return V;
  }
  unsigned width(Type *T) {
    if (T->isIntegerTy())
      return T->getIntegerBitWidth();
    if (T->isPointerTy())
      return 64;
    if (T->isDoubleTy())
      return 64;
    return DL.getTypeSizeInBits(T).getFixedValue();
  }
  bool okScalar(Type *T) {
    return (T->isIntegerTy() && T->getIntegerBitWidth() <= 64) ||
           T->isPointerTy() || T->isDoubleTy();
  }
  // concrete value as i64 (low 64 bits)
  Value *asI64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isPointerTy())
      return B.CreatePtrToInt(V, I64);
    if (T->isDoubleTy())
      return B.CreateBitCast(V, I64);
    if (T->isFloatTy())
      return B.CreateZExt(B.CreateBitCast(V, I32), I64);
    if (T->isIntegerTy())
      return B.CreateZExtOrTrunc(V, I64);
    return ConstantInt::get(I64, 0);
  }
  Value *hiI64(IRBuilder<> &B, Value *V) {
    if (V->getType()->isIntegerTy() && V->getType()->getIntegerBitWidth() > 64)
      return B.CreateTrunc(B.CreateLShr(V, 64), I64);
    return ConstantInt::get(I64, 0);
  }
  ArrayRef<Value *> S(Value *V) {
    auto it = sh.find(V);
    if (it != sh.end())
      return it->second;
    auto &v = sh[V];
    v.assign(leaves(V->getType()), Zero);
    return v;
  }
  Value *S0(Value *V) {
    auto s = S(V);
    return s.empty() ? Zero : s[0];
  }
  bool isZ(Value *s) { return s == Zero; }
  bool anySym(Value *V) {
    for (auto *s : S(V))
      if (!isZ(s))
        return true;
    return false;
  }
  void set(Value *V, Value *s) { sh[V] = SmallVector<Value *, 2>{s}; }
  Value *c32(uint32_t x) { return ConstantInt::get(I32, x); }
  Value *c64(uint64_t x) { return ConstantInt::get(I64, x); }

  void concretizeAll(IRBuilder<> &B, Value *V) {
    auto s = SmallVector<Value *, 4>(S(V).begin(), S(V).end());
    for (unsigned i = 0; i < s.size(); ++i) {
      if (isZ(s[i]))
        continue;
      auto *lv = leafValue(B, V, i);
      B.CreateCall(fConc, {asI64(B, lv), s[i], c32(width(lv->getType()))});
    }
  }
  void fallback(Instruction &I) {
    IRBuilder<> B(&I);
    for (auto &O : I.operands())
      if (leaves(O->getType()) && anySym(O))
        concretizeAll(B, O);
  }

  uint64_t siteCounter = 0;
  uint64_t site() {
    return (std::hash<std::string>{}(F.getName().str()) << 12) + siteCounter++;
  }

  void doCall(CallBase &CB);
  void visit(Instruction &I);
  void run();
};

void Instr::doCall(CallBase &CB) {
  if (CB.isInlineAsm()) {
    fallback(CB);
    return;
  }
  Value *target = CB.getCalledOperand();
  Function *callee = CB.getCalledFunction();
  if (callee && callee->getName().starts_with("__sym_"))
    return;
  bool inv = isa<InvokeInst>(CB);
  IRBuilder<> B(&CB);
  if (!callee && anySym(target)) {
    concretizeAll(B, target);
  }
  if (callee && callee->isDeclaration() &&
      kModelled.count(callee->getName().str())) {
    auto fc = M.getOrInsertFunction(("__symw_" + callee->getName()).str(),
                                    callee->getFunctionType());
    CB.setCalledFunction(fc);
    target = fc.getCallee();
  }
  if (callee && callee->isDeclaration() && !kModelled.count(callee->getName().str())) {
    auto n = callee->getName();
    if (!n.starts_with("_Zn") && !n.starts_with("_Zd") && !n.starts_with("__cxa") && !n.starts_with("__symw") && !n.starts_with("_ZSt28_Rb") && !n.starts_with("_ZSt18_Rb") && !n.starts_with("_ZSt29_Rb") && !n.starts_with("sym_")) {
      auto fx = M.getOrInsertFunction("__sym_ext", FunctionType::get(Type::getVoidTy(C), {Ptr, Ptr}, false));
      for (auto &A : CB.args())
        if (A->getType()->isPointerTy() && !isa<Constant>(A))
          B.CreateCall(fx, {target, A});
    }
  }
  // arguments
  bool any = false;
  unsigned idx = 0;
  for (auto &A : CB.args())
    if (anySym(A))
      any = true;
  bool isVar = CB.getFunctionType()->isVarArg();
  if (any) {
    for (auto &A : CB.args()) {
      auto s = SmallVector<Value *, 4>(S(A).begin(), S(A).end());
      for (unsigned i = 0; i < s.size() && idx < 256; ++i, ++idx) {
        B.CreateStore(s[i], B.CreateConstInBoundsGEP2_32(gArgs->getValueType(), gArgs, 0, idx));
        if (!isZ(s[i]))
          B.CreateStore(asI64(B, leafValue(B, A, i)),
                        B.CreateConstInBoundsGEP2_32(gVals->getValueType(), gVals, 0, idx));
      }
    }
    B.CreateStore(target, gCallee);
    B.CreateCall(fPrecall, {target, c32(idx)});
  } else {
    B.CreateStore(ConstantPointerNull::get(Ptr), gCallee);
  }
  (void)isVar;
  unsigned rl = leaves(CB.getType());
  if (rl == 0 || CB.isMustTailCall() || rl > 64) {
    return;
  }
  B.CreateStore(ConstantPointerNull::get(Ptr), gRetFn);
  IRBuilder<> A(C);
  if (inv) {
    auto *II = cast<InvokeInst>(&CB);
    A.SetInsertPoint(&*II->getNormalDest()->getFirstInsertionPt());
  } else {
    A.SetInsertPoint(CB.getNextNode());
  }
  auto *r = A.CreateCall(fGetRet, {target});
  SmallVector<Value *, 2> v;
  for (unsigned i = 0; i < rl; ++i)
    v.push_back(A.CreateLoad(I32, A.CreateConstInBoundsGEP1_32(I32, r, i)));
  sh[&CB] = v;
}

void Instr::visit(Instruction &I) {
  Type *T = I.getType();
  if (auto *BI = dyn_cast<BinaryOperator>(&I)) {
    Value *a = BI->getOperand(0), *b = BI->getOperand(1);
    if (!anySym(a) && !anySym(b))
      return;
    IRBuilder<> B(I.getNextNode());
    if (T->isDoubleTy()) {
      int op = -1;
      switch (BI->getOpcode()) {
      case Instruction::FAdd: op = OP_FADD; break;
      case Instruction::FSub: op = OP_FSUB; break;
      case Instruction::FMul: op = OP_FMUL; break;
      case Instruction::FDiv: op = OP_FDIV; break;
      case Instruction::FRem: op = OP_FREM; break;
      default: break;
      }
      if (op >= 0) {
        set(&I, B.CreateCall(fFBin, {c32(op), asI64(B, a), S0(a), asI64(B, b), S0(b)}));
        return;
      }
    }
    if (T->isIntegerTy() && T->getIntegerBitWidth() <= 128) {
      int op = -1;
      switch (BI->getOpcode()) {
      case Instruction::Add: op = OP_ADD; break;
      case Instruction::Sub: op = OP_SUB; break;
      case Instruction::Mul: op = OP_MUL; break;
      case Instruction::UDiv: op = OP_UDIV; break;
      case Instruction::SDiv: op = OP_SDIV; break;
      case Instruction::URem: op = OP_UREM; break;
      case Instruction::SRem: op = OP_SREM; break;
      case Instruction::Shl: op = OP_SHL; break;
      case Instruction::LShr: op = OP_LSHR; break;
      case Instruction::AShr: op = OP_ASHR; break;
      case Instruction::And: op = OP_AND; break;
      case Instruction::Or: op = OP_OR; break;
      case Instruction::Xor: op = OP_XOR; break;
      default: break;
      }
      if (op >= 0) {
        if (T->getIntegerBitWidth() <= 64)
          set(&I, B.CreateCall(fBin, {c32(op), c32(width(T)), asI64(B, a), S0(a), asI64(B, b), S0(b)}));
        else
          set(&I, B.CreateCall(fBinW, {c32(op), c32(width(T)), asI64(B, a), hiI64(B, a), S0(a), asI64(B, b), hiI64(B, b), S0(b)}));
        return;
      }
    }
    fallback(I);
    return;
  }
  if (auto *U = dyn_cast<UnaryOperator>(&I)) {
    Value *a = U->getOperand(0);
    if (!anySym(a))
      return;
    if (U->getOpcode() == Instruction::FNeg && T->isDoubleTy()) {
      IRBuilder<> B(I.getNextNode());
      set(&I, B.CreateCall(fFUn, {c32(OP_FNEG), asI64(B, a), S0(a)}));
      return;
    }
    fallback(I);
    return;
  }
  if (auto *CI = dyn_cast<ICmpInst>(&I)) {
    Value *a = CI->getOperand(0), *b = CI->getOperand(1);
    if (!anySym(a) && !anySym(b))
      return;
    if (!okScalar(a->getType()) &&
        !(a->getType()->isIntegerTy() && a->getType()->getIntegerBitWidth() <= 128)) {
      fallback(I);
      return;
    }
    IRBuilder<> B(I.getNextNode());
    int op = 0;
    bool swap = false, neg = false;
    switch (CI->getPredicate()) {
    case CmpInst::ICMP_EQ: op = OP_EQ; break;
    case CmpInst::ICMP_NE: op = OP_EQ; neg = true; break;
    case CmpInst::ICMP_ULT: op = OP_ULT; break;
    case CmpInst::ICMP_ULE: op = OP_ULE; break;
    case CmpInst::ICMP_UGT: op = OP_ULT; swap = true; break;
    case CmpInst::ICMP_UGE: op = OP_ULE; swap = true; break;
    case CmpInst::ICMP_SLT: op = OP_SLT; break;
    case CmpInst::ICMP_SLE: op = OP_SLE; break;
    case CmpInst::ICMP_SGT: op = OP_SLT; swap = true; break;
    case CmpInst::ICMP_SGE: op = OP_SLE; swap = true; break;
    default: break;
    }
    if (swap)
      std::swap(a, b);
    unsigned w = width(a->getType());
    if (w <= 64)
      set(&I, B.CreateCall(fCmp, {c32(op | (neg ? 0x100 : 0)), c32(w), asI64(B, a), S0(a), asI64(B, b), S0(b)}));
    else
      set(&I, B.CreateCall(fBinW, {c32(op | (neg ? 0x100 : 0)), c32(w), asI64(B, a), hiI64(B, a), S0(a), asI64(B, b), hiI64(B, b), S0(b)}));
    return;
  }
  if (auto *FI = dyn_cast<FCmpInst>(&I)) {
    Value *a = FI->getOperand(0), *b = FI->getOperand(1);
    if (!anySym(a) && !anySym(b))
      return;
    if (!a->getType()->isDoubleTy()) {
      fallback(I);
      return;
    }
    IRBuilder<> B(I.getNextNode());
    set(&I, B.CreateCall(fFCmp, {c32(FI->getPredicate()), asI64(B, a), S0(a), asI64(B, b), S0(b)}));
    return;
  }
  if (auto *CI = dyn_cast<CastInst>(&I)) {
    Value *a = CI->getOperand(0);
    if (!anySym(a))
      return;
    Type *ST = a->getType();
    auto ok = [&](Type *t) {
      return okScalar(t) || (t->isIntegerTy() && t->getIntegerBitWidth() <= 128);
    };
    if (!ok(ST) || !ok(T)) {
      // vector/aggregate bitcasts with equal leaf layout
      if (isa<BitCastInst>(CI) && leaves(ST) == leaves(T)) {
        sh[&I] = SmallVector<Value *, 2>(S(a).begin(), S(a).end());
        return;
      }
      fallback(I);
      return;
    }
    IRBuilder<> B(I.getNextNode());
    int op = -1;
    switch (CI->getOpcode()) {
    case Instruction::ZExt: op = OP_ZEXT; break;
    case Instruction::SExt: op = OP_SEXT; break;
    case Instruction::Trunc: op = OP_EXTRACT; break;
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
      op = width(T) == width(ST) ? -2 : width(T) < width(ST) ? OP_EXTRACT : OP_ZEXT;
      break;
    case Instruction::BitCast:
      if (ST->isDoubleTy() && T->isIntegerTy()) op = OP_BITS;
      else if (T->isDoubleTy() && ST->isIntegerTy()) op = OP_FROMBITS;
      else op = -2;
      break;
    case Instruction::SIToFP: op = OP_SITOFP; break;
    case Instruction::UIToFP: op = OP_UITOFP; break;
    case Instruction::FPToSI: op = OP_FPTOSI; break;
    case Instruction::FPToUI: op = OP_FPTOUI; break;
    default: break;
    }
    if (op == -2) {
      set(&I, S0(a));
      return;
    }
    if (op < 0) {
      fallback(I);
      return;
    }
    if (width(ST) > 64)
      set(&I, B.CreateCall(fCastW, {c32(op), c32(width(ST)), c32(width(T)), asI64(B, a), hiI64(B, a), S0(a)}));
    else
      set(&I, B.CreateCall(fCast, {c32(op), c32(width(ST)), c32(width(T)), asI64(B, a), S0(a)}));
    return;
  }
  if (auto *SI = dyn_cast<SelectInst>(&I)) {
    Value *c = SI->getCondition(), *a = SI->getTrueValue(), *b = SI->getFalseValue();
    if (!anySym(c) && !anySym(a) && !anySym(b))
      return;
    if (c->getType()->isVectorTy()) {
      fallback(I);
      return;
    }
    IRBuilder<> B(I.getNextNode());
    SmallVector<Value *, 2> v;
    auto sa = SmallVector<Value *, 4>(S(a).begin(), S(a).end());
    auto sb = SmallVector<Value *, 4>(S(b).begin(), S(b).end());
    for (unsigned i = 0; i < sa.size(); ++i) {
      Type *LT = leafType(T, i);
      if (!okScalar(LT)) {
        // concretize the condition, forward the shadow
        if (!isZ(S0(c)))
          B.CreateCall(fConc, {asI64(B, c), S0(c), c32(1)});
        v.push_back(B.CreateSelect(c, sa[i], sb[i]));
        continue;
      }
      auto *la = leafValue(B, a, i), *lb = leafValue(B, b, i);
      uint32_t w = LT->isDoubleTy() ? 0 : width(LT);
      v.push_back(B.CreateCall(fIte, {S0(c), c, c32(w), asI64(B, la), sa[i], asI64(B, lb), sb[i]}));
    }
    sh[&I] = v;
    return;
  }
  if (auto *FI = dyn_cast<FreezeInst>(&I)) {
    sh[&I] = SmallVector<Value *, 2>(S(FI->getOperand(0)).begin(), S(FI->getOperand(0)).end());
    return;
  }
  if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
    Value *a = EV->getAggregateOperand();
    if (!anySym(a))
      return;
    unsigned off = 0;
    Type *t = a->getType();
    for (unsigned ix : EV->indices()) {
      if (auto *ST = dyn_cast<StructType>(t)) {
        for (unsigned k = 0; k < ix; ++k)
          off += leaves(ST->getElementType(k));
        t = ST->getElementType(ix);
      } else {
        auto *AT = cast<ArrayType>(t);
        off += ix * leaves(AT->getElementType());
        t = AT->getElementType();
      }
    }
    SmallVector<Value *, 2> v;
    auto s = S(a);
    for (unsigned i = 0; i < leaves(t); ++i)
      v.push_back(s[off + i]);
    sh[&I] = v;
    return;
  }
  if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
    Value *a = IV->getAggregateOperand(), *e = IV->getInsertedValueOperand();
    if (!anySym(a) && !anySym(e))
      return;
    unsigned off = 0;
    Type *t = a->getType();
    for (unsigned ix : IV->indices()) {
      if (auto *ST = dyn_cast<StructType>(t)) {
        for (unsigned k = 0; k < ix; ++k)
          off += leaves(ST->getElementType(k));
        t = ST->getElementType(ix);
      } else {
        auto *AT = cast<ArrayType>(t);
        off += ix * leaves(AT->getElementType());
        t = AT->getElementType();
      }
    }
    SmallVector<Value *, 2> v(S(a).begin(), S(a).end());
    auto se = SmallVector<Value *, 4>(S(e).begin(), S(e).end());
    for (unsigned i = 0; i < se.size(); ++i)
      v[off + i] = se[i];
    sh[&I] = v;
    return;
  }
  if (auto *EE = dyn_cast<ExtractElementInst>(&I)) {
    Value *a = EE->getVectorOperand();
    if (!anySym(a))
      return;
    if (auto *ci = dyn_cast<ConstantInt>(EE->getIndexOperand())) {
      if (ci->getZExtValue() < S(a).size())
        set(&I, S(a)[ci->getZExtValue()]);
      return;
    }
    fallback(I);
    return;
  }
  if (auto *IE = dyn_cast<InsertElementInst>(&I)) {
    Value *a = IE->getOperand(0), *e = IE->getOperand(1);
    if (!anySym(a) && !anySym(e))
      return;
    if (auto *ci = dyn_cast<ConstantInt>(IE->getOperand(2))) {
      SmallVector<Value *, 2> v(S(a).begin(), S(a).end());
      v[ci->getZExtValue()] = S0(e);
      sh[&I] = v;
      return;
    }
    fallback(I);
    return;
  }
  if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) {
    Value *a = SV->getOperand(0), *b = SV->getOperand(1);
    if (!anySym(a) && !anySym(b))
      return;
    SmallVector<Value *, 2> v, all(S(a).begin(), S(a).end());
    for (auto *s : S(b))
      all.push_back(s);
    for (int m : SV->getShuffleMask())
      v.push_back(m < 0 ? Zero : all[m]);
    sh[&I] = v;
    return;
  }
  if (auto *GI = dyn_cast<GetElementPtrInst>(&I)) {
    bool any = false;
    for (auto &O : GI->operands())
      if (anySym(O))
        any = true;
    if (!any || T->isVectorTy())
      return;
    IRBuilder<> B(I.getNextNode());
    // accumulate: base expr + sum idx*scale + const
    MapVector<Value *, APInt> vars;
    APInt cst(64, 0);
    Value *base = GI->getPointerOperand();
    if (!GI->collectOffset(DL, 64, vars, cst)) {
      fallback(I);
      return;
    }
    Value *cur = S0(base);
    Value *curv = asI64(B, base);
    for (auto &kv : vars) {
      Value *ix = kv.first;
      Value *sx = S0(ix);
      Value *ixv = B.CreateSExtOrTrunc(ix, I64);
      if (!isZ(sx) && width(ix->getType()) < 64)
        sx = B.CreateCall(fCast, {c32(OP_SEXT), c32(width(ix->getType())), c32(64), asI64(B, ix), sx});
      cur = B.CreateCall(fGep, {curv, cur, ixv, sx, c64(kv.second.getSExtValue())});
      curv = B.CreateAdd(curv, B.CreateMul(ixv, c64(kv.second.getSExtValue())));
    }
    if (cst != 0)
      cur = B.CreateCall(fGep, {curv, cur, c64(cst.getSExtValue()), Zero, c64(1)});
    set(&I, cur);
    return;
  }
  if (auto *LI = dyn_cast<LoadInst>(&I)) {
    unsigned n = leaves(T);
    Value *p = LI->getPointerOperand();
    Value *sp = S0(p);
    if (n == 0 || n > 64) {
      if (!isZ(sp))
        fallback(I);
      return;
    }
    Value *lookup = Zero;
    if (!isZ(sp)) {
      IRBuilder<> PB(&I);
      lookup = PB.CreateCall(fAddr, {p, sp, c32(n == 1 && okScalar(T) ? DL.getTypeStoreSize(T).getFixedValue() : 0),
                                     c32(T->isDoubleTy() ? 0 : width(leafType(T, 0)))});
    }
    IRBuilder<> B(I.getNextNode());
    SmallVector<Value *, 2> v;
    for (unsigned i = 0; i < n; ++i) {
      Type *LT = leafType(T, i);
      Value *lp = p;
      uint64_t off = leafOffset(T, i);
      if (off)
        lp = B.CreatePtrAdd(p, c64(off));
      unsigned sz = DL.getTypeStoreSize(LT).getFixedValue();
      if (sz > 16) {
        v.push_back(Zero);
        continue;
      }
      uint32_t w = LT->isDoubleTy() ? 0 : width(LT);
      auto *r = B.CreateCall(fLoad, {lp, c32(sz), c32(w), n == 1 ? asI64(B, &I) : (Value *)c64(0)});
      Value *rr = r;
      if (lookup != Zero && n == 1)
        rr = B.CreateSelect(B.CreateICmpNE(lookup, Zero), lookup, r);
      v.push_back(rr);
    }
    sh[&I] = v;
    return;
  }
  if (auto *SI = dyn_cast<StoreInst>(&I)) {
    Value *p = SI->getPointerOperand(), *x = SI->getValueOperand();
    Type *XT = x->getType();
    unsigned n = leaves(XT);
    if (!isZ(S0(p))) {
      IRBuilder<> PB(&I);
      PB.CreateCall(fConc, {asI64(PB, p), S0(p), c32(64)});
    }
    IRBuilder<> B(I.getNextNode());
    if (!anySym(x)) {
      B.CreateCall(fClear, {p, c64(DL.getTypeStoreSize(XT).getFixedValue())});
      return;
    }
    auto s = SmallVector<Value *, 4>(S(x).begin(), S(x).end());
    for (unsigned i = 0; i < n; ++i) {
      Type *LT = leafType(XT, i);
      Value *lp = p;
      uint64_t off = leafOffset(XT, i);
      if (off)
        lp = B.CreatePtrAdd(p, c64(off));
      B.CreateCall(fStore, {lp, c32(DL.getTypeStoreSize(LT).getFixedValue()), s[i], c64(0)});
    }
    return;
  }
  if (auto *AI = dyn_cast<AllocaInst>(&I)) {
    (void)AI;
    return;
  }
  if (auto *BR = dyn_cast<BranchInst>(&I)) {
    if (BR->isConditional() && anySym(BR->getCondition())) {
      IRBuilder<> B(&I);
      auto *c = BR->getCondition();
      BR->setCondition(B.CreateCall(fBranch, {c, S0(c), c64(site())}));
    }
    return;
  }
  if (auto *SW = dyn_cast<SwitchInst>(&I)) {
    auto *c = SW->getCondition();
    if (!anySym(c))
      return;
    IRBuilder<> B(&I);
    if (width(c->getType()) > 64) {
      fallback(I);
      return;
    }
    std::vector<Constant *> vals, grps;
    std::map<BasicBlock *, unsigned> g;
    g[SW->getDefaultDest()] = 0;
    for (auto &cs : SW->cases()) {
      auto it = g.emplace(cs.getCaseSuccessor(), g.size()).first;
      vals.push_back(ConstantInt::get(I64, cs.getCaseValue()->getZExtValue()));
      grps.push_back(ConstantInt::get(I32, it->second));
    }
    auto *va = ConstantArray::get(ArrayType::get(I64, vals.size()), vals);
    auto *ga = ConstantArray::get(ArrayType::get(I32, grps.size()), grps);
    auto *vg = new GlobalVariable(M, va->getType(), true, GlobalValue::PrivateLinkage, va);
    auto *gg = new GlobalVariable(M, ga->getType(), true, GlobalValue::PrivateLinkage, ga);
    B.CreateCall(fSwitch, {asI64(B, c), S0(c), c32(width(c->getType())), c32(vals.size()), vg, gg});
    return;
  }
  if (auto *RI = dyn_cast<ReturnInst>(&I)) {
    Value *v = RI->getReturnValue();
    if (!v)
      return;
    if (auto *prev = dyn_cast_or_null<CallInst>(I.getPrevNode()))
      if (prev->isMustTailCall())
        return;
    if (!anySym(v) || leaves(v->getType()) > 64)
      return; // caller reset __sym_ret_fn before the call; see below
    IRBuilder<> B(&I);
    auto s = SmallVector<Value *, 4>(S(v).begin(), S(v).end());
    for (unsigned i = 0; i < s.size(); ++i)
      B.CreateStore(s[i], B.CreateConstInBoundsGEP2_32(gRet->getValueType(), gRet, 0, i));
    B.CreateStore(&F, gRetFn);
    return;
  }
  if (auto *CB = dyn_cast<CallBase>(&I)) {
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      auto id = II->getIntrinsicID();
      IRBuilder<> B(I.getNextNode() ? I.getNextNode() : &I);
      switch (id) {
      case Intrinsic::memcpy:
      case Intrinsic::memcpy_inline:
      case Intrinsic::memmove: {
        IRBuilder<> PB(&I); // before: overlapping copies need the old shadow
        PB.CreateCall(fMemcpy, {II->getArgOperand(0), S0(II->getArgOperand(0)), II->getArgOperand(1), S0(II->getArgOperand(1)),
                               asI64(PB, II->getArgOperand(2)), S0(II->getArgOperand(2))});
        return;
      }
      case Intrinsic::memset:
      case Intrinsic::memset_inline: {
        B.CreateCall(fMemset, {II->getArgOperand(0), S0(II->getArgOperand(0)), II->getArgOperand(1), S0(II->getArgOperand(1)),
                               asI64(B, II->getArgOperand(2)), S0(II->getArgOperand(2))});
        return;
      }
      case Intrinsic::lifetime_start:
        B.CreateCall(fClear, {II->getArgOperand(1), c64(std::max<int64_t>(0, cast<ConstantInt>(II->getArgOperand(0))->getSExtValue()))});
        return;
      case Intrinsic::lifetime_end:
      case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value:
      case Intrinsic::dbg_label:
      case Intrinsic::donothing:
      case Intrinsic::trap:
      case Intrinsic::stacksave:
      case Intrinsic::stackrestore:
      case Intrinsic::invariant_start:
      case Intrinsic::invariant_end:
      case Intrinsic::is_constant:
      case Intrinsic::eh_typeid_for:
      case Intrinsic::vastart:
      case Intrinsic::vaend:
        return;
      case Intrinsic::launder_invariant_group:
      case Intrinsic::expect:
      case Intrinsic::strip_invariant_group:
      case Intrinsic::ptr_annotation:
        sh[&I] = SmallVector<Value *, 2>(S(II->getArgOperand(0)).begin(), S(II->getArgOperand(0)).end());
        return;
      default:
        break;
      }
      bool any = false;
      for (auto &A : II->args())
        if (leaves(A->getType()) && anySym(A))
          any = true;
      if (!any)
        return;
      auto a = [&](unsigned i) { return II->getArgOperand(i); };
      if (T->isDoubleTy() && a(0)->getType()->isDoubleTy()) {
        int op1 = -1, op2 = -1;
        switch (id) {
        case Intrinsic::fabs: op1 = OP_FABS; break;
        case Intrinsic::sqrt: op1 = OP_FSQRT; break;
        case Intrinsic::floor: op1 = OP_FFLOOR; break;
        case Intrinsic::ceil: op1 = OP_FCEIL; break;
        case Intrinsic::trunc: op1 = OP_FTRUNC; break;
        case Intrinsic::round: op1 = OP_FROUND; break;
        case Intrinsic::nearbyint:
        case Intrinsic::rint:
        case Intrinsic::roundeven: op1 = OP_FRINT; break;
        case Intrinsic::sin: op1 = OP_SIN; break;
        case Intrinsic::cos: op1 = OP_COS; break;
        case Intrinsic::exp: op1 = OP_EXP; break;
        case Intrinsic::log: op1 = OP_LOG; break;
        case Intrinsic::maxnum: op2 = OP_FMAX; break;
        case Intrinsic::minnum: op2 = OP_FMIN; break;
        case Intrinsic::copysign: op2 = OP_COPYSIGN; break;
        case Intrinsic::pow: op2 = OP_POW; break;
        case Intrinsic::fmuladd:
        case Intrinsic::fma: {
          auto *m = B.CreateFMul(a(0), a(1));
          auto *ms = B.CreateCall(fFBin, {c32(OP_FMUL), asI64(B, a(0)), S0(a(0)), asI64(B, a(1)), S0(a(1))});
          set(&I, B.CreateCall(fFBin, {c32(OP_FADD), asI64(B, m), ms, asI64(B, a(2)), S0(a(2))}));
          return;
        }
        default: break;
        }
        if (op1 >= 0) {
          set(&I, B.CreateCall(fFUn, {c32(op1), asI64(B, a(0)), S0(a(0))}));
          return;
        }
        if (op2 >= 0) {
          set(&I, B.CreateCall(fFun, {c32(op2), asI64(B, a(0)), S0(a(0)), asI64(B, a(1)), S0(a(1))}));
          return;
        }
      }
      int iop = -1;
      unsigned nargs = 2;
      switch (id) {
      case Intrinsic::umax: iop = IN_UMAX; break;
      case Intrinsic::umin: iop = IN_UMIN; break;
      case Intrinsic::smax: iop = IN_SMAX; break;
      case Intrinsic::smin: iop = IN_SMIN; break;
      case Intrinsic::abs: iop = IN_ABS; nargs = 1; break;
      case Intrinsic::uadd_sat: iop = IN_UADDSAT; break;
      case Intrinsic::usub_sat: iop = IN_USUBSAT; break;
      case Intrinsic::ctpop: iop = IN_CTPOP; nargs = 1; break;
      case Intrinsic::bswap: iop = IN_BSWAP; nargs = 1; break;
      case Intrinsic::ctlz: iop = IN_CTLZ; nargs = 1; break;
      case Intrinsic::cttz: iop = IN_CTTZ; nargs = 1; break;
      case Intrinsic::fshl: iop = IN_FSHL; nargs = 3; break;
      case Intrinsic::fshr: iop = IN_FSHR; nargs = 3; break;
      default: break;
      }
      if (iop >= 0 && T->isIntegerTy() && T->getIntegerBitWidth() <= 64) {
        SmallVector<Value *, 8> args{c32(iop), c32(width(T))};
        for (unsigned i = 0; i < 3; ++i) {
          if (i < nargs) {
            args.push_back(asI64(B, a(i)));
            args.push_back(S0(a(i)));
          } else {
            args.push_back(c64(0));
            args.push_back(Zero);
          }
        }
        set(&I, B.CreateCall(fIntr, args));
        return;
      }
      int o1 = -1;
      bool sg = false;
      switch (id) {
      case Intrinsic::uadd_with_overflow: o1 = OP_ADD; break;
      case Intrinsic::usub_with_overflow: o1 = OP_SUB; break;
      case Intrinsic::umul_with_overflow: o1 = OP_MUL; break;
      case Intrinsic::sadd_with_overflow: o1 = OP_ADD; sg = true; break;
      case Intrinsic::ssub_with_overflow: o1 = OP_SUB; sg = true; break;
      case Intrinsic::smul_with_overflow: o1 = OP_MUL; sg = true; break;
      default: break;
      }
      if (o1 >= 0 && width(a(0)->getType()) <= 64) {
        unsigned w = width(a(0)->getType());
        auto *v0 = B.CreateCall(fBin, {c32(o1), c32(w), asI64(B, a(0)), S0(a(0)), asI64(B, a(1)), S0(a(1))});
        int ov = sg ? (o1 == OP_ADD ? IN_SADDO : o1 == OP_SUB ? IN_SSUBO : IN_SMULO)
                    : (o1 == OP_ADD ? IN_UADDO : o1 == OP_SUB ? IN_USUBO : IN_UMULO);
        auto *v1 = B.CreateCall(fIntr, {c32(ov), c32(w), asI64(B, a(0)), S0(a(0)), asI64(B, a(1)), S0(a(1)), c64(0), Zero});
        sh[&I] = SmallVector<Value *, 2>{v0, v1};
        return;
      }
      if (id == Intrinsic::is_fpclass && a(0)->getType()->isDoubleTy()) {
        // only nan/inf/sign tests occur; handled by the runtime
        set(&I, B.CreateCall(fCast, {c32(OP_FPCLASS), c32(cast<ConstantInt>(a(1))->getZExtValue()), c32(1), asI64(B, a(0)), S0(a(0))}));
        return;
      }
      fallback(I);
      return;
    }
    doCall(*CB);
    return;
  }
  if (isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I))
    return;
  if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
    fallback(I);
    IRBuilder<> B(I.getNextNode());
    B.CreateCall(fClear, {I.getOperand(0), c64(8)});
    return;
  }
  fallback(I);
}

void Instr::run() {
  removeUnreachableBlocks(F);
  // split normal edges of invokes with shared destinations
  std::vector<InvokeInst *> invs;
  for (auto &BB : F)
    if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator()))
      invs.push_back(II);
  for (auto *II : invs)
    if (!II->getNormalDest()->getSinglePredecessor())
      SplitEdge(II->getParent(), II->getNormalDest());
  std::vector<Instruction *> work;
  ReversePostOrderTraversal<Function *> RPO(&F);
  for (auto *BB : RPO)
    for (auto &I : *BB)
      work.push_back(&I);
  // phis first
  std::vector<PHINode *> phis;
  for (auto *I : work)
    if (auto *P = dyn_cast<PHINode>(I)) {
      unsigned n = leaves(P->getType());
      SmallVector<Value *, 2> v;
      for (unsigned i = 0; i < n; ++i) {
        auto *sp = PHINode::Create(I32, P->getNumIncomingValues(), "", P);
        v.push_back(sp);
      }
      sh[P] = v;
      phis.push_back(P);
    }
  // arguments
  unsigned na = 0;
  for (auto &A : F.args())
    na += leaves(A.getType());
  if (na > 0 && na <= 256) {
    IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
    auto *p = B.CreateCall(fEnter, {&F, c32(na)});
    unsigned i = 0;
    for (auto &A : F.args()) {
      SmallVector<Value *, 2> v;
      for (unsigned k = 0; k < leaves(A.getType()); ++k, ++i)
        v.push_back(B.CreateLoad(I32, B.CreateConstInBoundsGEP1_32(I32, p, i)));
      sh[&A] = v;
      // byval arguments: fresh copy made by the call, shadow not transferred
    }
  }
  for (auto *I : work)
    if (!isa<PHINode>(I))
      visit(*I);
  for (auto *P : phis) {
    auto v = sh[P];
    for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) {
      auto *in = P->getIncomingValue(k);
      auto s = S(in);
      for (unsigned i = 0; i < v.size(); ++i)
        cast<PHINode>(v[i])->addIncoming(s[i], P->getIncomingBlock(k));
    }
  }
  // drop phis that are trivially zero: left to later optimisation
}

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    std::vector<Function *> fns;
    for (auto &F : M)
      if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage() &&
          !F.getName().starts_with("__sym"))
        fns.push_back(&F);
    std::vector<Function *> reg;
    for (auto *F : fns) {
      Instr(*F).run();
      reg.push_back(F);
    }
    auto &C = M.getContext();
    auto *Ptr = PointerType::get(C, 0);
    auto *I64 = Type::getInt64Ty(C);
    // registries, reached through a module constructor
    std::vector<Constant *> fa;
    for (auto *F : reg)
      if (!(F->hasLocalLinkage() && F->hasComdat()))
        fa.push_back(F);
    auto *STy = StructType::get(C, {Ptr, I64, I64});
    std::vector<Constant *> ga;
    auto &DL = M.getDataLayout();
    for (auto &G : M.globals())
      if (!G.isDeclaration() && !G.hasAvailableExternallyLinkage() &&
          !G.isThreadLocal() && !(G.hasLocalLinkage() && G.hasComdat()) && G.getName() != "llvm.global_ctors" && G.getSection().empty() && !G.getName().starts_with("llvm."))
        ga.push_back(ConstantStruct::get(STy, {&G, ConstantInt::get(I64, DL.getTypeAllocSize(G.getValueType()).getFixedValue()), ConstantInt::get(I64, G.isConstant())}));
    auto mk = [&](std::vector<Constant *> &v, Type *t) -> Constant * {
      auto *a = ConstantArray::get(ArrayType::get(t, v.size()), v);
      return new GlobalVariable(M, a->getType(), false, GlobalValue::PrivateLinkage, a, "__sym_reg");
    };
    auto *fr = mk(fa, Ptr);
    auto *gr = mk(ga, STy);
    auto *FT = FunctionType::get(Type::getVoidTy(C), {Ptr, I64, Ptr, I64}, false);
    auto fReg = M.getOrInsertFunction("__sym_register", FT);
    auto *ctor = Function::Create(FunctionType::get(Type::getVoidTy(C), false), GlobalValue::InternalLinkage, "__sym_module_ctor", M);
    IRBuilder<> B(BasicBlock::Create(C, "e", ctor));
    B.CreateCall(fReg, {fr, ConstantInt::get(I64, fa.size()), gr, ConstantInt::get(I64, ga.size())});
    B.CreateRetVoid();
    appendToGlobalCtors(M, ctor, 0);
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
              ScalarizerPassOptions o;
              o.ScalarizeLoadStore = true;
              o.ScalarizeVariableInsertExtract = true;
              MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass(o)));
              MPM.addPass(SymPass());
            });
          }};
}
