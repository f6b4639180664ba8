// LLVM-18 pass: replaces every floating point operation of the compiled code
// by a call into the symbolic runtime (engine/runtime.cpp).  Everything else
// (memory, containers, virtual dispatch, exceptions) stays native.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {
struct SymPass : PassInfoMixin<SymPass> {
  Module *M;
  Type *D, *F, *I64, *I32, *I1;
  FunctionCallee fn(StringRef n, Type *r, ArrayRef<Type *> a) {
    FunctionCallee c =
        M->getOrInsertFunction(n, FunctionType::get(r, a, false));
    return c;
  }
  // scalar lowering on double/float
  Value *toD(IRBuilder<> &B, Value *v) {
    if (v->getType() == D)
      return v;
    return B.CreateCall(fn("__sym_fpext", D, {F}), {v});
  }
  Value *fromD(IRBuilder<> &B, Value *v, Type *t) {
    if (t == D)
      return v;
    return B.CreateCall(fn("__sym_fptrunc", F, {D}), {v});
  }
  Value *bin(IRBuilder<> &B, const char *n, Value *a, Value *b) {
    Type *t = a->getType();
    Value *r =
        B.CreateCall(fn(n, D, {D, D}), {toD(B, a), toD(B, b)});
    return fromD(B, r, t);
  }
  Value *un(IRBuilder<> &B, const std::string &n, Value *a) {
    Type *t = a->getType();
    Value *r = B.CreateCall(fn(n, D, {D}), {toD(B, a)});
    return fromD(B, r, t);
  }
  template <class Fn>
  Value *lanes(IRBuilder<> &B, Type *resTy, ArrayRef<Value *> ops, Fn f) {
    auto *vt = dyn_cast<FixedVectorType>(ops[0]->getType());
    if (!vt)
      return f(ops);
    Value *acc = UndefValue::get(resTy);
    for (unsigned i = 0; i < vt->getNumElements(); i++) {
      SmallVector<Value *, 3> l;
      for (auto *o : ops)
        l.push_back(o->getType()->isVectorTy() ? B.CreateExtractElement(o, i)
                                               : o);
      acc = B.CreateInsertElement(acc, f(l), i);
    }
    return acc;
  }
  static bool ok(Type *t) {
    t = t->getScalarType();
    return t->isDoubleTy() || t->isFloatTy();
  }
  PreservedAnalyses run(Module &m, ModuleAnalysisManager &) {
    M = &m;
    auto &C = m.getContext();
    D = Type::getDoubleTy(C);
    F = Type::getFloatTy(C);
    I64 = Type::getInt64Ty(C);
    I32 = Type::getInt32Ty(C);
    I1 = Type::getInt1Ty(C);
    static const std::map<std::string, int> libm = {
        {"pow", 2},   {"exp", 1},   {"sin", 1},   {"cos", 1},   {"tan", 1},
        {"sqrt", 1},  {"log", 1},   {"fabs", 1},  {"fmax", 2},  {"fmin", 2},
        {"floor", 1}, {"ceil", 1},  {"trunc", 1}, {"round", 1}, {"fmod", 2},
        {"hypot", 2}, {"cbrt", 1},  {"atan", 1},  {"asin", 1},  {"acos", 1},
        {"atan2", 2}, {"sinh", 1},  {"cosh", 1},  {"tanh", 1},  {"log10", 1},
        {"log2", 1},  {"exp2", 1},  {"expm1", 1}, {"log1p", 1}, {"rint", 1},
        {"nearbyint", 1}, {"copysign", 2}, {"tgamma", 1}, {"lgamma", 1}};
    SmallVector<Function *, 64> fs;
    for (auto &f : m)
      if (!f.isDeclaration() && !f.getName().starts_with("__sym"))
        fs.push_back(&f);
    for (auto *f : fs) {
      SmallVector<Instruction *, 64> is;
      for (auto &i : instructions(*f))
        is.push_back(&i);
      for (auto *i : is)
        lower(i, libm);
      if (f->getName().starts_with("_ZN8gsplines") ||
          f->getName().starts_with("_ZNK8gsplines") ||
          f->getName().starts_with("_ZNO8gsplines") ||
          f->getName().starts_with("_ZNKR8gsplines")) {
        IRBuilder<> B(&*f->getEntryBlock().getFirstInsertionPt());
        auto *g = B.CreateGlobalStringPtr(f->getName());
        auto *flag = new GlobalVariable(m, I32, false,
                                        GlobalValue::InternalLinkage,
                                        ConstantInt::get(I32, 0));
        B.CreateCall(fn("__sym_enter", Type::getVoidTy(C),
                        {PointerType::get(C, 0), PointerType::get(C, 0)}),
                     {g, flag});
      }
    }
    return PreservedAnalyses::none();
  }
  void rep(Instruction *i, Value *v) {
    i->replaceAllUsesWith(v);
    i->eraseFromParent();
  }
  void lower(Instruction *i, const std::map<std::string, int> &libm) {
    IRBuilder<> B(i);
    if (auto *b = dyn_cast<BinaryOperator>(i)) {
      if (!ok(b->getType()))
        return;
      const char *n = nullptr;
      switch (b->getOpcode()) {
      case Instruction::FAdd: n = "__sym_add"; break;
      case Instruction::FSub: n = "__sym_sub"; break;
      case Instruction::FMul: n = "__sym_mul"; break;
      case Instruction::FDiv: n = "__sym_div"; break;
      case Instruction::FRem: n = "__sym_fmod"; break;
      default: return;
      }
      rep(i, lanes(B, b->getType(), {b->getOperand(0), b->getOperand(1)},
                   [&](ArrayRef<Value *> o) { return bin(B, n, o[0], o[1]); }));
      return;
    }
    if (i->getOpcode() == Instruction::FNeg && ok(i->getType())) {
      rep(i, lanes(B, i->getType(), {i->getOperand(0)},
                   [&](ArrayRef<Value *> o) { return un(B, "__sym_neg", o[0]); }));
      return;
    }
    if (auto *c = dyn_cast<FCmpInst>(i)) {
      if (!ok(c->getOperand(0)->getType()))
        return;
      int p = c->getPredicate();
      rep(i, lanes(B, c->getType(), {c->getOperand(0), c->getOperand(1)},
                   [&](ArrayRef<Value *> o) -> Value * {
                     Value *r = B.CreateCall(
                         fn("__sym_fcmp", I32, {I32, D, D}),
                         {ConstantInt::get(I32, p), toD(B, o[0]), toD(B, o[1])});
                     return B.CreateICmpNE(r, ConstantInt::get(I32, 0));
                   }));
      return;
    }
    if (i->getOpcode() == Instruction::FPToSI ||
        i->getOpcode() == Instruction::FPToUI) {
      Value *s = i->getOperand(0);
      if (!ok(s->getType()))
        return;
      bool sg = i->getOpcode() == Instruction::FPToSI;
      Type *et = i->getType()->getScalarType();
      rep(i, lanes(B, i->getType(), {s}, [&](ArrayRef<Value *> o) -> Value * {
            Value *r = B.CreateCall(
                fn(sg ? "__sym_fptosi" : "__sym_fptoui", I64, {D}),
                {toD(B, o[0])});
            return B.CreateTruncOrBitCast(r, et);
          }));
      return;
    }
    if (i->getOpcode() == Instruction::FPExt && ok(i->getType()) &&
        ok(i->getOperand(0)->getType())) {
      rep(i, lanes(B, i->getType(), {i->getOperand(0)},
                   [&](ArrayRef<Value *> o) { return toD(B, o[0]); }));
      return;
    }
    if (i->getOpcode() == Instruction::FPTrunc && ok(i->getType()) &&
        ok(i->getOperand(0)->getType())) {
      rep(i, lanes(B, i->getType(), {i->getOperand(0)},
                   [&](ArrayRef<Value *> o) {
                     return fromD(B, o[0], F);
                   }));
      return;
    }
    if (i->getOpcode() == Instruction::FPExt &&
        i->getOperand(0)->getType() == D) { // to long double
      Value *v = B.CreateCall(fn("__sym_concretize", D, {D}), {i->getOperand(0)});
      i->setOperand(0, v);
      return;
    }
    auto *cb = dyn_cast<CallBase>(i);
    if (!cb)
      return;
    Function *cf = cb->getCalledFunction();
    if (!cf)
      return;
    if (auto *ii = dyn_cast<IntrinsicInst>(i)) {
      std::string n;
      switch (ii->getIntrinsicID()) {
      case Intrinsic::fabs: n = "fabs"; break;
      case Intrinsic::sqrt: n = "sqrt"; break;
      case Intrinsic::exp: n = "exp"; break;
      case Intrinsic::sin: n = "sin"; break;
      case Intrinsic::cos: n = "cos"; break;
      case Intrinsic::log: n = "log"; break;
      case Intrinsic::floor: n = "floor"; break;
      case Intrinsic::ceil: n = "ceil"; break;
      case Intrinsic::trunc: n = "trunc"; break;
      case Intrinsic::round: n = "round"; break;
      case Intrinsic::rint: n = "rint"; break;
      case Intrinsic::nearbyint: n = "nearbyint"; break;
      case Intrinsic::pow: n = "pow"; break;
      case Intrinsic::maxnum: n = "fmax"; break;
      case Intrinsic::minnum: n = "fmin"; break;
      case Intrinsic::copysign: n = "copysign"; break;
      case Intrinsic::fma:
      case Intrinsic::fmuladd: {
        if (!ok(ii->getType())) return;
        rep(i, lanes(B, ii->getType(),
                     {ii->getArgOperand(0), ii->getArgOperand(1),
                      ii->getArgOperand(2)},
                     [&](ArrayRef<Value *> o) {
                       return bin(B, "__sym_add",
                                  bin(B, "__sym_mul", o[0], o[1]), o[2]);
                     }));
        return;
      }
      case Intrinsic::powi: {
        if (ii->getType() != D) return;
        Value *e = B.CreateSIToFP(ii->getArgOperand(1), D);
        rep(i, bin(B, "__sym_pow", ii->getArgOperand(0), e));
        return;
      }
      case Intrinsic::is_fpclass: {
        if (ii->getArgOperand(0)->getType() != D) return;
        Value *r = B.CreateCall(fn("__sym_fpclass", I32, {D, I32}),
                                {ii->getArgOperand(0), ii->getArgOperand(1)});
        rep(i, B.CreateICmpNE(r, ConstantInt::get(I32, 0)));
        return;
      }
      default: return;
      }
      if (!ok(ii->getType()))
        return;
      int ar = libm.at(n);
      SmallVector<Value *, 2> ops;
      for (int k = 0; k < ar; k++)
        ops.push_back(ii->getArgOperand(k));
      std::string s = "__sym_" + n;
      rep(i, lanes(B, ii->getType(), ops, [&](ArrayRef<Value *> o) -> Value * {
            return ar == 1 ? un(B, s, o[0]) : bin(B, s.c_str(), o[0], o[1]);
          }));
      return;
    }
    if (!cf->isDeclaration())
      return;
    auto it = libm.find(cf->getName().str());
    if (it != libm.end() && cf->getReturnType() == D &&
        cf->getFunctionType()->getNumParams() == (unsigned)it->second) {
      std::string s = "__sym_" + it->first;
      Value *r = it->second == 1
                     ? un(B, s, cb->getArgOperand(0))
                     : bin(B, s.c_str(), cb->getArgOperand(0),
                           cb->getArgOperand(1));
      if (auto *iv = dyn_cast<InvokeInst>(i)) {
        B.CreateBr(iv->getNormalDest());
        iv->getUnwindDest()->removePredecessor(iv->getParent());
      }
      rep(i, r);
      return;
    }
    // lround & friends
    StringRef nm = cf->getName();
    if ((nm == "lround" || nm == "lrint" || nm == "llround") &&
        cf->arg_size() == 1 && cf->getFunctionType()->getParamType(0) == D) {
      Value *v = un(B, "__sym_round", cb->getArgOperand(0));
      Value *r = B.CreateCall(fn("__sym_fptosi", I64, {D}), {v});
      if (isa<InvokeInst>(i)) return;
      rep(i, B.CreateTruncOrBitCast(r, i->getType()));
    }
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
            PB.registerPipelineStartEPCallback(
                [](ModulePassManager &MPM, OptimizationLevel) {
                  MPM.addPass(SymPass());
                });
          }};
}
