// VPS: an LLVM pass which turns a translation unit into its own symbolic
// executor.  Every scalar SSA value gets a shadow (an i32 id of an expression
// kept by the runtime; 0 means concrete), loads and stores go through a shadow
// memory, and every conditional branch, switch and address computation whose
// operand is symbolic is decided by the runtime (engine/runtime.cpp).
#include "llvm/ADT/DenseMap.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <set>
#include <string>
#include <vector>
using namespace llvm;

namespace {

typedef SmallVector<Value *, 4> Slots;

// must match runtime.h
enum FBin { F_ADD, F_SUB, F_MUL, F_DIV, F_REM, F_MIN, F_MAX, F_POW, F_ATAN2, F_HYPOT, F_COPYSIGN, F_FMOD };
enum FUn { U_NEG, U_ABS, U_SQRT, U_SIN, U_COS, U_TAN, U_EXP, U_LOG, U_SINH, U_COSH, U_TANH, U_ASIN, U_ACOS, U_ATAN,
           U_FLOOR, U_CEIL, U_TRUNC, U_ROUND, U_RINT };
enum IBin { I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_SHL, I_LSHR, I_ASHR, I_AND, I_OR, I_XOR,
            I_SMIN, I_SMAX, I_UMIN, I_UMAX, I_USUBSAT, I_UADDSAT };

const int MAXSLOT = 120;

class Instr
{
    Module &M;
    LLVMContext &C;
    const DataLayout &DL;
    Type *I1, *I8, *I32, *I64, *VoidT, *DblT;
    PointerType *PtrT;
    GlobalVariable *GTag, *GRetTag, *GArgs, *GRet;
    std::vector<Constant *> fn_names;

  public:
    Instr(Module &m) : M(m), C(m.getContext()), DL(m.getDataLayout())
    {
        I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
        VoidT = Type::getVoidTy(C); DblT = Type::getDoubleTy(C); PtrT = PointerType::getUnqual(C);
        GTag = ext("__vps_tag", PtrT); GRetTag = ext("__vps_rettag", PtrT);
        GArgs = ext("__vps_args", ArrayType::get(I64, MAXSLOT + 8));
        GRet = ext("__vps_ret", ArrayType::get(I64, MAXSLOT + 8));
    }
    GlobalVariable *ext(const char *n, Type *t)
    {
        return cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
    }
    FunctionCallee rt(const char *name, Type *ret, ArrayRef<Type *> args)
    {
        FunctionCallee f = M.getOrInsertFunction(name, FunctionType::get(ret, args, false));
        if (Function *ff = dyn_cast<Function>(f.getCallee())) { ff->setDoesNotThrow(); }
        return f;
    }

    // ---- types ----
    static bool scalar(Type *t) { return (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) || t->isDoubleTy() || t->isFloatTy(); }
    unsigned nslots(Type *t)
    {
        if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return 0;
        if (StructType *s = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type *e : s->elements()) n += nslots(e); return n; }
        if (ArrayType *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nslots(a->getElementType());
        if (FixedVectorType *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
        return 1;
    }
    // leaves: (type, byte offset)
    void leaves(Type *t, uint64_t off, std::vector<std::pair<Type *, uint64_t>> &out)
    {
        if (StructType *s = dyn_cast<StructType>(t))
        {
            const StructLayout *L = DL.getStructLayout(s);
            for (unsigned i = 0; i < s->getNumElements(); ++i) leaves(s->getElementType(i), off + L->getElementOffset(i), out);
            return;
        }
        if (ArrayType *a = dyn_cast<ArrayType>(t))
        {
            uint64_t sz = DL.getTypeAllocSize(a->getElementType());
            for (unsigned i = 0; i < a->getNumElements(); ++i) leaves(a->getElementType(), off + i * sz, out);
            return;
        }
        if (FixedVectorType *v = dyn_cast<FixedVectorType>(t))
        {
            uint64_t sz = DL.getTypeStoreSize(v->getElementType());
            for (unsigned i = 0; i < v->getNumElements(); ++i) out.push_back(std::make_pair(v->getElementType(), off + i * sz));
            return;
        }
        out.push_back(std::make_pair(t, off));
    }

    // ---- per function ----
    DenseMap<Value *, Slots> sh;
    std::vector<std::pair<PHINode *, Slots>> phis;
    Function *F;
    ConstantInt *zero() { return ConstantInt::get(cast<IntegerType>(I32), 0); }
    Slots zeros(Type *t) { return Slots(nslots(t), (Value *)zero()); }
    Slots get(Value *v)
    {
        if (isa<Constant>(v) || isa<InlineAsm>(v) || isa<MetadataAsValue>(v) || isa<BasicBlock>(v)) return zeros(v->getType());
        DenseMap<Value *, Slots>::iterator it = sh.find(v);
        if (it != sh.end()) return it->second;
        return zeros(v->getType());
    }
    Value *get1(Value *v) { Slots s = get(v); return s.empty() ? zero() : s[0]; }
    bool isZero(Value *s) { ConstantInt *c = dyn_cast<ConstantInt>(s); return c && c->isZero(); }
    bool allZero(const Slots &s) { for (Value *v : s) if (!isZero(v)) return false; return true; }
    void set1(Value *v, Value *s) { Slots x; x.push_back(s); sh[v] = x; }

    // native bits of scalar as i64 (ints sign extended)
    Value *bits(IRBuilder<> &B, Value *v)
    {
        Type *t = v->getType();
        if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
        if (t->isFloatTy()) return B.CreateBitCast(B.CreateFPExt(v, DblT), I64);
        if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (t->isIntegerTy())
        {
            if (t->getIntegerBitWidth() > 64) return B.CreateTrunc(v, I64);
            if (t->isIntegerTy(1)) return B.CreateZExt(v, I64);
            return B.CreateSExt(v, I64);
        }
        return ConstantInt::get(I64, 0);
    }
    Value *asDbl(IRBuilder<> &B, Value *v) { return v->getType()->isDoubleTy() ? v : B.CreateFPExt(v, DblT); }
    Value *c32(int x) { return ConstantInt::get(I32, x); }
    Value *cstr(IRBuilder<> &B, StringRef s) { return B.CreateGlobalStringPtr(s, "vps.str"); }

    void unsupported(IRBuilder<> &B, const Slots &s, const std::string &what)
    {
        for (Value *x : s)
            if (!isZero(x)) B.CreateCall(rt("__vps_unsupported", VoidT, {I32, PtrT}), {x, cstr(B, what)});
    }
    // a concrete value for v, forking over the feasible ones when symbolic
    Value *concretize(IRBuilder<> &B, Value *v, Value *s, const char *why)
    {
        if (isZero(s)) return v;
        Type *t = v->getType();
        if (t->isIntegerTy())
        {
            unsigned w = t->getIntegerBitWidth();
            Value *x = B.CreateCall(rt("__vps_conc_int", I64, {I64, I32, I32, PtrT}), {bits(B, v), s, c32(w), cstr(B, why)});
            return w == 64 ? x : B.CreateTrunc(x, t);
        }
        if (t->isDoubleTy())
            return B.CreateCall(rt("__vps_conc_dbl", DblT, {DblT, I32, PtrT}), {v, s, cstr(B, why)});
        if (t->isFloatTy())
            return B.CreateFPTrunc(B.CreateCall(rt("__vps_conc_dbl", DblT, {DblT, I32, PtrT}), {asDbl(B, v), s, cstr(B, why)}), t);
        return v;
    }

    Instruction *afterInst(Instruction *I)
    {
        if (InvokeInst *inv = dyn_cast<InvokeInst>(I))
        {
            BasicBlock *nd = inv->getNormalDest();
            return &*nd->getFirstInsertionPt();
        }
        if (isa<PHINode>(I)) return &*I->getParent()->getFirstInsertionPt();
        return I->getNextNode();
    }

    // ---- calls ----
    void setArgs(IRBuilder<> &B, CallBase *CB)
    {
        unsigned slot = 0;
        bool any = false;
        for (unsigned i = 0; i < CB->arg_size(); ++i)
        {
            Value *a = CB->getArgOperand(i);
            Slots s = get(a);
            bool byval = CB->isByValArgument(i);
            if (byval)
            {
                if (slot < MAXSLOT) B.CreateStore(B.CreatePtrToInt(a, I64), gep(B, GArgs, slot));
                slot += 1; any = true;
                continue;
            }
            for (Value *x : s)
            {
                if (slot < MAXSLOT) B.CreateStore(B.CreateZExt(x, I64), gep(B, GArgs, slot));
                ++slot; any = true;
            }
        }
        if (any) B.CreateStore(CB->getCalledOperand(), GTag);
    }
    Value *gep(IRBuilder<> &B, GlobalVariable *g, unsigned i) { return B.CreateConstInBoundsGEP2_64(g->getValueType(), g, 0, i); }
    void getRet(CallBase *CB)
    {
        unsigned n = nslots(CB->getType());
        if (n == 0 || CB->getType()->isPointerTy()) return;
        IRBuilder<> B(afterInst(CB));
        Value *match = B.CreateICmpEQ(B.CreateLoad(PtrT, GRetTag), CB->getCalledOperand());
        Slots s;
        for (unsigned i = 0; i < n; ++i)
        {
            if (i >= MAXSLOT) { s.push_back(zero()); continue; }
            Value *l = B.CreateTrunc(B.CreateLoad(I64, gep(B, GRet, i)), I32);
            s.push_back(B.CreateSelect(match, l, zero()));
        }
        sh[CB] = s;
    }

    static int mathFun1(StringRef n)
    {
        if (n == "sin") return U_SIN; if (n == "cos") return U_COS; if (n == "tan") return U_TAN;
        if (n == "sqrt") return U_SQRT; if (n == "fabs") return U_ABS; if (n == "exp") return U_EXP; if (n == "log") return U_LOG;
        if (n == "sinh") return U_SINH; if (n == "cosh") return U_COSH; if (n == "tanh") return U_TANH;
        if (n == "asin") return U_ASIN; if (n == "acos") return U_ACOS; if (n == "atan") return U_ATAN;
        if (n == "floor") return U_FLOOR; if (n == "ceil") return U_CEIL; if (n == "trunc") return U_TRUNC;
        if (n == "round") return U_ROUND; if (n == "rint" || n == "nearbyint") return U_RINT;
        return -1;
    }
    static int mathFun2(StringRef n)
    {
        if (n == "pow") return F_POW; if (n == "atan2") return F_ATAN2; if (n == "hypot") return F_HYPOT;
        if (n == "fmin") return F_MIN; if (n == "fmax") return F_MAX; if (n == "fmod") return F_FMOD; if (n == "copysign") return F_COPYSIGN;
        return -1;
    }
    Value *fun(IRBuilder<> &B, int op, Value *a, Value *sa)
    {
        if (isZero(sa)) return zero();
        return B.CreateCall(rt("__vps_fun", I32, {I32, DblT, I32}), {c32(op), asDbl(B, a), sa});
    }
    Value *fbin(IRBuilder<> &B, int op, Value *a, Value *sa, Value *b, Value *sb)
    {
        if (isZero(sa) && isZero(sb)) return zero();
        return B.CreateCall(rt("__vps_fbin", I32, {I32, DblT, I32, DblT, I32}), {c32(op), asDbl(B, a), sa, asDbl(B, b), sb});
    }
    Value *ibin(IRBuilder<> &B, int op, int w, Value *a, Value *sa, Value *b, Value *sb)
    {
        if (isZero(sa) && isZero(sb)) return zero();
        return B.CreateCall(rt("__vps_ibin", I32, {I32, I32, I64, I32, I64, I32}), {c32(op), c32(w), bits(B, a), sa, bits(B, b), sb});
    }
    Value *icmp(IRBuilder<> &B, int pred, int w, Value *a, Value *sa, Value *b, Value *sb)
    {
        if (isZero(sa) && isZero(sb)) return zero();
        return B.CreateCall(rt("__vps_icmp", I32, {I32, I32, I64, I32, I64, I32}), {c32(pred), c32(w), bits(B, a), sa, bits(B, b), sb});
    }

    void visitCall(CallBase *CB)
    {
        if (CB->isInlineAsm()) { sh[CB] = zeros(CB->getType()); return; }
        Function *callee = CB->getCalledFunction();
        IRBuilder<> B(CB);
        if (IntrinsicInst *II = dyn_cast<IntrinsicInst>(CB)) { visitIntrinsic(II); return; }
        if (CallInst *CI = dyn_cast<CallInst>(CB))
            if (CI->isMustTailCall() && !(callee && callee->isVarArg())) CI->setTailCallKind(CallInst::TCK_None);
        if (callee && callee->isDeclaration())
        {
            StringRef n = callee->getName();
            if (n.starts_with("__vps_")) return;
            if (n.starts_with("vp_")) { setArgs(B, CB); getRet(CB); return; }
            int f1 = (CB->arg_size() == 1 && CB->getType()->isDoubleTy()) ? mathFun1(n) : -1;
            if (f1 >= 0) { set1(CB, fun(B, f1, CB->getArgOperand(0), get1(CB->getArgOperand(0)))); return; }
            int f2 = (CB->arg_size() == 2 && CB->getType()->isDoubleTy()) ? mathFun2(n) : -1;
            if (f2 >= 0)
            {
                set1(CB, fbin(B, f2, CB->getArgOperand(0), get1(CB->getArgOperand(0)), CB->getArgOperand(1), get1(CB->getArgOperand(1))));
                return;
            }
            // concretise scalar arguments of other external functions
            for (unsigned i = 0; i < CB->arg_size(); ++i)
            {
                Value *a = CB->getArgOperand(i);
                Slots s = get(a);
                if (s.size() == 1 && scalar(a->getType()))
                {
                    if (!isZero(s[0])) CB->setArgOperand(i, concretize(B, a, s[0], cast<ConstantDataArray>(ConstantDataArray::getString(C, n))->getAsCString().str().c_str()));
                }
                else unsupported(B, s, ("external call " + n).str());
            }
            IRBuilder<> A(afterInst(CB));
            if (n == "memcpy" || n == "memmove")
                B.CreateCall(rt("__vps_memcpy", VoidT, {PtrT, PtrT, I64}), {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
            else if (n == "memset" || n == "bzero")
                B.CreateCall(rt("__vps_clear", VoidT, {PtrT, I64}), {CB->getArgOperand(0), CB->getArgOperand(n == "bzero" ? 1 : 2)});
            else if (n == "free" || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv"))
                B.CreateCall(rt("__vps_free", VoidT, {PtrT}), {CB->getArgOperand(0)});
            else if (n == "malloc" || n.starts_with("_Znwm") || n.starts_with("_Znam"))
                A.CreateCall(rt("__vps_clear", VoidT, {PtrT, I64}), {CB, CB->getArgOperand(0)});
            else if (n == "calloc" || n == "aligned_alloc")
                A.CreateCall(rt("__vps_alloced", VoidT, {PtrT}), {CB});
            else if (n == "realloc")
                CB->setCalledFunction(rt("__vps_realloc", PtrT, {PtrT, I64}));
            else if (n == "memcmp" || n == "bcmp")
                B.CreateCall(rt("__vps_memcmp", VoidT, {PtrT, PtrT, I64}), {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
            else if (n == "_ZNSo5writeEPKcl")
            {
                // std::ostream::write: replaced by the runtime (shadow aware) when the bytes are symbolic
                B.CreateCall(rt("__vps_owrite", VoidT, {PtrT, PtrT, I64}), {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
            }
            return;
        }
        // indirect, or defined here
        setArgs(B, CB);
        getRet(CB);
    }

    void visitIntrinsic(IntrinsicInst *II)
    {
        IRBuilder<> B(II);
        Type *t = II->getType();
        switch (II->getIntrinsicID())
        {
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
            {
                Value *n = II->getArgOperand(2);
                n = concretize(B, n, get1(n), "memcpy size"); II->setArgOperand(2, n);
                B.CreateCall(rt("__vps_memcpy", VoidT, {PtrT, PtrT, I64}), {II->getArgOperand(0), II->getArgOperand(1), B.CreateZExt(n, I64)});
                return;
            }
            case Intrinsic::memset: case Intrinsic::memset_inline:
            {
                unsupported(B, get(II->getArgOperand(1)), "memset of symbolic value");
                Value *n = II->getArgOperand(2);
                n = concretize(B, n, get1(n), "memset size"); II->setArgOperand(2, n);
                B.CreateCall(rt("__vps_clear", VoidT, {PtrT, I64}), {II->getArgOperand(0), B.CreateZExt(n, I64)});
                return;
            }
            case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
            case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
            case Intrinsic::eh_typeid_for: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::trap:
            case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::threadlocal_address:
            case Intrinsic::frameaddress: case Intrinsic::returnaddress: case Intrinsic::objectsize: case Intrinsic::is_constant:
            case Intrinsic::prefetch: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
                return;
            case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation:
                sh[II] = get(II->getArgOperand(0)); return;
            default: break;
        }
        int f1 = -1, f2 = -1, ib = -1;
        switch (II->getIntrinsicID())
        {
            case Intrinsic::sqrt: f1 = U_SQRT; break; case Intrinsic::fabs: f1 = U_ABS; break;
            case Intrinsic::sin: f1 = U_SIN; break; case Intrinsic::cos: f1 = U_COS; break;
            case Intrinsic::exp: f1 = U_EXP; break; case Intrinsic::log: f1 = U_LOG; break;
            case Intrinsic::floor: f1 = U_FLOOR; break; case Intrinsic::ceil: f1 = U_CEIL; break;
            case Intrinsic::trunc: f1 = U_TRUNC; break; case Intrinsic::round: f1 = U_ROUND; break;
            case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: f1 = U_RINT; break;
            case Intrinsic::pow: f2 = F_POW; break;
            case Intrinsic::minnum: case Intrinsic::minimum: f2 = F_MIN; break;
            case Intrinsic::maxnum: case Intrinsic::maximum: f2 = F_MAX; break;
            case Intrinsic::copysign: f2 = F_COPYSIGN; break;
            case Intrinsic::smin: ib = I_SMIN; break; case Intrinsic::smax: ib = I_SMAX; break;
            case Intrinsic::umin: ib = I_UMIN; break; case Intrinsic::umax: ib = I_UMAX; break;
            case Intrinsic::usub_sat: ib = I_USUBSAT; break; case Intrinsic::uadd_sat: ib = I_UADDSAT; break;
            default: break;
        }
        if (scalar(t))
        {
            Value *a = II->arg_size() > 0 ? II->getArgOperand(0) : 0, *b = II->arg_size() > 1 ? II->getArgOperand(1) : 0;
            if (f1 >= 0) { set1(II, fun(B, f1, a, get1(a))); return; }
            if (f2 >= 0) { set1(II, fbin(B, f2, a, get1(a), b, get1(b))); return; }
            if (ib >= 0) { set1(II, ibin(B, ib, t->getIntegerBitWidth(), a, get1(a), b, get1(b))); return; }
            switch (II->getIntrinsicID())
            {
                case Intrinsic::fmuladd: case Intrinsic::fma:
                {
                    Value *c = II->getArgOperand(2);
                    Value *m = fbin(B, F_MUL, a, get1(a), b, get1(b));
                    set1(II, fbin(B, F_ADD, B.CreateFMul(a, b), m, c, get1(c)));
                    return;
                }
                case Intrinsic::abs:
                {
                    Value *s = get1(a);
                    if (!isZero(s)) s = B.CreateCall(rt("__vps_iabs", I32, {I32, I32}), {c32(t->getIntegerBitWidth()), s});
                    set1(II, s); return;
                }
                case Intrinsic::bswap:
                {
                    Value *s = get1(a);
                    if (!isZero(s)) s = B.CreateCall(rt("__vps_bswap", I32, {I32, I32}), {c32(t->getIntegerBitWidth()), s});
                    set1(II, s); return;
                }
                case Intrinsic::powi:
                {
                    unsupported(B, get(b), "powi exponent");
                    Value *s = get1(a);
                    if (!isZero(s)) s = B.CreateCall(rt("__vps_powi", I32, {DblT, I32, I32}), {asDbl(B, a), s, B.CreateSExtOrTrunc(b, I32)});
                    set1(II, s); return;
                }
                case Intrinsic::is_fpclass:
                {
                    Value *s = get1(a);
                    if (!isZero(s)) s = B.CreateCall(rt("__vps_fpclass", I32, {I32, I32}), {s, b});
                    set1(II, s); return;
                }
                default: break;
            }
        }
        switch (II->getIntrinsicID())
        {
            case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
            case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow:
            {
                Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
                unsigned w = a->getType()->getIntegerBitWidth();
                int op = I_ADD;
                bool sgn = true;
                switch (II->getIntrinsicID())
                {
                    case Intrinsic::uadd_with_overflow: sgn = false; break;
                    case Intrinsic::ssub_with_overflow: op = I_SUB; break;
                    case Intrinsic::usub_with_overflow: op = I_SUB; sgn = false; break;
                    case Intrinsic::smul_with_overflow: op = I_MUL; break;
                    case Intrinsic::umul_with_overflow: op = I_MUL; sgn = false; break;
                    default: break;
                }
                Value *sa = get1(a), *sb = get1(b);
                Slots s;
                s.push_back(ibin(B, op, w, a, sa, b, sb));
                if (isZero(sa) && isZero(sb)) s.push_back(zero());
                else
                    s.push_back(B.CreateCall(rt("__vps_overflow", I32, {I32, I32, I32, I64, I32, I64, I32}),
                                             {c32(op), c32(sgn), c32(w), bits(B, a), sa, bits(B, b), sb}));
                sh[II] = s;
                return;
            }
            default: break;
        }
        for (unsigned i = 0; i < II->arg_size(); ++i)
            if (!II->getArgOperand(i)->getType()->isMetadataTy())
                unsupported(B, get(II->getArgOperand(i)), ("intrinsic " + II->getCalledFunction()->getName()).str());
        sh[II] = zeros(t);
    }

    Slots load(IRBuilder<> &B, Type *t, Value *p)
    {
        std::vector<std::pair<Type *, uint64_t>> L;
        leaves(t, 0, L);
        Slots s;
        for (auto &e : L)
        {
            if (!scalar(e.first)) { s.push_back(zero()); continue; }
            Value *q = e.second ? B.CreateConstGEP1_64(I8, p, e.second) : p;
            s.push_back(B.CreateCall(rt("__vps_load", I32, {PtrT, I32}), {q, c32(DL.getTypeStoreSize(e.first))}));
        }
        return s;
    }
    void store(IRBuilder<> &B, Type *t, Value *p, const Slots &s, IRBuilder<> &After, Value *)
    {
        std::vector<std::pair<Type *, uint64_t>> L;
        leaves(t, 0, L);
        unsigned i = 0;
        for (auto &e : L)
        {
            Value *q = e.second ? After.CreateConstGEP1_64(I8, p, e.second) : p;
            Value *sl = i < s.size() ? s[i] : (Value *)zero();
            ++i;
            After.CreateCall(rt("__vps_store", VoidT, {PtrT, I32, I32}), {q, c32(DL.getTypeStoreSize(e.first)), sl});
        }
    }

    void visit(Instruction *I)
    {
        IRBuilder<> B(I);
        Type *t = I->getType();
        if (CallBase *CB = dyn_cast<CallBase>(I)) { visitCall(CB); return; }
        if (PHINode *P = dyn_cast<PHINode>(I))
        {
            Slots s;
            for (unsigned i = 0; i < nslots(t); ++i)
            {
                if (t->isPointerTy()) { s.push_back(zero()); continue; }
                s.push_back(B.CreatePHI(I32, P->getNumIncomingValues()));
            }
            sh[P] = s;
            phis.push_back(std::make_pair(P, s));
            return;
        }
        if (BinaryOperator *O = dyn_cast<BinaryOperator>(I))
        {
            Value *a = O->getOperand(0), *b = O->getOperand(1);
            if (!scalar(t))
            {
                unsupported(B, get(a), std::string("vector op ") + O->getOpcodeName());
                unsupported(B, get(b), std::string("vector op ") + O->getOpcodeName());
                sh[I] = zeros(t);
                return;
            }
            int op = -1;
            switch (O->getOpcode())
            {
                case Instruction::FAdd: op = F_ADD; break; case Instruction::FSub: op = F_SUB; break;
                case Instruction::FMul: op = F_MUL; break; case Instruction::FDiv: op = F_DIV; break;
                case Instruction::FRem: op = F_FMOD; break;
                default: break;
            }
            if (op >= 0) { set1(I, fbin(B, op, a, get1(a), b, get1(b))); return; }
            switch (O->getOpcode())
            {
                case Instruction::Add: op = I_ADD; break; case Instruction::Sub: op = I_SUB; break;
                case Instruction::Mul: op = I_MUL; break; case Instruction::UDiv: op = I_UDIV; break;
                case Instruction::SDiv: op = I_SDIV; break; case Instruction::URem: op = I_UREM; break;
                case Instruction::SRem: op = I_SREM; break; case Instruction::Shl: op = I_SHL; break;
                case Instruction::LShr: op = I_LSHR; break; case Instruction::AShr: op = I_ASHR; break;
                case Instruction::And: op = I_AND; break; case Instruction::Or: op = I_OR; break;
                case Instruction::Xor: op = I_XOR; break;
                default: break;
            }
            Value *sa = get1(a), *sb = get1(b);
            if ((op == I_UDIV || op == I_SDIV || op == I_UREM || op == I_SREM) && !isZero(sb))
            {
                b = concretize(B, b, sb, "divisor");
                O->setOperand(1, b);
                sb = zero();
            }
            if ((op == I_SHL || op == I_LSHR || op == I_ASHR) && !isZero(sb))
            {
                b = concretize(B, b, sb, "shift amount");
                O->setOperand(1, b);
                sb = zero();
            }
            // the native operation runs on placeholder values: drop the poison flags
            if (!isZero(sa) || !isZero(sb)) O->dropPoisonGeneratingFlags();
            set1(I, ibin(B, op, t->getIntegerBitWidth(), a, sa, b, sb));
            return;
        }
        if (UnaryOperator *U = dyn_cast<UnaryOperator>(I))
        {
            if (scalar(t)) set1(I, fun(B, U_NEG, U->getOperand(0), get1(U->getOperand(0))));
            else { unsupported(B, get(U->getOperand(0)), "vector fneg"); sh[I] = zeros(t); }
            return;
        }
        if (ICmpInst *O = dyn_cast<ICmpInst>(I))
        {
            Value *a = O->getOperand(0), *b = O->getOperand(1);
            if (a->getType()->isPointerTy()) { sh[I] = zeros(t); return; }
            if (!scalar(a->getType())) { unsupported(B, get(a), "vector icmp"); unsupported(B, get(b), "vector icmp"); sh[I] = zeros(t); return; }
            set1(I, icmp(B, O->getPredicate(), a->getType()->getIntegerBitWidth(), a, get1(a), b, get1(b)));
            return;
        }
        if (FCmpInst *O = dyn_cast<FCmpInst>(I))
        {
            Value *a = O->getOperand(0), *b = O->getOperand(1);
            if (!scalar(a->getType())) { unsupported(B, get(a), "vector fcmp"); unsupported(B, get(b), "vector fcmp"); sh[I] = zeros(t); return; }
            Value *sa = get1(a), *sb = get1(b);
            if (isZero(sa) && isZero(sb)) { set1(I, zero()); return; }
            set1(I, B.CreateCall(rt("__vps_fcmp", I32, {I32, DblT, I32, DblT, I32}), {c32(O->getPredicate()), asDbl(B, a), sa, asDbl(B, b), sb}));
            return;
        }
        if (CastInst *O = dyn_cast<CastInst>(I))
        {
            Value *a = O->getOperand(0);
            Type *f = a->getType();
            Slots s = get(a);
            if (!scalar(t) || !scalar(f))
            {
                if (O->getOpcode() == Instruction::IntToPtr && !allZero(s))
                {
                    O->setOperand(0, concretize(B, a, s[0], "inttoptr"));
                }
                else if (isa<BitCastInst>(O) && nslots(f) == nslots(t)) { sh[I] = s; return; }
                else unsupported(B, s, std::string("cast ") + O->getOpcodeName());
                sh[I] = zeros(t);
                return;
            }
            Value *x = s[0];
            if (isZero(x)) { set1(I, zero()); return; }
            switch (O->getOpcode())
            {
                case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
                    if (O->getOpcode() == Instruction::ZExt) O->dropPoisonGeneratingFlags();
                    x = B.CreateCall(rt("__vps_icast", I32, {I32, I32, I32, I32}),
                                     {c32(O->getOpcode() == Instruction::ZExt ? 0 : O->getOpcode() == Instruction::SExt ? 1 : 2),
                                      c32(f->getIntegerBitWidth()), c32(t->getIntegerBitWidth()), x});
                    break;
                case Instruction::SIToFP: case Instruction::UIToFP:
                    x = B.CreateCall(rt("__vps_itof", I32, {I32, I32, I32}),
                                     {c32(O->getOpcode() == Instruction::SIToFP), c32(f->getIntegerBitWidth()), x});
                    break;
                case Instruction::FPToSI: case Instruction::FPToUI:
                    x = B.CreateCall(rt("__vps_ftoi", I32, {I32, I32, I32}),
                                     {c32(O->getOpcode() == Instruction::FPToSI), c32(t->getIntegerBitWidth()), x});
                    break;
                case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::BitCast: break;
                default: unsupported(B, s, std::string("cast ") + O->getOpcodeName()); x = zero(); break;
            }
            set1(I, x);
            return;
        }
        if (SelectInst *O = dyn_cast<SelectInst>(I))
        {
            Value *c = O->getCondition();
            Slots st = get(O->getTrueValue()), sf = get(O->getFalseValue());
            if (!c->getType()->isIntegerTy(1)) { unsupported(B, get(c), "vector select"); unsupported(B, st, "vector select"); unsupported(B, sf, "vector select"); sh[I] = zeros(t); return; }
            Value *sc = get1(c);
            if (!isZero(sc) && scalar(t))
            {
                Value *r = B.CreateCall(rt("__vps_select", I32, {I1, I32, I64, I32, I64, I32, I32}),
                                        {c, sc, bits(B, O->getTrueValue()), st[0], bits(B, O->getFalseValue()), sf[0],
                                         c32(t->isIntegerTy() ? t->getIntegerBitWidth() : 0)});
                set1(I, r);
                return;
            }
            if (!isZero(sc))
            {
                c = B.CreateCall(rt("__vps_branch", I1, {I1, I32}), {c, sc});
                O->setCondition(c);
            }
            Slots s;
            for (unsigned i = 0; i < st.size(); ++i)
                s.push_back(isZero(st[i]) && isZero(sf[i]) ? (Value *)zero() : B.CreateSelect(c, st[i], sf[i]));
            sh[I] = s;
            return;
        }
        if (LoadInst *O = dyn_cast<LoadInst>(I))
        {
            if (t->isPointerTy()) { sh[I] = zeros(t); return; }
            if (nslots(t) > 64) { sh[I] = zeros(t); return; }
            IRBuilder<> A(afterInst(I));
            sh[I] = load(A, t, O->getPointerOperand());
            return;
        }
        if (StoreInst *O = dyn_cast<StoreInst>(I))
        {
            IRBuilder<> A(afterInst(I));
            store(B, O->getValueOperand()->getType(), O->getPointerOperand(), get(O->getValueOperand()), A, O->getValueOperand());
            return;
        }
        if (AtomicRMWInst *O = dyn_cast<AtomicRMWInst>(I))
        {
            unsupported(B, get(O->getValOperand()), "atomicrmw");
            IRBuilder<> A(afterInst(I));
            A.CreateCall(rt("__vps_store", VoidT, {PtrT, I32, I32}), {O->getPointerOperand(), c32(DL.getTypeStoreSize(O->getValOperand()->getType())), zero()});
            sh[I] = zeros(t);
            return;
        }
        if (AtomicCmpXchgInst *O = dyn_cast<AtomicCmpXchgInst>(I))
        {
            unsupported(B, get(O->getNewValOperand()), "cmpxchg");
            IRBuilder<> A(afterInst(I));
            A.CreateCall(rt("__vps_store", VoidT, {PtrT, I32, I32}), {O->getPointerOperand(), c32(DL.getTypeStoreSize(O->getNewValOperand()->getType())), zero()});
            sh[I] = zeros(t);
            return;
        }
        if (GetElementPtrInst *O = dyn_cast<GetElementPtrInst>(I))
        {
            for (unsigned i = 1; i < O->getNumOperands(); ++i)
            {
                Value *ix = O->getOperand(i);
                Slots s = get(ix);
                if (s.size() == 1 && !isZero(s[0]) && ix->getType()->isIntegerTy())
                    O->setOperand(i, concretize(B, ix, s[0], "address"));
            }
            sh[I] = zeros(t);
            return;
        }
        if (AllocaInst *O = dyn_cast<AllocaInst>(I))
        {
            if (O->isArrayAllocation())
            {
                Value *n = O->getArraySize();
                O->setOperand(0, concretize(B, n, get1(n), "alloca size"));
            }
            IRBuilder<> A(afterInst(I));
            Value *sz = A.CreateMul(A.CreateZExtOrTrunc(O->getArraySize(), I64), ConstantInt::get(I64, DL.getTypeAllocSize(O->getAllocatedType())));
            A.CreateCall(rt("__vps_clear", VoidT, {PtrT, I64}), {O, sz});
            sh[I] = zeros(t);
            return;
        }
        if (ExtractValueInst *O = dyn_cast<ExtractValueInst>(I))
        {
            Type *at = O->getAggregateOperand()->getType();
            unsigned off = aggOffset(at, O->getIndices());
            Slots s = get(O->getAggregateOperand()), r;
            for (unsigned i = 0; i < nslots(t); ++i) r.push_back(s[off + i]);
            sh[I] = r;
            return;
        }
        if (InsertValueInst *O = dyn_cast<InsertValueInst>(I))
        {
            unsigned off = aggOffset(O->getAggregateOperand()->getType(), O->getIndices());
            Slots s = get(O->getAggregateOperand()), v = get(O->getInsertedValueOperand());
            for (unsigned i = 0; i < v.size(); ++i) s[off + i] = v[i];
            sh[I] = s;
            return;
        }
        if (ExtractElementInst *O = dyn_cast<ExtractElementInst>(I))
        {
            Slots s = get(O->getVectorOperand());
            if (ConstantInt *c = dyn_cast<ConstantInt>(O->getIndexOperand())) set1(I, s[c->getZExtValue()]);
            else { unsupported(B, s, "extractelement"); sh[I] = zeros(t); }
            return;
        }
        if (InsertElementInst *O = dyn_cast<InsertElementInst>(I))
        {
            Slots s = get(O->getOperand(0));
            if (ConstantInt *c = dyn_cast<ConstantInt>(O->getOperand(2))) s[c->getZExtValue()] = get1(O->getOperand(1));
            else { unsupported(B, s, "insertelement"); unsupported(B, get(O->getOperand(1)), "insertelement"); }
            sh[I] = s;
            return;
        }
        if (ShuffleVectorInst *O = dyn_cast<ShuffleVectorInst>(I))
        {
            Slots a = get(O->getOperand(0)), b = get(O->getOperand(1)), r;
            for (int m : O->getShuffleMask()) r.push_back(m < 0 ? (Value *)zero() : (unsigned)m < a.size() ? a[m] : b[m - a.size()]);
            sh[I] = r;
            return;
        }
        if (FreezeInst *O = dyn_cast<FreezeInst>(I)) { sh[I] = get(O->getOperand(0)); return; }
        if (BranchInst *O = dyn_cast<BranchInst>(I))
        {
            if (O->isConditional() && !isZero(get1(O->getCondition())))
                O->setCondition(B.CreateCall(rt("__vps_branch", I1, {I1, I32}), {O->getCondition(), get1(O->getCondition())}));
            return;
        }
        if (SwitchInst *O = dyn_cast<SwitchInst>(I))
        {
            Value *c = O->getCondition();
            Value *s = get1(c);
            if (isZero(s)) return;
            std::vector<Constant *> cases;
            for (auto &k : O->cases()) cases.push_back(ConstantInt::get(I64, k.getCaseValue()->getSExtValue()));
            ArrayType *at = ArrayType::get(I64, cases.size());
            GlobalVariable *g = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, cases), "vps.cases");
            unsigned w = c->getType()->getIntegerBitWidth();
            Value *x = B.CreateCall(rt("__vps_switch", I64, {I64, I32, I32, I32, PtrT}), {bits(B, c), s, c32(w), c32(cases.size()), g});
            O->setCondition(w == 64 ? x : B.CreateTrunc(x, c->getType()));
            return;
        }
        if (ReturnInst *O = dyn_cast<ReturnInst>(I))
        {
            Value *v = O->getReturnValue();
            if (!v || v->getType()->isPointerTy()) return;
            Slots s = get(v);
            for (unsigned i = 0; i < s.size() && i < MAXSLOT; ++i) B.CreateStore(B.CreateZExt(s[i], I64), gep(B, GRet, i));
            B.CreateStore(F, GRetTag);
            return;
        }
        // landingpad, resume, unreachable, va_arg, fence, ...
        if (!t->isVoidTy()) sh[I] = zeros(t);
    }
    unsigned aggOffset(Type *t, ArrayRef<unsigned> idx)
    {
        unsigned off = 0;
        for (unsigned i : idx)
        {
            if (StructType *s = dyn_cast<StructType>(t))
            {
                for (unsigned k = 0; k < i; ++k) off += nslots(s->getElementType(k));
                t = s->getElementType(i);
            }
            else
            {
                ArrayType *a = cast<ArrayType>(t);
                off += i * nslots(a->getElementType());
                t = a->getElementType();
            }
        }
        return off;
    }

    void run(Function &f)
    {
        F = &f;
        sh.clear();
        phis.clear();
        // normal destinations of invokes must have a single predecessor
        std::vector<InvokeInst *> invs;
        for (BasicBlock &b : f) if (InvokeInst *i = dyn_cast<InvokeInst>(b.getTerminator())) invs.push_back(i);
        for (InvokeInst *i : invs)
            if (!i->getNormalDest()->getSinglePredecessor() || isa<PHINode>(i->getNormalDest()->front()))
                SplitEdge(i->getParent(), i->getNormalDest());
        std::vector<Instruction *> todo;
        // dominance friendly order: reverse post order
        {
            std::vector<BasicBlock *> po;
            std::set<BasicBlock *> seen;
            std::vector<std::pair<BasicBlock *, unsigned>> st;
            st.push_back(std::make_pair(&f.getEntryBlock(), 0u));
            seen.insert(&f.getEntryBlock());
            while (!st.empty())
            {
                BasicBlock *b = st.back().first;
                Instruction *T = b->getTerminator();
                if (st.back().second < T->getNumSuccessors())
                {
                    BasicBlock *n = T->getSuccessor(st.back().second++);
                    if (seen.insert(n).second) st.push_back(std::make_pair(n, 0u));
                }
                else { po.push_back(b); st.pop_back(); }
            }
            for (auto it = po.rbegin(); it != po.rend(); ++it)
                for (Instruction &i : **it) todo.push_back(&i);
        }
        // arguments
        {
            Instruction *ip = &*f.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
            IRBuilder<> B(ip);
            bool need = false;
            for (Argument &a : f.args()) if (a.hasByValAttr() || !a.getType()->isPointerTy()) need = true;
            if (need)
            {
                Value *match = B.CreateICmpEQ(B.CreateLoad(PtrT, GTag), &f);
                B.CreateStore(ConstantPointerNull::get(PtrT), GTag);
                unsigned slot = 0;
                for (Argument &a : f.args())
                {
                    if (a.hasByValAttr())
                    {
                        if (slot < MAXSLOT)
                        {
                            Value *src = B.CreateSelect(match, B.CreateLoad(I64, gep(B, GArgs, slot)), ConstantInt::get(I64, 0));
                            B.CreateCall(rt("__vps_byval", VoidT, {PtrT, I64, I64}), {&a, src, ConstantInt::get(I64, DL.getTypeAllocSize(a.getParamByValType()))});
                        }
                        ++slot;
                        continue;
                    }
                    Slots s;
                    for (unsigned i = 0; i < nslots(a.getType()); ++i)
                    {
                        if (slot < MAXSLOT && !a.getType()->isPointerTy())
                            s.push_back(B.CreateSelect(match, B.CreateTrunc(B.CreateLoad(I64, gep(B, GArgs, slot)), I32), zero()));
                        else s.push_back(zero());
                        ++slot;
                    }
                    sh[&a] = s;
                }
            }
        }
        for (Instruction *i : todo) visit(i);
        for (auto &p : phis)
        {
            for (unsigned k = 0; k < p.second.size(); ++k)
            {
                PHINode *sp = dyn_cast<PHINode>(p.second[k]);
                if (!sp) continue;
                for (unsigned i = 0; i < p.first->getNumIncomingValues(); ++i)
                {
                    Slots s = get(p.first->getIncomingValue(i));
                    sp->addIncoming(k < s.size() ? s[k] : (Value *)zero(), p.first->getIncomingBlock(i));
                }
            }
        }
    }
};

struct VPSPass : PassInfoMixin<VPSPass>
{
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &)
    {
        Instr in(M);
        std::vector<Function *> fs;
        for (Function &f : M)
            if (!f.isDeclaration() && !f.getName().starts_with("__vps_") && !f.hasAvailableExternallyLinkage()) fs.push_back(&f);
        // available_externally bodies would be dropped by the backend: turn them into declarations
        for (Function &f : M)
            if (!f.isDeclaration() && f.hasAvailableExternallyLinkage()) { f.deleteBody(); f.setLinkage(GlobalValue::ExternalLinkage); }
        for (Function *f : fs)
        {
            f->removeFnAttr(Attribute::Memory);
            f->removeFnAttr(Attribute::NoSync);
            f->removeFnAttr(Attribute::WillReturn);
            f->removeFnAttr(Attribute::NoUnwind);
        }
        for (Function &f : M)
            for (BasicBlock &b : f)
                for (Instruction &i : b)
                    if (CallBase *c = dyn_cast<CallBase>(&i))
                        if (!isa<IntrinsicInst>(c))
                        {
                            c->removeFnAttr(Attribute::Memory);
                            c->removeFnAttr(Attribute::WillReturn);
                        }
        for (Function *f : fs) in.run(*f);
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
// records which functions of the library run (before inlining)
struct FnPass : PassInfoMixin<FnPass>
{
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &)
    {
        LLVMContext &C = M.getContext();
        PointerType *P = PointerType::getUnqual(C);
        FunctionCallee fc = M.getOrInsertFunction("__vps_fn", FunctionType::get(Type::getVoidTy(C), {P}, false));
        Function *ff = cast<Function>(fc.getCallee());
        ff->setDoesNotThrow();
        ff->setOnlyAccessesInaccessibleMemory();
        std::vector<Function *> fs;
        for (Function &f : M) if (!f.isDeclaration()) fs.push_back(&f);
        for (Function *f : fs)
        {
            std::string dn = demangle(f->getName().str());
            std::string head = dn.substr(0, dn.find('('));
            size_t lt = head.find('<');
            if (lt != std::string::npos) head = head.substr(0, lt);
            if (head.find("humoto::") == std::string::npos || head.find("Eigen::") != std::string::npos || head.find("std::") != std::string::npos) continue;
            IRBuilder<> B(&*f->getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
            B.CreateCall(fc, {B.CreateGlobalStringPtr(dn, "vps.fn")});
        }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "vps", "1", [](PassBuilder &PB) {
                PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(FnPass()); });
                PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
                    ScalarizerPassOptions o;
                    o.ScalarizeLoadStore = true;
                    o.ScalarizeVariableInsertExtract = true;
                    MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass(o)));
                    MPM.addPass(VPSPass());
                });
            }};
}
