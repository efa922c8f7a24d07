// ir2c: translates an LLVM-18 module (clang's IR of the real sources + a harness) into C for CBMC.
// The generated C is also compilable natively (gcc), which is how the translation is validated.
//
// Memory keeps LLVM's types (typed objects, typed GEPs); integer arithmetic is emitted on unsigned
// machine words with explicit masking, and the undefined behaviour that LLVM marks (nsw, oversized
// shifts, float->int range, unreachable) becomes explicit VF_UB(...) obligations.
#include "llvm/ADT/SmallString.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using std::string;

static const DataLayout *DL;
static Module *M;
static string typeDecls;
static std::map<Type *, string> typeNames;
static std::map<const Value *, string> globalNames;
static std::set<string> usedNames;
static std::set<string> unmodelled;
static bool usesExc = false;

[[noreturn]] static void die(const Twine &m) { errs() << "ir2c: " << m << "\n"; exit(3); }

static string sanitize(StringRef s) {
    string r;
    for (char c : s) r += (isalnum((unsigned char)c) || c == '_') ? c : '_';
    return r;
}
static string hx(uint64_t v) { return std::to_string(v) + "ULL"; }

static unsigned roundBits(unsigned b) { return b <= 8 ? 8 : b <= 16 ? 16 : b <= 32 ? 32 : b <= 64 ? 64 : 128; }
static string uty(unsigned b) {
    b = roundBits(b);
    return b == 128 ? "vf_u128" : "vf_u" + std::to_string(b);
}
static string sty(unsigned b) {
    b = roundBits(b);
    return b == 128 ? "vf_s128" : "vf_s" + std::to_string(b);
}

static string cType(Type *T);
// Unions that start with an integer (std::string's buffer, say) become bytes: the integer is only one of the views, and bytes
// are what CBMC's constant propagation follows.
static bool byteUnion(const StructType *ST) {
    return ST->hasName() && ST->getName().starts_with("union.") && ST->getNumElements() > 0 && ST->getElementType(0)->isIntegerTy() &&
           ST->getElementType(0)->getIntegerBitWidth() > 8 && ST->getElementType(0)->getIntegerBitWidth() % 8 == 0;
}
// The same for a union on the stack whose type llvm-link has merged with an ordinary structure's.
static bool byteAlloca(const AllocaInst *AI) {
    auto *ST = dyn_cast<StructType>(AI->getAllocatedType());
    if (!ST || ST->getNumElements() != 1 || !ST->getElementType(0)->isIntegerTy() || ST->getElementType(0)->getIntegerBitWidth() <= 8 || byteUnion(ST)) return false;
    for (const User *U : AI->users())
        if (auto *G = dyn_cast<GetElementPtrInst>(U)) {
            Type *E = G->getSourceElementType();
            if (auto *AT = dyn_cast<ArrayType>(E)) E = AT->getElementType();
            if (E->isIntegerTy(8)) return true;
        }
    return false;
}
static string structFor(Type *T) {
    auto it = typeNames.find(T);
    if (it != typeNames.end()) return it->second;
    string name, body;
    if (auto *ST = dyn_cast<StructType>(T)) {
        name = "struct S" + std::to_string(typeNames.size());
        if (ST->isOpaque()) die("opaque struct used by value: " + ST->getName());
        unsigned i = 0;
        for (Type *E : ST->elements()) {
            if (i == 0 && byteUnion(ST)) body += "  vf_u8 f0[" + std::to_string(E->getIntegerBitWidth() / 8) + "];\n";
            else body += "  " + cType(E) + " f" + std::to_string(i) + ";\n";
            ++i;
        }
        if (ST->getNumElements() == 0) body = "";
        typeNames[T] = name = "struct S" + std::to_string(typeNames.size());
        typeDecls += name + " {\n" + body + "}" + (ST->isPacked() ? " __attribute__((packed))" : byteUnion(ST) ? " __attribute__((aligned(" + std::to_string(DL->getABITypeAlign(T).value()) + ")))" : "") + ";\n";
        typeDecls += "VF_SIZE(" + name + ", " + std::to_string(DL->getTypeAllocSize(T).getFixedValue()) + ");\n";
        return name;
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) {
        string e = cType(AT->getElementType());
        typeNames[T] = name = "struct A" + std::to_string(typeNames.size());
        typeDecls += name + " { " + e + " a[" + std::to_string(AT->getNumElements()) + "]; };\n";
        return name;
    }
    if (auto *VT = dyn_cast<FixedVectorType>(T)) {
        string e = cType(VT->getElementType());
        typeNames[T] = name = "struct V" + std::to_string(typeNames.size());
        typeDecls += name + " { " + e + " a[" + std::to_string(VT->getNumElements()) + "]; };\n";
        return name;
    }
    die("unsupported aggregate type");
}
static string cType(Type *T) {
    if (T->isVoidTy()) return "void";
    if (auto *IT = dyn_cast<IntegerType>(T)) {
        if (IT->getBitWidth() > 128) die("integer too wide");
        return uty(IT->getBitWidth());
    }
    if (T->isFloatTy()) return "float";
    if (T->isDoubleTy()) return "double";
    if (T->isX86_FP80Ty()) return "long double";
    if (T->isPointerTy()) return "vf_ptr";
    return structFor(T);
}

static string gname(const Value *V) {
    auto it = globalNames.find(V);
    if (it != globalNames.end()) return it->second;
    string n = sanitize(V->getName());
    if (n.empty()) n = "anon";
    if (isa<Function>(V)) n = "F_" + n; else n = "G_" + n;
    string c = n;
    int k = 0;
    while (usedNames.count(c)) c = n + "_" + std::to_string(++k);
    usedNames.insert(c);
    return globalNames[V] = c;
}

static string maskTo(const string &e, unsigned bits) {
    if (bits == roundBits(bits)) return "(" + uty(bits) + ")(" + e + ")";
    if (bits == 1) return "(vf_u8)((" + e + ")&1)";
    string m = bits < 64 ? hx((1ull << bits) - 1) : ("((((vf_u128)1)<<" + std::to_string(bits) + ")-1)");
    return "(" + uty(bits) + ")((" + e + ")&" + m + ")";
}
// signed view of an operand
static string sx(const string &e, unsigned bits) {
    unsigned r = roundBits(bits);
    if (r == bits) return "((" + sty(bits) + ")(" + e + "))";
    unsigned d = r - bits;
    return "((" + sty(bits) + ")((" + sty(bits) + ")((" + uty(bits) + ")(" + e + ")<<" + std::to_string(d) + ")>>" +
           std::to_string(d) + "))";
}

static string fpConst(const APFloat &F, Type *T) {
    if (T->isX86_FP80Ty()) {
        if (F.isNaN() || F.isInfinity()) die("x86_fp80 special constant");
        SmallString<64> s; F.toString(s, 40);
        string r(s.str());
        if (r.find_first_of(".eE") == string::npos) r += ".0";
        return "(" + r + "L)";
    }
    if (F.isNaN()) return T->isFloatTy() ? "VF_NANF" : "VF_NAN";
    if (F.isInfinity()) return string(F.isNegative() ? "(-" : "(") + (T->isFloatTy() ? "VF_INFF)" : "VF_INF)");
    char hexb[64];
    F.convertToHexString(hexb, 0, false, APFloat::rmNearestTiesToEven);
    string r = hexb;
    return "(" + r + (T->isFloatTy() ? "f)" : ")");
}

static string constExpr(const Constant *C, bool init);
static string gepExpr(const User *G, Type *srcTy, std::vector<string> ops, const string &base);

static string zeroInit(Type *T) {
    if (T->isPointerTy()) return "((vf_ptr)0)";
    if (T->isIntegerTy() || T->isFloatingPointTy()) return "0";
    if (auto *ST = dyn_cast<StructType>(T)) if (ST->getNumElements() == 0) return "{}";
    if (auto *AT = dyn_cast<ArrayType>(T)) { if (AT->getNumElements() == 0) return "{}"; }
    return "{0}";
}
static Type *elemTy(Type *T, unsigned i) {
    if (auto *ST = dyn_cast<StructType>(T)) return ST->getElementType(i);
    if (auto *AT = dyn_cast<ArrayType>(T)) return AT->getElementType();
    return cast<VectorType>(T)->getElementType();
}
static string aggInit(const Constant *C) {
    Type *T = C->getType();
    if (!T->isAggregateType() && !T->isVectorTy()) return constExpr(C, true);
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) {
        string z = zeroInit(T);
        if (z == "{0}") {
            // nested first elements need matching braces only for warnings; build explicitly
            unsigned n = isa<StructType>(T) ? cast<StructType>(T)->getNumElements() : 1;
            string e;
            Type *F = elemTy(T, 0);
            (void)n;
            e = (F->isAggregateType() || F->isVectorTy()) ? aggInit(Constant::getNullValue(F)) : zeroInit(F);
            return isa<StructType>(T) ? "{" + e + "}" : "{{" + e + "}}";
        }
        return z == "{}" && !isa<StructType>(T) ? "{}" : z;
    }
    string r;
    bool arr = !isa<StructType>(T);
    unsigned n;
    if (auto *ST = dyn_cast<StructType>(T)) n = ST->getNumElements();
    else if (auto *AT = dyn_cast<ArrayType>(T)) n = AT->getNumElements();
    else n = cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; ++i) {
        if (i) r += ",";
        if (i == 0 && !arr && byteUnion(cast<StructType>(T))) {
            const Constant *E = C->getAggregateElement(0u);
            auto *CI = dyn_cast<ConstantInt>(E);
            if (!CI && !isa<UndefValue>(E)) die("initializer of a union");
            unsigned w = E->getType()->getIntegerBitWidth() / 8;
            r += "{";
            for (unsigned k = 0; k < w; ++k) r += (k ? "," : "") + std::to_string(CI ? (unsigned)CI->getValue().extractBitsAsZExtValue(8, 8 * k) : 0u);
            r += "}";
            continue;
        }
        r += aggInit(C->getAggregateElement(i));
    }
    return arr ? "{{" + r + "}}" : "{" + r + "}";
}

static string constExpr(const Constant *C, bool init) {
    Type *T = C->getType();
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
        unsigned b = CI->getBitWidth();
        if (b <= 64) return "((" + uty(b) + ")" + hx(CI->getZExtValue()) + ")";
        APInt v = CI->getValue();
        return "((((vf_u128)" + hx(v.lshr(64).trunc(64).getZExtValue()) + ")<<64)|" + hx(v.trunc(64).getZExtValue()) + ")";
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) return fpConst(CF->getValueAPF(), T);
    if (isa<ConstantPointerNull>(C)) return "((vf_ptr)0)";
    if (auto *GV = dyn_cast<GlobalVariable>(C)) return "((vf_ptr)&" + gname(GV) + ")";
    if (auto *F = dyn_cast<Function>(C)) return "((vf_ptr)&" + gname(F) + ")";
    if (auto *GA = dyn_cast<GlobalAlias>(C)) return constExpr(GA->getAliasee(), init);
    if (isa<UndefValue>(C)) {
        if (T->isAggregateType() || T->isVectorTy()) return init ? aggInit(C) : "(" + cType(T) + ")" + aggInit(C);
        return T->isPointerTy() ? "((vf_ptr)0)" : "((" + cType(T) + ")0)";
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto *G = cast<GEPOperator>(CE);
                APInt off(64, 0);
                if (!G->accumulateConstantOffset(*DL, off)) die("non-constant GEP constexpr");
                return "((vf_ptr)(" + constExpr(cast<Constant>(G->getPointerOperand()), init) + "+(" +
                       std::to_string(off.getSExtValue()) + "LL)))";
            }
            case Instruction::BitCast:
            case Instruction::AddrSpaceCast:
                return constExpr(CE->getOperand(0), init);
            case Instruction::PtrToInt:
                return "((" + cType(T) + ")" + constExpr(CE->getOperand(0), init) + ")";
            case Instruction::IntToPtr:
                return "((vf_ptr)" + constExpr(CE->getOperand(0), init) + ")";
            case Instruction::Trunc:
                return maskTo(constExpr(CE->getOperand(0), init), T->getIntegerBitWidth());
            case Instruction::Add:
                return maskTo(constExpr(CE->getOperand(0), init) + "+" + constExpr(CE->getOperand(1), init), T->getIntegerBitWidth());
            case Instruction::Sub:
                return maskTo(constExpr(CE->getOperand(0), init) + "-" + constExpr(CE->getOperand(1), init), T->getIntegerBitWidth());
            default: {
                string s; raw_string_ostream o(s); CE->print(o);
                die("constexpr " + s);
            }
        }
    }
    if (T->isAggregateType() || T->isVectorTy()) return init ? aggInit(C) : "(" + cType(T) + ")" + aggInit(C);
    string s; raw_string_ostream o(s); C->print(o);
    die("constant " + s);
}

struct FnEmitter {
    const Function &F;
    raw_ostream &O;
    std::map<const Value *, string> names;
    std::map<const BasicBlock *, string> bbs;
    int n = 0;
    bool retVoid;

    FnEmitter(const Function &f, raw_ostream &o) : F(f), O(o) { retVoid = f.getReturnType()->isVoidTy(); }

    string val(const Value *V) {
        if (auto *C = dyn_cast<Constant>(V)) return constExpr(C, false);
        auto it = names.find(V);
        if (it == names.end()) {
            string s; raw_string_ostream o(s); V->print(o);
            die("no name for value " + s);
        }
        return it->second;
    }
    static unsigned bits(const Value *V) { return V->getType()->getIntegerBitWidth(); }
    string sval(const Value *V) { return sx(val(V), bits(V)); }

    string lvPtr(Type *T, const Value *P) { return "(*(" + cType(T) + "*)" + val(P) + ")"; }

    void line(const string &s) { O << "  " << s << "\n"; }
    void set(const Instruction &I, const string &e) {
        if (I.getType()->isVoidTy()) line(e + ";");
        else line(names[&I] + " = " + e + ";");
    }
    static string ubTag(const Instruction &I) {
        string s;
        if (const DebugLoc &d = I.getDebugLoc()) {
            s = " @" + string(d->getFilename()) + ":" + std::to_string(d.getLine());
        }
        string r;
        for (char c : s) if (c != '"' && c != '\\') r += c;
        return r;
    }
    void ub(const Instruction &I, const string &cond, const string &what) {
        line("VF_UB(" + cond + ", \"" + what + ubTag(I) + "\");");
    }

    string gep(const GEPOperator *G) {
        Type *T = G->getSourceElementType();
        string base = val(G->getPointerOperand());
        // pure byte GEP
        auto idxs = std::vector<const Value *>(G->idx_begin(), G->idx_end());
        auto ix = [&](const Value *V) -> string {
            if (auto *CI = dyn_cast<ConstantInt>(V)) return std::to_string(CI->getSExtValue()) + "LL";
            return "(vf_s64)" + sval(V);
        };
        if (T->isIntegerTy(8) && idxs.size() == 1) return "(" + base + "+(" + ix(idxs[0]) + "))";
        string e = "((" + cType(T) + "*)" + base + ")";
        bool zeroFirst = isa<ConstantInt>(idxs[0]) && cast<ConstantInt>(idxs[0])->isZero();
        if (zeroFirst && idxs.size() > 1) e = "(*" + e + ")";
        else e = "(" + e + "[" + ix(idxs[0]) + "])";
        for (size_t k = 1; k < idxs.size(); ++k) {
            if (auto *ST = dyn_cast<StructType>(T)) {
                unsigned f = cast<ConstantInt>(idxs[k])->getZExtValue();
                e += ".f" + std::to_string(f);
                T = ST->getElementType(f);
            } else {
                e += ".a[" + ix(idxs[k]) + "]";
                T = elemTy(T, 0);
            }
        }
        return "((vf_ptr)&" + e + ")";
    }

    void emitPhis(const BasicBlock *from, const BasicBlock *to, const string &ind) {
        for (const PHINode &P : to->phis()) {
            const Value *V = P.getIncomingValueForBlock(from);
            if (isa<UndefValue>(V)) continue;
            O << ind << "p_" << names[&P] << " = " << val(V) << ";\n";
        }
    }
    void jump(const BasicBlock *from, const BasicBlock *to, const string &ind) {
        emitPhis(from, to, ind);
        O << ind << "goto " << bbs[to] << ";\n";
    }

    static string fcmp(CmpInst::Predicate p, const string &a, const string &b) {
        string u = "(vf_isunord(" + a + "," + b + "))";
        switch (p) {
            case CmpInst::FCMP_OEQ: return a + "==" + b;
            case CmpInst::FCMP_OGT: return a + ">" + b;
            case CmpInst::FCMP_OGE: return a + ">=" + b;
            case CmpInst::FCMP_OLT: return a + "<" + b;
            case CmpInst::FCMP_OLE: return a + "<=" + b;
            case CmpInst::FCMP_ONE: return "!" + u + "&&" + a + "!=" + b;
            case CmpInst::FCMP_ORD: return "!" + u;
            case CmpInst::FCMP_UNO: return u;
            case CmpInst::FCMP_UEQ: return u + "||" + a + "==" + b;
            case CmpInst::FCMP_UGT: return u + "||" + a + ">" + b;
            case CmpInst::FCMP_UGE: return u + "||" + a + ">=" + b;
            case CmpInst::FCMP_ULT: return u + "||" + a + "<" + b;
            case CmpInst::FCMP_ULE: return u + "||" + a + "<=" + b;
            case CmpInst::FCMP_UNE: return a + "!=" + b;
            case CmpInst::FCMP_TRUE: return "1";
            default: return "0";
        }
    }

    static bool constStr(const Value *V, string &out) {
        auto *GV = dyn_cast<GlobalVariable>(V->stripPointerCasts());
        if (!GV || !GV->hasInitializer()) return false;
        auto *CD = dyn_cast<ConstantDataSequential>(GV->getInitializer());
        if (!CD || !CD->isString()) return false;
        out.clear();
        for (char c : CD->getAsString()) {
            if (!c) break;
            if (c == '"' || c == '\\') out += '\\';
            out += c;
        }
        return true;
    }

    void call(const CallBase &I) {
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) { intrinsic(*II); return; }
        if (I.isInlineAsm()) {
            if (cast<InlineAsm>(I.getCalledOperand())->getAsmString().empty()) {
                if (!I.getType()->isVoidTy()) set(I, val(I.getArgOperand(0)));
                return;
            }
            die("inline asm in " + F.getName());
        }
        const Function *C = dyn_cast<Function>(I.getCalledOperand()->stripPointerCastsAndAliases());
        string args;
        auto addArg = [&](const string &a) { if (!args.empty()) args += ", "; args += a; };
        if (C && C->getName().starts_with("vf_")) {
            // harness primitives: string arguments become literals
            for (const Use &U : I.args()) {
                string s;
                if (U->getType()->isPointerTy() && constStr(U.get(), s)) addArg("\"" + s + "\"");
                else if (&U == &I.args().begin()[I.arg_size() - 1] && C->getName().starts_with("vf_nd")) addArg("\"nd\"");
                else addArg(val(U.get()));
            }
            set(I, string(C->getName()) + "(" + args + ")");
            return;
        }
        if (C && C->getFunctionType() == I.getFunctionType()) {
            // variadic arguments are dropped (no modelled function looks at them)
            for (const Use &U : I.args()) if (I.getArgOperandNo(&U) < C->arg_size()) addArg(val(U.get()));
            if (I.hasByValArgument()) {
                args.clear();
                for (unsigned i = 0; i < I.arg_size(); ++i) {
                    if (I.isByValArgument(i)) {
                        Type *T = I.getParamByValType(i);
                        string tmp = "bv" + std::to_string(n++);
                        line(cType(T) + " " + tmp + " = *(" + cType(T) + "*)" + val(I.getArgOperand(i)) + ";");
                        addArg("(vf_ptr)&" + tmp);
                    } else addArg(val(I.getArgOperand(i)));
                }
            }
            set(I, gname(C) + "(" + args + ")");
        } else {
            const FunctionType *FT = I.getFunctionType();
            string proto = cType(FT->getReturnType()) + "(*)(";
            for (unsigned i = 0; i < FT->getNumParams(); ++i) proto += (i ? "," : "") + cType(FT->getParamType(i));
            if (FT->getNumParams() == 0) proto += "void";
            proto += ")";
            for (const Use &U : I.args()) addArg(val(U.get()));
            set(I, "((" + proto + ")" + val(I.getCalledOperand()) + ")(" + args + ")");
        }
    }

    void intrinsic(const IntrinsicInst &I) {
        auto A = [&](unsigned i) { return val(I.getArgOperand(i)); };
        auto SA = [&](unsigned i) { return sval(I.getArgOperand(i)); };
        Type *T = I.getType();
        auto name = I.getCalledFunction()->getName();
        switch (I.getIntrinsicID()) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare:
            case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing:
            case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::prefetch:
            case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation:
                if (!T->isVoidTy()) line(names[&I] + " = (" + cType(T) + ")0;");
                return;
            case Intrinsic::stacksave: line(names[&I] + " = (vf_ptr)0;"); return;
            case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation:
            case Intrinsic::ptr_annotation:
                set(I, A(0)); return;
            case Intrinsic::is_constant: set(I, "(vf_u8)0"); return;
            case Intrinsic::objectsize: set(I, maskTo("~(vf_u64)0", bits(&I))); return;
            case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap:
                line("VF_TRAP(\"trap" + ubTag(I) + "\");"); return;
            case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
                if (auto *CI = dyn_cast<ConstantInt>(I.getArgOperand(2))) {
                    uint64_t k = CI->getZExtValue();
                    if (k == 0) return;
                    Type *BT = ArrayType::get(Type::getInt8Ty(M->getContext()), k);
                    // typed copy when source or destination is a whole typed object
                    Type *whole = nullptr;
                    for (unsigned j = 0; j < 2; ++j) {
                        const Value *P = I.getArgOperand(j)->stripPointerCasts();
                        Type *PT = nullptr;
                        if (auto *AI = dyn_cast<AllocaInst>(P)) PT = AI->getAllocatedType();
                        else if (auto *GV = dyn_cast<GlobalVariable>(P)) PT = GV->getValueType();
                        else if (auto *GP = dyn_cast<GEPOperator>(P)) PT = GP->getResultElementType();
                        while (PT && PT->isSized() && DL->getTypeAllocSize(PT).getFixedValue() > k) {        // an object's first member
                            if (auto *ST = dyn_cast<StructType>(PT)) PT = ST->getNumElements() && !byteUnion(ST) ? ST->getElementType(0) : nullptr;
                            else if (auto *AT = dyn_cast<ArrayType>(PT)) PT = AT->getElementType();
                            else PT = nullptr;
                        }
                        if (PT && !PT->isAggregateType()) PT = nullptr;
                        if (PT && PT->isSized() && DL->getTypeAllocSize(PT).getFixedValue() == k) { whole = PT; break; }
                    }
                    string t = cType(whole ? whole : BT);
                    string tmp = "mc" + std::to_string(n++);
                    line("{ " + t + " " + tmp + " = *(" + t + "*)" + A(1) + "; *(" + t + "*)" + A(0) + " = " + tmp + "; }");
                    return;
                }
                line(string(I.getIntrinsicID() == Intrinsic::memmove ? "vf_memmove(" : "vf_memcpy(") + A(0) + ", " + A(1) + ", (vf_u64)" + A(2) + ");");
                return;
            }
            case Intrinsic::memset: case Intrinsic::memset_inline:
                line("vf_memset(" + A(0) + ", " + A(1) + ", (vf_u64)" + A(2) + ");"); return;
            case Intrinsic::umin: set(I, "(" + A(0) + "<" + A(1) + "?" + A(0) + ":" + A(1) + ")"); return;
            case Intrinsic::umax: set(I, "(" + A(0) + ">" + A(1) + "?" + A(0) + ":" + A(1) + ")"); return;
            case Intrinsic::smin: set(I, "(" + SA(0) + "<" + SA(1) + "?" + A(0) + ":" + A(1) + ")"); return;
            case Intrinsic::smax: set(I, "(" + SA(0) + ">" + SA(1) + "?" + A(0) + ":" + A(1) + ")"); return;
            case Intrinsic::abs:
                if (cast<ConstantInt>(I.getArgOperand(1))->isOne())
                    ub(I, "(" + A(0) + ")!=" + maskTo("((" + uty(bits(&I)) + ")1)<<" + std::to_string(bits(&I) - 1), bits(&I)), "signed overflow in abs");
                set(I, "(" + SA(0) + "<0?" + maskTo("0-" + A(0), bits(&I)) + ":" + A(0) + ")"); return;
            case Intrinsic::bswap: set(I, "vf_bswap" + std::to_string(bits(&I)) + "(" + A(0) + ")"); return;
            case Intrinsic::ctpop: set(I, "(" + cType(T) + ")vf_ctpop(" + A(0) + ")"); return;
            case Intrinsic::ctlz: set(I, "(" + cType(T) + ")vf_ctlz(" + A(0) + "," + std::to_string(bits(&I)) + ")"); return;
            case Intrinsic::cttz: set(I, "(" + cType(T) + ")vf_cttz(" + A(0) + "," + std::to_string(bits(&I)) + ")"); return;
            case Intrinsic::fshl: case Intrinsic::fshr: {
                unsigned b = bits(&I);
                if (b > 64) die("fsh >64");
                string s = "(" + A(2) + "%" + std::to_string(b) + ")";
                string w = "((((vf_u128)" + A(0) + ")<<" + std::to_string(b) + ")|" + A(1) + ")";
                if (I.getIntrinsicID() == Intrinsic::fshl)
                    set(I, maskTo("(" + w + "<<" + s + ")>>" + std::to_string(b), b));
                else set(I, maskTo(w + ">>" + s, b));
                return;
            }
            case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
            case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
                unsigned b = bits(I.getArgOperand(0));
                if (b > 64) die("with.overflow >64");
                bool s = name.contains(".sadd") || name.contains(".ssub") || name.contains(".smul");
                string op = name.contains("add") ? "+" : name.contains("sub.") || name.contains("sub") ? "-" : "*";
                if (name.contains("mul")) op = "*";
                string wide = s ? "((vf_s128)" + SA(0) + op + "(vf_s128)" + SA(1) + ")"
                                : "((vf_s128)" + A(0) + op + "(vf_s128)" + A(1) + ")";
                line("{ vf_s128 w = " + wide + ";");
                line(names[&I] + ".f0 = " + maskTo("w", b) + ";");
                line(names[&I] + ".f1 = (vf_u8)(w != (vf_s128)" + (s ? sx(names[&I] + ".f0", b) : names[&I] + ".f0") + "); }");
                return;
            }
            case Intrinsic::uadd_sat: { unsigned b = bits(&I);
                set(I, "(" + maskTo(A(0) + "+" + A(1), b) + "<" + A(0) + "?" + maskTo("~(" + uty(b) + ")0", b) + ":" + maskTo(A(0) + "+" + A(1), b) + ")"); return; }
            case Intrinsic::usub_sat: set(I, "(" + A(0) + ">" + A(1) + "?" + maskTo(A(0) + "-" + A(1), bits(&I)) + ":0)"); return;
            case Intrinsic::fabs: set(I, "vf_fabs(" + A(0) + ")"); return;
            case Intrinsic::trunc: set(I, T->isFloatTy() ? "truncf(" + A(0) + ")" : "trunc(" + A(0) + ")"); return;
            case Intrinsic::floor: set(I, T->isFloatTy() ? "floorf(" + A(0) + ")" : "floor(" + A(0) + ")"); return;
            case Intrinsic::ceil: set(I, T->isFloatTy() ? "ceilf(" + A(0) + ")" : "ceil(" + A(0) + ")"); return;
            case Intrinsic::copysign: set(I, T->isFloatTy() ? "copysignf(" + A(0) + "," + A(1) + ")" : "copysign(" + A(0) + "," + A(1) + ")"); return;
            case Intrinsic::fmuladd: set(I, "(" + cType(T) + ")(" + A(0) + "*" + A(1) + "+" + A(2) + ")"); return;
            case Intrinsic::minnum: set(I, "(vf_isunord(" + A(0) + "," + A(0) + ")?" + A(1) + ":vf_isunord(" + A(1) + "," + A(1) + ")?" + A(0) + ":" + A(0) + "<" + A(1) + "?" + A(0) + ":" + A(1) + ")"); return;
            case Intrinsic::maxnum: set(I, "(vf_isunord(" + A(0) + "," + A(0) + ")?" + A(1) + ":vf_isunord(" + A(1) + "," + A(1) + ")?" + A(0) + ":" + A(0) + ">" + A(1) + "?" + A(0) + ":" + A(1) + ")"); return;
            case Intrinsic::is_fpclass: {
                unsigned m = cast<ConstantInt>(I.getArgOperand(1))->getZExtValue();
                string r = "0", a = A(0);
                bool d = I.getArgOperand(0)->getType()->isDoubleTy();
                string inf = d ? "VF_INF" : "VF_INFF", mn = d ? "2.2250738585072014e-308" : "1.17549435e-38f";
                string sg = "vf_signbit(" + a + ")", ab = "vf_fabs(" + a + ")";
                if (m & 3) r += "||vf_isunord(" + a + "," + a + ")";
                if (m & 4) r += "||(" + a + "==-" + inf + ")";
                if (m & 8) r += "||(" + sg + "&&" + ab + ">=" + mn + "&&" + ab + "<" + inf + ")";
                if (m & 16) r += "||(" + sg + "&&" + ab + ">0&&" + ab + "<" + mn + ")";
                if (m & 32) r += "||(" + sg + "&&" + a + "==0)";
                if (m & 64) r += "||(!" + sg + "&&" + a + "==0)";
                if (m & 128) r += "||(!" + sg + "&&" + ab + ">0&&" + ab + "<" + mn + ")";
                if (m & 256) r += "||(!" + sg + "&&" + ab + ">=" + mn + "&&" + ab + "<" + inf + ")";
                if (m & 512) r += "||(" + a + "==" + inf + ")";
                set(I, "(vf_u8)(" + r + ")");
                return;
            }
            case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: die("fpto*.sat");
            case Intrinsic::eh_typeid_for: set(I, "(vf_u32)1"); return;     // every exception is taken to be of the handler's type
            default: die("intrinsic " + name + " in " + F.getName());
        }
    }

    void unwindCheck(const Instruction &I, const BasicBlock *unwindTo) {
        // exception propagation: vf_exc is set by __cxa_throw & co (see vf_rt.h)
        if (unwindTo) {
            O << "  if (vf_exc) {\n";
            jump(I.getParent(), unwindTo, "    ");
            O << "  }\n";
        } else if (retVoid) line("if (vf_exc) return;");
        else line("if (vf_exc) { " + cType(F.getReturnType()) + " r_; return r_; }");
    }

    bool mayThrow(const CallBase &I) {
        if (!usesExc) return false;
        if (I.doesNotThrow()) return false;
        if (isa<IntrinsicInst>(I)) return false;
        if (auto *C = I.getCalledFunction()) if (C->getName().starts_with("vf_")) return false;
        return true;
    }

    void inst(const Instruction &I) {
        const Type *T = I.getType();
        if (isa<PHINode>(I)) return;
        if (auto *AI = dyn_cast<AllocaInst>(&I)) {
            line(names[&I] + " = (vf_ptr)&m_" + names[&I] + ";");
            (void)AI;
            return;
        }
        if (auto *L = dyn_cast<LoadInst>(&I)) {
            if (L->getType()->isIntegerTy(1)) set(I, "(vf_u8)(" + lvPtr(I.getType(), L->getPointerOperand()) + "&1)");
            else set(I, lvPtr(I.getType(), L->getPointerOperand()));
            return;
        }
        if (auto *S = dyn_cast<StoreInst>(&I)) {
            line(lvPtr(S->getValueOperand()->getType(), S->getPointerOperand()) + " = " + val(S->getValueOperand()) + ";");
            return;
        }
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { set(I, gep(cast<GEPOperator>(G))); return; }
        if (auto *C = dyn_cast<CallInst>(&I)) {
            call(*C);
            if (mayThrow(*C)) unwindCheck(I, nullptr);
            return;
        }
        if (auto *IV = dyn_cast<InvokeInst>(&I)) {
            call(*IV);
            if (mayThrow(*IV)) unwindCheck(I, IV->getUnwindDest());
            jump(I.getParent(), IV->getNormalDest(), "  ");
            return;
        }
        if (isa<LandingPadInst>(&I)) {
            line(names[&I] + ".f0 = vf_exc_obj; " + names[&I] + ".f1 = 1; vf_exc = 0;");
            return;
        }
        if (isa<ResumeInst>(&I)) {
            line("vf_exc = 1;");
            if (retVoid) line("return;");
            else line("{ " + cType(F.getReturnType()) + " r_; return r_; }");
            return;
        }
        if (auto *R = dyn_cast<ReturnInst>(&I)) {
            line(R->getReturnValue() ? "return " + val(R->getReturnValue()) + ";" : "return;");
            return;
        }
        if (auto *B = dyn_cast<BranchInst>(&I)) {
            if (B->isConditional()) {
                O << "  if (" << val(B->getCondition()) << ") {\n";
                jump(I.getParent(), B->getSuccessor(0), "    ");
                O << "  } else {\n";
                jump(I.getParent(), B->getSuccessor(1), "    ");
                O << "  }\n";
            } else jump(I.getParent(), B->getSuccessor(0), "  ");
            return;
        }
        if (auto *S = dyn_cast<SwitchInst>(&I)) {
            for (auto &c : S->cases()) {
                O << "  if (" << val(S->getCondition()) << " == " << constExpr(c.getCaseValue(), false) << ") {\n";
                jump(I.getParent(), c.getCaseSuccessor(), "    ");
                O << "  }\n";
            }
            jump(I.getParent(), S->getDefaultDest(), "  ");
            return;
        }
        if (isa<UnreachableInst>(&I)) {
            line("VF_TRAP(\"unreachable code reached\");");
            if (retVoid) line("return;");
            else line("{ " + cType(F.getReturnType()) + " r_; return r_; }");
            return;
        }
        if (auto *C = dyn_cast<ICmpInst>(&I)) {
            const Value *a = C->getOperand(0), *b = C->getOperand(1);
            string x, y, op;
            if (a->getType()->isPointerTy()) {
                x = val(a); y = val(b);
                auto number = [](const Value *V) {      // (iconv_t)-1 and the like: compared as numbers, which constant propagation follows
                    auto *E = dyn_cast<ConstantExpr>(V);
                    return E && E->getOpcode() == Instruction::IntToPtr;
                };
                if (!C->isEquality() || number(a) || number(b)) { x = "vf_p2i(" + x + ")"; y = "vf_p2i(" + y + ")"; }
                if (C->isSigned()) { x = "(vf_s64)" + x; y = "(vf_s64)" + y; }
            } else if (a->getType()->isVectorTy()) die("vector icmp");
            else if (C->isSigned()) { x = sval(a); y = sval(b); }
            else { x = val(a); y = val(b); }
            switch (C->getPredicate()) {
                case CmpInst::ICMP_EQ: op = "=="; break;
                case CmpInst::ICMP_NE: op = "!="; break;
                case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: op = ">"; break;
                case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: op = ">="; break;
                case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: op = "<"; break;
                default: op = "<="; break;
            }
            set(I, "(vf_u8)(" + x + op + y + ")");
            return;
        }
        if (auto *C = dyn_cast<FCmpInst>(&I)) {
            set(I, "(vf_u8)(" + fcmp(C->getPredicate(), val(C->getOperand(0)), val(C->getOperand(1))) + ")");
            return;
        }
        if (auto *S = dyn_cast<SelectInst>(&I)) {
            set(I, "(" + val(S->getCondition()) + " ? " + val(S->getTrueValue()) + " : " + val(S->getFalseValue()) + ")");
            return;
        }
        if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
            string e = val(E->getAggregateOperand());
            Type *A = E->getAggregateOperand()->getType();
            if (isa<Constant>(E->getAggregateOperand())) die("extractvalue of constant");
            for (unsigned k : E->indices()) {
                e += isa<StructType>(A) ? ".f" + std::to_string(k) : ".a[" + std::to_string(k) + "]";
                A = elemTy(A, k);
            }
            set(I, e);
            return;
        }
        if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
            if (!isa<UndefValue>(IV->getAggregateOperand())) line(names[&I] + " = " + val(IV->getAggregateOperand()) + ";");
            string e = names[&I];
            Type *A = I.getType();
            for (unsigned k : IV->indices()) {
                e += isa<StructType>(A) ? ".f" + std::to_string(k) : ".a[" + std::to_string(k) + "]";
                A = elemTy(A, k);
            }
            line(e + " = " + val(IV->getInsertedValueOperand()) + ";");
            return;
        }
        if (auto *U = dyn_cast<FreezeInst>(&I)) { set(I, val(U->getOperand(0))); return; }
        if (auto *U = dyn_cast<UnaryOperator>(&I)) { set(I, "(-" + val(U->getOperand(0)) + ")"); return; }
        if (auto *C = dyn_cast<CastInst>(&I)) {
            const Value *o = C->getOperand(0);
            Type *S = o->getType(), *D = I.getType();
            switch (C->getOpcode()) {
                case Instruction::Trunc: set(I, maskTo(val(o), D->getIntegerBitWidth())); return;
                case Instruction::ZExt: set(I, "(" + cType(D) + ")" + val(o)); return;
                case Instruction::SExt: set(I, maskTo("(" + sty(D->getIntegerBitWidth()) + ")" + sval(o), D->getIntegerBitWidth())); return;
                case Instruction::FPTrunc: case Instruction::FPExt: set(I, "(" + cType(D) + ")" + val(o)); return;
                case Instruction::UIToFP: set(I, "(" + cType(D) + ")" + val(o)); return;
                case Instruction::SIToFP: set(I, "(" + cType(D) + ")" + sval(o)); return;
                case Instruction::FPToSI: case Instruction::FPToUI: {
                    unsigned b = D->getIntegerBitWidth();
                    bool s = C->getOpcode() == Instruction::FPToSI;
                    if (b > 64) die("fptoi >64");
                    string x = "((double)" + val(o) + ")";
                    if (S->isX86_FP80Ty()) x = "(" + val(o) + ")";
                    string lo, hi; // exclusive bounds where representable
                    char buf[64];
                    if (s) { snprintf(buf, sizeof buf, "%a", -ldexp(1.0, b - 1)); lo = b < 53 ? string(buf) + "-1.0" : string(buf);
                             snprintf(buf, sizeof buf, "%a", ldexp(1.0, b - 1)); hi = buf; }
                    else { lo = "-1.0"; snprintf(buf, sizeof buf, "%a", ldexp(1.0, b)); hi = buf; }
                    ub(I, x + (s && b >= 53 ? ">=" : ">") + lo + "&&" + x + "<" + hi, "float value out of integer range");
                    if (s) set(I, maskTo("(" + sty(b) + ")" + val(o), b));
                    else set(I, maskTo("(" + uty(b) + ")" + val(o), b));
                    return;
                }
                case Instruction::PtrToInt: set(I, maskTo("vf_p2i(" + val(o) + ")", D->getIntegerBitWidth())); return;
                case Instruction::IntToPtr: set(I, "vf_i2p((vf_u64)" + val(o) + ")"); return;
                case Instruction::BitCast: {
                    if (S == D || (S->isPointerTy() && D->isPointerTy())) { set(I, val(o)); return; }
                    string t = "bc" + std::to_string(n++);
                    line("{ union { " + cType(S) + " s; " + cType(D) + " d; } " + t + "; " + t + ".s = " + val(o) + "; " + names[&I] + " = " + t + ".d; }");
                    return;
                }
                default: die("cast");
            }
        }
        if (auto *B = dyn_cast<BinaryOperator>(&I)) {
            const Value *a = B->getOperand(0), *b = B->getOperand(1);
            if (T->isFloatingPointTy()) {
                string op;
                switch (B->getOpcode()) {
                    case Instruction::FAdd: op = "+"; break;
                    case Instruction::FSub: op = "-"; break;
                    case Instruction::FMul: op = "*"; break;
                    case Instruction::FDiv: op = "/"; break;
                    default: die("frem");
                }
                set(I, "(" + cType(I.getType()) + ")(" + val(a) + op + val(b) + ")");
                return;
            }
            if (T->isVectorTy()) die("vector binop in " + F.getName());
            unsigned w = bits(&I);
            string x = val(a), y = val(b), u = uty(w);
            auto *O2 = dyn_cast<OverflowingBinaryOperator>(B);
            bool nsw = O2 && O2->hasNoSignedWrap();
            auto ovf = [&](const char *op) {
                if (w > 64) return;
                string W = w <= 32 ? "vf_s64" : "vf_s128";
                string e = "((" + W + ")" + sval(a) + op + "(" + W + ")" + sval(b) + ")";
                string lo, hi;
                if (w <= 32) { lo = std::to_string(-(1ll << (w - 1))) + "LL"; hi = std::to_string((1ll << (w - 1)) - 1) + "LL"; }
                else { if (w != 64) die("odd nsw width"); lo = "(-(vf_s128)9223372036854775807LL-1)"; hi = "(vf_s128)9223372036854775807LL"; }
                ub(I, e + ">=" + lo + "&&" + e + "<=" + hi, string("signed overflow in ") + (op[0] == '+' ? "addition" : op[0] == '-' ? "subtraction" : "multiplication"));
            };
            auto shiftOk = [&]() {
                if (!isa<ConstantInt>(b)) ub(I, y + "<" + std::to_string(w), "shift amount out of range");
            };
            switch (B->getOpcode()) {
                case Instruction::Add: if (nsw) ovf("+"); set(I, maskTo(x + "+" + y, w)); return;
                case Instruction::Sub: {
                    // pointer difference: keep it symbolic as a pointer subtraction
                    auto *pa = dyn_cast<PtrToIntInst>(a); auto *pb = dyn_cast<PtrToIntInst>(b);
                    if (pa && pb && w == 64) { set(I, "vf_pdiff(" + val(pa->getOperand(0)) + "," + val(pb->getOperand(0)) + ")"); return; }
                    if (nsw) ovf("-");
                    set(I, maskTo(x + "-" + y, w)); return;
                }
                case Instruction::Mul: if (nsw) ovf("*");
                    if (w < 32) set(I, maskTo("(vf_u32)" + x + "*(vf_u32)" + y, w));
                    else set(I, maskTo(x + "*" + y, w));
                    return;
                case Instruction::UDiv: case Instruction::URem:
                    ub(I, y + "!=0", "division by zero");
                    set(I, maskTo(x + (B->getOpcode() == Instruction::UDiv ? "/" : "%") + y, w)); return;
                case Instruction::SDiv: case Instruction::SRem:
                    ub(I, y + "!=0", "division by zero");
                    if (!isa<ConstantInt>(b))
                        ub(I, "!(" + sval(b) + "==-1&&" + x + "==" + maskTo("((" + u + ")1)<<" + std::to_string(w - 1), w) + ")", "signed division overflow");
                    set(I, maskTo(sval(a) + (B->getOpcode() == Instruction::SDiv ? "/" : "%") + sval(b), w)); return;
                case Instruction::And: set(I, "(" + u + ")(" + x + "&" + y + ")"); return;
                case Instruction::Or: set(I, "(" + u + ")(" + x + "|" + y + ")"); return;
                case Instruction::Xor: set(I, "(" + u + ")(" + x + "^" + y + ")"); return;
                case Instruction::Shl: shiftOk(); set(I, maskTo("VF_SHL((" + uty(w < 32 ? 32 : w) + ")" + x + "," + y + "," + std::to_string(w) + ")", w)); return;
                case Instruction::LShr: shiftOk(); set(I, "(" + u + ")VF_SHR(" + x + "," + y + "," + std::to_string(w) + ")"); return;
                case Instruction::AShr: shiftOk(); set(I, maskTo("VF_SHR(" + sval(a) + "," + y + "," + std::to_string(w) + ")", w)); return;
                default: die("binop");
            }
        }
        if (auto *E = dyn_cast<ExtractElementInst>(&I)) {
            set(I, val(E->getVectorOperand()) + ".a[" + val(E->getIndexOperand()) + "]"); return;
        }
        if (auto *E = dyn_cast<InsertElementInst>(&I)) {
            if (!isa<UndefValue>(E->getOperand(0))) line(names[&I] + " = " + val(E->getOperand(0)) + ";");
            line(names[&I] + ".a[" + val(E->getOperand(2)) + "] = " + val(E->getOperand(1)) + ";"); return;
        }
        if (isa<FenceInst>(&I)) return;
        string s; raw_string_ostream o(s); I.print(o);
        die("instruction " + s + " in " + F.getName());
    }

    static string proto(const Function &F, bool withNames) {
        string r = cType(F.getReturnType()) + " " + gname(&F) + "(";
        unsigned i = 0;
        for (auto &A : F.args()) {
            if (i) r += ", ";
            r += cType(A.getType());
            if (withNames) r += " a" + std::to_string(i);
            ++i;
        }
        if (i == 0) r += "void";
        return r + ")";
    }

    void emit() {
        unsigned i = 0;
        for (auto &A : F.args()) names[&A] = "a" + std::to_string(i++);
        int bi = 0;
        for (auto &B : F) {
            bbs[&B] = "B" + std::to_string(bi++);
            for (auto &I : B) if (!I.getType()->isVoidTy()) names[&I] = "v" + std::to_string(n++);
        }
        O << proto(F, true) << "\n{\n";
        for (auto &B : F) for (auto &I : B) {
            if (I.getType()->isVoidTy()) continue;
            if (auto *AI = dyn_cast<AllocaInst>(&I)) {
                auto *cnt = dyn_cast<ConstantInt>(AI->getArraySize());
                if (!cnt) die("dynamic alloca in " + F.getName());
                if (cnt->isOne() && byteAlloca(AI)) {
                    O << "  vf_u8 m_" << names[&I] << "[" << DL->getTypeAllocSize(AI->getAllocatedType()).getFixedValue() << "] __attribute__((aligned(" << AI->getAlign().value() << ")));\n";
                    O << "  " << cType(I.getType()) << " " << names[&I] << ";\n";
                    continue;
                }
                if (cnt->isOne()) O << "  " << cType(AI->getAllocatedType()) << " m_" << names[&I] << ";\n";
                else O << "  " << cType(AI->getAllocatedType()) << " m_" << names[&I] << "[" << cnt->getZExtValue() << "];\n";
            }
            O << "  " << cType(I.getType()) << " " << names[&I] << ";\n";
            if (isa<PHINode>(I)) O << "  " << cType(I.getType()) << " p_" << names[&I] << ";\n";
        }
        for (auto &B : F) {
            O << bbs[&B] << ":;\n";
            for (const PHINode &P : B.phis()) line(names[&P] + " = p_" + names[&P] + ";");
            for (auto &I : B) inst(I);
        }
        O << "}\n\n";
    }
};

int main(int argc, char **argv) {
    if (argc < 4) die("usage: ir2c in.bc out.c out.json");
    LLVMContext C;
    SMDiagnostic Err;
    auto Mod = parseIRFile(argv[1], Err, C);
    if (!Mod) { Err.print("ir2c", errs()); return 3; }
    M = Mod.get();
    DL = &M->getDataLayout();
    Function *H = M->getFunction("vf_harness");
    if (!H) die("no vf_harness");

    // reachable closure
    std::set<const GlobalValue *> reach;
    std::vector<const GlobalValue *> work{H};
    if (auto *Ctors = M->getNamedGlobal("llvm.global_ctors")) {
        if (auto *CA = dyn_cast<ConstantArray>(Ctors->getInitializer()))
            for (auto &U : CA->operands())
                if (auto *F = dyn_cast<Function>(cast<ConstantStruct>(U)->getOperand(1))) work.push_back(F);
    }
    std::vector<const Function *> ctors;
    for (auto *g : work) if (g != H) ctors.push_back(cast<Function>(g));
    std::set<const Value *> seenC;
    std::function<void(const Value *)> visit = [&](const Value *V) {
        if (auto *GA = dyn_cast<GlobalAlias>(V)) { visit(GA->getAliasee()); return; }
        if (auto *G = dyn_cast<GlobalObject>(V)) { if (!reach.count(G)) work.push_back(G); return; }
        if (auto *K = dyn_cast<Constant>(V)) {
            if (!seenC.insert(K).second) return;
            for (auto &U : K->operands()) visit(U.get());
        }
    };
    while (!work.empty()) {
        const GlobalValue *G = work.back();
        work.pop_back();
        if (!reach.insert(G).second) continue;
        if (auto *F = dyn_cast<Function>(G)) {
            for (auto &B : *F) for (auto &I : B) {
                // references only in operands (personality is ignored)
                if (auto *LP = dyn_cast<LandingPadInst>(&I)) { (void)LP; continue; }
                bool vfcall = false;
                if (auto *CB = dyn_cast<CallBase>(&I))
                    if (auto *CF = CB->getCalledFunction()) vfcall = CF->getName().starts_with("vf_");
                for (auto &U : I.operands()) {
                    string tmp;
                    if (vfcall && isa<Constant>(U.get()) && FnEmitter::constStr(U.get(), tmp)) continue;
                    visit(U.get());
                }
            }
        } else if (auto *GV = dyn_cast<GlobalVariable>(G)) {
            if (GV->hasInitializer()) visit(GV->getInitializer());
        }
    }

    for (auto *G : reach)
        if (auto *F = dyn_cast<Function>(G))
            for (auto &B : *F) for (auto &I : B)
                if (isa<InvokeInst>(I) || isa<LandingPadInst>(I)) usesExc = true;

    string body;
    raw_string_ostream O(body);
    string globals, protos;
    // keep module order
    for (auto &F : *M) {
        if (!reach.count(&F) || F.isIntrinsic()) continue;
        if (F.getName().starts_with("vf_") && F.isDeclaration()) continue;
        protos += FnEmitter::proto(F, false) + ";\n";
    }
    for (auto &GV : M->globals()) {
        if (!reach.count(&GV) || GV.getName().starts_with("llvm.")) continue;
        string t = cType(GV.getValueType());
        globals += (GV.hasInitializer() ? "" : "extern ") + t + " " + gname(&GV) + ";\n";
    }
    string ginit;
    for (auto &GV : M->globals()) {
        if (!reach.count(&GV) || GV.getName().starts_with("llvm.")) continue;
        if (GV.hasInitializer()) {
            if (isa<UndefValue>(GV.getInitializer()) || GV.getInitializer()->isNullValue()) continue; // tentative definition: zero
            ginit += cType(GV.getValueType()) + " " + gname(&GV) + " = " + aggInit(GV.getInitializer()) + ";\n";
        } else if (!GV.getName().starts_with("_ZTV") && !GV.getName().starts_with("_ZTI"))
            unmodelled.insert("extern variable " + string(GV.getName()));
    }
    std::vector<string> defined;
    string encoded;
    unsigned nfun = 0, ninst = 0;
    string ext;
    for (auto &F : *M) {
        if (!reach.count(&F) || F.isIntrinsic()) continue;
        if (F.isDeclaration()) {
            if (F.getName().starts_with("vf_")) continue;
            // libc / runtime functions are modelled in vf_rt.h behind VF_HAVE_<name>
            string nm = sanitize(F.getName());
            string args;
            unsigned i = 0;
            for (auto &A : F.args()) { (void)A; args += (i ? ", a" : "a") + std::to_string(i); ++i; }
            ext += "#ifdef VF_HAVE_" + nm + "\n" + FnEmitter::proto(F, true) + " { " +
                   (F.getReturnType()->isVoidTy() ? "" : "return ") + "VF_IMPL_" + nm + "(" + args + "); }\n#else\n" +
                   FnEmitter::proto(F, true) + " { VF_UNMODELLED(\"" + nm + "\"); " +
                   (F.getReturnType()->isVoidTy() ? "" : cType(F.getReturnType()) + " r_; return r_;") + " }\n#endif\n";
            continue;
        }
        FnEmitter(F, O).emit();
        ++nfun;
        for (auto &B : F) ninst += B.size();
        if (auto *SP = F.getSubprogram()) {
            string file;
            if (!SP->getFilename().starts_with("/")) file = string(SP->getDirectory()) + "/";
            file += string(SP->getFilename());
            string nm = string(SP->getName());
            string esc;
            for (char c : nm) { if (c == '"' || c == '\\') esc += '\\'; esc += c; }
            encoded += (encoded.empty() ? "" : ",\n") + ("{\"name\":\"" + esc + "\",\"symbol\":\"" + string(F.getName()) + "\",\"file\":\"" + file + "\",\"line\":" + std::to_string(SP->getLine()) + "}");
        }
    }
    std::error_code EC;
    raw_fd_ostream Out(argv[2], EC);
    Out << "#include \"vf_rt.h\"\n" << typeDecls << "\n" << globals << "\n" << protos << "\n#include \"vf_models.h\"\n" << ext << "\n" << ginit << "\n" << O.str();
    Out << "int main(void) {\n";
    for (auto *F : ctors) Out << "  " << gname(F) << "();\n";
    Out << "  " << gname(H) << "();\n  VF_END();\n  return 0;\n}\n";
    raw_fd_ostream J(argv[3], EC);
    J << "{\"functions\":" << nfun << ",\"instructions\":" << ninst << ",\"encoded\":[" << encoded << "]}\n";
    return 0;
}
