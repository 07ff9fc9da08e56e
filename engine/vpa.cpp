// vpa - a bit-precise abstract interpreter for LLVM IR.
//
// Forward dataflow over the control-flow graph of one analysis entry: every value is a vector of
// canonical decision diagrams over the entry's input bits; control-flow confluences are joined by
// gating (no path enumeration, no solver); stores are guarded updates of a byte-level memory.
// Obligations (vp_check and, on request, memory safety / undefined behaviour) are decided by
// canonical form: an obligation holds iff its violation condition is the constant 0.
#include "bdd.h"
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Utils/LCSSA.h>
#include <llvm/Transforms/Utils/LoopSimplify.h>
#include <llvm/Transforms/Utils/LowerInvoke.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <cstring>
#include <fstream>

using namespace llvm;
typedef std::vector<B> BV;

static const B UNSET = 0xFFFFFFFFu;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

struct Obj
{
    std::string    name;
    uint64_t       maxSize = 0;
    BV             size;               // 64 bits
    bool           constSize = true;
    std::vector<B> bits;               // 8 per byte, UNSET if never written
    B              allocGuard = T_;
    B              freed      = F_;
    bool           input      = false; // unwritten bytes are fresh inputs
    bool           readOnly   = false;
    bool           heap = false, stack = false;
    unsigned       rank       = 8;
    std::map<BV, BV> opaqueReads;
};

struct Pend
{
    B                                guard = F_;
    std::vector<std::pair<const PHINode*, BV>> phi;
};

struct Violation
{
    std::string category, rule, where, witness, detail, stack;
};

struct Frame
{
    const Function*                        fn;
    DenseMap<const Value*, BV>             vals;
    DenseMap<const BasicBlock*, Pend>      pend;
    B                                      retGuard = F_;
    BV                                     ret;
    bool                                   haveRet = false;
    std::vector<uint32_t>                  allocas;
    BV                                     vaArea;
};

struct FnInfo
{
    std::unique_ptr<DominatorTree> dt;
    std::unique_ptr<LoopInfo>      li;
    // topo order per region: key loop (nullptr = function)
    struct Item { const BasicBlock* bb; const Loop* loop; };
    std::map<const Loop*, std::vector<Item>> order;
};

class Engine
{
  public:
    Module&           M;
    const DataLayout& DL;
    Bdd               bdd;
    std::vector<Obj>  objs; // index 0 = null
    std::map<const GlobalValue*, uint32_t>          globalObj;
    std::map<const Function*, uint32_t>             fnIdx;
    std::vector<const Function*>                    fns;
    std::map<const Function*, FnInfo>               infos;
    B                 assumption = T_;
    bool              noHeap = false, hasHandlers = false;
    uint64_t          maxAlloc = 0;
    bool              flagMem = false, flagUb = false, flagAbort = false;
    std::string       repoPrefix = "/repo/";
    std::map<std::string, size_t>                   obligations; // rule -> evaluations
    size_t            nCheck = 0, nMem = 0, nUb = 0, nInstr = 0, nCalls = 0, nJoins = 0;
    size_t            instrLimit = 400u * 1000 * 1000;
    double            timeLimit  = 600;
    std::vector<Violation>                          violations;
    std::vector<std::string>                        inconclusive;
    std::set<std::string>                           seenViol, seenInc;
    std::set<const Function*>                       visited;
    std::set<std::string>                           unknownCalls;
    std::set<std::string>                           covers, coverAll;
    std::vector<std::pair<std::string, std::vector<uint32_t>>> inputs; // name, var ids LSB first
    std::vector<std::pair<const Instruction*, const Function*>> callStack;
    std::map<std::vector<B>, BV>                    ufMemo;
    std::chrono::steady_clock::time_point           t0 = std::chrono::steady_clock::now();
    uint32_t          seq = 0;
    std::map<std::string,int> nameCount;
    size_t            loopCap = 300000;
    unsigned          maxLoopIter = 0;

    explicit Engine(Module& m)
      : M(m)
      , DL(m.getDataLayout())
    {
        objs.emplace_back();
        objs[0].name = "null";
        objs[0].size = constBV(0, 64);
        fns.push_back(nullptr);
    }

    // ---------------------------------------------------------------- bit vectors
    static BV constBV(uint64_t v, unsigned n)
    {
        BV r(n);
        for (unsigned i = 0; i < n; ++i)
            r[i] = i < 64 && ((v >> i) & 1) ? T_ : F_;
        return r;
    }
    static BV fromAP(const APInt& a)
    {
        BV r(a.getBitWidth());
        for (unsigned i = 0; i < r.size(); ++i)
            r[i] = a[i] ? T_ : F_;
        return r;
    }
    static bool isConst(const BV& v)
    {
        for (B b : v)
            if (b > 1) return false;
        return true;
    }
    static uint64_t constVal(const BV& v)
    {
        uint64_t r = 0;
        for (unsigned i = 0; i < v.size() && i < 64; ++i)
            if (v[i] == T_) r |= uint64_t(1) << i;
        return r;
    }
    static APInt toAP(const BV& v)
    {
        APInt a(unsigned(v.size()), 0);
        for (unsigned i = 0; i < v.size(); ++i)
            if (v[i] == T_) a.setBit(i);
        return a;
    }
    BV freshBV(unsigned n, Bdd::Kind k, unsigned rank = 200)
    {
        BV r(n);
        uint32_t s = seq++;
        for (unsigned i = 0; i < n; ++i)
            r[i] = bdd.var(bdd.newVar((uint64_t(rank) << 48) | (uint64_t(255 - (i & 255)) << 32) | s, k));
        return r;
    }
    BV inputBV(const std::string& name, unsigned n, unsigned rank)
    {
        BV r(n);
        uint32_t s = seq++;
        std::vector<uint32_t> ids(n);
        for (unsigned i = 0; i < n; ++i)
        {
            ids[i] = bdd.newVar((uint64_t(rank) << 48) | (uint64_t(255 - i) << 32) | s, Bdd::Input);
            r[i]   = bdd.var(ids[i]);
        }
        std::string nm = name;
        int         c  = nameCount[name]++;
        if (c) nm += "#" + std::to_string(c);
        inputs.push_back({ nm, ids });
        return r;
    }
    BV bvIte(B g, const BV& a, const BV& b)
    {
        if (g == T_) return a;
        if (g == F_) return b;
        BV r(a.size());
        for (size_t i = 0; i < a.size(); ++i) r[i] = bdd.ite(g, a[i], b[i]);
        return r;
    }
    BV bvNot(const BV& a)
    {
        BV r(a);
        for (auto& b : r) b ^= 1;
        return r;
    }
    BV addc(const BV& a, const BV& b, B c, B* cout = nullptr, B* cprev = nullptr)
    {
        BV r(a.size());
        B  prev = c;
        for (size_t i = 0; i < a.size(); ++i)
        {
            B x  = bdd.Xor(a[i], b[i]);
            r[i] = bdd.Xor(x, c);
            prev = c;
            c    = bdd.ite(x, c, a[i]);
        }
        if (cout) *cout = c;
        if (cprev) *cprev = prev;
        return r;
    }
    BV add(const BV& a, const BV& b) { return addc(a, b, F_); }
    BV sub(const BV& a, const BV& b) { return addc(a, bvNot(b), T_); }
    B  ult(const BV& a, const BV& b) // a < b
    {
        B c = F_;
        for (size_t i = 0; i < a.size(); ++i)
        {
            B x = bdd.Xor(a[i], b[i]);
            c   = bdd.ite(x, b[i], c);
        }
        return c;
    }
    B slt(const BV& a, const BV& b)
    {
        BV x = a, y = b;
        x.back() ^= 1;
        y.back() ^= 1;
        return ult(x, y);
    }
    // IEEE comparison on the bit pattern (sign, magnitude), exact including NaN and signed zero
    B fcmp(const BV& a, const BV& b, unsigned mant, CmpInst::Predicate p)
    {
        auto nan = [&](const BV& x) {
            B e = T_, m = F_;
            for (size_t i = x.size() - 1; i-- > mant;) e = bdd.And(e, x[i]);
            for (size_t i = mant; i-- > 0;) m = bdd.Or(m, x[i]);
            return bdd.And(e, m);
        };
        auto zero = [&](const BV& x) {
            B z = T_;
            for (size_t i = x.size() - 1; i-- > 0;) z = bdd.And(z, Bdd::neg(x[i]));
            return z;
        };
        B  un = bdd.Or(nan(a), nan(b)), zz = bdd.And(zero(a), zero(b));
        BV am(a.begin(), a.end() - 1), bm(b.begin(), b.end() - 1);
        B  sa = a.back(), sb = b.back();
        B  lt = bdd.ite(sa, bdd.ite(sb, ult(bm, am), T_), bdd.ite(sb, F_, ult(am, bm)));
        B  e  = bdd.Or(eq(a, b), zz);
        lt    = bdd.And(lt, Bdd::neg(zz));
        B gt  = bdd.And(Bdd::neg(lt), Bdd::neg(e));
        B r   = F_;
        unsigned k = unsigned(p); // FCMP encoding: bit 0 equal, bit 1 greater, bit 2 less, bit 3 unordered
        B o = F_;
        if (k & 1) o = bdd.Or(o, e);
        if (k & 2) o = bdd.Or(o, gt);
        if (k & 4) o = bdd.Or(o, lt);
        r = bdd.ite(un, (k & 8) ? T_ : F_, o);
        return r;
    }
    B eq(const BV& a, const BV& b)
    {
        B r = T_;
        for (size_t i = a.size(); i-- > 0;)
        {
            r = bdd.And(bdd.Xnor(a[i], b[i]), r);
            if (r == F_) break;
        }
        return r;
    }
    BV mul(const BV& a, const BV& b)
    {
        unsigned n = unsigned(a.size());
        const BV *x = &a, *y = &b;
        if (isConst(a)) std::swap(x, y);
        BV r = constBV(0, n);
        for (unsigned i = 0; i < n; ++i)
        {
            if ((*y)[i] == F_) continue;
            BV t(n, F_);
            for (unsigned j = i; j < n; ++j) t[j] = bdd.And((*x)[j - i], (*y)[i]);
            r = add(r, t);
        }
        return r;
    }
    void udivrem(const BV& a, const BV& b, BV& q, BV& r)
    {
        unsigned n = unsigned(a.size());
        if (isConst(b))
        {
            APInt d = toAP(b);
            if (d.isPowerOf2())
            {
                unsigned k = d.logBase2();
                q = constBV(0, n);
                r = constBV(0, n);
                for (unsigned i = k; i < n; ++i) q[i - k] = a[i];
                for (unsigned i = 0; i < k; ++i) r[i] = a[i];
                return;
            }
        }
        q = constBV(0, n);
        r = constBV(0, n);
        for (unsigned i = n; i-- > 0;)
        {
            B topbit = r.back();
            for (unsigned j = n - 1; j > 0; --j) r[j] = r[j - 1];
            r[0] = a[i];
            B ge = bdd.Or(topbit, Bdd::neg(ult(r, b)));
            if (ge != F_)
            {
                BV d = sub(r, b);
                r    = bvIte(ge, d, r);
            }
            q[i] = ge;
        }
    }
    BV negBV(const BV& a) { return addc(bvNot(a), constBV(0, unsigned(a.size())), T_); }
    void sdivrem(const BV& a, const BV& b, BV& q, BV& r)
    {
        B  sa = a.back(), sb = b.back();
        BV ua = bvIte(sa, negBV(a), a), ub = bvIte(sb, negBV(b), b);
        udivrem(ua, ub, q, r);
        q = bvIte(bdd.Xor(sa, sb), negBV(q), q);
        r = bvIte(sa, negBV(r), r);
    }
    enum Sh { SHL, LSHR, ASHR };
    BV shift(const BV& a, const BV& s, Sh k)
    {
        unsigned n   = unsigned(a.size());
        B        fil = k == ASHR ? a.back() : F_;
        if (isConst(s))
        {
            uint64_t m = constVal(s);
            BV       r(n, fil);
            if (m >= n) return r;
            for (unsigned i = 0; i < n; ++i)
            {
                if (k == SHL) r[i] = i >= m ? a[i - m] : F_;
                else r[i] = i + m < n ? a[i + m] : fil;
            }
            return r;
        }
        BV r = a;
        B  big = F_;
        for (unsigned b = 0; b < s.size(); ++b)
        {
            if ((uint64_t(1) << b) >= n || b > 20) { big = bdd.Or(big, s[b]); continue; }
            unsigned m = 1u << b;
            BV t(n, fil);
            for (unsigned i = 0; i < n; ++i)
            {
                if (k == SHL) t[i] = i >= m ? r[i - m] : F_;
                else t[i] = i + m < n ? r[i + m] : fil;
            }
            r = bvIte(s[b], t, r);
        }
        return bvIte(big, BV(n, fil), r);
    }
    BV ext(const BV& a, unsigned n, bool sign)
    {
        BV r(a);
        B  f = sign && !a.empty() ? a.back() : F_;
        r.resize(n, f);
        return r;
    }

    // ---------------------------------------------------------------- types
    unsigned width(Type* t)
    {
        if (auto* it = dyn_cast<IntegerType>(t)) return it->getBitWidth();
        if (t->isPointerTy()) return 64;
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        if (t->isX86_FP80Ty()) return 80;
        if (t->isHalfTy()) return 16;
        if (t->isFP128Ty()) return 128;
        if (t->isVoidTy()) return 0;
        if (auto* st = dyn_cast<StructType>(t))
        {
            unsigned w = 0;
            for (auto* e : st->elements()) w += width(e);
            return w;
        }
        if (auto* at = dyn_cast<ArrayType>(t)) return unsigned(at->getNumElements()) * width(at->getElementType());
        if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements() * width(vt->getElementType());
        throw Unsupported("type");
    }
    // enumerate scalar leaves: (bit offset in BV, byte offset in memory, width)
    void leaves(Type* t, unsigned& bitOff, uint64_t byteOff, const std::function<void(unsigned, uint64_t, unsigned)>& cb)
    {
        if (auto* st = dyn_cast<StructType>(t))
        {
            const StructLayout* sl = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i)
                leaves(st->getElementType(i), bitOff, byteOff + sl->getElementOffset(i), cb);
            return;
        }
        if (auto* at = dyn_cast<ArrayType>(t))
        {
            uint64_t es = DL.getTypeAllocSize(at->getElementType());
            for (uint64_t i = 0; i < at->getNumElements(); ++i) leaves(at->getElementType(), bitOff, byteOff + i * es, cb);
            return;
        }
        if (auto* vt = dyn_cast<FixedVectorType>(t))
        {
            uint64_t es = DL.getTypeAllocSize(vt->getElementType());
            for (uint64_t i = 0; i < vt->getNumElements(); ++i) leaves(vt->getElementType(), bitOff, byteOff + i * es, cb);
            return;
        }
        unsigned w = width(t);
        cb(bitOff, byteOff, w);
        bitOff += w;
    }

    // ---------------------------------------------------------------- objects
    uint32_t newObj(const std::string& name, uint64_t size, B g)
    {
        Obj o;
        o.name       = name;
        o.maxSize    = size;
        o.size       = constBV(size, 64);
        o.allocGuard = g;
        o.bits.assign(size * 8, UNSET);
        objs.push_back(std::move(o));
        return uint32_t(objs.size() - 1);
    }
    static BV addrOf(uint32_t obj, uint64_t off = 0) { return constBV((uint64_t(obj) << 32) + off, 64); }
    static const uint32_t FN_BASE = 0x7F000000u;

    uint32_t globalObject(const GlobalVariable* gv)
    {
        auto it = globalObj.find(gv);
        if (it != globalObj.end()) return it->second;
        uint64_t sz = gv->getValueType()->isSized() ? DL.getTypeAllocSize(gv->getValueType()).getFixedValue() : 64;
        uint32_t id = newObj(std::string("global ") + demangle(gv->getName().str()), sz, T_);
        globalObj[gv] = id;
        if (gv->hasInitializer())
        {
            for (auto& b : objs[id].bits) b = F_;
            initConst(id, 0, gv->getInitializer());
            objs[id].readOnly = gv->isConstant();
        }
        return id;
    }
    void initConst(uint32_t id, uint64_t off, const Constant* c)
    {
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
        if (auto* cds = dyn_cast<ConstantDataSequential>(c))
        {
            uint64_t es = DL.getTypeAllocSize(cds->getElementType());
            for (unsigned i = 0; i < cds->getNumElements(); ++i) initConst(id, off + i * es, cds->getElementAsConstant(i));
            return;
        }
        if (isa<ConstantArray>(c) || isa<ConstantStruct>(c) || isa<ConstantVector>(c))
        {
            for (unsigned i = 0; i < c->getNumOperands(); ++i)
            {
                uint64_t o = off;
                if (auto* st = dyn_cast<StructType>(c->getType())) o += DL.getStructLayout(st)->getElementOffset(i);
                else o += i * DL.getTypeAllocSize(cast<Constant>(c->getOperand(i))->getType());
                initConst(id, o, cast<Constant>(c->getOperand(i)));
            }
            return;
        }
        BV v = constant(c);
        for (size_t i = 0; i < v.size(); ++i)
            if (off * 8 + i < objs[id].bits.size()) objs[id].bits[off * 8 + i] = v[i];
    }
    uint32_t fnId(const Function* f)
    {
        auto it = fnIdx.find(f);
        if (it != fnIdx.end()) return it->second;
        fns.push_back(f);
        return fnIdx[f] = uint32_t(fns.size() - 1);
    }
    BV constant(const Constant* c)
    {
        Type* t = c->getType();
        if (auto* ci = dyn_cast<ConstantInt>(c)) return fromAP(ci->getValue());
        if (auto* cf = dyn_cast<ConstantFP>(c)) return fromAP(cf->getValueAPF().bitcastToAPInt());
        if (isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) return constBV(0, width(t));
        if (isa<UndefValue>(c)) return freshBV(width(t), Bdd::Uninit);
        if (auto* f = dyn_cast<Function>(c)) return constBV(uint64_t(FN_BASE + fnId(f)) << 32, 64);
        if (auto* ga = dyn_cast<GlobalAlias>(c)) return constant(ga->getAliasee());
        if (auto* gv = dyn_cast<GlobalVariable>(c)) return addrOf(globalObject(gv));
        if (isa<ConstantDataSequential>(c) || isa<ConstantArray>(c) || isa<ConstantStruct>(c) || isa<ConstantVector>(c))
        {
            BV r;
            if (auto* cds = dyn_cast<ConstantDataSequential>(c))
                for (unsigned i = 0; i < cds->getNumElements(); ++i)
                {
                    BV e = constant(cds->getElementAsConstant(i));
                    r.insert(r.end(), e.begin(), e.end());
                }
            else
                for (auto& op : c->operands())
                {
                    BV e = constant(cast<Constant>(op));
                    r.insert(r.end(), e.begin(), e.end());
                }
            return r;
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c))
        {
            switch (ce->getOpcode())
            {
            case Instruction::GetElementPtr: {
                auto* gep = cast<GEPOperator>(ce);
                APInt off(64, 0);
                if (!gep->accumulateConstantOffset(DL, off)) throw Unsupported("const gep");
                return add(constant(cast<Constant>(gep->getPointerOperand())), fromAP(off));
            }
            case Instruction::BitCast:
            case Instruction::AddrSpaceCast: return constant(ce->getOperand(0));
            case Instruction::PtrToInt:
            case Instruction::IntToPtr: return ext(constant(ce->getOperand(0)), width(t), false);
            case Instruction::Trunc: { BV v = constant(ce->getOperand(0)); v.resize(width(t)); return v; }
            case Instruction::Add: return add(constant(ce->getOperand(0)), constant(ce->getOperand(1)));
            case Instruction::Sub: return sub(constant(ce->getOperand(0)), constant(ce->getOperand(1)));
            default: throw Unsupported(std::string("constexpr ") + ce->getOpcodeName());
            }
        }
        throw Unsupported("constant");
    }

    // ---------------------------------------------------------------- reporting
    std::string locOf(const Instruction* I)
    {
        if (I)
            if (const DILocation* dl = I->getDebugLoc().get())
            {
                std::string f = dl->getFilename().str();
                if (!f.empty() && f[0] != '/') f = dl->getDirectory().str() + "/" + f;
                return f + ":" + std::to_string(dl->getLine());
            }
        return "?";
    }
    std::string fnName(const Function* f) { return demangle(f->getName().str()); }
    std::string stackText(const Instruction* I)
    {
        std::string s = locOf(I) + (I ? " in " + fnName(I->getFunction()) : "");
        int n = 0;
        for (size_t i = callStack.size(); i-- > 0 && n < 12; ++n)
            if (callStack[i].first) s += " <- " + locOf(callStack[i].first) + " in " + fnName(callStack[i].first->getFunction());
        return s;
    }
    std::string repoSite(const Instruction* I)
    {
        auto inRepo = [&](const Instruction* x) { return x && locOf(x).rfind(repoPrefix, 0) == 0; };
        if (inRepo(I)) return locOf(I) + " in " + fnName(I->getFunction());
        for (size_t i = callStack.size(); i-- > 0;)
            if (inRepo(callStack[i].first)) return locOf(callStack[i].first) + " in " + fnName(callStack[i].first->getFunction());
        return "";
    }
    std::string witnessText(B v, std::unordered_map<uint32_t, bool>& a)
    {
        bdd.pick(v, a);
        std::string s;
        for (auto& in : inputs)
        {
            uint64_t x = 0;
            bool     any = false;
            for (size_t i = 0; i < in.second.size() && i < 64; ++i)
            {
                auto it = a.find(in.second[i]);
                if (it != a.end()) any = true;
                if (it != a.end() && it->second) x |= uint64_t(1) << i;
            }
            if (!any && inputs.size() > 24) continue;
            char buf[64];
            snprintf(buf, sizeof buf, "=0x%llx", (unsigned long long) x);
            if (!s.empty()) s += " ";
            s += in.first + buf + (any ? "" : "(any)");
        }
        return s;
    }
    // cond must hold under guard g. returns true if discharged.
    bool oblige(const std::string& category, const std::string& rule, B g, B cond, const Instruction* I,
                const std::vector<std::pair<std::string, BV>>& show = {}, const std::string& where = "")
    {
        B v = bdd.And(bdd.And(g, Bdd::neg(cond)), assumption);
        if (v == F_) return true;
        B d = v;
        if (bdd.supportHas(v, Bdd::Unknown)) d = bdd.forallUnknown(v);
        std::string site = where.empty() ? repoSite(I) : where;
        std::string key  = category + "|" + rule + "|" + (category == "check" ? "" : site);
        if (d == F_)
        {
            if (seenInc.insert(key).second) inconclusive.push_back(category + ": " + rule + (site.empty() ? "" : " at " + site));
            return false;
        }
        if (!seenViol.insert(key).second) return false;
        Violation x;
        x.category = category;
        x.rule     = rule;
        x.where    = site;
        std::unordered_map<uint32_t, bool> a;
        x.witness = witnessText(d, a);
        for (auto& s : show)
        {
            uint64_t val = 0;
            for (size_t i = 0; i < s.second.size() && i < 64; ++i)
                if (bdd.eval(s.second[i], a)) val |= uint64_t(1) << i;
            char buf[64];
            snprintf(buf, sizeof buf, "=0x%llx ", (unsigned long long) val);
            x.detail += s.first + buf;
        }
        x.stack = stackText(I);
        violations.push_back(x);
        return false;
    }

    // ---------------------------------------------------------------- memory
    void enumBits(const BV& v, unsigned lo, unsigned hi, B g, uint64_t acc, size_t& budget, const std::function<void(uint64_t, B)>& cb)
    {
        // enumerate feasible values of bits [lo,hi) from the top
        while (hi > lo && v[hi - 1] < 2)
        {
            --hi;
            if (v[hi] == T_) acc |= uint64_t(1) << (hi - lo);
        }
        if (hi == lo)
        {
            if (!budget) throw Unsupported("too many address cases");
            --budget;
            cb(acc, g);
            return;
        }
        --hi;
        B g1 = bdd.And(g, v[hi]);
        if (bdd.And(g1, assumption) != F_) enumBits(v, lo, hi, g1, acc | (uint64_t(1) << (hi - lo)), budget, cb);
        B g0 = bdd.And(g, Bdd::neg(v[hi]));
        if (bdd.And(g0, assumption) != F_) enumBits(v, lo, hi, g0, acc, budget, cb);
    }
    struct Access { uint32_t obj; B g; BV off; };
    std::vector<Access> resolve(const BV& p, uint64_t n, B g, const Instruction* I, bool write)
    {
        std::vector<Access> out;
        size_t budget = 256;
        ++nMem;
        enumBits(p, 32, 64, g, 0, budget, [&](uint64_t id, B gg) {
            BV off(p.begin(), p.begin() + 32);
            if (id == 0 || id >= objs.size())
            {
                if (flagMem)
                    oblige("mem", std::string(write ? "write" : "read") + (id == 0 ? " through null or invalid pointer" : " through wild pointer"), gg, F_, I);
                return;
            }
            Obj& o  = objs[id];
            B    ok = T_;
            if (o.constSize && isConst(off))
            {
                if (constVal(off) + n > o.maxSize) ok = F_;
            }
            else
            {
                BV e = add(ext(off, 64, false), constBV(n, 64));
                ok   = Bdd::neg(ult(o.size, e));
            }
            if (ok != T_)
            {
                if (flagMem)
                    oblige("mem", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + (o.heap ? "heap object" : o.stack ? "stack object" : "object") + " '" + o.name + "'", gg, ok, I,
                           { { "offset", off }, { "size", o.size } });
                gg = bdd.And(gg, ok);
            }
            if (o.freed != F_)
            {
                if (flagMem) oblige("mem", std::string(write ? "write" : "read") + " of object '" + o.name + "' after its lifetime ended", gg, Bdd::neg(o.freed), I);
            }
            if (write && o.readOnly && flagMem) oblige("mem", "write to constant object '" + o.name + "'", gg, F_, I);
            if (bdd.And(gg, assumption) == F_) return;
            out.push_back({ uint32_t(id), gg, off });
        });
        return out;
    }
    B cell(uint32_t id, uint64_t bit)
    {
        Obj& o = objs[id];
        B    b = o.bits[bit];
        if (b != UNSET) return b;
        uint64_t byte = bit / 8;
        if (o.input)
        {
            BV v = inputBV(o.name + "[" + std::to_string(byte) + "]", 8, o.rank);
            for (unsigned i = 0; i < 8; ++i)
                if (objs[id].bits[byte * 8 + i] == UNSET) objs[id].bits[byte * 8 + i] = v[i];
        }
        else
        {
            BV v = freshBV(8, Bdd::Uninit);
            for (unsigned i = 0; i < 8; ++i)
                if (objs[id].bits[byte * 8 + i] == UNSET) objs[id].bits[byte * 8 + i] = v[i];
        }
        return objs[id].bits[bit];
    }
    static const size_t OFFCASES = 6000;
    BV loadBytes(const BV& p, uint64_t n, B g, const Instruction* I)
    {
        auto acc = resolve(p, n, g, I, false);
        BV   r;
        bool first = true;
        for (auto& a : acc)
        {
            BV v;
            if (isConst(a.off))
            {
                uint64_t o = constVal(a.off);
                v.resize(n * 8);
                for (uint64_t i = 0; i < n * 8; ++i) v[i] = cell(a.obj, o * 8 + i);
            }
            else
            {
                size_t budget = OFFCASES;
                bool   f2     = true;
                try
                {
                    enumBits(a.off, 0, 32, a.g, 0, budget, [&](uint64_t o, B gg) {
                        if (o + n > objs[a.obj].maxSize) return;
                        BV c(n * 8);
                        for (uint64_t i = 0; i < n * 8; ++i) c[i] = cell(a.obj, o * 8 + i);
                        if (f2) { v = c; f2 = false; }
                        else v = bvIte(gg, c, v);
                    });
                }
                catch (Unsupported&)
                {
                    BV key = a.off;
                    key.push_back(B(n));
                    auto& m  = objs[a.obj].opaqueReads;
                    auto  it = m.find(key);
                    if (it == m.end()) it = m.emplace(key, freshBV(unsigned(n * 8), Bdd::Unknown)).first;
                    v  = it->second;
                    f2 = false;
                }
                if (f2) continue;
            }
            if (first) { r = v; first = false; }
            else r = bvIte(a.g, v, r);
        }
        if (first) r = freshBV(unsigned(n * 8), Bdd::Unknown);
        B care = bdd.And(g, assumption);
        if (care != T_ && care != F_)
            for (B& b : r) b = bdd.restrictTo(b, care);
        return r;
    }
    void putBits(uint32_t id, uint64_t bit, const BV& v, B g)
    {
        bool full = g == T_ || bdd.And(objs[id].allocGuard, bdd.And(assumption, Bdd::neg(g))) == F_;
        for (size_t i = 0; i < v.size(); ++i)
        {
            if (full) objs[id].bits[bit + i] = v[i];
            else { B old = cell(id, bit + i); objs[id].bits[bit + i] = bdd.ite(g, v[i], old); }
        }
    }
    void storeBytes(const BV& p, const BV& v, B g, const Instruction* I)
    {
        uint64_t n = v.size() / 8;
        auto acc = resolve(p, n, g, I, true);
        for (auto& a : acc)
        {
            if (!objs[a.obj].opaqueReads.empty()) objs[a.obj].opaqueReads.clear();
            if (isConst(a.off)) { putBits(a.obj, constVal(a.off) * 8, v, a.g); continue; }
            size_t budget = OFFCASES;
            enumBits(a.off, 0, 32, a.g, 0, budget, [&](uint64_t o, B gg) {
                if (o + n > objs[a.obj].maxSize) return;
                putBits(a.obj, o * 8, v, gg);
            });
        }
    }
    BV load(Type* t, const BV& p, B g, const Instruction* I)
    {
        uint64_t n   = DL.getTypeStoreSize(t).getFixedValue();
        BV       raw = loadBytes(p, n, g, I);
        BV       r;
        unsigned bo = 0;
        leaves(t, bo, 0, [&](unsigned, uint64_t by, unsigned w) {
            for (unsigned i = 0; i < w; ++i) r.push_back(raw[by * 8 + i]);
        });
        return r;
    }
    void store(Type* t, const BV& p, const BV& v, B g, const Instruction* I)
    {
        if (t->isSingleValueType() && !t->isVectorTy())
        {
            uint64_t n = DL.getTypeStoreSize(t).getFixedValue();
            storeBytes(p, ext(v, unsigned(n * 8), false), g, I);
            return;
        }
        unsigned bo = 0;
        leaves(t, bo, 0, [&](unsigned b, uint64_t by, unsigned w) {
            unsigned nb = (w + 7) / 8 * 8;
            BV       x(v.begin() + b, v.begin() + b + w);
            x.resize(nb, F_);
            storeBytes(add(p, constBV(by, 64)), x, g, I);
        });
    }
    // largest feasible value of v under g (unsigned)
    uint64_t maxVal(const BV& v, B g)
    {
        uint64_t r = 0;
        g          = bdd.And(g, assumption);
        for (size_t i = v.size(); i-- > 0;)
        {
            B h = bdd.And(g, v[i]);
            if (h != F_) { g = h; r |= uint64_t(1) << i; }
        }
        return r;
    }
    void copyMem(const BV& d, const BV& s, const BV& n, B g, const Instruction* I)
    {
        if (isConst(n))
        {
            uint64_t k = constVal(n);
            if (k == 0) return;
            if (k > 1u << 20) throw Unsupported("huge memcpy");
            BV v = loadBytes(s, k, g, I);
            storeBytes(d, v, g, I);
            return;
        }
        uint64_t m = maxVal(n, g);
        if (m > 4096) throw Unsupported("unbounded memcpy");
        std::vector<BV> tmp(m);
        std::vector<B>  gs(m);
        for (uint64_t i = 0; i < m; ++i)
        {
            gs[i] = bdd.And(g, ult(constBV(i, unsigned(n.size())), n));
            if (bdd.And(gs[i], assumption) == F_) continue;
            tmp[i] = loadBytes(add(s, constBV(i, 64)), 1, gs[i], I);
        }
        for (uint64_t i = 0; i < m; ++i)
            if (!tmp[i].empty()) storeBytes(add(d, constBV(i, 64)), tmp[i], gs[i], I);
    }
    void setMem(const BV& d, const BV& val, const BV& n, B g, const Instruction* I)
    {
        BV b(val.begin(), val.begin() + 8);
        uint64_t m = isConst(n) ? constVal(n) : maxVal(n, g);
        if (m > (isConst(n) ? 1u << 20 : 1u << 16)) throw Unsupported("unbounded memset");
        for (uint64_t i = 0; i < m; ++i)
        {
            B gi = isConst(n) ? g : bdd.And(g, ult(constBV(i, unsigned(n.size())), n));
            if (bdd.And(gi, assumption) == F_) continue;
            storeBytes(add(d, constBV(i, 64)), b, gi, I);
        }
    }
    std::string constString(const BV& p)
    {
        if (!isConst(p)) throw Unsupported("non-constant string argument");
        uint64_t a  = constVal(p);
        uint32_t id = uint32_t(a >> 32);
        uint64_t o  = a & 0xFFFFFFFFu;
        std::string s;
        while (id < objs.size() && o < objs[id].maxSize)
        {
            unsigned c = 0;
            for (unsigned i = 0; i < 8; ++i)
                if (cell(id, o * 8 + i) == T_) c |= 1u << i;
            if (!c) break;
            s += char(c);
            ++o;
        }
        return s;
    }

    // ---------------------------------------------------------------- values
    BV get(Frame& fr, const Value* v)
    {
        if (auto* c = dyn_cast<Constant>(v)) return constant(c);
        auto it = fr.vals.find(v);
        if (it != fr.vals.end()) return it->second;
        // value from a block whose guard is 0: don't care
        return freshBV(width(v->getType()), Bdd::Unknown);
    }
    BV uf(unsigned tag, const std::vector<BV>& args, unsigned w)
    {
        std::vector<B> key{ tag, w };
        for (auto& a : args)
        {
            key.push_back(0xFFFFFFF0u);
            key.insert(key.end(), a.begin(), a.end());
        }
        auto it = ufMemo.find(key);
        if (it == ufMemo.end()) it = ufMemo.emplace(key, freshBV(w, Bdd::Unknown)).first;
        return it->second;
    }

    // product of two unknowns: sign and magnitude, the product of the magnitudes stays uninterpreted (but commutative, zero and width are known)
    BV product(const BV& a, const BV& b)
    {
        unsigned n   = unsigned(a.size());
        auto     mag = [&](const BV& v) { BV m = bvIte(v.back(), negBV(v), v); while (m.size() > 1 && m.back() == F_) m.pop_back(); return m; };
        BV       x = mag(a), y = mag(b);
        if (y < x) std::swap(x, y);
        unsigned w = std::min<unsigned>(n, unsigned(x.size() + y.size()));
        BV       m = uf(Instruction::Mul, { x, y }, w);
        m          = bvIte(bdd.And(orAll(x, 0, x.size()), orAll(y, 0, y.size())), m, BV(w, F_));
        m          = ext(m, n, false);
        return bvIte(bdd.Xor(a.back(), b.back()), negBV(m), m);
    }

    // ---------------------------------------------------------------- floating point, bit precise (IEEE 754 binary32 / binary64, round to nearest even)
    struct Fp
    {
        B  s, nan, inf, zero;
        BV e; // exponent of the leading one, two's complement
        BV m; // significand, leading one on top (finite, not zero)
    };
    static const unsigned EW = 16;
    static unsigned mantOf(Type* t) { return t->isFloatTy() ? 23 : 52; }
    static int      biasOf(unsigned mant) { return mant == 23 ? 127 : 1023; }
    BV              signedConst(int v) { return constBV(uint64_t(int64_t(v)) & ((1u << EW) - 1), EW); }
    B               orAll(const BV& v, size_t from, size_t to)
    {
        B r = F_;
        for (size_t i = from; i < to; ++i) r = bdd.Or(r, v[i]);
        return r;
    }
    // moves the leading one to the top; returns the distance
    BV normalise(BV& m)
    {
        BV       n = constBV(0, EW);
        unsigned w = unsigned(m.size()), k = 1;
        while (k * 2 < w) k *= 2;
        for (; k; k /= 2)
        {
            B  z = Bdd::neg(orAll(m, w - k, w));
            BV t(w, F_);
            for (unsigned i = k; i < w; ++i) t[i] = m[i - k];
            m = bvIte(z, t, m);
            n = bvIte(z, add(n, constBV(k, EW)), n);
        }
        return n;
    }
    // shift right by a symbolic distance, keeping track of what is lost
    BV shiftRight(BV m, const BV& by, B& lost)
    {
        unsigned w = unsigned(m.size());
        for (unsigned b = 0; b < by.size(); ++b)
        {
            if (by[b] == F_) continue;
            unsigned k = b < 12 ? 1u << b : w;
            BV       t(w, F_);
            for (unsigned i = 0; i + k < w; ++i) t[i] = m[i + k];
            lost = bdd.Or(lost, bdd.And(by[b], orAll(m, 0, std::min(k, w))));
            m    = bvIte(by[b], t, m);
        }
        return m;
    }
    Fp unpack(const BV& a, unsigned mant)
    {
        Fp       r;
        unsigned eb = unsigned(a.size()) - 1 - mant;
        BV       ef(a.begin() + mant, a.end() - 1);
        B        ones = T_, some = F_, frac = orAll(a, 0, mant);
        for (B x : ef) { ones = bdd.And(ones, x); some = bdd.Or(some, x); }
        r.s    = a.back();
        r.nan  = bdd.And(ones, frac);
        r.inf  = bdd.And(ones, Bdd::neg(frac));
        r.zero = bdd.And(Bdd::neg(some), Bdd::neg(frac));
        r.m    = BV(a.begin(), a.begin() + mant);
        r.m.push_back(T_);
        (void) eb;
        r.e = sub(ext(ef, EW, false), signedConst(biasOf(mant)));
        B den = bdd.And(Bdd::neg(some), frac);
        if (den != F_)
        {
            BV m(a.begin(), a.begin() + mant);
            m.push_back(F_);
            BV n = normalise(m);
            r.m  = bvIte(den, m, r.m);
            r.e  = bvIte(den, sub(signedConst(1 - biasOf(mant)), n), r.e);
        }
        return r;
    }
    BV pack(const Fp& x, B sticky, unsigned mant)
    {
        int      bias = biasOf(mant);
        unsigned p = mant + 1, total = mant == 23 ? 32 : 64;
        BV       m = x.m;
        if (m.size() < p + 2) m.insert(m.begin(), p + 2 - m.size(), F_);
        // p significant bits, one rounding bit, the rest is sticky
        size_t low = m.size() - p - 1;
        sticky     = bdd.Or(sticky, orAll(m, 0, low));
        m          = BV(m.begin() + low, m.end()); // p + 1 bits
        B den = slt(x.e, signedConst(1 - bias));
        den   = bdd.And(den, Bdd::neg(bdd.Or(x.zero, bdd.Or(x.inf, x.nan))));
        BV ef = add(x.e, signedConst(bias));
        if (den != F_)
        {
            BV dist = sub(signedConst(1 - bias), x.e);
            B  lost = F_;
            BV d    = shiftRight(m, dist, lost);
            m       = bvIte(den, d, m);
            sticky  = bdd.Or(sticky, bdd.And(den, lost));
            ef      = bvIte(den, constBV(0, EW), ef);
        }
        B  up = bdd.And(m[0], bdd.Or(sticky, m[1]));
        BV r(m.begin() + 1, m.begin() + 1 + mant); // without the leading one
        for (unsigned i = 0; i < total - 1 - mant; ++i) r.push_back(ef[i]);
        r = addc(r, BV(r.size(), F_), up);
        // too large
        B over = bdd.And(Bdd::neg(den), slt(signedConst(bias), x.e));
        BV inf(total - 1, F_);
        for (unsigned i = mant; i < total - 1; ++i) inf[i] = T_;
        r = bvIte(bdd.Or(x.inf, over), inf, r);
        r = bvIte(x.zero, BV(total - 1, F_), r);
        BV nan = inf;
        nan[mant - 1] = T_;
        r = bvIte(x.nan, nan, r);
        r.push_back(x.s);
        return r;
    }
    Fp fromInt(BV v, bool sgn)
    {
        Fp r;
        r.s = sgn ? v.back() : F_;
        if (sgn) v = bvIte(v.back(), negBV(v), v);
        r.nan = r.inf = F_;
        r.zero        = Bdd::neg(orAll(v, 0, v.size()));
        unsigned w    = unsigned(v.size());
        BV       n    = normalise(v);
        r.e           = sub(signedConst(int(w) - 1), n);
        r.m           = v;
        return r;
    }
    BV toInt(const Fp& x, unsigned n, bool sgn, B& inRange)
    {
        unsigned p   = unsigned(x.m.size());
        BV       w   = ext(x.m, n + p, false);
        B        big = bdd.And(Bdd::neg(x.e.back()), Bdd::neg(slt(x.e, signedConst(int(n)))));
        B        neg = x.e.back();
        w = shift(w, BV(x.e.begin(), x.e.begin() + 8), SHL);
        BV r(w.begin() + (p - 1), w.begin() + (p - 1) + n);
        B  none = bdd.Or(x.zero, neg);
        r       = bvIte(none, BV(n, F_), r);
        B any   = orAll(r, 0, n);
        B fin   = bdd.And(Bdd::neg(x.nan), Bdd::neg(x.inf));
        big     = bdd.And(big, Bdd::neg(none));
        inRange = bdd.And(fin, Bdd::neg(big));
        if (sgn)
        {
            B low = orAll(r, 0, n - 1); // magnitude 2^(n-1) is in range for negative values only
            inRange = bdd.And(inRange, bdd.Or(Bdd::neg(r[n - 1]), bdd.And(x.s, Bdd::neg(low))));
            r = bvIte(x.s, negBV(r), r);
        }
        else inRange = bdd.And(inRange, bdd.Or(Bdd::neg(x.s), Bdd::neg(any)));
        return r;
    }
    BV fpMul(const BV& a, const BV& b, unsigned mant)
    {
        Fp x = unpack(a, mant), y = unpack(b, mant), r;
        r.s    = bdd.Xor(x.s, y.s);
        r.nan  = bdd.Or(bdd.Or(x.nan, y.nan), bdd.Or(bdd.And(x.inf, y.zero), bdd.And(x.zero, y.inf)));
        r.inf  = bdd.And(bdd.Or(x.inf, y.inf), Bdd::neg(r.nan));
        r.zero = bdd.And(bdd.Or(x.zero, y.zero), Bdd::neg(r.nan));
        BV xm = x.m, ym = y.m;
        while (ym.size() > 1 && ym[0] == F_) ym.erase(ym.begin());
        while (xm.size() > 1 && xm[0] == F_) xm.erase(xm.begin());
        unsigned w = unsigned(xm.size() + ym.size());
        r.m  = mul(ext(xm, w, false), ext(ym, w, false));
        r.e  = add(x.e, y.e);
        // product of two leading ones: the top bit or the one below it
        B t = r.m.back();
        BV up(w, F_);
        for (unsigned i = 1; i < w; ++i) up[i] = r.m[i - 1];
        r.e = bvIte(t, add(r.e, signedConst(1)), r.e);
        r.m = bvIte(t, r.m, up);
        return pack(r, F_, mant);
    }
    BV fpAdd(const BV& a0, const BV& b0, unsigned mant)
    {
        BV am(a0.begin(), a0.end() - 1), bm(b0.begin(), b0.end() - 1);
        B  sw = ult(am, bm);
        BV a = bvIte(sw, b0, a0), b = bvIte(sw, a0, b0);
        Fp x = unpack(a, mant), y = unpack(b, mant), r;
        B  subt = bdd.Xor(x.s, y.s);
        r.nan   = bdd.Or(bdd.Or(x.nan, y.nan), bdd.And(bdd.And(x.inf, y.inf), subt));
        r.inf   = bdd.And(bdd.Or(x.inf, y.inf), Bdd::neg(r.nan));
        unsigned w = mant + 1 + 4; // one carry bit on top, three rounding bits below
        auto wide = [&](const BV& m) { BV v(3, F_); v.insert(v.end(), m.begin(), m.end()); v.push_back(F_); return v; };
        BV xm = wide(x.m), ym = wide(y.m);
        BV d  = sub(x.e, y.e);
        B  lost = F_;
        ym    = shiftRight(ym, d, lost);
        ym[0] = bdd.Or(ym[0], lost);
        ym    = bvIte(y.zero, BV(w, F_), ym);
        xm    = bvIte(x.zero, BV(w, F_), xm);
        BV sum = bvIte(subt, sub(xm, ym), add(xm, ym));
        r.zero = bdd.And(Bdd::neg(orAll(sum, 0, w)), Bdd::neg(bdd.Or(r.nan, r.inf)));
        BV n   = normalise(sum);
        r.m    = sum;
        r.e    = sub(add(x.e, signedConst(1)), n);
        r.s    = bdd.ite(r.zero, bdd.And(x.s, y.s), x.s);
        return pack(r, F_, mant);
    }
    enum Round { AWAY, EVEN, DOWN, UP, ZERO };
    BV fpRound(const BV& a, unsigned mant, Round k)
    {
        Fp x   = unpack(a, mant);
        B  big = Bdd::neg(slt(x.e, signedConst(int(mant)))); // already an integer
        big    = bdd.Or(big, bdd.Or(x.nan, bdd.Or(x.inf, x.zero)));
        BV m   = x.m;
        m.insert(m.begin(), F_);                                  // the rounding bit
        BV by  = sub(signedConst(int(mant)), x.e);
        B  tiny = bdd.And(slt(x.e, signedConst(-1)), Bdd::neg(big));
        B  lost = F_;
        BV t    = shiftRight(m, bvIte(bdd.Or(big, tiny), constBV(0, EW), by), lost);
        t       = bvIte(tiny, BV(t.size(), F_), t);
        lost    = bdd.Or(lost, tiny);
        B  rb   = t[0];
        BV q(t.begin() + 1, t.end());
        q.push_back(F_);
        B some = bdd.Or(rb, lost), inc = F_;
        switch (k)
        {
        case AWAY: inc = rb; break;
        case EVEN: inc = bdd.And(rb, bdd.Or(lost, q[0])); break;
        case DOWN: inc = bdd.And(x.s, some); break;
        case UP: inc = bdd.And(Bdd::neg(x.s), some); break;
        case ZERO: break;
        }
        q    = addc(q, BV(q.size(), F_), inc);
        Fp r = fromInt(q, false);
        r.s  = x.s;
        return bvIte(big, a, pack(r, F_, mant));
    }
    // bit precise evaluation within a node budget, else an uninterpreted result
    template<typename Fn>
    BV fp(const std::vector<BV*>& args, B g, Fn&& fn, const std::function<BV()>& otherwise)
    {
        for (auto* a : args)
            for (B b : *a)
                if (b > 1 && bdd.supportHas(b, Bdd::Unknown)) return otherwise();
        auto  keep = bdd.limit;
        B     care = bdd.And(g, assumption);
        try
        {
            bdd.limit = std::min(keep, bdd.nodes.size() + fpBudget);
            if (care != F_)
                for (auto* a : args)
                    for (B& b : *a) b = bdd.restrictTo(b, care);
            BV r      = fn();
            bdd.limit = keep;
            return r;
        }
        catch (const LimitExceeded&)
        {
            bdd.limit = keep;
            if (std::chrono::steady_clock::now() > bdd.deadline || bdd.nodes.size() >= keep) throw;
            return otherwise();
        }
    }
    size_t fpBudget = 3u * 1000 * 1000;
    const fltSemantics& sem(Type* t) { return t->getFltSemantics(); }
    APFloat toFP(Type* t, const BV& v) { return APFloat(sem(t), toAP(v)); }

    // ---- functions of one value: compositions of correctly rounded (hence monotone) operations with constants -----------------
    // Where the bit precise result is too large, the result stays a fresh unknown but remembers how it was computed:
    // comparisons with constants become thresholds on the source (binary search over the concrete composition),
    // conversions to integers use an affine form with an error bound.
    struct Q // exact rational, invalid on overflow
    {
        __int128 n = 0, d = 1;
        bool     ok = true;
        static __int128 gcd(__int128 a, __int128 b) { if (a < 0) a = -a; while (b) { __int128 t = a % b; a = b; b = t; } return a ? a : 1; }
        Q norm() const
        {
            Q r = *this;
            if (r.d < 0) { r.n = -r.n; r.d = -r.d; }
            __int128 k = gcd(r.n, r.d);
            r.n /= k; r.d /= k;
            return r;
        }
        long double ld() const { return (long double) n / (long double) d; }
        friend Q operator*(const Q& a, const Q& b)
        {
            Q x{ a.n, b.d }, y{ b.n, a.d };
            x = x.norm(); y = y.norm();
            Q r;
            r.ok = a.ok && b.ok && !__builtin_mul_overflow(x.n, y.n, &r.n) && !__builtin_mul_overflow(x.d, y.d, &r.d);
            return r.ok ? r.norm() : r;
        }
        friend Q operator+(const Q& a, const Q& b)
        {
            Q r;
            __int128 p, q;
            r.ok = a.ok && b.ok && !__builtin_mul_overflow(a.n, b.d, &p) && !__builtin_mul_overflow(b.n, a.d, &q) && !__builtin_add_overflow(p, q, &r.n) &&
                   !__builtin_mul_overflow(a.d, b.d, &r.d);
            return r.ok ? r.norm() : r;
        }
    };
    struct Op
    {
        std::function<APFloat(const APFloat&)> f;
        int         dir = 1;            // increasing or decreasing
        bool        affine = false, exact = false;
        Q           mul{ 1, 1 }, add{ 0, 1 };
        std::string key;
    };
    struct Chain
    {
        BV              src;            // in ascending order of the source's value
        std::function<APFloat(uint64_t)> start;
        bool            isInt = false, sgn = false;
        B               valid = T_;     // where the relation between source and result holds
        std::string     key;
        std::vector<Op> ops;
        int             dir() const { int d = 1; for (auto& o : ops) d *= o.dir; return d; }
        APFloat         eval(uint64_t v, size_t n) const { APFloat x = start(v); for (size_t i = 0; i < n; ++i) x = ops[i].f(x); return x; }
        APFloat         eval(uint64_t v) const { return eval(v, ops.size()); }
    };
    std::map<BV, std::shared_ptr<Chain>> chains;
    static bool rational(const APFloat& c, Q& q)
    {
        if (!c.isFinite()) return false;
        int     e;
        APFloat d = c;
        bool    li;
        d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        double m = frexp(d.convertToDouble(), &e);
        int64_t k = int64_t(ldexp(m, 53));
        e -= 53;
        while (k && !(k & 1)) { k >>= 1; ++e; }
        if (e > 60 || e < -60) return false;
        q = e >= 0 ? Q{ __int128(k) << e, 1 } : Q{ k, __int128(1) << -e };
        if (e >= 0 && k && (__int128(k) << e) >> e != k) return false;
        return true;
    }
    static Op arith(unsigned opc, const APFloat& c, bool constLeft)
    {
        Op o;
        o.f = [=](const APFloat& x) {
            APFloat l = constLeft ? c : x, r = constLeft ? x : c;
            auto rm = APFloat::rmNearestTiesToEven;
            switch (opc)
            {
            case Instruction::FAdd: l.add(r, rm); break;
            case Instruction::FSub: l.subtract(r, rm); break;
            case Instruction::FMul: l.multiply(r, rm); break;
            default: l.divide(r, rm); break;
            }
            return l;
        };
        Q    q;
        bool rat = rational(c, q);
        switch (opc)
        {
        case Instruction::FAdd: o.affine = rat; o.add = q; break;
        case Instruction::FSub:
            o.affine = rat;
            if (constLeft) { o.dir = -1; o.mul = Q{ -1, 1 }; o.add = q; }
            else o.add = Q{ -q.n, q.d };
            break;
        case Instruction::FMul:
            if (c.isZero() || !c.isFinite()) { o.dir = 0; break; }
            o.dir = c.isNegative() ? -1 : 1;
            o.affine = rat; o.mul = q; o.exact = bool(c.getExactInverse(nullptr));
            break;
        default:
            if (constLeft || c.isZero() || !c.isFinite()) { o.dir = 0; break; }
            o.dir = c.isNegative() ? -1 : 1;
            o.affine = rat && q.n != 0; o.mul = Q{ q.d, q.n }.norm(); o.exact = bool(c.getExactInverse(nullptr));
        }
        SmallVector<char, 32> s;
        c.bitcastToAPInt().toStringUnsigned(s, 16);
        o.key = std::to_string(opc) + (constLeft ? "L" : "R") + std::string(s.begin(), s.end());
        return o;
    }
    // least and greatest value of a vector under a condition
    std::pair<uint64_t, uint64_t> bounds(const BV& v, B care)
    {
        uint64_t lo = 0, hi = 0;
        B        l = care, h = care;
        for (size_t i = v.size(); i-- > 0;)
        {
            B z = bdd.And(l, Bdd::neg(v[i]));
            if (z != F_) l = z; else { lo |= 1ull << i; }
            B o = bdd.And(h, v[i]);
            if (o != F_) { h = o; hi |= 1ull << i; }
        }
        return { lo, hi };
    }
    std::shared_ptr<Chain> chainOf(const BV& a, Type* t)
    {
        auto it = chains.find(a);
        if (it != chains.end()) return it->second;
        if (a.size() > 64 || !(t->isFloatTy() || t->isDoubleTy())) return nullptr;
        auto c   = std::make_shared<Chain>();
        c->src   = a;
        auto* sm = &sem(t);
        unsigned w = unsigned(a.size());
        c->start = [sm, w](uint64_t v) { return APFloat(*sm, APInt(w, v)); };
        c->key   = "bits" + std::to_string(w);
        return c;
    }
    // the source's bounds, if the composition is usable there
    bool usable(const Chain& c, B care, uint64_t& lo, uint64_t& hi)
    {
        if (c.dir() == 0 || care == F_ || bdd.And(care, Bdd::neg(c.valid)) != F_) return false;
        for (auto& o : c.ops) if (o.dir == 0) return false;
        if (!c.isInt && bdd.And(care, c.src.back()) != F_) return false; // negative numbers are in descending order of their bits
        std::tie(lo, hi) = bounds(c.src, care);
        for (uint64_t v : { lo, hi })
            for (size_t i = 0; i <= c.ops.size(); ++i)
                if (!c.eval(v, i).isFinite()) return false;
        return true;
    }
    void remember(const BV& a, const BV& r, Type* from, Op op, B g)
    {
        if (isConst(r) || op.dir == 0) return;
        auto base = chainOf(a, from);
        if (!base || base->ops.size() > 12) return;
        auto c = std::make_shared<Chain>(*base);
        c->ops.push_back(std::move(op));
        c->valid = bdd.And(c->valid, bdd.And(g, assumption));
        chains[r] = c;
    }
    void rememberInt(const BV& n, const BV& r, Type* t, bool sgn, B g)
    {
        if (isConst(r) || n.size() > 64) return;
        auto c = std::make_shared<Chain>();
        c->src = n;
        if (sgn) c->src.back() ^= 1;
        auto* sm   = &sem(t);
        unsigned w = unsigned(n.size());
        c->isInt   = true;
        c->sgn     = sgn;
        c->valid   = bdd.And(g, assumption);
        c->start   = [sm, w, sgn](uint64_t v) {
            APFloat f(*sm);
            f.convertFromAPInt(APInt(w, sgn ? v ^ (1ull << (w - 1)) : v), sgn, APFloat::rmNearestTiesToEven);
            return f;
        };
        c->key = "int" + std::to_string(w) + (sgn ? "s" : "u") + std::to_string(APFloat::semanticsPrecision(*sm));
        chains[r] = c;
    }
    // first v in [lo, hi + 1] where the increasing predicate holds
    template<typename P>
    static uint64_t threshold(uint64_t lo, uint64_t hi, P&& p, bool& none)
    {
        none = !p(hi);
        if (none) return hi;
        while (lo < hi)
        {
            uint64_t m = lo + (hi - lo) / 2;
            if (p(m)) hi = m; else lo = m + 1;
        }
        return lo;
    }
    // condition on the source: F(src) >= k or F(src) > k
    B above(const Chain& c, uint64_t lo, uint64_t hi, const APFloat& k, bool orEqual)
    {
        bool up  = c.dir() > 0, none;
        auto cmp = [&](uint64_t v) {
            auto r = c.eval(v).compare(k);
            return r == APFloat::cmpGreaterThan || (orEqual && r == APFloat::cmpEqual);
        };
        unsigned w = unsigned(c.src.size());
        if (up)
        {
            uint64_t t = threshold(lo, hi, cmp, none);
            return none ? F_ : Bdd::neg(ult(c.src, constBV(t, w)));
        }
        uint64_t t = threshold(lo, hi, [&](uint64_t v) { return !cmp(v); }, none);
        return none ? T_ : ult(c.src, constBV(t, w));
    }
    bool chainCompare(const BV& a, const BV& b, Type* t, CmpInst::Predicate p, B g, B& out)
    {
        B        care = bdd.And(g, assumption);
        unsigned k    = unsigned(p);
        uint64_t lo, hi;
        auto     make = [&](B ge, B gt) {
            B e = bdd.And(ge, Bdd::neg(gt)), lt = Bdd::neg(ge);
            out = F_;
            if (k & 1) out = bdd.Or(out, e);
            if (k & 2) out = bdd.Or(out, gt);
            if (k & 4) out = bdd.Or(out, lt);
            return true;
        };
        bool ca = isConst(a), cb = isConst(b);
        if (ca != cb)
        {
            auto it = chains.find(ca ? b : a);
            if (it == chains.end() || !usable(*it->second, care, lo, hi)) return false;
            APFloat c = toFP(t, ca ? a : b);
            if (c.isNaN()) return false;
            B ge = above(*it->second, lo, hi, c, true), gt = above(*it->second, lo, hi, c, false);
            if (cb) return make(ge, gt);
            return make(Bdd::neg(gt), Bdd::neg(ge)); // c >= F, c > F
        }
        auto x = chains.find(a), y = chains.find(b);
        if (x == chains.end() || y == chains.end()) return false;
        auto &cx = *x->second, &cy = *y->second;
        if (cx.key != cy.key || cx.ops.size() != cy.ops.size() || cx.src.size() != cy.src.size()) return false;
        for (size_t i = 0; i < cx.ops.size(); ++i)
            if (cx.ops[i].key != cy.ops[i].key) return false;
        uint64_t lo2, hi2;
        if (!usable(cx, care, lo, hi) || !usable(cy, care, lo2, hi2)) return false;
        bool inj = false;
        Aff  f;
        if (affine(cx, std::min(lo, lo2), std::max(hi, hi2), f)) inj = fabsl(f.c1.ld()) > 2.5L * f.err;
        B ge = Bdd::neg(ult(cx.src, cy.src)), gt = ult(cy.src, cx.src);
        if (cx.dir() < 0) { B s = Bdd::neg(gt); gt = Bdd::neg(ge); ge = s; }
        if (inj) return make(ge, gt);
        B u = freshBV(1, Bdd::Unknown)[0]; // different sources may give the same result
        B v = bdd.And(gt, u), w = bdd.Or(ge, u);
        return make(w, v);
    }
    struct Aff { Q c1{ 1, 1 }, c0{ 0, 1 }; long double err = 0; };
    bool affine(const Chain& c, uint64_t lo, uint64_t hi, Aff& f)
    {
        if (!c.isInt) return false;
        unsigned w = unsigned(c.src.size());
        if (c.sgn) f.c0 = Q{ -(__int128(1) << (w - 1)), 1 }; // in terms of the ascending source
        auto mag = [&](size_t n) {
            auto one = [&](uint64_t v) {
                APFloat x = c.eval(v, n);
                bool    li;
                unsigned p = APFloat::semanticsPrecision(x.getSemantics());
                x.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
                return fabsl((long double) x.convertToDouble()) * ldexpl(1, -int(p));
            };
            return std::max(one(lo), one(hi));
        };
        f.err = mag(0);
        if (APFloat::semanticsPrecision(c.start(0).getSemantics()) >= w) f.err = 0;
        for (size_t i = 0; i < c.ops.size(); ++i)
        {
            auto& o = c.ops[i];
            if (!o.affine) return false;
            f.c1 = f.c1 * o.mul;
            f.c0 = f.c0 * o.mul + o.add;
            if (!f.c1.ok || !f.c0.ok) return false;
            f.err = f.err * fabsl(o.mul.ld());
            if (!o.exact) f.err += mag(i + 1);
            f.err *= 1.0000001L;
        }
        return true;
    }
    // truncation to an integer
    bool chainToInt(const BV& a, unsigned n, bool sgn, B g, BV& out, B& in)
    {
        auto it = chains.find(a);
        B    care = bdd.And(g, assumption);
        uint64_t lo, hi;
        if (it == chains.end() || !usable(*it->second, care, lo, hi)) return false;
        auto& c = *it->second;
        auto  conv = [&](uint64_t v, APSInt& r) {
            bool ex;
            return c.eval(v).convertToInteger(r, APFloat::rmTowardZero, &ex) != APFloat::opInvalidOp;
        };
        APSInt l(n, !sgn), h(n, !sgn);
        bool   okl = conv(lo, l), okh = conv(hi, h);
        in = T_;
        if (!okl || !okh)
        {
            APFloat top(c.eval(lo).getSemantics()), bot(c.eval(lo).getSemantics());
            APInt   one(n + 2, 1);
            top.convertFromAPInt(one.shl(sgn ? n - 1 : n), false, APFloat::rmNearestTiesToEven);
            if (sgn) return false;
            bot.convertFromAPInt(APInt(n, ~0ull, true), true, APFloat::rmNearestTiesToEven); // -1
            in = bdd.And(Bdd::neg(above(c, lo, hi, top, true)), above(c, lo, hi, bot, false));
            return false;
        }
        Aff f;
        if (!c.eval(lo).isNegative() && !c.eval(hi).isNegative() && affine(c, lo, hi, f))
        {
            int s = f.c1.ld() >= 0 ? 1 : -1;
            Q   d = f.c1 + Q{ -s, 1 };
            if (d.ok)
            {
                long double x = d.ld() * (long double) lo + f.c0.ld(), y = d.ld() * (long double) hi + f.c0.ld();
                if (x > y) std::swap(x, y);
                long double m = f.err == 0 && d.n == 0 && f.c0.d == 1 ? 0 : f.err + (fabsl(x) + fabsl(y) + 1) * 1e-17L;
                long double a0 = floorl(x - m), a1 = floorl(y + m);
                if (a1 - a0 <= 1 && fabsl(a0) < 1e18L)
                {
                    unsigned w = std::max<unsigned>(n, unsigned(c.src.size())) + 1;
                    BV       v = ext(c.src, w, false);
                    if (s < 0) v = negBV(v);
                    v = add(v, constBVw(int64_t(a0), w));
                    if (a1 != a0) v = addc(v, BV(w, F_), freshBV(1, Bdd::Unknown)[0]);
                    out = BV(v.begin(), v.begin() + n);
                    return true;
                }
            }
        }
        // some value between the ends
        if (l > h) std::swap(l, h);
        BV u = freshBV(n, Bdd::Unknown), L = fromAP(l), H = fromAP(h);
        B  ok = sgn ? bdd.And(Bdd::neg(slt(u, L)), Bdd::neg(slt(H, u))) : bdd.And(Bdd::neg(ult(u, L)), Bdd::neg(ult(H, u)));
        out = bvIte(ok, u, L);
        return true;
    }
    BV constBVw(int64_t v, unsigned w)
    {
        BV r(w);
        for (unsigned i = 0; i < w; ++i) r[i] = (i < 64 ? (v >> i) & 1 : v < 0) ? T_ : F_;
        return r;
    }
    // value by value, for operands that depend on few bits
    bool tabulate(BV a, B g, unsigned w, const std::function<BV(const BV&)>& leaf, BV& out, size_t most = 17)
    {
        B care = bdd.And(g, assumption);
        if (care == F_) return false;
        for (B& b : a) b = bdd.restrictTo(b, care);
        std::set<uint32_t> sup;
        for (B b : a) bdd.support(b, sup);
        if (sup.size() > most) return false;
        std::map<BV, BV> memo;
        std::function<const BV&(const BV&)> rec = [&](const BV& v) -> const BV& {
            auto it = memo.find(v);
            if (it != memo.end()) return it->second;
            BV r;
            if (isConst(v)) r = leaf(v);
            else
            {
                uint32_t t = UINT32_MAX;
                for (B b : v)
                    if (b > 1) { uint32_t x = bdd.nodes[b >> 1].var; if (t == UINT32_MAX || (x != t && bdd.before(x, t))) t = x; }
                BV l(v.size()), h(v.size());
                for (size_t i = 0; i < v.size(); ++i) bdd.cof(v[i], t, l[i], h[i]);
                const BV &x = rec(l), &y = rec(h);
                r.resize(w);
                for (unsigned i = 0; i < w; ++i) r[i] = bdd.mk(t, x[i], y[i]);
            }
            return memo.emplace(v, r).first->second;
        };
        out = rec(a);
        return true;
    }

    FnInfo& info(const Function* f)
    {
        auto& fi = infos[f];
        if (!fi.dt)
        {
            fi.dt.reset(new DominatorTree(*const_cast<Function*>(f)));
            fi.li.reset(new LoopInfo(*fi.dt));
            buildOrder(fi, f, nullptr);
            for (auto* l : fi.li->getLoopsInPreorder()) buildOrder(fi, f, l);
        }
        return fi;
    }
    void buildOrder(FnInfo& fi, const Function* f, const Loop* region)
    {
        // nodes: blocks directly in region + child loops; topological order by DFS on collapsed graph
        std::map<const void*, FnInfo::Item> nodes;
        auto repr = [&](const BasicBlock* b) -> const void* {
            const Loop* l = fi.li->getLoopFor(b);
            if (l == region) return b;
            // climb to the child of region
            while (l && l->getParentLoop() != region) l = l->getParentLoop();
            if (!l) return nullptr; // outside region
            if (region && !region->contains(b)) return nullptr;
            return l;
        };
        std::map<const void*, std::vector<const void*>> succ;
        for (auto& b : *f)
        {
            if (region && !region->contains(&b)) continue;
            const void* r = repr(&b);
            if (!r) continue;
            if (r == &b) nodes[r] = { &b, nullptr };
            else nodes[r] = { nullptr, (const Loop*) r };
            for (auto* s : successors(&b))
            {
                if (region && !region->contains(s)) continue;
                if (region && s == region->getHeader()) continue;
                const void* q = repr(s);
                if (q && q != r) succ[r].push_back(q);
            }
        }
        std::vector<FnInfo::Item>    post;
        std::map<const void*, int>   st;
        std::function<void(const void*)> dfs = [&](const void* n) {
            st[n] = 1;
            for (auto* s : succ[n])
            {
                if (st[s] == 1) throw Unsupported("irreducible control flow in " + f->getName().str());
                if (!st[s]) dfs(s);
            }
            st[n] = 2;
            post.push_back(nodes[n]);
        };
        const BasicBlock* start = region ? region->getHeader() : &f->getEntryBlock();
        dfs(repr(start));
        std::reverse(post.begin(), post.end());
        fi.order[region] = post;
    }

    void edge(Frame& fr, const BasicBlock* from, const BasicBlock* to, B g)
    {
        if (bdd.And(g, assumption) == F_) return;
        Pend& p = fr.pend[to];
        // evaluate phis before merging
        std::vector<std::pair<const PHINode*, BV>> in;
        for (auto& phi : to->phis()) in.push_back({ &phi, get(fr, phi.getIncomingValueForBlock(from)) });
        if (p.guard == F_)
        {
            p.guard = g;
            p.phi   = std::move(in);
        }
        else
        {
            ++nJoins;
            for (size_t i = 0; i < in.size(); ++i) p.phi[i].second = bvIte(g, in[i].second, p.phi[i].second);
            p.guard = bdd.Or(p.guard, g);
        }
    }
    void runRegion(Frame& fr, FnInfo& fi, const Loop* region)
    {
        for (auto& it : fi.order[region])
        {
            if (it.bb)
            {
                auto pit = fr.pend.find(it.bb);
                if (pit == fr.pend.end() || pit->second.guard == F_) continue;
                Pend p = std::move(pit->second);
                fr.pend[it.bb] = Pend();
                runBlock(fr, it.bb, p);
            }
            else
            {
                const BasicBlock* h = it.loop->getHeader();
                size_t            n = 0;
                while (true)
                {
                    auto pit = fr.pend.find(h);
                    if (pit == fr.pend.end() || pit->second.guard == F_ || bdd.And(pit->second.guard, assumption) == F_) break;
                    if (++n > loopCap) throw Unsupported("loop bound in " + fnName(fr.fn));
                    runRegion(fr, fi, it.loop);
                }
                maxLoopIter = std::max(maxLoopIter, unsigned(n));
            }
        }
    }
    void tick()
    {
        if (++nInstr > instrLimit) throw LimitExceeded("instruction budget");
        if ((nInstr & 1023) == 0)
        {
            double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (s > timeLimit) throw LimitExceeded("time budget");
        }
    }
    void runBlock(Frame& fr, const BasicBlock* bb, Pend& p)
    {
        B g = p.guard;
        for (auto& ph : p.phi) fr.vals[ph.first] = ph.second;
        for (auto& I : *bb)
        {
            if (isa<PHINode>(I)) continue;
            tick();
            if (I.isTerminator())
            {
                terminator(fr, &I, g);
                return;
            }
            step(fr, &I, g);
            if (g == F_) return;
        }
    }
    void terminator(Frame& fr, const Instruction* I, B g)
    {
        const BasicBlock* bb = I->getParent();
        if (auto* r = dyn_cast<ReturnInst>(I))
        {
            if (r->getReturnValue())
            {
                BV v = get(fr, r->getReturnValue());
                if (!fr.haveRet) { fr.ret = v; fr.haveRet = true; }
                else fr.ret = bvIte(g, v, fr.ret);
            }
            fr.retGuard = bdd.Or(fr.retGuard, g);
            return;
        }
        if (auto* b = dyn_cast<BranchInst>(I))
        {
            if (!b->isConditional()) { edge(fr, bb, b->getSuccessor(0), g); return; }
            B c = get(fr, b->getCondition())[0];
            if (b->getSuccessor(0) == b->getSuccessor(1)) { edge(fr, bb, b->getSuccessor(0), g); return; }
            edge(fr, bb, b->getSuccessor(0), bdd.And(g, c));
            edge(fr, bb, b->getSuccessor(1), bdd.And(g, Bdd::neg(c)));
            return;
        }
        if (auto* s = dyn_cast<SwitchInst>(I))
        {
            BV c    = get(fr, s->getCondition());
            B  rest = g;
            std::map<const BasicBlock*, B> tgt;
            std::vector<const BasicBlock*> ord;
            for (auto& cs : s->cases())
            {
                B m = bdd.And(g, eq(c, fromAP(cs.getCaseValue()->getValue())));
                rest = bdd.And(rest, Bdd::neg(m));
                if (!tgt.count(cs.getCaseSuccessor())) { tgt[cs.getCaseSuccessor()] = m; ord.push_back(cs.getCaseSuccessor()); }
                else tgt[cs.getCaseSuccessor()] = bdd.Or(tgt[cs.getCaseSuccessor()], m);
            }
            auto* d = s->getDefaultDest();
            if (!tgt.count(d)) { tgt[d] = rest; ord.push_back(d); }
            else tgt[d] = bdd.Or(tgt[d], rest);
            for (auto* t : ord) edge(fr, bb, t, tgt[t]);
            return;
        }
        if (auto* iv = dyn_cast<InvokeInst>(I))
        {
            call(fr, iv, g);
            if (g != F_) edge(fr, bb, iv->getNormalDest(), g);
            return;
        }
        if (isa<UnreachableInst>(I))
        {
            if (flagUb) { ++nUb; oblige("ub", "control flow reaches code marked unreachable (missing return)", g, F_, I); }
            return;
        }
        throw Unsupported(std::string("terminator ") + I->getOpcodeName());
    }
    BV gepAddr(Frame& fr, const GEPOperator* gep)
    {
        BV p = get(fr, gep->getPointerOperand());
        uint64_t constOff = 0;
        for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi)
        {
            const Value* idx = gi.getOperand();
            if (StructType* st = gi.getStructTypeOrNull())
            {
                constOff += DL.getStructLayout(st)->getElementOffset(unsigned(cast<ConstantInt>(idx)->getZExtValue()));
                continue;
            }
            uint64_t es = DL.getTypeAllocSize(gi.getIndexedType());
            BV       iv = get(fr, idx);
            iv          = ext(iv, 64, true);
            if (isConst(iv)) { constOff += constVal(iv) * es; continue; }
            p = add(p, mul(iv, constBV(es, 64)));
        }
        if (constOff) p = add(p, constBV(constOff, 64));
        return p;
    }
    void step(Frame& fr, const Instruction* I, B& g)
    {
        Type* t = I->getType();
        switch (I->getOpcode())
        {
        case Instruction::Alloca: {
            auto*    a  = cast<AllocaInst>(I);
            uint64_t n  = DL.getTypeAllocSize(a->getAllocatedType());
            if (a->isArrayAllocation())
            {
                BV c = get(fr, a->getArraySize());
                if (!isConst(c)) throw Unsupported("dynamic alloca");
                n *= constVal(c);
            }
            uint32_t id = newObj((a->hasName() ? a->getName().str() : "tmp") + " in " + fr.fn->getName().str(), n, g);
            objs[id].stack = true;
            fr.allocas.push_back(id);
            fr.vals[I] = addrOf(id);
            return;
        }
        case Instruction::Load: fr.vals[I] = load(t, get(fr, I->getOperand(0)), g, I); return;
        case Instruction::Store: store(I->getOperand(0)->getType(), get(fr, I->getOperand(1)), get(fr, I->getOperand(0)), g, I); return;
        case Instruction::GetElementPtr: fr.vals[I] = gepAddr(fr, cast<GEPOperator>(I)); return;
        case Instruction::Call: call(fr, cast<CallBase>(I), g); return;
        case Instruction::ICmp: {
            auto* c = cast<ICmpInst>(I);
            if (c->getOperand(0)->getType()->isVectorTy()) throw Unsupported("vector icmp");
            BV a = get(fr, c->getOperand(0)), b = get(fr, c->getOperand(1));
            fr.vals[I] = { icmp(c->getPredicate(), a, b) };
            return;
        }
        case Instruction::Select: {
            BV c = get(fr, I->getOperand(0));
            if (c.size() != 1) throw Unsupported("vector select");
            fr.vals[I] = bvIte(c[0], get(fr, I->getOperand(1)), get(fr, I->getOperand(2)));
            return;
        }
        case Instruction::Trunc: { BV v = get(fr, I->getOperand(0)); v.resize(width(t)); fr.vals[I] = v; return; }
        case Instruction::ZExt: fr.vals[I] = ext(get(fr, I->getOperand(0)), width(t), false); return;
        case Instruction::SExt: fr.vals[I] = ext(get(fr, I->getOperand(0)), width(t), true); return;
        case Instruction::PtrToInt:
        case Instruction::IntToPtr: fr.vals[I] = ext(get(fr, I->getOperand(0)), width(t), false); return;
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast:
        case Instruction::Freeze: fr.vals[I] = get(fr, I->getOperand(0)); return;
        case Instruction::ExtractValue: {
            auto* e = cast<ExtractValueInst>(I);
            BV    v = get(fr, e->getAggregateOperand());
            unsigned off = aggOff(e->getAggregateOperand()->getType(), e->getIndices());
            fr.vals[I] = BV(v.begin() + off, v.begin() + off + width(t));
            return;
        }
        case Instruction::InsertValue: {
            auto* e = cast<InsertValueInst>(I);
            BV    v = get(fr, e->getAggregateOperand());
            BV    x = get(fr, e->getInsertedValueOperand());
            unsigned off = aggOff(e->getAggregateOperand()->getType(), e->getIndices());
            std::copy(x.begin(), x.end(), v.begin() + off);
            fr.vals[I] = v;
            return;
        }
        case Instruction::FNeg: { BV v = get(fr, I->getOperand(0)), v0 = v; v.back() ^= 1; fr.vals[I] = v;
            if ((t->isFloatTy() || t->isDoubleTy()) && chains.count(v0)) { Op o; o.f = [](const APFloat& x) { APFloat y = x; y.changeSign(); return y; }; o.dir = -1; o.affine = o.exact = true; o.mul = Q{ -1, 1 }; o.key = "neg"; remember(v0, v, t, o, g); }
            return; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            BV a = get(fr, I->getOperand(0)), b = get(fr, I->getOperand(1));
            if (isConst(a) && isConst(b) && !t->isVectorTy())
            {
                APFloat x = toFP(t, a), y = toFP(t, b);
                switch (I->getOpcode())
                {
                case Instruction::FAdd: x.add(y, APFloat::rmNearestTiesToEven); break;
                case Instruction::FSub: x.subtract(y, APFloat::rmNearestTiesToEven); break;
                case Instruction::FMul: x.multiply(y, APFloat::rmNearestTiesToEven); break;
                case Instruction::FDiv: x.divide(y, APFloat::rmNearestTiesToEven); break;
                default: x.mod(y);
                }
                fr.vals[I] = fromAP(x.bitcastToAPInt());
            }
            else
            {
                auto op  = I->getOpcode();
                BV   a0 = a, b0 = b;
                bool ok  = t->isFloatTy() || t->isDoubleTy(), ca = isConst(a), cb = isConst(b);
                auto any = [&] {
                    if (ok && ca != cb && op != Instruction::FRem)
                    {
                        Op o = arith(op, toFP(t, ca ? a0 : b0), ca);
                        BV r;
                        if (tabulate(ca ? b0 : a0, g, width(t), [&](const BV& v) { return fromAP(o.f(toFP(t, v)).bitcastToAPInt()); }, r)) return r;
                    }
                    return uf(op, { a0, b0 }, width(t));
                };
                unsigned mant = ok ? mantOf(t) : 0;
                if (ok && (op == Instruction::FAdd || op == Instruction::FSub))
                {
                    if (op == Instruction::FSub) b.back() ^= 1;
                    fr.vals[I] = fp({ &a, &b }, g, [&] { return fpAdd(a, b, mant); }, any);
                }
                else if (ok && op == Instruction::FMul && (ca || cb))
                    fr.vals[I] = fp({ &a, &b }, g, [&] { return fpMul(a, b, mant); }, any);
                else if (ok && op == Instruction::FDiv && cb && toFP(t, b).getExactInverse(nullptr))
                {
                    APFloat inv(sem(t));
                    toFP(t, b).getExactInverse(&inv);
                    b          = fromAP(inv.bitcastToAPInt());
                    fr.vals[I] = fp({ &a, &b }, g, [&] { return fpMul(a, b, mant); }, any);
                }
                else fr.vals[I] = any();
                if (ok && ca != cb && op != Instruction::FRem) remember(ca ? b0 : a0, fr.vals[I], t, arith(op, toFP(t, ca ? a0 : b0), ca), g);
            }
            return;
        }
        case Instruction::FCmp: {
            auto* c = cast<FCmpInst>(I);
            BV a = get(fr, c->getOperand(0)), b = get(fr, c->getOperand(1));
            Type* ot = c->getOperand(0)->getType();
            if (isConst(a) && isConst(b)) fr.vals[I] = { FCmpInst::compare(toFP(ot, a), toFP(ot, b), c->getPredicate()) ? T_ : F_ };
            else if (B r; (ot->isFloatTy() || ot->isDoubleTy()) && chainCompare(a, b, ot, c->getPredicate(), g, r)) fr.vals[I] = { r };
            else if (ot->isFloatTy() || ot->isDoubleTy()) fr.vals[I] = { fcmp(a, b, ot->isFloatTy() ? 23 : 52, c->getPredicate()) };
            else fr.vals[I] = uf(1000 + c->getPredicate(), { a, b }, 1);
            return;
        }
        case Instruction::FPToSI: case Instruction::FPToUI: {
            BV a = get(fr, I->getOperand(0));
            if (isConst(a))
            {
                APSInt r(width(t), I->getOpcode() == Instruction::FPToUI);
                bool   ex;
                auto   s = toFP(I->getOperand(0)->getType(), a).convertToInteger(r, APFloat::rmTowardZero, &ex);
                if (flagUb) { ++nUb; oblige("ub", "float-to-integer conversion out of range", g, s == APFloat::opInvalidOp ? F_ : T_, I); }
                fr.vals[I] = fromAP(r);
            }
            else
            {
                Type* ot      = I->getOperand(0)->getType();
                BV    a0      = a;
                bool  decided = false, sgn = I->getOpcode() == Instruction::FPToSI;
                B     in      = T_;
                auto  any     = [&] {
                    BV r;
                    if (chainToInt(a0, width(t), sgn, g, r, in)) { decided = true; return r; }
                    if (in != T_) decided = true;
                    return uf(I->getOpcode(), { a0 }, width(t));
                };
                if (ot->isFloatTy() || ot->isDoubleTy())
                    fr.vals[I] = fp({ &a }, g, [&] { BV r = toInt(unpack(a, mantOf(ot)), width(t), sgn, in); decided = true; return r; }, any);
                else fr.vals[I] = any();
                if (decided && flagUb) { ++nUb; oblige("ub", "float-to-integer conversion out of range", g, in, I); }
            }
            return;
        }
        case Instruction::SIToFP: case Instruction::UIToFP: {
            BV a = get(fr, I->getOperand(0));
            if (isConst(a))
            {
                APFloat f(sem(t));
                f.convertFromAPInt(toAP(a), I->getOpcode() == Instruction::SIToFP, APFloat::rmNearestTiesToEven);
                fr.vals[I] = fromAP(f.bitcastToAPInt());
            }
            else
            {
                BV   a0  = a;
                auto any = [&] { return uf(I->getOpcode(), { a0 }, width(t)); };
                if (t->isFloatTy() || t->isDoubleTy())
                    fr.vals[I] = fp({ &a }, g, [&] { return pack(fromInt(a, I->getOpcode() == Instruction::SIToFP), F_, mantOf(t)); }, any);
                else fr.vals[I] = any();
                if (t->isFloatTy() || t->isDoubleTy()) rememberInt(a0, fr.vals[I], t, I->getOpcode() == Instruction::SIToFP, g);
            }
            return;
        }
        case Instruction::FPExt: case Instruction::FPTrunc: {
            BV a = get(fr, I->getOperand(0));
            if (isConst(a))
            {
                APFloat f = toFP(I->getOperand(0)->getType(), a);
                bool    li;
                f.convert(sem(t), APFloat::rmNearestTiesToEven, &li);
                fr.vals[I] = fromAP(f.bitcastToAPInt());
            }
            else
            {
                Type* ot  = I->getOperand(0)->getType();
                BV    a0  = a;
                auto  any = [&] { return uf(I->getOpcode(), { a0 }, width(t)); };
                auto  ok  = [](Type* x) { return x->isFloatTy() || x->isDoubleTy(); };
                if (ok(ot) && ok(t))
                {
                    fr.vals[I] = fp({ &a }, g, [&] { return pack(unpack(a, mantOf(ot)), F_, mantOf(t)); }, any);
                    Op    o;
                    auto* sm = &sem(t);
                    o.f      = [sm](const APFloat& x) { APFloat y = x; bool li; y.convert(*sm, APFloat::rmNearestTiesToEven, &li); return y; };
                    o.affine = true;
                    o.exact  = I->getOpcode() == Instruction::FPExt;
                    o.key    = o.exact ? "ext" : "trunc";
                    remember(a0, fr.vals[I], ot, o, g);
                }
                else fr.vals[I] = any();
            }
            return;
        }
        case Instruction::Fence: return;
        case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: throw Unsupported("atomic");
        case Instruction::VAArg: throw Unsupported("vaarg");
        case Instruction::LandingPad: throw Unsupported("landingpad");
        default: break;
        }
        if (auto* bo = dyn_cast<BinaryOperator>(I))
        {
            if (t->isVectorTy()) throw Unsupported("vector op");
            binop(fr, bo, g);
            return;
        }
        throw Unsupported(std::string("instruction ") + I->getOpcodeName());
    }
    unsigned aggOff(Type* t, ArrayRef<unsigned> idx)
    {
        unsigned off = 0;
        for (unsigned i : idx)
        {
            if (auto* st = dyn_cast<StructType>(t))
            {
                for (unsigned k = 0; k < i; ++k) off += width(st->getElementType(k));
                t = st->getElementType(i);
            }
            else
            {
                auto* at = cast<ArrayType>(t);
                off += i * width(at->getElementType());
                t = at->getElementType();
            }
        }
        return off;
    }
    B icmp(CmpInst::Predicate p, const BV& a, const BV& b)
    {
        switch (p)
        {
        case CmpInst::ICMP_EQ: return eq(a, b);
        case CmpInst::ICMP_NE: return Bdd::neg(eq(a, b));
        case CmpInst::ICMP_ULT: return ult(a, b);
        case CmpInst::ICMP_UGT: return ult(b, a);
        case CmpInst::ICMP_ULE: return Bdd::neg(ult(b, a));
        case CmpInst::ICMP_UGE: return Bdd::neg(ult(a, b));
        case CmpInst::ICMP_SLT: return slt(a, b);
        case CmpInst::ICMP_SGT: return slt(b, a);
        case CmpInst::ICMP_SLE: return Bdd::neg(slt(b, a));
        case CmpInst::ICMP_SGE: return Bdd::neg(slt(a, b));
        default: throw Unsupported("icmp predicate");
        }
    }
    void binop(Frame& fr, const BinaryOperator* I, B g)
    {
        BV       a = get(fr, I->getOperand(0)), b = get(fr, I->getOperand(1));
        unsigned n = unsigned(a.size());
        BV       r;
        auto*    ov  = dyn_cast<OverflowingBinaryOperator>(I);
        bool     nsw = ov && ov->hasNoSignedWrap() && flagUb;
        switch (I->getOpcode())
        {
        case Instruction::And: r.resize(n); for (unsigned i = 0; i < n; ++i) r[i] = bdd.And(a[i], b[i]); break;
        case Instruction::Or: r.resize(n); for (unsigned i = 0; i < n; ++i) r[i] = bdd.Or(a[i], b[i]); break;
        case Instruction::Xor: r.resize(n); for (unsigned i = 0; i < n; ++i) r[i] = bdd.Xor(a[i], b[i]); break;
        case Instruction::Add:
        case Instruction::Sub: {
            B c, p;
            if (I->getOpcode() == Instruction::Add) r = addc(a, b, F_, &c, &p);
            else r = addc(a, bvNot(b), T_, &c, &p);
            if (nsw) { ++nUb; oblige("ub", "signed integer overflow", g, Bdd::neg(bdd.Xor(c, p)), I); }
            break;
        }
        case Instruction::Mul: {
            bool trivial = isConst(a) || isConst(b);
            unsigned act = 0;
            if (!trivial)
            {
                unsigned ca = 0, cb = 0;
                for (B x : a) ca += x > 1;
                for (B x : b) cb += x > 1;
                act = std::min(ca, cb);
            }
            if (act > 10) r = product(a, b);
            else
            {
                r = mul(a, b);
                if (nsw)
                {
                    ++nUb;
                    BV w = mul(ext(a, 2 * n, true), ext(b, 2 * n, true));
                    oblige("ub", "signed integer overflow", g, eq(w, ext(r, 2 * n, true)), I);
                }
            }
            break;
        }
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
            if (flagUb) { ++nUb; oblige("ub", "division by zero", g, Bdd::neg(eq(b, constBV(0, n))), I); }
            unsigned ca = 0;
            for (B x : a) ca += x > 1;
            BV q, m;
            bool s = I->getOpcode() == Instruction::SDiv || I->getOpcode() == Instruction::SRem;
            bool p2 = isConst(b) && toAP(b).isPowerOf2();
            bool quot = I->getOpcode() == Instruction::UDiv || I->getOpcode() == Instruction::SDiv;
            if (!p2 && isConst(b) && !isConst(a) && !toAP(b).isZero() && n <= 64 &&
                tabulate(a, g, n, [&](const BV& v) {
                    APInt x = toAP(v), y = toAP(b);
                    if (s && x.isMinSignedValue() && y.isAllOnes()) return fromAP(quot ? x : APInt(n, 0));
                    return fromAP(s ? (quot ? x.sdiv(y) : x.srem(y)) : (quot ? x.udiv(y) : x.urem(y)));
                }, r, 14))
                break;
            if (ca > 28 && !p2)
            {
                BV a0 = a, b0 = b;
                auto any = [&] { return uf(I->getOpcode(), { a0, b0 }, n); };
                if (!isConst(b)) r = any();
                else r = fp({ &a }, g, [&] { if (s) sdivrem(a, b, q, m); else udivrem(a, b, q, m); return quot ? q : m; }, any);
                break;
            }
            if (s) sdivrem(a, b, q, m); else udivrem(a, b, q, m);
            r = quot ? q : m;
            break;
        }
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            if (flagUb) { ++nUb; oblige("ub", "shift amount not smaller than operand width", g, ult(b, constBV(n, n)), I); }
            r = shift(a, b, I->getOpcode() == Instruction::Shl ? SHL : I->getOpcode() == Instruction::LShr ? LSHR : ASHR);
            break;
        default: throw Unsupported(std::string("binop ") + I->getOpcodeName());
        }
        fr.vals[I] = r;
    }

    // ---------------------------------------------------------------- calls
    void call(Frame& fr, const CallBase* C, B& g)
    {
        ++nCalls;
        const Value* cv = C->getCalledOperand()->stripPointerCasts();
        if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
        if (isa<InlineAsm>(cv)) return;
        if (auto* f = dyn_cast<Function>(cv))
        {
            if (f->isIntrinsic()) { intrinsic(fr, C, f, g); return; }
            std::vector<BV> args;
            for (auto& a : C->args()) args.push_back(get(fr, a));
            BV r = invoke(f, args, g, C);
            if (!C->getType()->isVoidTy()) fr.vals[C] = r;
            return;
        }
        BV p = get(fr, C->getCalledOperand());
        std::vector<BV> args;
        for (auto& a : C->args()) args.push_back(get(fr, a));
        size_t budget = 64;
        std::vector<std::pair<uint64_t, B>> tg;
        enumBits(p, 32, 64, g, 0, budget, [&](uint64_t id, B gg) { tg.push_back({ id, gg }); });
        B  ng = F_;
        BV r;
        bool first = true;
        for (auto& x : tg)
        {
            if (x.first < FN_BASE || x.first - FN_BASE >= fns.size() || x.first == FN_BASE)
            {
                if (flagMem) oblige("mem", "call through null or invalid function pointer", x.second, F_, C);
                continue;
            }
            B  gg = x.second;
            BV v  = invoke(fns[x.first - FN_BASE], args, gg, C);
            if (!C->getType()->isVoidTy())
            {
                if (first) r = v;
                else r = bvIte(gg, v, r);
            }
            first = false;
            ng    = bdd.Or(ng, gg);
        }
        g = ng;
        if (!C->getType()->isVoidTy())
        {
            if (first) r = freshBV(width(C->getType()), Bdd::Unknown);
            fr.vals[C] = r;
        }
    }
    BV invoke(const Function* f, const std::vector<BV>& args, B& g, const CallBase* C)
    {
        BV out;
        if (external(f, args, g, C, out)) return out;
        if (f->isDeclaration())
        {
            StringRef nm = f->getName();
            if (nm == "__cxa_allocate_exception") return allocHeap(args[0], g, C);
            if (nm == "__cxa_free_exception") return BV();
            if (f->doesNotReturn() || (C && C->doesNotReturn()))
            {
                if ((nm == "__cxa_throw" || nm == "__cxa_rethrow" || nm.starts_with("_ZSt") && nm.contains("__throw")) && hasHandlers)
                {
                    // the handler's continuation is not followed
                    if (bdd.And(g, assumption) != F_) throw Unsupported("exception with handlers in the analysed code");
                }
                if (flagMem && nm.contains("glibcxx_assert_fail")) oblige("mem", "container access outside its bounds", g, F_, C);
                else if (flagAbort) oblige("abort", "call of " + demangle(nm.str()), g, F_, C);
                g = F_;
                return BV();
            }
            unknownCalls.insert(demangle(nm.str()));
            return freshBV(width(f->getReturnType()), Bdd::Unknown);
        }
        if (callStack.size() > 150) throw Unsupported("call depth");
        callStack.push_back({ C, f });
        visited.insert(f);
        Frame fr;
        fr.fn      = f;
        unsigned i = 0;
        for (auto& a : f->args())
        {
            BV v = i < args.size() ? args[i] : freshBV(width(a.getType()), Bdd::Unknown);
            if (a.hasByValAttr())
            {
                uint64_t n  = DL.getTypeAllocSize(a.getParamByValType());
                uint32_t id = newObj("byval in " + f->getName().str(), n, g);
                objs[id].stack = true;
                fr.allocas.push_back(id);
                copyMem(addrOf(id), v, constBV(n, 64), g, C);
                v = addrOf(id);
            }
            fr.vals[&a] = v;
            ++i;
        }
        FnInfo& fi = info(f);
        fr.pend[&f->getEntryBlock()].guard = g;
        runRegion(fr, fi, nullptr);
        for (uint32_t id : fr.allocas)
        {
            objs[id].freed = bdd.Or(objs[id].freed, fr.retGuard);
            if (fr.retGuard == objs[id].allocGuard || fr.retGuard == T_) { objs[id].bits.shrink_to_fit(); }
        }
        callStack.pop_back();
        g = fr.retGuard;
        if (!f->getReturnType()->isVoidTy() && !fr.haveRet) return freshBV(width(f->getReturnType()), Bdd::Unknown);
        return fr.ret;
    }
    BV allocHeap(const BV& n, B g, const CallBase* C)
    {
        uint64_t m = isConst(n) ? constVal(n) : maxVal(n, g);
        if (m > 1u << 20) throw Unsupported("unbounded allocation");
        std::string site = repoSite(C);
        uint32_t id = newObj("heap", m, g);
        objs[id].heap = true;
        if (!isConst(n)) { objs[id].size = n; objs[id].constSize = false; }
        return addrOf(id);
    }
    bool external(const Function* f, const std::vector<BV>& a, B& g, const CallBase* C, BV& out)
    {
        StringRef n = f->getName();
        if (n.starts_with("vp_"))
        {
            if (n == "vp_sym")
            {
                if (!isConst(a[1]) || !isConst(a[2])) throw Unsupported("vp_sym args");
                unsigned w = unsigned(constVal(a[1]));
                out        = ext(inputBV(constString(a[0]), w, unsigned(constVal(a[2]))), 64, false);
                return true;
            }
            if (n == "vp_unknown")
            {
                out = ext(freshBV(unsigned(constVal(a[0])), Bdd::Unknown), 64, false);
                return true;
            }
            if (n == "vp_assume")
            {
                assumption = bdd.And(assumption, bdd.Or(Bdd::neg(g), a[0][0]));
                g          = bdd.And(g, a[0][0]);
                return true;
            }
            if (n == "vp_check")
            {
                std::string r = constString(a[1]);
                ++nCheck;
                ++obligations[r];
                oblige("check", r, g, a[0][0], C);
                return true;
            }
            if (n == "vp_eq")
            {
                std::string r = constString(a[2]);
                ++nCheck;
                ++obligations[r];
                // decided bit by bit: the conjunction is never built
                for (size_t i = 0; i < a[0].size(); ++i)
                {
                    if (a[0][i] == a[1][i]) continue;
                    B c = bdd.Xnor(a[0][i], a[1][i]);
                    if (c != T_ && !oblige("check", r, g, c, C, { { "actual", a[0] }, { "expected", a[1] } })) break;
                }
                return true;
            }
            if (n == "vp_cover")
            {
                std::string r = constString(a[0]);
                coverAll.insert(r);
                if (bdd.And(g, assumption) != F_) covers.insert(r);
                return true;
            }
            if (n == "vp_dump")
            {
                errs() << "dump " << constString(a[0]) << ": ";
                for (size_t i = a[1].size(); i-- > 0;) errs() << (a[1][i] == T_ ? '1' : a[1][i] == F_ ? '0' : 'x');
                errs() << " guard size " << bdd.size(g) << "\n";
                return true;
            }
            if (n == "vp_buffer") // (name, max, size, rank)
            {
                uint64_t m  = constVal(a[1]);
                uint32_t id = newObj(constString(a[0]), m, T_);
                objs[id].input = true;
                objs[id].heap  = true;
                objs[id].rank  = unsigned(constVal(a[3]));
                if (!isConst(a[2])) { objs[id].constSize = false; }
                objs[id].size    = a[2];
                if (isConst(a[2])) objs[id].maxSize = std::min(m, constVal(a[2]));
                out = addrOf(id);
                return true;
            }
            if (n == "vp_no_heap") // from here on: no dynamic memory (argument 1) / allowed again (0)
            {
                noHeap = constVal(a[0]) != 0;
                return true;
            }
            if (n == "vp_max_alloc") // from here on: no request of more bytes than this (0: any)
            {
                maxAlloc = constVal(a[0]);
                return true;
            }
            if (n == "vp_no_leak") // every object allocated so far in this entry is released, unless a global refers to it
            {
                std::string       r = constString(a[0]);
                std::set<uint32_t> held;
                std::vector<uint32_t> work;
                auto scan = [&](uint32_t id) {
                    auto& b = objs[id].bits;
                    for (size_t o = 0; o + 64 <= b.size(); o += 64)
                    {
                        BV w(b.begin() + o, b.begin() + o + 64);
                        if (!isConst(w)) continue;
                        uint32_t t = uint32_t(constVal(w) >> 32);
                        if (t && t < objs.size() && objs[t].heap && held.insert(t).second) work.push_back(t);
                    }
                };
                for (uint32_t id = 1; id < objs.size(); ++id)
                    if (!objs[id].heap && !objs[id].stack && !objs[id].readOnly) scan(id);
                while (!work.empty())
                {
                    uint32_t id = work.back();
                    work.pop_back();
                    scan(id);
                }
                ++nCheck;
                ++obligations[r];
                B live = F_;
                for (uint32_t id = firstEntryObj; id < objs.size(); ++id)
                    if (objs[id].heap && !held.count(id)) live = bdd.Or(live, bdd.And(objs[id].allocGuard, Bdd::neg(objs[id].freed)));
                oblige("check", r, g, Bdd::neg(live), C);
                return true;
            }
            if (n == "vp_is_const")
            {
                out = { isConst(a[0]) ? T_ : F_ };
                return true;
            }
        }
        if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t")
        {
            if (noHeap) oblige("heap", "dynamic memory is requested where none may be", g, F_, C);
            if (maxAlloc) oblige("heap", "more dynamic memory is requested than the configured limit allows", g, Bdd::neg(ult(constBV(maxAlloc, 64), a[0])), C);
            out = allocHeap(a[0], g, C);
            return true;
        }
        if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "free" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t")
        {
            size_t budget = 256;
            enumBits(a[0], 32, 64, g, 0, budget, [&](uint64_t id, B gg) {
                if (id == 0) return;
                if (id >= objs.size() || !objs[id].heap)
                {
                    if (flagMem) oblige("mem", "deallocation of a non-heap object", gg, F_, C);
                    return;
                }
                if (flagMem)
                {
                    ++nMem;
                    oblige("mem", "double deallocation", gg, Bdd::neg(objs[id].freed), C);
                    BV off(a[0].begin(), a[0].begin() + 32);
                    oblige("mem", "deallocation of interior pointer", gg, eq(off, constBV(0, 32)), C);
                }
                objs[id].freed = bdd.Or(objs[id].freed, gg);
            });
            return true;
        }
        if (n == "memcpy" || n == "memmove") { copyMem(a[0], a[1], a[2], g, C); out = a[0]; return true; }
        if (n == "memset") { setMem(a[0], a[1], a[2], g, C); out = a[0]; return true; }
        if (n == "memcmp" || n == "bcmp")
        {
            uint64_t m = isConst(a[2]) ? constVal(a[2]) : maxVal(a[2], g);
            if (m > (isConst(a[2]) ? 1u << 20 : 4096u)) throw Unsupported("unbounded memcmp");
            BV r = constBV(0, 32);
            B  live = g;
            for (uint64_t i = 0; i < m; ++i)
            {
                B gi = bdd.And(live, ult(constBV(i, 64), a[2]));
                if (bdd.And(gi, assumption) == F_) break;
                BV x = loadBytes(add(a[0], constBV(i, 64)), 1, gi, C), y = loadBytes(add(a[1], constBV(i, 64)), 1, gi, C);
                B  l = ult(x, y), gr = ult(y, x);
                BV v = constBV(0, 32);
                for (unsigned k = 0; k < 32; ++k) v[k] = l;
                v[0] = bdd.Or(l, gr);
                r    = bvIte(gi, v, r);
                live = bdd.And(gi, Bdd::neg(bdd.Or(l, gr)));
            }
            out = r;
            return true;
        }
        if (n == "strlen")
        {
            BV r = constBV(0, 64);
            B  live = g;
            for (uint64_t i = 0; i < 4096; ++i)
            {
                if (bdd.And(live, assumption) == F_) { out = r; return true; }
                BV x = loadBytes(add(a[0], constBV(i, 64)), 1, live, C);
                B  z = eq(x, constBV(0, 8));
                r    = bvIte(bdd.And(live, z), constBV(i, 64), r);
                live = bdd.And(live, Bdd::neg(z));
            }
            throw Unsupported("unbounded strlen");
        }
        if (n == "memchr")
        {
            uint64_t m = isConst(a[2]) ? constVal(a[2]) : maxVal(a[2], g);
            if (m > (isConst(a[2]) ? 1u << 20 : 4096u)) throw Unsupported("unbounded memchr");
            BV r = constBV(0, 64);
            B  live = g;
            BV c(a[1].begin(), a[1].begin() + 8);
            for (uint64_t i = 0; i < m; ++i)
            {
                B gi = bdd.And(live, ult(constBV(i, 64), a[2]));
                if (bdd.And(gi, assumption) == F_) break;
                BV x = loadBytes(add(a[0], constBV(i, 64)), 1, gi, C);
                B  z = eq(x, c);
                r    = bvIte(bdd.And(gi, z), add(a[0], constBV(i, 64)), r);
                live = bdd.And(gi, Bdd::neg(z));
            }
            out = r;
            return true;
        }
        if (n == "__cxa_atexit" || n == "__cxa_guard_release" || n == "_ZNSt8ios_base4InitC1Ev" || n == "__cxa_guard_abort")
        {
            if (!f->getReturnType()->isVoidTy()) out = constBV(0, width(f->getReturnType()));
            return true;
        }
        if (n == "__cxa_guard_acquire")
        {
            BV v = loadBytes(a[0], 1, g, C);
            B  notInit = eq(v, constBV(0, 8));
            storeBytes(a[0], constBV(1, 8), g, C);
            out    = constBV(0, 32);
            out[0] = notInit;
            return true;
        }
        return false;
    }
    void intrinsic(Frame& fr, const CallBase* C, const Function* f, B& g)
    {
        auto A = [&](unsigned i) { return get(fr, C->getArgOperand(i)); };
        Type* t = C->getType();
        switch (f->getIntrinsicID())
        {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::donothing: case Intrinsic::prefetch:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::assume: return;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(A(0), A(1), A(2), g, C); return;
        case Intrinsic::memset: case Intrinsic::memset_inline: setMem(A(0), A(1), A(2), g, C); return;
        case Intrinsic::trap: case Intrinsic::ubsantrap:
            if (flagAbort) oblige("abort", "trap", g, F_, C);
            g = F_;
            return;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::ptr_annotation: case Intrinsic::annotation: fr.vals[C] = A(0); return;
        case Intrinsic::is_constant: fr.vals[C] = { isConst(A(0)) ? T_ : F_ }; return;
        case Intrinsic::objectsize: fr.vals[C] = constBV(~0ull, width(t)); return;
        case Intrinsic::umax: { BV a = A(0), b = A(1); fr.vals[C] = bvIte(ult(a, b), b, a); return; }
        case Intrinsic::umin: { BV a = A(0), b = A(1); fr.vals[C] = bvIte(ult(a, b), a, b); return; }
        case Intrinsic::smax: { BV a = A(0), b = A(1); fr.vals[C] = bvIte(slt(a, b), b, a); return; }
        case Intrinsic::smin: { BV a = A(0), b = A(1); fr.vals[C] = bvIte(slt(a, b), a, b); return; }
        case Intrinsic::abs: { BV a = A(0); fr.vals[C] = bvIte(a.back(), negBV(a), a); return; }
        case Intrinsic::bswap: {
            BV a = A(0), r;
            for (size_t i = a.size() / 8; i-- > 0;) r.insert(r.end(), a.begin() + i * 8, a.begin() + i * 8 + 8);
            fr.vals[C] = r;
            return;
        }
        case Intrinsic::fabs: { BV a = A(0); a.back() = F_; fr.vals[C] = a; return; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            BV a = A(0), b = A(1), s = A(2);
            if (!isConst(s)) throw Unsupported("fsh");
            unsigned n = unsigned(a.size()), k = unsigned(constVal(s) % n);
            BV r(n);
            // concat a:b
            auto bit = [&](unsigned i) { return i < n ? b[i] : a[i - n]; };
            for (unsigned i = 0; i < n; ++i) r[i] = f->getIntrinsicID() == Intrinsic::fshl ? bit(i + n - k) : bit(i + k);
            fr.vals[C] = r;
            return;
        }
        case Intrinsic::ctpop: {
            BV a = A(0), r = constBV(0, unsigned(a.size()));
            for (B x : a) { BV o = constBV(0, unsigned(a.size())); o[0] = x; r = add(r, o); }
            fr.vals[C] = r;
            return;
        }
        case Intrinsic::ctlz: case Intrinsic::cttz: {
            BV a = A(0);
            unsigned n = unsigned(a.size());
            BV r = constBV(n, n);
            if (f->getIntrinsicID() == Intrinsic::ctlz)
                for (unsigned i = 0; i < n; ++i) r = bvIte(a[i], constBV(n - 1 - i, n), r);
            else
                for (unsigned i = n; i-- > 0;) r = bvIte(a[i], constBV(i, n), r);
            fr.vals[C] = r;
            return;
        }
        case Intrinsic::uadd_sat: { B c; BV a = A(0); BV r = addc(a, A(1), F_, &c); fr.vals[C] = bvIte(c, BV(a.size(), T_), r); return; }
        case Intrinsic::usub_sat: { BV a = A(0), b = A(1); fr.vals[C] = bvIte(ult(a, b), BV(a.size(), F_), sub(a, b)); return; }
        case Intrinsic::uadd_with_overflow: { B c; BV r = addc(A(0), A(1), F_, &c); r.push_back(c); fr.vals[C] = r; return; }
        case Intrinsic::usub_with_overflow: { BV a = A(0), b = A(1); BV r = sub(a, b); r.push_back(ult(a, b)); fr.vals[C] = r; return; }
        case Intrinsic::sadd_with_overflow: { B c, p; BV r = addc(A(0), A(1), F_, &c, &p); r.push_back(bdd.Xor(c, p)); fr.vals[C] = r; return; }
        case Intrinsic::ssub_with_overflow: { B c, p; BV r = addc(A(0), bvNot(A(1)), T_, &c, &p); r.push_back(bdd.Xor(c, p)); fr.vals[C] = r; return; }
        case Intrinsic::umul_with_overflow: {
            BV a = A(0), b = A(1);
            unsigned n = unsigned(a.size());
            BV w = mul(ext(a, 2 * n, false), ext(b, 2 * n, false));
            B  o = F_;
            for (unsigned i = n; i < 2 * n; ++i) o = bdd.Or(o, w[i]);
            w.resize(n);
            w.push_back(o);
            fr.vals[C] = w;
            return;
        }
        default: {
            if (t->isVoidTy()) { unknownCalls.insert(f->getName().str()); return; }
            std::vector<BV> args;
            bool allc = true;
            for (unsigned i = 0; i < C->arg_size(); ++i) { args.push_back(A(i)); allc = allc && isConst(args.back()); }
            // fp rounding helpers on constants
            if (allc && t->isFloatingPointTy())
            {
                APFloat x = toFP(t, args[0]);
                switch (f->getIntrinsicID())
                {
                case Intrinsic::floor: x.roundToIntegral(APFloat::rmTowardNegative); fr.vals[C] = fromAP(x.bitcastToAPInt()); return;
                case Intrinsic::ceil: x.roundToIntegral(APFloat::rmTowardPositive); fr.vals[C] = fromAP(x.bitcastToAPInt()); return;
                case Intrinsic::round: x.roundToIntegral(APFloat::rmNearestTiesToAway); fr.vals[C] = fromAP(x.bitcastToAPInt()); return;
                case Intrinsic::fmuladd: case Intrinsic::fma:
                    x.multiply(toFP(t, args[1]), APFloat::rmNearestTiesToEven);
                    x.add(toFP(t, args[2]), APFloat::rmNearestTiesToEven);
                    fr.vals[C] = fromAP(x.bitcastToAPInt());
                    return;
                default: break;
                }
            }
            if (t->isFloatTy() || t->isDoubleTy())
            {
                if (f->getIntrinsicID() == Intrinsic::fabs) { args[0].back() = F_; fr.vals[C] = args[0]; return; }
                int k = -1;
                switch (f->getIntrinsicID())
                {
                case Intrinsic::round: k = AWAY; break;
                case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: k = EVEN; break;
                case Intrinsic::floor: k = DOWN; break;
                case Intrinsic::ceil: k = UP; break;
                case Intrinsic::trunc: k = ZERO; break;
                default: break;
                }
                if (k >= 0)
                {
                    BV a = args[0];
                    fr.vals[C] = fp({ &a }, g, [&] { return fpRound(a, mantOf(t), Round(k)); }, [&] { return uf(20000 + f->getIntrinsicID(), args, width(t)); });
                    return;
                }
                if (f->getIntrinsicID() == Intrinsic::fmuladd)
                {
                    BV a = args[0], b = args[1], c = args[2];
                    if (isConst(a) || isConst(b))
                    {
                        fr.vals[C] = fp({ &a, &b, &c }, g, [&] { return fpAdd(fpMul(a, b, mantOf(t)), c, mantOf(t)); }, [&] { return uf(20000 + f->getIntrinsicID(), args, width(t)); });
                        return;
                    }
                }
            }
            fr.vals[C] = uf(20000 + f->getIntrinsicID(), args, width(t));
            return;
        }
        }
    }

    uint32_t firstEntryObj = 1;
    void runCtors()
    {
        auto* gv = M.getGlobalVariable("llvm.global_ctors");
        if (!gv || !gv->hasInitializer()) return;
        auto* ca = dyn_cast<ConstantArray>(gv->getInitializer());
        if (!ca) return;
        std::vector<std::pair<uint64_t, const Function*>> v;
        for (auto& op : ca->operands())
        {
            auto* cs = cast<ConstantStruct>(op);
            if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                v.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f });
        }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& x : v)
        {
            B g = T_;
            invoke(x.second, {}, g, nullptr);
        }
    }
};

static std::string jesc(const std::string& s)
{
    std::string o = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char) c < 32 || (unsigned char) c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char) c); o += b; }
        else o += c;
    }
    return o + "\"";
}

int main(int argc, char** argv)
{
    std::string file, entry, repo = "/repo/";
    bool mem = false, ub = false, ab = false, list = false;
    double tl = 600;
    size_t nodes = 60;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--mem") mem = true;
        else if (a == "--ub") ub = true;
        else if (a == "--abort") ab = true;
        else if (a == "--list") list = true;
        else if (a == "--entry") entry = argv[++i];
        else if (a == "--repo") repo = argv[++i];
        else if (a == "--time") tl = atof(argv[++i]);
        else if (a == "--nodes") nodes = size_t(atol(argv[++i]));
        else file = a;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(file, err, ctx);
    if (!M) { err.print("vpa", errs()); return 2; }
    if (list)
    {
        for (auto& f : *M)
            if (!f.isDeclaration() && f.getName().starts_with("vpe_")) outs() << f.getName() << "\n";
        return 0;
    }
    // does a function of the library catch exceptions?
    bool handlers = false;
    for (auto& f : *M)
        if (auto* sp = f.getSubprogram(); sp && !f.isDeclaration())
        {
            std::string fn = sp->getFilename().str();
            if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
            if (fn.rfind(repo, 0) != 0) continue;
            for (auto& bb : f)
                if (auto* lp = bb.getLandingPadInst(); lp && lp->getNumClauses() > 0) handlers = true;
        }
    {
        PassBuilder PB;
        LoopAnalysisManager LAM;
        FunctionAnalysisManager FAM;
        CGSCCAnalysisManager CGAM;
        ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM);
        PB.registerCGSCCAnalyses(CGAM);
        PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        FunctionPassManager FPM;
        FPM.addPass(LowerInvokePass());
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(LoopSimplifyPass());
        FPM.addPass(LCSSAPass());
        // only functions reachable from the entry are needed, but the pass set is cheap
        for (auto& f : *M)
            if (!f.isDeclaration()) FPM.run(f, FAM);
    }
    auto* F = M->getFunction(entry);
    if (!F || F->isDeclaration()) { errs() << "no entry " << entry << "\n"; return 2; }
    Engine E(*M);
    E.flagMem = mem;
    E.flagUb = ub;
    E.flagAbort = ab;
    E.repoPrefix = repo;
    E.hasHandlers = handlers;
    E.timeLimit = tl;
    E.bdd.deadline = std::chrono::steady_clock::now() + std::chrono::milliseconds(uint64_t(tl * 1000));
    E.bdd.limit = nodes * 1000 * 1000;
    std::string status = "ok", reason;
    try
    {
        bool m = E.flagMem, u = E.flagUb;
        E.flagMem = E.flagUb = false;
        E.runCtors();
        E.flagMem = m; E.flagUb = u;
        E.nMem = E.nUb = E.nCalls = E.nInstr = 0;
        E.visited.clear();
        E.firstEntryObj = uint32_t(E.objs.size());
        B g = T_;
        E.invoke(F, {}, g, nullptr);
    }
    catch (Unsupported& e) { status = "inconclusive"; reason = std::string("unsupported: ") + e.what() + " at " + (E.callStack.empty() ? "" : E.fnName(E.callStack.back().second)); }
    catch (LimitExceeded& e) { status = "inconclusive"; reason = std::string("limit: ") + e.what() + " in " + (E.callStack.empty() ? "" : E.fnName(E.callStack.back().second)); }
    catch (std::bad_alloc&) { status = "inconclusive"; reason = "memory"; }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - E.t0).count();
    auto& o = outs();
    o << "{\"entry\":" << jesc(entry) << ",\"status\":" << jesc(status) << ",\"reason\":" << jesc(reason);
    o << ",\"checks\":" << E.nCheck << ",\"rules\":{";
    bool first = true;
    for (auto& r : E.obligations) { o << (first ? "" : ",") << jesc(r.first) << ":" << r.second; first = false; }
    o << "},\"mem_accesses\":" << E.nMem << ",\"ub_sites\":" << E.nUb << ",\"instructions\":" << E.nInstr << ",\"calls\":" << E.nCalls << ",\"joins\":" << E.nJoins
      << ",\"nodes\":" << E.bdd.nodes.size() << ",\"inputs\":" << E.bdd.vars.size() << ",\"max_loop\":" << E.maxLoopIter << ",\"wall\":" << std::to_string(wall);
    o << ",\"functions\":[";
    first = true;
    std::set<std::string> fs;
    for (auto* f : E.visited)
        if (auto* sp = f->getSubprogram())
        {
            std::string fn = sp->getFilename().str();
            if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
            if (fn.rfind(repo, 0) == 0) fs.insert(demangle(f->getName().str()) + " @ " + fn.substr(repo.size()) + ":" + std::to_string(sp->getLine()));
        }
    for (auto& s : fs) { o << (first ? "" : ",") << jesc(s); first = false; }
    o << "],\"covers_missing\":[";
    first = true;
    for (auto& s : E.coverAll)
        if (!E.covers.count(s)) { o << (first ? "" : ",") << jesc(s); first = false; }
    o << "],\"unknown_calls\":[";
    first = true;
    for (auto& s : E.unknownCalls) { o << (first ? "" : ",") << jesc(s); first = false; }
    o << "],\"inconclusive\":[";
    first = true;
    for (auto& s : E.inconclusive) { o << (first ? "" : ",") << jesc(s); first = false; }
    o << "],\"violations\":[";
    first = true;
    for (auto& v : E.violations)
    {
        o << (first ? "" : ",") << "{\"category\":" << jesc(v.category) << ",\"rule\":" << jesc(v.rule) << ",\"where\":" << jesc(v.where) << ",\"witness\":" << jesc(v.witness)
          << ",\"detail\":" << jesc(v.detail) << ",\"stack\":" << jesc(v.stack) << "}";
        first = false;
    }
    o << "]}\n";
    return 0;
}
