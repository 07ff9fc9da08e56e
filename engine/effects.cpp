// Effect analysis over the linked IR of the library: which objects may each function write, which functions may it
// reach. Flow-insensitive inside a function, interprocedural by fixpoint over parameter summaries. Nothing is executed.
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <map>
#include <set>
using namespace llvm;

// a location an address may point into
struct Loc
{
    enum Kind { Global, Param, Local, Unknown } kind;
    const Value* v;
    bool deep;           // reached through a pointer stored in the object
    bool merged = false; // one of several pointers kept in the same local object: the analysis cannot tell which
    bool operator<(const Loc& o) const { return std::tie(kind, v, deep, merged) < std::tie(o.kind, o.v, o.deep, o.merged); }
};
using Locs = std::set<Loc>;

struct Site { const Instruction* I; std::string via; };
struct Key
{
    unsigned param;
    bool     deep, merged;
    bool operator<(const Key& o) const { return std::tie(param, deep, merged) < std::tie(o.param, o.deep, o.merged); }
};
struct Summary
{
    std::map<Key, Site> writes; // first site
    Locs                                      returns;
    std::map<std::pair<const GlobalVariable*, bool>, std::vector<Site>> globals; // direct or through an argument, this function's own sites
};

static std::string repo = "/repo/";
static std::map<const Function*, Summary> sums;
static std::map<const Function*, std::map<const Value*, Locs>> cache;
static std::map<const Function*, std::map<const Value*, std::vector<const Value*>>> stored; // alloca -> values stored into it

static std::string fileOf(const DIScope* s)
{
    if (!s || !s->getFile()) return "";
    std::string fn = s->getFilename().str();
    if (!fn.empty() && fn[0] != '/') fn = s->getDirectory().str() + "/" + fn;
    return fn;
}
static std::string fileOf(const Function* f) { return f->getSubprogram() ? fileOf(f->getSubprogram()) : ""; }
static bool inRepo(const std::string& f) { return f.rfind(repo, 0) == 0; }
static bool inRepo(const Function* f) { return inRepo(fileOf(f)); }
static std::string where(const Instruction* I)
{
    // the innermost inlined-at location inside the library, else the instruction's own function
    if (auto* d = I->getDebugLoc().get())
        if (d->getLine())
        {
            std::string fn = d->getFilename().str();
            if (!fn.empty() && fn[0] != '/') fn = d->getDirectory().str() + "/" + fn;
            return fn + ":" + std::to_string(d->getLine()) + " in " + demangle(I->getFunction()->getName().str());
        }
    return demangle(I->getFunction()->getName().str());
}

static void addStored(const Function& f)
{
    auto& m = stored[&f];
    for (auto& I : instructions(f))
    {
        if (auto* s = dyn_cast<StoreInst>(&I))
        {
            if (s->getValueOperand()->getType()->isPointerTy())
                if (auto* b = getUnderlyingObject(s->getPointerOperand())) m[b].push_back(s->getValueOperand());
        }
        else if (auto* mc = dyn_cast<AnyMemTransferInst>(&I))
            m[getUnderlyingObject(mc->getDest())].push_back(mc->getSource());
    }
}

static Locs bases(const Function* f, const Value* v, unsigned depth = 0);
static const Locs& basesC(const Function* f, const Value* v, unsigned depth);
// what the pointers kept in a local object refer to
static Locs kept(const Function* f, const Value* object, unsigned depth)
{
    Locs  r;
    auto& m  = stored[f];
    auto  it = m.find(object);
    if (it == m.end()) return r;
    for (auto* s : it->second)
        for (auto& x : basesC(f, s, depth + 1)) r.insert(x);
    std::set<const Value*> distinct;
    for (auto& x : r) distinct.insert(x.v);
    if (distinct.size() < 2) return r;
    Locs q;
    for (auto x : r) { x.merged = true; q.insert(x); }
    return q;
}
static const Locs& basesC(const Function* f, const Value* v, unsigned depth)
{
    auto& c  = cache[f];
    auto  it = c.find(v);
    if (it != c.end()) return it->second;
    c[v] = {}; // cycles: fixpoint from below (outer iteration repeats)
    auto r = bases(f, v, depth);
    return c[v] = r;
}
static Locs bases(const Function* f, const Value* v, unsigned depth)
{
    Locs r;
    if (depth > 60) return { { Loc::Unknown, nullptr, false } };
    if (auto* g = dyn_cast<GlobalVariable>(v)) return { { Loc::Global, g, false } };
    if (isa<Function>(v) || isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) return r;
    if (auto* ce = dyn_cast<ConstantExpr>(v))
    {
        for (auto& o : ce->operands())
            if (o->getType()->isPointerTy()) for (auto& l : basesC(f, o, depth + 1)) r.insert(l);
        return r;
    }
    if (auto* a = dyn_cast<Argument>(v)) return { { Loc::Param, a, false } };
    if (auto* a = dyn_cast<AllocaInst>(v)) return { { Loc::Local, a, false } };
    if (auto* g = dyn_cast<GetElementPtrInst>(v)) return basesC(f, g->getPointerOperand(), depth + 1);
    if (auto* c = dyn_cast<CastInst>(v)) return c->getOperand(0)->getType()->isPointerTy() ? basesC(f, c->getOperand(0), depth + 1) : r;
    if (auto* fr = dyn_cast<FreezeInst>(v)) return basesC(f, fr->getOperand(0), depth + 1);
    if (auto* p = dyn_cast<PHINode>(v))
    {
        for (auto& o : p->incoming_values()) for (auto& l : basesC(f, o, depth + 1)) r.insert(l);
        return r;
    }
    if (auto* s = dyn_cast<SelectInst>(v))
    {
        for (auto* o : { s->getTrueValue(), s->getFalseValue() }) for (auto& l : basesC(f, o, depth + 1)) r.insert(l);
        return r;
    }
    if (auto* l = dyn_cast<LoadInst>(v))
    {
        for (auto& b : basesC(f, l->getPointerOperand(), depth + 1))
        {
            if (b.kind == Loc::Local)
            {
                for (auto x : kept(f, b.v, depth)) { x.merged |= b.merged; r.insert(x); }
            }
            else if (b.kind == Loc::Global)
            {
                // pointers found in constant tables and vtables are code or constants
                if (cast<GlobalVariable>(b.v)->isConstant()) continue;
                r.insert({ Loc::Global, b.v, true, b.merged });
            }
            else r.insert({ b.kind, b.v, true, b.merged });
        }
        return r;
    }
    if (auto* c = dyn_cast<CallBase>(v))
    {
        auto* t = c->getCalledFunction();
        if (t && t->getIntrinsicID() == Intrinsic::threadlocal_address) return basesC(f, c->getArgOperand(0), depth + 1);
        if (t && !t->isDeclaration())
        {
            for (auto& b : sums[t].returns)
            {
                if (b.kind == Loc::Param)
                {
                    unsigned i = cast<Argument>(b.v)->getArgNo();
                    if (i < c->arg_size())
                        for (auto& x : basesC(f, c->getArgOperand(i), depth + 1))
                        {
                            if (b.deep && x.kind == Loc::Local)
                            {
                                for (auto y : kept(f, x.v, depth)) { y.merged |= x.merged | b.merged; r.insert(y); }
                            }
                            else r.insert({ x.kind, x.v, x.deep || b.deep, x.merged || b.merged });
                        }
                }
                else if (b.kind == Loc::Global) r.insert(b);
            }
            return r;
        }
        return r; // fresh or external memory
    }
    if (auto* e = dyn_cast<ExtractValueInst>(v)) { (void) e; return { { Loc::Unknown, nullptr, false } }; }
    return { { Loc::Unknown, nullptr, false } };
}

// a function outside the linked code that changes the object its first argument points to: the out-of-line members of
// standard library templates (std::string::append and the like), and the memory functions of the C library
static const Value* writtenByExternal(const CallBase* c, const Function* t)
{
    StringRef n = t->getName();
    unsigned  i = 0;
    if (n.starts_with("_ZN") && !n.starts_with("_ZNK")) i = c->arg_size() && c->paramHasAttr(0, Attribute::StructRet) ? 1 : 0;
    else if (n != "memcpy" && n != "memmove" && n != "memset" && n != "strcpy" && n != "strncpy" && n != "strcat" && n != "sprintf" && n != "snprintf") return nullptr;
    if (i >= c->arg_size() || !c->getArgOperand(i)->getType()->isPointerTy()) return nullptr;
    return c->getArgOperand(i);
}

template<typename Fn>
static void writesOf(const Function& f, Fn&& fn)
{
    for (auto& I : instructions(f))
    {
        if (auto* s = dyn_cast<StoreInst>(&I)) fn(&I, s->getPointerOperand(), false, false, std::string());
        else if (auto* a = dyn_cast<AtomicRMWInst>(&I)) fn(&I, a->getPointerOperand(), false, false, std::string("atomic operation"));
        else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I)) fn(&I, x->getPointerOperand(), false, false, std::string("atomic operation"));
        else if (auto* m = dyn_cast<AnyMemIntrinsic>(&I)) fn(&I, m->getRawDest(), false, false, std::string("copy"));
        else if (auto* c = dyn_cast<CallBase>(&I))
        {
            auto* t = c->getCalledFunction();
            if (!t || t->isIntrinsic()) continue;
            if (t->isDeclaration())
            {
                if (auto* p = writtenByExternal(c, t)) fn(&I, p, false, false, demangle(t->getName().str()));
                continue;
            }
            for (auto& w : sums[t].writes)
                if (w.first.param < c->arg_size() && c->getArgOperand(w.first.param)->getType()->isPointerTy())
                    fn(&I, c->getArgOperand(w.first.param), w.first.deep, w.first.merged, demangle(t->getName().str()));
        }
    }
}

// code of a closure, or of a template instantiated with one
static bool closureCode(const Function& f)
{
    if (f.getInstructionCount() > 400) return false;
    for (auto& I : instructions(f))
        if (auto* c = dyn_cast<CallBase>(&I); c && c->getCalledFunction() == &f) return false;
    std::string d = demangle(f.getName().str());
    return (d.find("lambda") != std::string::npos || d.find("$_") != std::string::npos) && d.find("std::function") == std::string::npos && d.find("_Function_handler") == std::string::npos;
}

// does an object of this type refer to objects it does not own and may change (closures, output helpers, callbacks)?
static bool refersToMutable(const DIType* t, unsigned depth = 0)
{
    if (!t || depth > 8) return false;
    if (auto* d = dyn_cast<DIDerivedType>(t))
    {
        switch (d->getTag())
        {
        case dwarf::DW_TAG_pointer_type:
        case dwarf::DW_TAG_reference_type:
        case dwarf::DW_TAG_rvalue_reference_type: {
            const DIType* b = d->getBaseType();
            while (auto* x = dyn_cast_or_null<DIDerivedType>(b))
            {
                if (x->getTag() == dwarf::DW_TAG_const_type) return false;
                if (x->getTag() != dwarf::DW_TAG_typedef) break;
                b = x->getBaseType();
            }
            return true;
        }
        default:
            return refersToMutable(d->getBaseType(), depth + 1);
        }
    }
    if (auto* c = dyn_cast<DICompositeType>(t))
    {
        auto n = c->getName();
        if (n.starts_with("vector<") || n.starts_with("basic_string<") || n.starts_with("unique_ptr<")) return false; // owned
        if (n.starts_with("function<")) return true;
        for (auto* e : c->getElements())
        {
            auto* m = dyn_cast_or_null<DIDerivedType>(e);
            if (!m || m->isStaticMember()) continue;
            if (m->getTag() != dwarf::DW_TAG_member && m->getTag() != dwarf::DW_TAG_inheritance) continue;
            if (refersToMutable(m->getBaseType(), depth + 1)) return true;
        }
    }
    return false;
}

static std::string js(const std::string& s)
{
    std::string o = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char) c < 32 || (unsigned char) c > 126) o += '?';
        else o += c;
    }
    return o + "\"";
}

int main(int argc, char** argv)
{
    std::string file;
    std::set<std::string> rtFiles;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--repo") repo = argv[++i];
        else if (a == "--rt") rtFiles.insert(argv[++i]);
        else file = a;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(file, err, ctx);
    if (!M) { err.print("effects", errs()); return 2; }
    {
        PassBuilder PB;
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        // closures and small helpers dissolve into their callers, so that what they refer to stays apart
        for (unsigned round = 0; round < 6; ++round)
        {
            std::vector<CallBase*> sites;
            for (auto& f : *M)
                for (auto& I : instructions(f))
                    if (auto* c = dyn_cast<CallBase>(&I))
                        if (auto* t = c->getCalledFunction(); t && !t->isDeclaration() && t != &f && closureCode(*t)) sites.push_back(c);
            if (sites.empty()) break;
            for (auto* c : sites)
            {
                InlineFunctionInfo info;
                InlineFunction(*c, info);
            }
        }
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        for (auto& f : *M)
            if (!f.isDeclaration()) FPM.run(f, FAM);
    }
    for (auto& f : *M)
        if (!f.isDeclaration()) addStored(f);
    // fixpoint over parameter summaries
    unsigned rounds = 0;
    for (bool changed = true; changed && rounds < 60; ++rounds)
    {
        changed = false;
        cache.clear();
        for (auto& f : *M)
        {
            if (f.isDeclaration()) continue;
            auto& s = sums[&f];
            writesOf(f, [&](const Instruction* I, const Value* p, bool deep, bool merged, const std::string& via) {
                auto note = [&](const Loc& b, bool d, bool m) {
                    Key k{ cast<Argument>(b.v)->getArgNo(), b.deep || d, b.merged || m };
                    if (!s.writes.count(k)) { s.writes[k] = { I, via }; changed = true; }
                };
                for (auto& b : basesC(&f, p, 0))
                {
                    if (b.kind == Loc::Param) note(b, deep, merged);
                    else if (b.kind == Loc::Local && deep)
                        for (auto& x : kept(&f, b.v, 0)) // writes through pointers kept in a local object
                            if (x.kind == Loc::Param) note(x, false, merged || b.merged);
                }
            });
            for (auto& I : instructions(f))
                if (auto* r = dyn_cast<ReturnInst>(&I))
                    if (r->getReturnValue() && r->getReturnValue()->getType()->isPointerTy())
                        for (auto& b : basesC(&f, r->getReturnValue(), 0))
                            if ((b.kind == Loc::Param || b.kind == Loc::Global) && s.returns.insert(b).second) changed = true;
        }
    }
    cache.clear();

    auto& o = outs();
    std::vector<std::string> viol, inc;
    auto violation = [&](const std::string& rule, const std::string& w, const std::string& detail) {
        viol.push_back("{\"category\":\"effect\",\"rule\":" + js(rule) + ",\"where\":" + js(w) + ",\"detail\":" + js(detail) + "}");
    };
    unsigned nFun = 0, nStores = 0, nCalls = 0, nConst = 0, nConstRef = 0, nGlobals = 0, nRt = 0, nIndirect = 0, nInit = 0;
    std::set<std::string> funs;

    std::map<const GlobalVariable*, const DIGlobalVariable*> repoGlobals;
    for (auto& g : M->globals())
    {
        SmallVector<DIGlobalVariableExpression*, 1> e;
        g.getDebugInfo(e);
        for (auto* x : e)
        {
            auto* v = x->getVariable();
            std::string fn = v->getFile() ? v->getFile()->getFilename().str() : "";
            if (!fn.empty() && fn[0] != '/') fn = v->getFile()->getDirectory().str() + "/" + fn;
            if (inRepo(fn)) { repoGlobals[&g] = v; ++nGlobals; }
        }
    }
    static const std::set<std::string> nonReentrant = { "rand", "srand", "random", "srandom", "drand48", "strtok", "localtime", "gmtime", "asctime", "ctime",
                                                        "setlocale", "strerror", "tmpnam", "setenv", "putenv", "unsetenv", "getenv", "gethostbyname", "signal", "raise", "chdir", "umask",
                                                        "_ZNSt6locale6globalERKS_", "exit", "_exit", "quick_exit" };
    // real time: reachability of dynamic memory and blocking calls
    static const std::set<std::string> heapFns = { "_Znwm", "_Znam", "malloc", "calloc", "realloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t",
                                                   "_ZnamRKSt9nothrow_t", "posix_memalign", "aligned_alloc", "strdup" };
    std::map<const Function*, const CallBase*> toHeap, toBlock;
    auto isBlock = [](StringRef n) { return n == "pthread_mutex_lock" || n == "pthread_cond_wait" || n == "nanosleep" || n == "usleep" || n == "sleep" || n == "poll" || n == "select" ||
                                            n == "read" || n == "write" || n == "fopen" || n == "printf" || n == "fprintf" || n == "puts" || n == "fwrite" || n == "fflush" || n == "system"; };
    for (bool ch = true; ch;)
    {
        ch = false;
        for (auto& f : *M)
        {
            if (f.isDeclaration()) continue;
            for (auto& I : instructions(f))
                if (auto* c = dyn_cast<CallBase>(&I))
                    if (auto* t = c->getCalledFunction())
                    {
                        StringRef n = t->getName();
                        if (!toHeap.count(&f) && (heapFns.count(n.str()) || toHeap.count(t))) { toHeap[&f] = c; ch = true; }
                        if (!toBlock.count(&f) && (isBlock(n) || toBlock.count(t))) { toBlock[&f] = c; ch = true; }
                    }
        }
    }
    auto chain = [&](const std::map<const Function*, const CallBase*>& m, const Function* f) {
        std::string r;
        for (unsigned i = 0; i < 12; ++i)
        {
            r += (i ? " -> " : "") + demangle(f->getName().str());
            auto it = m.find(f);
            if (it == m.end()) break;
            f = it->second->getCalledFunction();
        }
        return r;
    };

    for (auto& f : *M)
    {
        if (f.isDeclaration() || !inRepo(&f)) continue;
        if (f.getName().starts_with("__cxx_global") || f.getName().starts_with("_GLOBAL__")) { ++nInit; continue; }
        ++nFun;
        funs.insert(demangle(f.getName().str()) + " @ " + fileOf(&f).substr(repo.size()) + ":" + std::to_string(f.getSubprogram()->getLine()));
        DominatorTree DT(f);
        // regions that run once, under the compiler's guard for static locals
        std::vector<const BasicBlock*> initRegions;
        for (auto& I : instructions(f))
            if (auto* c = dyn_cast<CallBase>(&I))
            {
                ++nCalls;
                auto* t = c->getCalledFunction();
                if (!t) { ++nIndirect; continue; }
                if (t->getName() == "__cxa_guard_acquire")
                    for (auto* u : c->users())
                        if (auto* ic = dyn_cast<ICmpInst>(u))
                            for (auto* u2 : ic->users())
                                if (auto* br = dyn_cast<BranchInst>(u2); br && br->isConditional()) initRegions.push_back(br->getSuccessor(ic->getPredicate() == ICmpInst::ICMP_NE ? 0 : 1));
                // thread local variables have a plain guard byte
                if (t->getIntrinsicID() == Intrinsic::threadlocal_address && c->getArgOperand(0)->getName().starts_with("_ZGV"))
                    for (auto* u : c->users())
                        if (auto* ld = dyn_cast<LoadInst>(u))
                            for (auto* u1 : ld->users())
                                if (auto* ic = dyn_cast<ICmpInst>(u1))
                                    for (auto* u2 : ic->users())
                                        if (auto* br = dyn_cast<BranchInst>(u2); br && br->isConditional())
                                            initRegions.push_back(br->getSuccessor(ic->getPredicate() == ICmpInst::ICMP_NE ? 1 : 0));
                std::string d = demangle(t->getName().str());
                if (nonReentrant.count(t->getName().str()))
                    violation("the library calls no function that keeps or changes process wide state", where(&I), d);
            }
        writesOf(f, [&](const Instruction* I, const Value* p, bool deep, bool merged, const std::string& via) {
            ++nStores;
            Locs where_to = basesC(&f, p, 0);
            if (deep)
                for (auto& b : basesC(&f, p, 0))
                    if (b.kind == Loc::Local)
                        for (auto& x : kept(&f, b.v, 0)) where_to.insert(x);
            for (auto& b : where_to)
            {
                if (b.kind != Loc::Global) continue;
                auto* g = cast<GlobalVariable>(b.v);
                if (!repoGlobals.count(g)) continue;
                bool init = false;
                for (auto* r : initRegions)
                    if (DT.dominates(r, I->getParent())) init = true;
                if (init) { ++nInit; continue; }
                std::string w = where(I);
                if (b.merged || merged) { inc.push_back("possible write to static object " + demangle(g->getName().str()) + ": " + w); continue; }
                violation("no library function writes to a static object", w, demangle(g->getName().str()) + (via.empty() ? "" : " via " + via));
            }
        });
        // constness
        auto& s = sums[&f];
        for (auto& I : instructions(f))
            if (auto* dv = dyn_cast<DbgVariableIntrinsic>(&I))
            {
                if (!dv->getVariable()->isParameter() || dv->getVariable()->getScope()->getSubprogram() != f.getSubprogram() || dv->getDebugLoc().getInlinedAt()) continue;
                if (dv->hasArgList() || dv->getNumVariableLocationOps() != 1) continue;
                auto* a = dyn_cast_or_null<Argument>(dv->getVariableLocationOp(0));
                if (!a || !a->getType()->isPointerTy()) continue;
                auto* t = dyn_cast_or_null<DIDerivedType>(dv->getVariable()->getType());
                while (t && t->getTag() == dwarf::DW_TAG_const_type) t = dyn_cast_or_null<DIDerivedType>(t->getBaseType());
                if (!t) continue;
                if (t->getTag() != dwarf::DW_TAG_reference_type && t->getTag() != dwarf::DW_TAG_pointer_type) continue;
                auto* c = dyn_cast_or_null<DIDerivedType>(t->getBaseType());
                if (!c || c->getTag() != dwarf::DW_TAG_const_type) continue;
                const bool isThis = dv->getVariable()->isArtificial();
                // function objects (closures, functors) refer to other objects by design: only their own members count
                std::string dn = demangle(f.getName().str());
                const bool functor = dn.find("operator()") != std::string::npos || dn.find("anonymous namespace") != std::string::npos || dn.find("::detail::") != std::string::npos ||
                                     dn.find("::impl::") != std::string::npos || dn.find("'lambda") != std::string::npos || dn.find("::$_") != std::string::npos;
                if (isThis) ++nConst; else ++nConstRef;
                for (bool deep : { false, true })
                {
                    if (deep && (functor || refersToMutable(c->getBaseType()))) continue;
                    if (auto m = s.writes.find({ a->getArgNo(), deep, true }); m != s.writes.end())
                        inc.push_back("possible write through " + dv->getVariable()->getName().str() + ": " + where(m->second.I));
                    auto it = s.writes.find({ a->getArgNo(), deep, false });
                    if (it == s.writes.end()) continue;
                    violation(isThis ? "const member functions do not modify their object" : "arguments passed as const reference or pointer are not modified",
                              where(it->second.I), std::string(deep ? "memory owned by " : "") + dv->getVariable()->getName().str() + (it->second.via.empty() ? "" : " via " + it->second.via));
                    break;
                }
            }
        // real time
        std::string fn = fileOf(&f).substr(repo.size());
        if (rtFiles.count(fn))
        {
            std::string d = demangle(f.getName().str());
            bool owning = d.find("basic_string<") != std::string::npos || d.find("std::vector<") != std::string::npos || d.find("midi::sysex") != std::string::npos ||
                          d.find("ostream") != std::string::npos || d.find("istream") != std::string::npos;
            if (auto* ty = f.getSubprogram()->getType())
                for (auto* e : ty->getTypeArray())
                    if (e)
                    {
                        std::string n;
                        const DIType* x = e;
                        while (auto* dd = dyn_cast_or_null<DIDerivedType>(x))
                        {
                            n += dd->getName().str() + " ";
                            x = dd->getBaseType();
                        }
                        if (x) n += x->getName().str();
                        if (n.find("basic_string<") != std::string::npos || n.find("vector<") != std::string::npos) owning = true;
                    }
            if (owning) continue;
            ++nRt;
            if (toHeap.count(&f)) violation("packet functions request no dynamic memory", fn + ":" + std::to_string(f.getSubprogram()->getLine()), chain(toHeap, &f));
            if (toBlock.count(&f)) violation("packet functions do not block", fn + ":" + std::to_string(f.getSubprogram()->getLine()), chain(toBlock, &f));
        }
    }
    auto list = [&](const std::vector<std::string>& v, bool quote) {
        std::string r = "[";
        for (auto& x : v) r += (r.size() > 1 ? "," : "") + (quote ? js(x) : x);
        return r + "]";
    };
    o << "{\"functions\":" << list(std::vector<std::string>(funs.begin(), funs.end()), true) << ",\"n_functions\":" << nFun << ",\"writes\":" << nStores << ",\"calls\":" << nCalls
      << ",\"indirect_calls\":" << nIndirect << ",\"const_methods\":" << nConst << ",\"const_arguments\":" << nConstRef << ",\"static_objects\":" << nGlobals << ",\"once_only_initialisations\":" << nInit
      << ",\"real_time_functions\":" << nRt << ",\"rounds\":" << rounds << ",\"inconclusive\":" << list(inc, true) << ",\"violations\":" << list(viol, false) << "}\n";
    return 0;
}
