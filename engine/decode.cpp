#include "engine.h"
#include <algorithm>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

static const std::unordered_map<std::string, int>& intrTable()
{
    static const std::unordered_map<std::string, int> t = {
        {"_Znwm", X_MALLOC},
        {"_Znam", X_MALLOC},
        {"malloc", X_MALLOC},
        {"__cxa_allocate_raw", X_MALLOC},
        {"_ZnwmSt11align_val_t", X_MALLOC},
        {"_ZnwmRKSt9nothrow_t", X_MALLOC},
        {"_ZnamRKSt9nothrow_t", X_MALLOC},
        {"_ZdlPv", X_FREE},
        {"_ZdaPv", X_FREE},
        {"_ZdlPvm", X_FREE},
        {"_ZdaPvm", X_FREE},
        {"_ZdlPvSt11align_val_t", X_FREE},
        {"_ZdlPvmSt11align_val_t", X_FREE},
        {"_ZdlPvRKSt9nothrow_t", X_FREE},
        {"_ZdaPvRKSt9nothrow_t", X_FREE},
        {"free", X_FREE},
        {"memcpy", X_MEMCPY},
        {"memmove", X_MEMCPY},
        {"memset", X_MEMSET},
        {"memcmp", X_MEMCMP},
        {"bcmp", X_MEMCMP},
        {"strlen", X_STRLEN},
        {"snprintf", X_SNPRINTF},
        {"pthread_mutex_lock", X_LOCK},
        {"pthread_mutex_trylock", X_TRYLOCK},
        {"pthread_mutex_unlock", X_UNLOCK},
        {"pthread_mutex_destroy", X_NOP},
        {"pthread_mutex_init", X_NOP},
        {"pthread_cond_wait", X_CVWAIT},
        {"pthread_cond_clockwait", X_CVTIMED},
        {"pthread_cond_timedwait", X_CVTIMED},
        {"pthread_cond_signal", X_CVNOTIFY_ONE},
        {"pthread_cond_broadcast", X_CVNOTIFY_ALL},
        {"pthread_cond_destroy", X_CVDESTROY},
        {"pthread_rwlock_rdlock", X_RDLOCK},
        {"pthread_rwlock_wrlock", X_WRLOCK},
        {"pthread_rwlock_tryrdlock", X_TRYRD},
        {"pthread_rwlock_trywrlock", X_TRYWR},
        {"pthread_rwlock_unlock", X_RWUNLOCK},
        {"pthread_self", X_SELF},
        {"vp_thread_create", X_TCREATE},
        {"vp_thread_join", X_TJOIN},
        {"vp_thread_detach", X_TDETACH},
        {"sched_yield", X_YIELD},
        {"vp_yield", X_YIELD},
        {"nanosleep", X_NANOSLEEP},
        {"_ZNSt6chrono3_V212steady_clock3nowEv", X_NOW},
        {"_ZNSt6chrono3_V212system_clock3nowEv", X_NOW},
        {"vp_unwind", X_UNWIND},
        {"_ZSt9terminatev", X_TERMINATE},
        {"abort", X_TERMINATE},
        {"__cxa_pure_virtual", X_TERMINATE},
        {"__assert_fail", X_ASSERTFAIL},
        {"_ZSt21__glibcxx_assert_failPKciS0_S0_", X_ASSERTFAIL},
        {"__cxa_atexit", X_NOP},
        {"vp_start", X_VP_START},
        {"vp_end", X_VP_END},
        {"vp_final", X_VP_FINAL},
        {"vp_stop", X_VP_STOP},
        {"vp_assert_impl", X_VP_ASSERT},
        {"vp_assume", X_VP_ASSUME},
        {"vp_nondet_u64", X_VP_NONDET},
        {"vp_nondet_u32", X_VP_NONDET},
        {"vp_nondet_u16", X_VP_NONDET},
        {"vp_nondet_u8", X_VP_NONDET},
        {"vp_nondet_bool", X_VP_NONDET},
        {"vp_reach", X_VP_REACH},
        {"vp_expect", X_VP_EXPECT},
        {"vp_log", X_VP_LOG},
        {"vp_timeouts", X_VP_TIMEOUTS},
        {"vp_spurious", X_VP_SPURIOUS},
        {"vp_clock", X_VP_CLOCK},
        {"vp_time", X_VP_TIME},
        {"vp_deadline", X_VP_DEADLINE},
        {"vp_timed_waits", X_VP_TIMEDWAITS},
        {"vp_tid", X_VP_TID},
        {"vp_live", X_VP_LIVE},
        {"vp_advance", X_VP_ADVANCE},
        {"vp_held", X_VP_HELD},
        {"vp_concretize", X_VP_CONCR},
    };
    return t;
}

static int llvmIntr(StringRef n)
{
    auto sw = [&](const char* p) { return n.starts_with(p); };
    if(sw("llvm.memcpy") || sw("llvm.memmove")) return X_MEMCPY;
    if(sw("llvm.memset")) return X_MEMSET;
    if(sw("llvm.lifetime") || sw("llvm.assume") || sw("llvm.experimental.noalias") || sw("llvm.dbg") ||
       sw("llvm.prefetch") || sw("llvm.invariant") || sw("llvm.donothing"))
        return X_NOP;
    if(sw("llvm.threadlocal.address")) return X_TLSADDR;
    if(sw("llvm.umax")) return X_UMAX;
    if(sw("llvm.umin")) return X_UMIN;
    if(sw("llvm.smax")) return X_SMAX;
    if(sw("llvm.smin")) return X_SMIN;
    if(sw("llvm.abs")) return X_ABS;
    if(sw("llvm.ceil")) return X_CEIL;
    if(sw("llvm.eh.typeid.for")) return X_TYPEID;
    if(sw("llvm.trap")) return X_TRAP;
    if(sw("llvm.bswap")) return X_BSWAP;
    if(sw("llvm.ctlz")) return X_CTLZ;
    if(sw("llvm.cttz")) return X_CTTZ;
    if(sw("llvm.ctpop")) return X_CTPOP;
    if(sw("llvm.usub.sat")) return X_USUBSAT;
    if(sw("llvm.uadd.with.overflow")) return X_UADDO;
    if(sw("llvm.umul.with.overflow")) return X_UMULO;
    if(sw("llvm.fshl")) return X_FSHL;
    if(sw("llvm.expect") || sw("llvm.launder") || sw("llvm.strip") ) return X_EXPECT;
    return X_NONE;
}

// every use of a thread-local variable goes through llvm.threadlocal.address
static void explicitTls(Module& m)
{
    for(auto& g : m.globals())
    {
        if(!g.isThreadLocal()) continue;
        convertUsersOfConstantsToInstructions({&g});
        std::vector<Use*> uses;
        for(auto& u : g.uses()) uses.push_back(&u);
        for(auto* u : uses)
        {
            auto* i = dyn_cast<Instruction>(u->getUser());
            if(!i) continue;
            if(auto* c = dyn_cast<IntrinsicInst>(i))
                if(c->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
            auto* phi = dyn_cast<PHINode>(i);
            IRBuilder<> b(phi ? phi->getIncomingBlock(*u)->getTerminator() : i);
            u->set(b.CreateThreadLocalAddress(&g));
        }
    }
}

void Engine::load(const std::string& bc)
{
    SMDiagnostic err;
    mod = parseIRFile(bc, err, lctx);
    if(!mod)
    {
        err.print("vpengine", errs());
        exit(2);
    }
    DL = &mod->getDataLayout();
    explicitTls(*mod);
    u32 gi = 0, ti = 0;
    for(auto& g : mod->globals())
    {
        if(g.isThreadLocal())
        {
            tlsIdx[&g] = ti++;
            tlsVars.push_back(&g);
        }
        else
        {
            u64 a = mkAddr(SP_GLOBAL, 0, gi++);
            gaddr[&g] = a;
            gname[a] = g.getName().str();
        }
    }
    // entry point: static constructors in order, then vp_main
    {
        auto* fty = FunctionType::get(Type::getVoidTy(lctx), false);
        Function* ent = Function::Create(fty, GlobalValue::ExternalLinkage, "vp_entry", mod.get());
        IRBuilder<> b(BasicBlock::Create(lctx, "entry", ent));
        if(auto* gc = mod->getGlobalVariable("llvm.global_ctors"))
            if(auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
            {
                std::vector<std::pair<u64, Function*>> cs;
                for(auto& o : arr->operands())
                {
                    auto* st = cast<ConstantStruct>(o);
                    cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cast<Function>(st->getOperand(1)->stripPointerCasts())});
                }
                std::stable_sort(cs.begin(), cs.end(), [](auto& x, auto& y) { return x.first < y.first; });
                for(auto& c : cs) b.CreateCall(fty, c.second);
            }
        auto* m = mod->getFunction("vp_main");
        if(!m) throw EngineError{"no vp_main in the module"};
        b.CreateCall(fty, m);
        b.CreateRetVoid();
    }
    for(auto& f : *mod) getFunc(&f);
}

DFunc* Engine::getFunc(const Function* F)
{
    auto it = fmap.find(F);
    if(it != fmap.end()) return it->second;
    auto d = std::make_unique<DFunc>();
    d->F = F;
    d->name = F->getName().str();
    d->idx = funcs.size();
    d->addr = ((u64)SP_FUNC << 44) | ((u64)(d->idx + 1) << 4);
    if(auto* sp = F->getSubprogram())
    {
        std::string p = (sp->getDirectory() + "/" + sp->getFilename()).str();
        if(p.find("/threadpp/") != std::string::npos) d->inRepo = true;
        if(p.size() > 6 && p.substr(p.size() - 6) == "rt.cpp") d->model = true;
    }
    DFunc* r = d.get();
    fmap[F] = r;
    funcs.push_back(std::move(d));
    return r;
}

int Engine::lanes(Type* t)
{
    if(t->isVoidTy()) return 0;
    if(auto* st = dyn_cast<StructType>(t))
    {
        int n = 0;
        for(auto* e : st->elements()) n += lanes(e);
        return n;
    }
    if(auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * lanes(at->getElementType());
    return 1;
}
static unsigned scalarW(Type* t)
{
    if(t->isIntegerTy()) return t->getIntegerBitWidth();
    if(t->isPointerTy()) return 64;
    if(t->isDoubleTy()) return 64;
    if(t->isFloatTy()) return 32;
    if(t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return 0;
    return 0;
}
void Engine::laneWidths(Type* t, std::vector<u16>& w)
{
    if(t->isVoidTy()) return;
    if(auto* st = dyn_cast<StructType>(t))
    {
        for(auto* e : st->elements()) laneWidths(e, w);
        return;
    }
    if(auto* at = dyn_cast<ArrayType>(t))
    {
        for(u64 i = 0; i < at->getNumElements(); i++) laneWidths(at->getElementType(), w);
        return;
    }
    unsigned x = scalarW(t);
    if(!x && !t->isMetadataTy() && !t->isLabelTy())
    {
        std::string s;
        raw_string_ostream o(s);
        t->print(o);
        throw EngineError{"unsupported type " + s};
    }
    w.push_back(x);
}

u64 Engine::constAddr(const Constant* c)
{
    if(auto* g = dyn_cast<GlobalVariable>(c))
    {
        auto it = gaddr.find(g);
        if(it == gaddr.end()) throw EngineError{"address of thread-local as constant: " + g->getName().str()};
        return it->second;
    }
    if(auto* f = dyn_cast<Function>(c)) return getFunc(f)->addr;
    if(auto* a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee());
    throw EngineError{"unsupported constant address"};
}

void Engine::constLanes(const Constant* c, std::vector<Val>& out)
{
    if(auto* ci = dyn_cast<ConstantInt>(c))
    {
        unsigned w = ci->getBitWidth();
        if(w <= 64)
            out.push_back(Val(ci->getZExtValue()));
        else
        {
            const u64* r = ci->getValue().getRawData();
            out.push_back(fromE(mkConst(((u128)r[1] << 64) | r[0], w)));
        }
        return;
    }
    if(isa<ConstantPointerNull>(c))
    {
        out.push_back(Val(0));
        return;
    }
    if(auto* fp = dyn_cast<ConstantFP>(c))
    {
        out.push_back(Val(fp->getValueAPF().bitcastToAPInt().getZExtValue()));
        return;
    }
    if(isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
    {
        int n = lanes(c->getType());
        for(int i = 0; i < n; i++) out.push_back(Val(0));
        return;
    }
    if(auto* ca = dyn_cast<ConstantAggregate>(c))
    {
        for(auto& o : ca->operands()) constLanes(cast<Constant>(&o), out);
        return;
    }
    if(auto* cd = dyn_cast<ConstantDataSequential>(c))
    {
        for(unsigned i = 0; i < cd->getNumElements(); i++) constLanes(cd->getElementAsConstant(i), out);
        return;
    }
    if(isa<GlobalValue>(c))
    {
        out.push_back(Val(constAddr(c)));
        return;
    }
    if(auto* ce = dyn_cast<ConstantExpr>(c))
    {
        if(auto* gep = dyn_cast<GEPOperator>(ce))
        {
            APInt off(64, 0);
            if(!gep->accumulateConstantOffset(*DL, off)) throw EngineError{"non-constant constant gep"};
            std::vector<Val> b;
            constLanes(cast<Constant>(gep->getPointerOperand()), b);
            out.push_back(Val(b[0].c + off.getSExtValue()));
            return;
        }
        std::vector<Val> a;
        switch(ce->getOpcode())
        {
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::BitCast:
            case Instruction::AddrSpaceCast:
                constLanes(ce->getOperand(0), a);
                out.push_back(Val(a[0].c & maskw(scalarW(ce->getType()))));
                return;
            case Instruction::Trunc:
                constLanes(ce->getOperand(0), a);
                out.push_back(Val(a[0].c & maskw(scalarW(ce->getType()))));
                return;
            case Instruction::Sub:
            case Instruction::Add:
            {
                constLanes(ce->getOperand(0), a);
                constLanes(ce->getOperand(1), a);
                unsigned w = scalarW(ce->getType());
                out.push_back(vBin(ce->getOpcode() == Instruction::Add ? K_ADD : K_SUB, w, a[0], a[1]));
                return;
            }
            case Instruction::ICmp:
            {
                constLanes(ce->getOperand(0), a);
                constLanes(ce->getOperand(1), a);
                auto p = ce->getPredicate();
                bool eq = a[0].c == a[1].c;
                if(p == ICmpInst::ICMP_EQ)
                    out.push_back(Val(eq));
                else if(p == ICmpInst::ICMP_NE)
                    out.push_back(Val(!eq));
                else
                    throw EngineError{"constant icmp"};
                return;
            }
            default: break;
        }
    }
    std::string s;
    raw_string_ostream o(s);
    c->print(o);
    throw EngineError{"unsupported constant " + s};
}

void Engine::writeInit(Obj* o, u64 off, const Constant* c)
{
    Type* t = c->getType();
    if(isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if(auto* st = dyn_cast<StructType>(t))
    {
        auto* sl = DL->getStructLayout(st);
        for(unsigned i = 0; i < st->getNumElements(); i++)
            writeInit(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if(auto* at = dyn_cast<ArrayType>(t))
    {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        if(auto* cd = dyn_cast<ConstantDataSequential>(c))
            if(es == 1)
            {
                StringRef r = cd->getRawDataValues();
                memcpy(&o->data[off], r.data(), r.size());
                return;
            }
        for(u64 i = 0; i < at->getNumElements(); i++) writeInit(o, off + i * es, c->getAggregateElement(i));
        return;
    }
    std::vector<Val> v;
    constLanes(c, v);
    u64 n = DL->getTypeStoreSize(t);
    o->write(off, n, v[0]);
}

void Engine::initGlobals(State& s)
{
    for(auto& g : mod->globals())
    {
        if(g.isThreadLocal()) continue;
        if(g.getName().starts_with("llvm.")) continue;
        u64 n = 64;
        if(g.getValueType()->isSized()) n = DL->getTypeAllocSize(g.getValueType());
        if(!g.hasInitializer() && n < 64) n = 64;
        Obj* o = new Obj(n, 0);
        if(g.hasInitializer()) writeInit(o, 0, g.getInitializer());
        o->ro = g.isConstant() && g.hasInitializer();
        s.mem.put(gaddr[&g], o);
    }
}
void Engine::initTls(State& s, int tid)
{
    for(auto* g : tlsVars)
    {
        u64 n = DL->getTypeAllocSize(g->getValueType());
        Obj* o = new Obj(n, 0);
        if(g->hasInitializer()) writeInit(o, 0, g->getInitializer());
        s.mem.put(mkAddr(SP_TLS, tid, tlsIdx[g]), o);
    }
}

bool isRefcount(const Instruction* I)
{
    const DILocation* l = I->getDebugLoc().get();
    while(l)
    {
        if(auto* sp = l->getScope()->getSubprogram())
        {
            StringRef f = l->getScope()->getFilename();
            if(f.ends_with("atomicity.h") || f.ends_with("shared_ptr_base.h") || f.ends_with("rt.cpp")) return true;
            (void)sp;
        }
        l = l->getInlinedAt();
    }
    return false;
}

static std::string locStr(const DILocation* l)
{
    if(!l) return "?";
    std::string f = l->getFilename().str();
    size_t p = f.rfind("/threadpp/");
    if(p != std::string::npos)
        f = f.substr(p + 1);
    else if((p = f.rfind('/')) != std::string::npos)
        f = f.substr(p + 1);
    return f + ":" + std::to_string(l->getLine());
}
std::string Engine::whereStr(const DInst& i)
{
    if(!i.I) return "?";
    const DILocation* l = i.I->getDebugLoc().get();
    std::string s;
    // prefer the innermost location inside the repository
    const DILocation* best = nullptr;
    for(const DILocation* m = l; m; m = m->getInlinedAt())
    {
        std::string f = m->getFilename().str();
        if(f.find("threadpp/") != std::string::npos || f.find("harness") != std::string::npos)
        {
            best = m;
            break;
        }
    }
    return locStr(best ? best : l);
}
// source lines of the repository that have code, and those that were executed
void Engine::lines(std::set<std::string>& present, std::set<std::string>& hit)
{
    auto add = [](const Instruction* i, std::set<std::string>& to) {
        if(!i) return;
        for(const DILocation* m = i->getDebugLoc().get(); m; m = m->getInlinedAt())
        {
            std::string f = m->getFilename().str();
            size_t at = f.rfind("threadpp/");
            if(at != std::string::npos && m->getLine()) to.insert(f.substr(at) + ":" + std::to_string(m->getLine()));
        }
    };
    for(auto& f : *mod)
        for(auto& b : f)
            for(auto& i : b)
                if(!i.isDebugOrPseudoInst()) add(&i, present);
    for(auto& f : funcs)
        for(auto& d : f->code)
            if(d.hit) add(d.I, hit);
}
std::string Engine::stackStr(State& s, int tid)
{
    std::string r;
    auto& fr = s.th[tid]->fr;
    for(size_t i = fr.size(); i-- > 0;)
    {
        auto& f = fr[i];
        if(f->pc >= (int)f->f->code.size()) continue;
        std::string w = whereStr(f->f->code[f->pc]);
        if(w.find("threadpp/") == std::string::npos && i + 1 != fr.size()) continue;
        if(!r.empty()) r += " < ";
        r += w;
    }
    return r;
}

// ------------------------------------------------------------------ decoding
void Engine::decode(DFunc* f)
{
    f->decoded = true;
    const Function* F = f->F;
    std::unordered_map<const Value*, int> reg;
    auto newReg = [&](Type* t) {
        int r = f->nregs;
        laneWidths(t, f->regw);
        f->nregs = f->regw.size();
        return r;
    };
    int pi = 0;
    for(auto& a : F->args())
    {
        int n = lanes(a.getType());
        int r = newReg(a.getType());
        reg[&a] = r;
        f->params.push_back({r, n});
        if(a.hasByValAttr()) f->byval.push_back({(u32)pi, (u32)DL->getTypeAllocSize(a.getParamByValType())});
        pi++;
    }
    for(auto& bb : *F)
        for(auto& i : bb)
            if(!i.getType()->isVoidTy()) reg[&i] = newReg(i.getType());
    // instruction indices
    std::unordered_map<const BasicBlock*, int> bbStart;
    int idx = 0;
    for(auto& bb : *F)
    {
        bbStart[&bb] = idx;
        for(auto& i : bb)
            if(!isa<PHINode>(i) && !isa<DbgInfoIntrinsic>(i)) idx++;
    }
    auto operand = [&](const Value* v, std::vector<Op>& out) {
        if(auto* c = dyn_cast<Constant>(v))
        {
            std::vector<Val> l;
            constLanes(c, l);
            for(auto& x : l)
            {
                Op o;
                o.c = x;
                out.push_back(o);
            }
            return;
        }
        int r = reg.at(v), n = lanes(v->getType());
        for(int i = 0; i < n; i++)
        {
            Op o;
            o.reg = r + i;
            out.push_back(o);
        }
    };
    auto op1 = [&](const Value* v) {
        std::vector<Op> o;
        operand(v, o);
        if(o.size() != 1) throw EngineError{"operand lanes"};
        return o[0];
    };
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
        Edge e;
        e.target = bbStart[to];
        for(auto& ph : to->phis())
        {
            std::vector<Op> o;
            operand(ph.getIncomingValueForBlock(from), o);
            int r = reg[&ph];
            for(size_t i = 0; i < o.size(); i++) e.copies.push_back({r + (int)i, o[i]});
        }
        return e;
    };
    auto aggOff = [&](Type* t, ArrayRef<unsigned> ix) {
        int off = 0;
        for(unsigned k : ix)
        {
            if(auto* st = dyn_cast<StructType>(t))
            {
                for(unsigned j = 0; j < k; j++) off += lanes(st->getElementType(j));
                t = st->getElementType(k);
            }
            else
            {
                t = cast<ArrayType>(t)->getElementType();
                off += k * lanes(t);
            }
        }
        return off;
    };
    auto ord = [](AtomicOrdering o) -> u8 {
        u8 r = 0;
        if(isAcquireOrStronger(o)) r |= 1;
        if(isReleaseOrStronger(o)) r |= 2;
        return r;
    };
    for(auto& bb : *F)
        for(auto& i : bb)
        {
            if(isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
            DInst d;
            d.I = &i;
            if(!i.getType()->isVoidTy())
            {
                d.dst = reg[&i];
                d.nl = lanes(i.getType());
            }
            auto unsupported = [&]() {
                std::string s;
                raw_string_ostream o(s);
                i.print(o);
                throw EngineError{"unsupported instruction " + s + " in " + f->name};
            };
            switch(i.getOpcode())
            {
#define B(X, KK) \
    case Instruction::X: d.op = I_BIN; d.sub = KK; d.w = scalarW(i.getType()); d.ops = {op1(i.getOperand(0)), op1(i.getOperand(1))}; break;
                B(Add, K_ADD)
                B(Sub, K_SUB)
                B(Mul, K_MUL)
                B(UDiv, K_UDIV)
                B(SDiv, K_SDIV)
                B(URem, K_UREM)
                B(SRem, K_SREM)
                B(Shl, K_SHL)
                B(LShr, K_LSHR)
                B(AShr, K_ASHR)
                B(And, K_AND)
                B(Or, K_OR)
                B(Xor, K_XOR)
#undef B
                case Instruction::ICmp:
                    d.op = I_ICMP;
                    d.sub = cast<ICmpInst>(i).getPredicate();
                    d.w = scalarW(i.getOperand(0)->getType());
                    d.ops = {op1(i.getOperand(0)), op1(i.getOperand(1))};
                    break;
                case Instruction::ZExt:
                case Instruction::SExt:
                case Instruction::Trunc:
                case Instruction::PtrToInt:
                case Instruction::IntToPtr:
                case Instruction::BitCast:
                {
                    d.op = I_CAST;
                    d.w = scalarW(i.getOperand(0)->getType());
                    d.w2 = scalarW(i.getType());
                    d.sub = i.getOpcode() == Instruction::SExt ? 1 : d.w2 > d.w ? 0 : d.w2 < d.w ? 2 : 3;
                    d.ops = {op1(i.getOperand(0))};
                    break;
                }
                case Instruction::Alloca:
                {
                    auto& a = cast<AllocaInst>(i);
                    d.op = I_ALLOCA;
                    auto* ci = dyn_cast<ConstantInt>(a.getArraySize());
                    if(!ci) unsupported();
                    d.off = DL->getTypeAllocSize(a.getAllocatedType()) * ci->getZExtValue();
                    break;
                }
                case Instruction::Load:
                {
                    auto& l = cast<LoadInst>(i);
                    d.op = I_LOAD;
                    d.w = scalarW(i.getType());
                    if(!d.w) unsupported();
                    d.ops = {op1(l.getPointerOperand())};
                    d.atomic = l.isAtomic();
                    d.order = d.atomic ? ord(l.getOrdering()) : 0;
                    d.refcount = isRefcount(&i);
                    break;
                }
                case Instruction::Store:
                {
                    auto& l = cast<StoreInst>(i);
                    d.op = I_STORE;
                    d.w = scalarW(l.getValueOperand()->getType());
                    if(!d.w) unsupported();
                    d.ops = {op1(l.getPointerOperand()), op1(l.getValueOperand())};
                    d.atomic = l.isAtomic();
                    d.order = d.atomic ? ord(l.getOrdering()) : 0;
                    d.refcount = isRefcount(&i);
                    break;
                }
                case Instruction::AtomicRMW:
                {
                    auto& l = cast<AtomicRMWInst>(i);
                    d.op = I_RMW;
                    d.w = scalarW(i.getType());
                    d.sub = l.getOperation();
                    d.ops = {op1(l.getPointerOperand()), op1(l.getValOperand())};
                    d.atomic = true;
                    d.order = ord(l.getOrdering());
                    d.refcount = isRefcount(&i);
                    break;
                }
                case Instruction::AtomicCmpXchg:
                {
                    auto& l = cast<AtomicCmpXchgInst>(i);
                    d.op = I_CMPXCHG;
                    d.w = scalarW(l.getNewValOperand()->getType());
                    d.ops = {op1(l.getPointerOperand()), op1(l.getCompareOperand()), op1(l.getNewValOperand())};
                    d.atomic = true;
                    d.order = ord(l.getSuccessOrdering());
                    d.refcount = isRefcount(&i);
                    break;
                }
                case Instruction::GetElementPtr:
                {
                    d.op = I_GEP;
                    auto& g = cast<GetElementPtrInst>(i);
                    d.ops = {op1(g.getPointerOperand())};
                    u64 off = 0;
                    for(auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi)
                    {
                        Value* ix = gi.getOperand();
                        if(auto* st = gi.getStructTypeOrNull())
                        {
                            off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                            continue;
                        }
                        u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
                        if(auto* ci = dyn_cast<ConstantInt>(ix))
                            off += sz * (u64)ci->getSExtValue();
                        else
                        {
                            d.ops.push_back(op1(ix));
                            d.scale.push_back(sz);
                            d.opw.push_back(scalarW(ix->getType()));
                        }
                    }
                    d.off = off;
                    break;
                }
                case Instruction::Br:
                {
                    auto& b = cast<BranchInst>(i);
                    if(b.isConditional())
                    {
                        d.op = I_CBR;
                        d.ops = {op1(b.getCondition())};
                        d.edges = {edge(&bb, b.getSuccessor(0)), edge(&bb, b.getSuccessor(1))};
                    }
                    else
                    {
                        d.op = I_BR;
                        d.edges = {edge(&bb, b.getSuccessor(0))};
                    }
                    break;
                }
                case Instruction::Switch:
                {
                    auto& sw = cast<SwitchInst>(i);
                    d.op = I_SWITCH;
                    d.w = scalarW(sw.getCondition()->getType());
                    d.ops = {op1(sw.getCondition())};
                    d.edges.push_back(edge(&bb, sw.getDefaultDest()));
                    for(auto& c : sw.cases())
                    {
                        d.cases.push_back(c.getCaseValue()->getZExtValue());
                        d.edges.push_back(edge(&bb, c.getCaseSuccessor()));
                    }
                    break;
                }
                case Instruction::Select:
                {
                    d.op = I_SELECT;
                    d.ops = {op1(i.getOperand(0))};
                    operand(i.getOperand(1), d.ops);
                    operand(i.getOperand(2), d.ops);
                    laneWidths(i.getType(), d.opw);
                    break;
                }
                case Instruction::Call:
                case Instruction::Invoke:
                {
                    auto& c = cast<CallBase>(i);
                    d.op = isa<InvokeInst>(i) ? I_INVOKE : I_CALL;
                    if(c.isInlineAsm()) unsupported();
                    const Value* cv = c.getCalledOperand()->stripPointerCasts();
                    if(auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                    if(auto* cf = dyn_cast<Function>(cv))
                    {
                        if(cf->isIntrinsic())
                        {
                            d.intr = llvmIntr(cf->getName());
                            if(!d.intr) unsupported();
                        }
                        else
                        {
                            auto it = intrTable().find(cf->getName().str());
                            if(it != intrTable().end())
                                d.intr = it->second;
                            else
                                d.callee = getFunc(cf);
                        }
                    }
                    else
                    {
                        d.ops.push_back(op1(c.getCalledOperand()));
                        d.sub = 1; // indirect: ops[0] is the target
                    }
                    if(d.intr != X_NOP && d.intr != X_TLSADDR && d.intr != X_TYPEID)
                        for(unsigned a = 0; a < c.arg_size(); a++)
                        {
                            int bv = 0;
                            if(c.isByValArgument(a)) bv = DL->getTypeAllocSize(c.getParamByValType(a));
                            d.args.push_back({(int)d.ops.size(), bv});
                            operand(c.getArgOperand(a), d.ops);
                        }
                    if(d.intr == X_TLSADDR)
                    {
                        auto* g = cast<GlobalVariable>(c.getArgOperand(0)->stripPointerCasts());
                        d.off = tlsIdx.at(g);
                    }
                    if(d.intr == X_TYPEID)
                    {
                        std::vector<Val> l;
                        constLanes(cast<Constant>(c.getArgOperand(0)), l);
                        d.off = l[0].c;
                    }
                    if(d.intr && d.intr != X_NOP && c.arg_size() && c.getArgOperand(0)->getType()->isIntegerTy())
                        d.w = scalarW(c.getArgOperand(0)->getType());
                    if(d.intr == X_VP_NONDET) d.w = scalarW(i.getType());
                    laneWidths(i.getType(), d.opw);
                    if(auto* inv = dyn_cast<InvokeInst>(&i))
                        d.edges = {edge(&bb, inv->getNormalDest()), edge(&bb, inv->getUnwindDest())};
                    break;
                }
                case Instruction::Ret:
                    d.op = I_RET;
                    if(i.getNumOperands()) operand(i.getOperand(0), d.ops);
                    break;
                case Instruction::LandingPad:
                {
                    auto& l = cast<LandingPadInst>(i);
                    d.op = I_LPAD;
                    d.isCleanup = l.isCleanup();
                    for(unsigned k = 0; k < l.getNumClauses(); k++)
                    {
                        if(l.isCatch(k))
                        {
                            std::vector<Val> v;
                            constLanes(l.getClause(k), v);
                            d.clauses.push_back({v[0].c, 0});
                        }
                        else
                            d.clauses.push_back({0, 1}); // filter: treated as "catches everything"
                    }
                    break;
                }
                case Instruction::Resume:
                    d.op = I_RESUME;
                    operand(i.getOperand(0), d.ops);
                    break;
                case Instruction::ExtractValue:
                {
                    auto& x = cast<ExtractValueInst>(i);
                    d.op = I_MOV;
                    std::vector<Op> o;
                    operand(x.getAggregateOperand(), o);
                    int off = aggOff(x.getAggregateOperand()->getType(), x.getIndices());
                    d.ops.assign(o.begin() + off, o.begin() + off + d.nl);
                    break;
                }
                case Instruction::InsertValue:
                {
                    auto& x = cast<InsertValueInst>(i);
                    d.op = I_MOV;
                    operand(x.getAggregateOperand(), d.ops);
                    std::vector<Op> o;
                    operand(x.getInsertedValueOperand(), o);
                    int off = aggOff(x.getType(), x.getIndices());
                    for(size_t k = 0; k < o.size(); k++) d.ops[off + k] = o[k];
                    break;
                }
                case Instruction::Freeze:
                    d.op = I_MOV;
                    operand(i.getOperand(0), d.ops);
                    break;
                case Instruction::Unreachable: d.op = I_UNREACH; break;
                case Instruction::Fence: d.op = I_NOP; break;
                case Instruction::FAdd:
                case Instruction::FSub:
                case Instruction::FMul:
                case Instruction::FDiv:
                case Instruction::FCmp:
                case Instruction::UIToFP:
                case Instruction::SIToFP:
                case Instruction::FPToUI:
                case Instruction::FPToSI:
                case Instruction::FPExt:
                case Instruction::FPTrunc:
                    d.op = I_FP;
                    d.off = i.getOpcode();
                    d.w = scalarW(i.getOperand(0)->getType());
                    d.w2 = scalarW(i.getType());
                    if(auto* fc = dyn_cast<FCmpInst>(&i)) d.sub = fc->getPredicate();
                    for(auto& o : i.operands()) d.ops.push_back(op1(o.get()));
                    break;
                default: unsupported();
            }
            f->code.push_back(std::move(d));
        }
    liveness(f);
}

void Engine::liveness(DFunc* f)
{
    size_t n = f->code.size(), W = (f->nregs + 63) / 64;
    std::vector<std::vector<u64>> in(n, std::vector<u64>(W, 0));
    auto set = [](std::vector<u64>& b, int r) { b[r / 64] |= 1ull << (r % 64); };
    auto clr = [](std::vector<u64>& b, int r) { b[r / 64] &= ~(1ull << (r % 64)); };
    bool ch = true;
    auto edgeIn = [&](const Edge& e, std::vector<u64>& out) {
        std::vector<u64> x = in[e.target];
        for(auto& c : e.copies) clr(x, c.first);
        for(auto& c : e.copies)
            if(c.second.reg >= 0) set(x, c.second.reg);
        for(size_t k = 0; k < W; k++) out[k] |= x[k];
    };
    std::vector<std::vector<u64>> after(n);
    while(ch)
    {
        ch = false;
        for(size_t i = n; i-- > 0;)
        {
            DInst& d = f->code[i];
            std::vector<u64> out(W, 0);
            if(!d.edges.empty())
                for(auto& e : d.edges) edgeIn(e, out);
            else if(d.op != I_RET && d.op != I_RESUME && d.op != I_UNREACH && i + 1 < n)
                out = in[i + 1];
            for(int k = 0; k < d.nl; k++) clr(out, d.dst + k);
            after[i] = out;
            for(auto& o : d.ops)
                if(o.reg >= 0) set(out, o.reg);
            if(out != in[i])
            {
                in[i] = out;
                ch = true;
            }
        }
    }
    for(size_t i = 0; i < n; i++)
    {
        DInst& d = f->code[i];
        if(d.op == I_CALL || d.op == I_INVOKE || d.op == I_LOAD || d.op == I_STORE || d.op == I_RMW ||
           d.op == I_CMPXCHG)
        {
            d.liveIn = in[i];
            d.liveAfter = after[i];
        }
    }
}
