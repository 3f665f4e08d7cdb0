// Interpreter for decoded LLVM functions over symbolic machine states.
#include "engine.h"
#include <algorithm>
#include <cmath>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>

Engine* G;

double Engine::elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

WitP extendWit(const WitP& w, std::initializer_list<E> lits)
{
    auto n = std::make_shared<Witness>();
    n->up = w;
    if(w) n->in = w->in;
    for(E l : lits)
        if(l && l->kind == K_VAR) n->own.push_back(l);
    return n;
}

// the members of 'from' under which cond has the given value
void Engine::splitPool(const std::vector<WitP>& from, E cond, bool val, const std::vector<E>& lits, std::vector<WitP>& to)
{
    to.clear();
    for(auto& w : from)
    {
        if(cond->kind != K_CONST)
        {
            ev.begin(w.get());
            if((bool)ev.eval(cond) != val) continue;
        }
        if(lits.empty())
            to.push_back(w);
        else
            to.push_back(extendWit(w, {lits[0], lits.size() > 1 ? lits[1] : nullptr}));
    }
}

void Engine::violation(const std::string& kind, const std::string& msg, WitP w)
{
    if(opt.safety && kind != "memory" && kind != "race" && kind != "lock-misuse") throw PathEnd{};
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.wit = w ? w : S->wit;
    if(S->cur < (int)S->th.size() && !S->th[S->cur]->fr.empty()) v.where = stackStr(*S, S->cur);
    if(mode == M_EXPLORE)
        v.path = pathOf(*S, v.wit.get());
    throw FoundViolation{v};
}

// restricts the path to 'ok', which w satisfies
void Engine::assume(E ok, WitP w)
{
    if(isTrue(ok)) return;
    E l = newLit(groupCtr++, "u");
    constrain(l, S->lit, ok);
    S->lit = l;
    S->wit = extendWit(w, {l});
    std::vector<WitP> pool;
    pool.swap(S->pool);
    splitPool(pool, ok, true, {l}, S->pool);
}

bool Engine::feasible(State& s, E cond, WitP* w)
{
    if(isTrue(cond))
    {
        if(w) *w = s.wit;
        return true;
    }
    if(isFalse(cond)) return false;
    ev.begin(s.wit.get());
    if(ev.eval(cond))
    {
        sol.st.witnessHits++;
        if(w) *w = s.wit;
        return true;
    }
    for(auto& x : s.pool)
    {
        ev.begin(x.get());
        if(ev.eval(cond))
        {
            sol.st.witnessHits++;
            if(w) *w = x;
            return true;
        }
    }
    auto key = std::make_pair(s.lit, cond);
    auto it = feasCache.find(key);
    if(it != feasCache.end() && it->second == 0) return false;
    if(opt.solverBudget && sol.st.time > opt.solverBudget) throw EngineError{"solver budget used up"};
    WitP m;
    int r = sol.check({s.lit, cond}, &m);
    if(r < 0) throw EngineError{"solver gave up (timeout)"};
    feasCache[key] = r;
    if(r && w) *w = m;
    return r == 1;
}

E Engine::newLit(int group, const char* pfx)
{
    E l = mkVar(std::string(pfx) + std::to_string(litCtr++), 1, group);
    return l;
}
void Engine::constrain(E lit, E parent, E cond)
{
    E n = mkNot(lit);
    if(!isTrue(parent)) sol.up[lit] = {parent};
    if(!isTrue(parent)) sol.assertE(mkOr(n, parent));
    if(cond && !isTrue(cond)) sol.assertE(mkOr(n, cond));
}

// decide a condition on the current state. 1 / 0: implied; 2: both possible, *other becomes the false side
int Engine::decide(E cond, State* other)
{
    if(cond->kind == K_CONST) return cond->lo ? 1 : 0;
    ev.begin(S->wit.get());
    bool b = ev.eval(cond);
    WitP ow;
    E oc = b ? mkNot(cond) : cond;
    bool of = feasible(*S, oc, &ow);
    if(!of) return b;
    int g = groupCtr++;
    E l1 = newLit(g, "f"), l2 = newLit(g, "f");
    constrain(l1, S->lit, cond);
    constrain(l2, S->lit, mkNot(cond));
    sol.assertE(mkOr(mkNot(l1), mkNot(l2)));
    WitP wt = b ? S->wit : ow, wf = b ? ow : S->wit;
    std::vector<WitP> pool;
    pool.swap(S->pool);
    *other = *S;
    other->lit = l2;
    other->wit = extendWit(wf, {l2});
    splitPool(pool, cond, false, {l2}, other->pool);
    S->lit = l1;
    S->wit = extendWit(wt, {l1});
    splitPool(pool, cond, true, {l1}, S->pool);
    narrow(*S, cond);
    narrow(*other, mkNot(cond));
    st.forks++;
    return 2;
}

void Engine::narrow(State& s, E cond)
{
    Thread* T = s.t(s.cur);
    if(T->fr.empty()) return;
    Frame* F = T->top();
    for(auto& v : F->regs)
    {
        if(v.conc()) continue;
        if(v.e == cond)
        {
            v = Val(1);
            continue;
        }
        if(v.e->width == 1)
        {
            if(mkNot(v.e) == cond) v = Val(0);
            continue;
        }
        if(v.e->kind != K_GC) continue;
        std::vector<std::pair<u64, E>> l;
        for(u32 i = 0; i < v.e->nk; i++)
            if(!isFalse(mkAnd(cond, v.e->k[i]))) l.push_back({v.e->gv[i], v.e->k[i]});
        if(!l.empty() && l.size() < v.e->nk)
            v = l.size() == 1 ? Val(l[0].first) : fromE(mkGC(l, v.e->width));
    }
}

u32 Engine::lsId(const std::vector<u64>& h)
{
    std::vector<u64> v = h;
    std::sort(v.begin(), v.end());
    auto it = lsIds.find(v);
    if(it != lsIds.end()) return it->second;
    u32 id = lsVec.size();
    lsVec.push_back(v);
    lsIds[v] = id;
    return id;
}

// register an access to a synchronisation location; true if it is a scheduling point
bool Engine::record(u64 addr, bool w, bool plain)
{
    if(!S->sched) return false;
    Loc& l = locs[addr];
    if(mode == M_GUIDED) return l.visible;
    u8 tid = S->cur;
    u32 ls = lsId(S->th[tid]->held);
    bool have = false;
    for(auto& a : l.accs)
        if(a.tid == tid && a.w == w && a.ls == ls) have = true;
    if(!have)
    {
        l.accs.push_back({tid, w, plain, ls});
        if(!l.visible)
            for(auto& a : l.accs)
                if(a.tid != tid && (a.w || w))
                {
                    bool common = false;
                    for(u64 m : lsVec[a.ls])
                        for(u64 k : lsVec[ls]) common = common || m == k;
                    if(!common)
                    {
                        l.visible = true;
                        dirty = true;
                        break;
                    }
                }
    }
    return mode == M_RANDOM ? true : l.visible;
}

void Engine::addEvent(int tid, char kind, u64 val, const std::string& str)
{
    if(mode == M_GUIDED) events.push_back({tid, kind, val, str});
}

Val Engine::nondet(unsigned w, const char* what, u32 ctr, int tid)
{
    if(mode == M_RANDOM)
    {
        u64 v = rng();
        if((v & 3) == 0) v = (v >> 8) & 7;
        return Val(v & maskw(w));
    }
    std::string n = std::string(what) + "_t" + std::to_string(tid) + "_" + std::to_string(ctr) + "_" + std::to_string(w);
    E v = mkVar(n, w);
    if(mode == M_GUIDED)
    {
        return Val(guideWit->input(v));
    }
    bool known = false;
    for(E x : sol.inputs) known = known || x == v;
    if(!known) sol.inputs.push_back(v);
    return Val(v);
}

// ------------------------------------------------------------------ memory
const Obj* Engine::checkAcc(u64 a, u64 n, bool wr, std::string& err, E guard)
{
    const Obj* o = S->mem.get(a);
    if(o && o->live)
    {
        WitP w;
        E dead = mkNot(o->live);
        if(guard) dead = mkAnd(guard, dead);
        st.memChecks++;
        if(feasible(*S, dead, &w)) violation("memory", "access to memory that was released", w);
    }
    u64 off = addrOff(a);
    char b[160];
    if(!o)
    {
        int k = addrKind(a);
        snprintf(b, sizeof b, "%s of %llu bytes at %s", wr ? "write" : "read", (unsigned long long)n,
                 a < 4096 ? "null pointer" : k == SP_HEAP ? "freed heap memory" : k == SP_STACK ? "dead stack memory" : "invalid address");
        err = b;
        return nullptr;
    }
    if(off >= o->size || off + n > o->size)
    {
        snprintf(b, sizeof b, "out-of-bounds %s of %llu bytes at offset %lld of a %u-byte object", wr ? "write" : "read",
                 (unsigned long long)n, (long long)off, o->size);
        err = b;
        return nullptr;
    }
    if(wr && o->ro)
    {
        err = "write to constant memory";
        return nullptr;
    }
    return o;
}

bool Engine::load(const Val& p, unsigned w, Val& out)
{
    u32 n = (w + 7) / 8;
    auto fix = [&](Val v) { return (w & 7) ? vExtract(v, n * 8, 0, w) : v; };
    std::string err;
    if(p.conc())
    {
        const Obj* o = checkAcc(p.c, n, false, err);
        if(!o) violation("memory", err);
        out = fix(o->read(addrOff(p.c), n));
        return true;
    }
    E e = p.e;
    assert(e->kind == K_GC);
    std::vector<E> gs, vs;
    for(u32 i = 0; i < e->nk; i++)
    {
        const Obj* o = checkAcc(e->gv[i], n, false, err, e->k[i]);
        if(!o)
        {
            WitP w2;
            st.memChecks++;
            if(feasible(*S, e->k[i], &w2)) violation("memory", err, w2);
            continue;
        }
        gs.push_back(e->k[i]);
        vs.push_back(toE(fix(o->read(addrOff(e->gv[i]), n)), w));
    }
    if(vs.empty()) return false;
    out = vs.size() == 1 ? fromE(vs[0]) : fromE(mkSelect(gs, vs));
    return true;
}

bool Engine::store(const Val& p, unsigned w, const Val& v0)
{
    u32 n = (w + 7) / 8;
    Val v = (w & 7) ? vZext(v0, w, n * 8) : v0;
    std::string err;
    if(p.conc())
    {
        if(!checkAcc(p.c, n, true, err)) violation("memory", err);
        S->mem.mut(p.c)->write(addrOff(p.c), n, v);
        return true;
    }
    E e = p.e;
    assert(e->kind == K_GC);
    bool any = false;
    for(u32 i = 0; i < e->nk; i++)
    {
        const Obj* o = checkAcc(e->gv[i], n, true, err, e->k[i]);
        if(!o)
        {
            WitP w2;
            st.memChecks++;
            if(feasible(*S, e->k[i], &w2)) violation("memory", err, w2);
            continue;
        }
        any = true;
        Val old = o->read(addrOff(e->gv[i]), n);
        S->mem.mut(e->gv[i])->write(addrOff(e->gv[i]), n, vIte(e->k[i], n * 8, v, old));
    }
    return any;
}

bool Engine::conc(Frame* F, const Op& o, unsigned w, u64& out)
{
    Val v = opv(F, o);
    if(v.conc())
    {
        out = v.c;
        return true;
    }
    int guard = 0;
    for(;;)
    {
        v = S->t(S->cur)->top()->regs[o.reg];
        if(v.conc())
        {
            out = v.c;
            return true;
        }
        E cond;
        u64 c;
        if(v.e->kind == K_GC)
        {
            c = v.e->gv[0];
            cond = v.e->k[0];
        }
        else
        {
            ev.begin(S->wit.get());
            c = (u64)ev.eval(v.e);
            cond = mkBin(K_EQ, v.e->width, v.e, mkConst(c, v.e->width));
        }
        if(++guard > 300) throw EngineError{"too many values while concretising"};
        State other;
        int r = decide(cond, &other);
        Frame* F2 = S->t(S->cur)->top();
        auto rest = [&](E e) -> Val {
            std::vector<std::pair<u64, E>> l;
            for(u32 i = 1; i < e->nk; i++) l.push_back({e->gv[i], e->k[i]});
            return l.size() == 1 ? Val(l[0].first) : fromE(mkGC(l, e->width));
        };
        if(r == 1)
        {
            F2->regs[o.reg] = Val(c);
            continue;
        }
        if(r == 0)
        {
            if(v.e->kind == K_GC) F2->regs[o.reg] = rest(v.e);
            continue;
        }
        // both
        F2->regs[o.reg] = Val(c);
        if(v.e->kind == K_GC) other.t(other.cur)->top()->regs[o.reg] = rest(v.e);
        work.push_back(std::move(other));
    }
}

u64 Engine::alloc(u64 n, u8 fill)
{
    if(n > 0xfffff - 2 * OBJBASE) throw EngineError{"allocation too large"};
    Thread* T = S->t(S->cur);
    u64 a = mkAddr(SP_HEAP, S->cur, T->heapCtr++);
    Obj* o = new Obj(n, fill);
    o->heap = true;
    S->mem.put(a, o);
    return a;
}

std::string Engine::cstr(u64 a)
{
    std::string r;
    const Obj* o = S->mem.get(a);
    if(!o) return r;
    for(u64 i = addrOff(a); i < o->size && o->data[i]; i++) r += (char)o->data[i];
    return r;
}

// ------------------------------------------------------------------ exceptions
bool Engine::typeMatch(u64 thrown, u64 caught)
{
    if(!caught || thrown == caught) return true;
    const Obj* o = S->mem.get(thrown);
    if(!o || o->size < 16) return false;
    u64 vt = o->read(0, 8).c;
    auto it = gname.find(vt - 16);
    if(it == gname.end()) return false;
    if(it->second.find("__si_class_type_info") != std::string::npos) return typeMatch(o->read(16, 8).c, caught);
    if(it->second.find("__vmi_class_type_info") != std::string::npos)
    {
        u32 n = o->read(20, 4).c;
        for(u32 i = 0; i < n; i++)
            if(typeMatch(o->read(24 + 16 * i, 8).c, caught)) return true;
    }
    return false;
}

// the stack objects of the top frame go away
void Engine::popStack(u32 base)
{
    for(u32 i = base; i < S->th[S->cur]->stackTop; i++)
    {
        u64 a = mkAddr(SP_STACK, S->cur, i);
        if(opt.race) hbDead(a, true);
        S->mem.del(a);
    }
}

// unwinds the current thread; false if the exception escapes the thread
bool Engine::unwind(u64 obj, u64 ti)
{
    Thread* T = S->t(S->cur);
    bool first = true;
    while(!T->fr.empty())
    {
        Frame* F = T->top();
        DInst& I = F->f->code[F->pc];
        if(I.op == I_INVOKE)
        {
            DInst& L = F->f->code[I.edges[1].target];
            assert(L.op == I_LPAD);
            bool enter = L.isCleanup;
            for(auto& c : L.clauses)
                if(c.second == 1 || typeMatch(ti, c.first)) enter = true;
            if(enter)
            {
                T->excObj = obj;
                T->excTi = ti;
                takeEdge(F, I.edges[1]);
                return true;
            }
        }
        (void)first;
        first = false;
        // pop
        popStack(F->stackBase);
        T->stackTop = F->stackBase;
        T->fr.pop_back();
    }
    return false;
}

void Engine::takeEdge(Frame* F, const Edge& e)
{
    size_t n = e.copies.size();
    if(n == 1)
        F->regs[e.copies[0].first] = opv(F, e.copies[0].second);
    else if(n)
    {
        Val tmp[64];
        std::vector<Val> big;
        Val* t = tmp;
        if(n > 64)
        {
            big.resize(n);
            t = big.data();
        }
        for(size_t i = 0; i < n; i++) t[i] = opv(F, e.copies[i].second);
        for(size_t i = 0; i < n; i++) F->regs[e.copies[i].first] = t[i];
    }
    F->pc = e.target;
}

void Engine::finishCall(const std::vector<Val>& ret)
{
    Frame* F = S->t(S->cur)->top();
    DInst& I = F->f->code[F->pc];
    for(int i = 0; i < I.nl; i++) F->regs[I.dst + i] = i < (int)ret.size() ? ret[i] : Val(0);
    if(I.op == I_INVOKE)
        takeEdge(F, I.edges[0]);
    else
        F->pc++;
}

// ------------------------------------------------------------------ enabledness
static E ownerFree(State& s, u64 m)
{
    const Obj* o = s.mem.get(m);
    if(!o) return mkTrue(); // reported when executed
    Val v = o->read(addrOff(m), 4);
    if(v.conc()) return v.c == 0 ? mkTrue() : mkFalse();
    return mkBin(K_EQ, 32, v.e, mkConst(0, 32));
}

// smallest advance of the symbolic clock: anything less than a microsecond would allow endless spinning
static const u64 CLOCKMIN = 1000;

E Engine::enabled(State& s, int tid, int alt, bool idle)
{
    const Thread* T = s.th[tid].p;
    if(T->st == T_FIN) return mkFalse();
    if(T->st == T_CV)
    {
        E free = ownerFree(s, T->mtx);
        E nt = toE(T->notified, 1);
        if(alt == 0) return mkAnd(free, nt);
        if(alt == 1)
        {
            if(!T->timed) return mkFalse();
            E c = mkAnd(free, mkNot(nt));
            if(s.timeoutMode == 1 && s.timeouts > 0) return c;
            if(s.timeoutMode != 0 && idle) return c;
            E passed = toE(vBin(K_SLE, 64, T->deadline, s.now), 1);
            return mkAnd(c, passed);
        }
        return s.spurious > 0 ? mkAnd(free, mkNot(nt)) : mkFalse();
    }
    if(alt != 0) return mkFalse();
    const Frame* F = T->fr.back().p;
    const DInst& I = F->f->code[F->pc];
    auto arg = [&](int i) { return I.ops[I.args[i].first].reg >= 0 ? F->regs[I.ops[I.args[i].first].reg] : I.ops[I.args[i].first].c; };
    if(I.op != I_CALL && I.op != I_INVOKE) return mkTrue();
    switch(I.intr)
    {
        case X_LOCK:
        {
            Val m = arg(0);
            if(!m.conc()) return mkTrue();
            const Obj* o = s.mem.get(m.c);
            if(o && addrOff(m.c) + 20 <= o->size)
            {
                Val kind = o->read(addrOff(m.c) + 16, 4);
                Val ow = o->read(addrOff(m.c), 4);
                if(kind.conc() && kind.c == 1)
                    return mkOr(ownerFree(s, m.c), toE(vBin(K_EQ, 32, ow, Val((u64)tid + 1)), 1));
            }
            return ownerFree(s, m.c);
        }
        case X_WRLOCK:
        {
            Val m = arg(0);
            const Obj* o = s.mem.get(m.c);
            if(!o) return mkTrue();
            return mkAnd(ownerFree(s, m.c), toE(vBin(K_EQ, 32, o->read(addrOff(m.c) + 4, 4), Val(0)), 1));
        }
        case X_RDLOCK: return ownerFree(s, arg(0).c);
        case X_TJOIN:
        {
            Val h = arg(0);
            if(!h.conc()) return mkTrue();
            for(size_t i = 0; i < s.th.size(); i++)
                if(s.th[i]->handle == h.c && !s.th[i]->joined && !s.th[i]->detached)
                    return s.th[i]->st == T_FIN ? mkTrue() : mkFalse();
            return mkTrue();
        }
        default: return mkTrue();
    }
}

void Engine::performWake(State& s, int tid, int alt)
{
    S = &s;
    s.cur = tid;
    Thread* T = s.t(tid);
    if(alt == 1)
    {
        // time passes: at least up to the deadline
        E late = toE(vBin(K_SLT, 64, s.now, T->deadline), 1);
        if(!isTrue(late) && !isFalse(late) && mode == M_EXPLORE && !feasible(s, mkNot(late), nullptr)) late = mkTrue();
        s.now = vIte(late, 64, T->deadline, s.now);
        if(s.clockMode == 1)
        {
            Val d = nondet(64, "clk", T->clkCtr++, tid);
            if(!d.conc()) sol.assertE(mkAnd(mkBin(K_ULT, 64, d.e, mkConst((u128)1 << 50, 64)), mkBin(K_ULE, 64, mkConst(CLOCKMIN, 64), d.e)));
            addEvent(tid, 'D', d.c);
            s.now = vBin(K_ADD, 64, s.now, d);
        }
        if(s.timeoutMode == 1 && s.timeouts > 0) s.timeouts--;
    }
    if(alt == 2) s.spurious--;
    addEvent(tid, 'K', alt | ((u64)(alt == 1 && s.now.conc() ? s.now.c : 0) << 2));
    std::string err;
    if(!checkAcc(T->mtx, 8, true, err)) violation("memory", err + " (mutex of a condition wait)");
    s.mem.mut(T->mtx)->write(addrOff(T->mtx), 4, Val((u64)tid + 1));
    T->held.push_back(T->mtx);
    record(T->mtx, true);
    hbAccess(T->mtx, 8, false, true);
    hbAcquire(T->mtx);
    T->st = T_RUN;
    T->cv = T->mtx = 0;
    T->notified = Val(0);
    T->timed = false;
    T->deadline = Val(0);
    finishCall({Val((u64)(alt == 1 ? 110 : 0))});
}

// ------------------------------------------------------------------ intrinsic calls
RunRes Engine::doCall(DInst& I, Frame* F, Thread* T)
{
    const RunRes CONT = R_CONT;
    int tid = S->cur;
    auto A = [&](int i) -> const Op& { return I.ops[I.args[i].first]; };
    auto AV = [&](int i) { return opv(F, A(i)); };
    bool resume = S->resume;
    auto takeResume = [&]() { S->resume = false; };
    std::string err;
    u64 a0, a1, a2;
    // a synchronisation object is used; if it is gone the attempt is still the last event of the trace
    auto use = [&](u64 a, char kind, const char* what) {
        try
        {
            if(!checkAcc(a, 8, true, err)) violation("memory", err + " (" + what + ")");
        }
        catch(FoundViolation&)
        {
            addEvent(tid, kind, 0);
            throw;
        }
    };
#define CONC(i, v)                                    \
    do                                                \
    {                                                 \
        if(!conc(F, A(i), 64, v)) return R_KILL;      \
        T = S->t(tid);                                \
        F = T->top();                                 \
    } while(0)
    switch(I.intr)
    {
        case X_NOP: finishCall({Val(0)}); return CONT;
        case X_EXPECT: finishCall({AV(0)}); return CONT;
        case X_MALLOC:
        {
            CONC(0, a0);
            u64 p = alloc(a0, 0xAA);
            finishCall({Val(p)});
            return CONT;
        }
        case X_FREE:
        {
            CONC(0, a0);
            if(a0)
            {
                const Obj* o = S->mem.get(a0);
                if(!o || !o->heap || addrOff(a0) != 0) violation("memory", "invalid or double free");
                hbDead(a0, !F->f->model);
                S->mem.del(a0);
            }
            finishCall({});
            return CONT;
        }
        case X_MEMCPY:
        {
            CONC(2, a2);
            if(a2)
            {
                CONC(0, a0);
                CONC(1, a1);
                const Obj* so = checkAcc(a1, a2, false, err);
                if(!so) violation("memory", "memcpy: " + err);
                if(!checkAcc(a0, a2, true, err)) violation("memory", "memcpy: " + err);
                if(opt.race && !F->f->model)
                {
                    hbAccess(a1, a2, false, false);
                    hbAccess(a0, a2, true, false);
                }
                u64 soff = addrOff(a1), doff = addrOff(a0);
                std::vector<u8> d(so->data.begin() + soff, so->data.begin() + soff + a2);
                std::vector<u8> g(so->gran.begin() + soff, so->gran.begin() + soff + a2);
                std::vector<Cell> cells;
                for(auto& c : so->sym)
                    if(c.off < soff + a2 && soff < c.off + c.n)
                    {
                        if(c.off >= soff && c.off + c.n <= soff + a2)
                            cells.push_back({(u32)(c.off - soff), c.n, c.e});
                        else
                            for(u32 k = 0; k < c.n; k++)
                                if(c.off + k >= soff && c.off + k < soff + a2)
                                    cells.push_back({(u32)(c.off + k - soff), 1, mkExtract(c.e, k * 8, 8)});
                    }
                Obj* o = S->mem.mut(a0);
                o->clearSym(doff, a2);
                memcpy(&o->data[doff], d.data(), a2);
                memcpy(&o->gran[doff], g.data(), a2);
                for(auto& c : cells) o->write(doff + c.off, c.n, fromE(c.e));
            }
            finishCall({AV(0)});
            return CONT;
        }
        case X_MEMSET:
        {
            CONC(2, a2);
            if(a2)
            {
                CONC(0, a0);
                u64 v;
                CONC(1, v);
                if(!checkAcc(a0, a2, true, err)) violation("memory", "memset: " + err);
                if(opt.race && !F->f->model) hbAccess(a0, a2, true, false);
                Obj* o = S->mem.mut(a0);
                o->clearSym(addrOff(a0), a2);
                memset(&o->data[addrOff(a0)], (int)(v & 255), a2);
                memset(&o->gran[addrOff(a0)], 0, a2);
            }
            finishCall({AV(0)});
            return CONT;
        }
        case X_MEMCMP:
        {
            CONC(2, a2);
            Val r(0);
            if(a2)
            {
                CONC(0, a0);
                CONC(1, a1);
                const Obj* x = checkAcc(a0, a2, false, err);
                const Obj* y = x ? checkAcc(a1, a2, false, err) : nullptr;
                if(!x || !y) violation("memory", "memcmp: " + err);
                if(opt.race && !F->f->model)
                {
                    hbAccess(a0, a2, false, false);
                    hbAccess(a1, a2, false, false);
                }
                for(u64 i = a2; i-- > 0;)
                {
                    Val p = x->read(addrOff(a0) + i, 1), q = y->read(addrOff(a1) + i, 1);
                    Val d = vIte(toE(vBin(K_ULT, 8, p, q), 1), 32, Val((u64)0xffffffff), Val(1));
                    r = vIte(toE(vBin(K_EQ, 8, p, q), 1), 32, r, d);
                }
            }
            finishCall({r});
            return CONT;
        }
        case X_STRLEN:
        {
            CONC(0, a0);
            const Obj* o = S->mem.get(a0);
            if(!o) violation("memory", "strlen on invalid pointer");
            u64 n = 0;
            while(addrOff(a0) + n < o->size && o->data[addrOff(a0) + n]) n++;
            finishCall({Val(n)});
            return CONT;
        }
        case X_SNPRINTF:
        {
            CONC(0, a0);
            CONC(1, a1);
            CONC(2, a2);
            auto str = [&](u64 p) {
                const Obj* o = S->mem.get(p);
                if(!o) violation("memory", "snprintf: invalid pointer");
                std::string t;
                for(u32 k = addrOff(p); k < o->size && o->data[k]; k++) t += (char)o->data[k];
                return t;
            };
            std::string fmt = str(a2), out;
            u32 next = 3;
            for(size_t k = 0; k < fmt.size(); k++)
            {
                if(fmt[k] != '%' || fmt[k + 1] == '%')
                {
                    out += fmt[k];
                    if(fmt[k] == '%') k++;
                    continue;
                }
                size_t e = fmt.find_first_of("diuxXcsp", k);
                std::string spec = e == std::string::npos ? "*" : fmt.substr(k, e - k + 1);
                if(spec.find('*') != std::string::npos || next >= I.args.size())
                    throw EngineError{"snprintf: unsupported format " + fmt};
                u64 v;
                CONC(next, v);
                next++;
                char buf[256];
                if(fmt[e] == 's')
                    snprintf(buf, sizeof buf, spec.c_str(), str(v).c_str());
                else if(fmt[e] == 'p')
                    snprintf(buf, sizeof buf, spec.c_str(), (void*)v);
                else if(spec.find_first_of("lzjt") != std::string::npos)
                    snprintf(buf, sizeof buf, spec.c_str(), v);
                else
                    snprintf(buf, sizeof buf, spec.c_str(), (unsigned)v);
                out += buf;
                k = e;
            }
            if(a1)
            {
                u64 n = std::min<u64>(out.size(), a1 - 1);
                if(!checkAcc(a0, n + 1, true, err)) violation("memory", "snprintf: " + err);
                if(opt.race && !F->f->model) hbAccess(a0, n + 1, true, false);
                Obj* o = S->mem.mut(a0);
                o->clearSym(addrOff(a0), n + 1);
                memcpy(&o->data[addrOff(a0)], out.c_str(), n);
                o->data[addrOff(a0) + n] = 0;
                memset(&o->gran[addrOff(a0)], 0, n + 1);
            }
            finishCall({Val((u64)out.size())});
            return CONT;
        }
        // ---------------------------------------------------------------- mutexes
        case X_LOCK:
        {
            CONC(0, a0);
            use(a0, 'L', "mutex lock");
            const Obj* o = S->mem.get(a0);
            Val ow = o->read(addrOff(a0), 4);
            bool rec = false;
            if(addrOff(a0) + 20 <= o->size)
            {
                Val k = o->read(addrOff(a0) + 16, 4);
                rec = k.conc() && k.c == 1;
            }
            if(!rec && !resume)
            {
                E self = toE(vBin(K_EQ, 32, ow, Val((u64)tid + 1)), 1);
                WitP w;
                if(!opt.safety && !isFalse(self) && feasible(*S, self, &w))
                    violation("deadlock", "a thread locks a mutex it already holds (self-deadlock)", w);
            }
            if(!resume)
            {
                bool vis = record(a0, true);
                if(S->sched && vis) return R_STOP;
                E en = enabled(*S, tid, 0, false);
                if(!isTrue(en))
                {
                    if(S->sched)
                    {
                        Loc& l = locs[a0];
                        if(!l.visible)
                        {
                            l.visible = true;
                            dirty = true;
                        }
                    }
                    return R_STOP;
                }
            }
            else
                record(a0, true);
            takeResume();
            addEvent(tid, 'L', 0);
            hbAccess(a0, 8, false, true);
            hbAcquire(a0);
            Obj* m = S->mem.mut(a0);
            if(rec && ow.conc() && ow.c == (u64)tid + 1)
            {
                Val c = m->read(addrOff(a0) + 4, 4);
                m->write(addrOff(a0) + 4, 4, Val(c.c + 1));
            }
            else
            {
                m->write(addrOff(a0), 4, Val((u64)tid + 1));
                T->held.push_back(a0);
            }
            finishCall({Val(0)});
            return CONT;
        }
        case X_TRYLOCK:
        case X_TRYRD:
        case X_TRYWR:
        {
            CONC(0, a0);
            use(a0, 'Y', "mutex try_lock");
            if(!resume)
            {
                bool vis = record(a0, true);
                if(S->sched && vis) return R_STOP;
            }
            E fr = ownerFree(*S, a0);
            auto word = [&](u64 at) { return S->mem.get(a0)->read(addrOff(a0) + at, 4); };
            if(I.intr == X_TRYWR) fr = mkAnd(fr, toE(vBin(K_EQ, 32, word(4), Val(0)), 1));
            bool again = false; // recursive mutex the thread holds already
            if(I.intr == X_TRYLOCK && addrOff(a0) + 20 <= S->mem.get(a0)->size)
            {
                Val kind = word(16), ow = word(0), c = word(4);
                again = kind.conc() && kind.c == 1 && ow.conc() && ow.c == (u64)tid + 1 && c.conc();
                if(again) fr = mkTrue();
            }
            State other;
            int r = decide(fr, &other);
            if(r == 2)
            {
                other.resume = true; // re-executes the try_lock with the mutex known to be held
                work.push_back(std::move(other));
                r = 1;
            }
            T = S->t(tid);
            takeResume();
            addEvent(tid, 'Y', r);
            hbAccess(a0, 8, false, true);
            if(r == 1)
            {
                hbAcquire(a0);
                if(again || I.intr == X_TRYRD)
                    S->mem.mut(a0)->write(addrOff(a0) + 4, 4, vBin(K_ADD, 32, word(4), Val(1)));
                else
                    S->mem.mut(a0)->write(addrOff(a0), 4, Val((u64)tid + 1));
                if(!again) T->held.push_back(a0);
                finishCall({Val(0)});
            }
            else
                finishCall({Val(16)}); // EBUSY
            return CONT;
        }
        case X_UNLOCK:
        {
            CONC(0, a0);
            if(!checkAcc(a0, 8, true, err)) violation("memory", err + " (mutex unlock)");
            Val ow = S->mem.get(a0)->read(addrOff(a0), 4);
            E bad = mkNot(toE(vBin(K_EQ, 32, ow, Val((u64)tid + 1)), 1));
            WitP w;
            if(!isFalse(bad) && feasible(*S, bad, &w)) violation("lock-misuse", "unlock of a mutex the thread does not hold", w);
            hbAccess(a0, 8, false, true);
            hbRelease(a0, 0);
            Obj* m = S->mem.mut(a0);
            if(addrOff(a0) + 8 <= m->size)
            {
                Val c = m->read(addrOff(a0) + 4, 4);
                if(c.conc() && c.c > 0 && c.c < 1000)
                {
                    m->write(addrOff(a0) + 4, 4, Val(c.c - 1));
                    finishCall({Val(0)});
                    return CONT;
                }
            }
            m->write(addrOff(a0), 4, Val(0));
            auto it = std::find(T->held.begin(), T->held.end(), a0);
            if(it != T->held.end()) T->held.erase(it);
            finishCall({Val(0)});
            return CONT;
        }
        case X_RDLOCK:
        case X_WRLOCK:
        {
            CONC(0, a0);
            use(a0, I.intr == X_RDLOCK ? 'R' : 'X', "rwlock");
            if(!resume)
            {
                record(a0, true);
                locs[a0].visible = true;
                if(S->sched) return R_STOP;
                if(!isTrue(enabled(*S, tid, 0, false))) return R_STOP;
            }
            takeResume();
            addEvent(tid, I.intr == X_RDLOCK ? 'R' : 'X', 0);
            hbAccess(a0, 8, false, true);
            hbAcquire(a0);
            Obj* m = S->mem.mut(a0);
            if(I.intr == X_WRLOCK)
                m->write(addrOff(a0), 4, Val((u64)tid + 1));
            else
                m->write(addrOff(a0) + 4, 4, vBin(K_ADD, 32, m->read(addrOff(a0) + 4, 4), Val(1)));
            T->held.push_back(a0);
            finishCall({Val(0)});
            return CONT;
        }
        case X_RWUNLOCK:
        {
            CONC(0, a0);
            if(!checkAcc(a0, 8, true, err)) violation("memory", err + " (rwlock)");
            hbAccess(a0, 8, false, true);
            hbRelease(a0, 0);
            Obj* m = S->mem.mut(a0);
            Val ow = m->read(addrOff(a0), 4);
            if(!ow.conc()) throw EngineError{"symbolic rwlock owner"};
            if(ow.c == (u64)tid + 1)
                m->write(addrOff(a0), 4, Val(0));
            else
                m->write(addrOff(a0) + 4, 4, vBin(K_SUB, 32, m->read(addrOff(a0) + 4, 4), Val(1)));
            auto it = std::find(T->held.begin(), T->held.end(), a0);
            if(it != T->held.end()) T->held.erase(it);
            finishCall({Val(0)});
            return CONT;
        }
        // ---------------------------------------------------------------- condition variables
        case X_CVWAIT:
        case X_CVTIMED:
        {
            CONC(0, a0);
            CONC(1, a1);
            use(a0, 'W', "condition wait");
            use(a1, 'W', "condition wait");
            if(!resume)
            {
                bool vis = record(a0, true);
                if(S->sched && vis) return R_STOP;
            }
            Val ow = S->mem.get(a1)->read(addrOff(a1), 4);
            E bad = mkNot(toE(vBin(K_EQ, 32, ow, Val((u64)tid + 1)), 1));
            WitP w;
            if(!isFalse(bad) && feasible(*S, bad, &w)) violation("lock-misuse", "condition wait without holding the mutex", w);
            Val dl;
            bool timed = I.intr == X_CVTIMED;
            if(timed)
            {
                int tsArg = I.args.size() == 4 ? 3 : 2;
                u64 ts;
                CONC(tsArg, ts);
                Val sec, ns;
                if(!load(Val(ts), 64, sec) || !load(Val(ts + 8), 64, ns)) return R_KILL;
                dl = vBin(K_ADD, 64, vBin(K_MUL, 64, sec, Val(1000000000ull)), ns);
            }
            takeResume();
            addEvent(tid, 'W', 0);
            hbAccess(a0, 8, false, true);
            hbAccess(a1, 8, false, true);
            hbRelease(a1, 0);
            S->mem.mut(a1)->write(addrOff(a1), 4, Val(0));
            auto it = std::find(T->held.begin(), T->held.end(), a1);
            if(it != T->held.end()) T->held.erase(it);
            T->st = T_CV;
            T->cv = a0;
            T->mtx = a1;
            T->timed = timed;
            T->deadline = dl;
            T->notified = Val(0);
            if(timed)
            {
                S->lastDeadline = dl;
                S->nTimedWaits++;
            }
            return R_STOP;
        }
        case X_CVNOTIFY_ONE:
        case X_CVNOTIFY_ALL:
        {
            CONC(0, a0);
            use(a0, 'N', "notify");
            if(!resume)
            {
                bool vis = record(a0, true);
                if(S->sched && vis) return R_STOP;
            }
            takeResume();
            hbAccess(a0, 8, false, true);
            if(I.intr == X_CVNOTIFY_ALL)
            {
                for(size_t i = 0; i < S->th.size(); i++)
                    if(S->th[i]->st == T_CV && S->th[i]->cv == a0) S->t(i)->notified = Val(1);
                addEvent(tid, 'N', 0);
            }
            else
            {
                std::vector<int> cand;
                for(size_t i = 0; i < S->th.size(); i++)
                    if(S->th[i]->st == T_CV && S->th[i]->cv == a0)
                    {
                        Val n = S->th[i]->notified;
                        if(n.conc() && n.c) continue;
                        if(!n.conc())
                        {
                            State other;
                            int r = decide(n.e, &other);
                            if(r == 2)
                            {
                                other.t(i)->notified = Val(0);
                                other.resume = true;
                                work.push_back(std::move(other));
                            }
                            S->t(i)->notified = Val(r ? 1 : 0);
                            if(r) continue;
                        }
                        cand.push_back(i);
                    }
                int pick = -1;
                if(!cand.empty())
                {
                    pick = cand[0];
                    if(cand.size() > 1 && S->sched)
                    {
                        T = S->t(tid);
                        Val c = nondet(8, "pick", T->nondetCtr++, tid);
                        if(c.conc())
                            pick = cand[c.c % cand.size()];
                        else
                        {
                            sol.assertE(mkTrue());
                            size_t k = 0;
                            for(; k + 1 < cand.size(); k++)
                            {
                                State other;
                                int r = decide(mkBin(K_EQ, 8, c.e, mkConst(k, 8)), &other);
                                if(r == 2)
                                {
                                    // the other side: keep choosing among the remaining candidates
                                    State keep = other;
                                    if(k + 2 == cand.size())
                                    {
                                        keep.t(cand[k + 1])->notified = Val(1);
                                        State* sv = S;
                                        S = &keep;
                                        addEvent(tid, 'N', 1 + cand[k + 1]);
                                        finishCall({Val(0)});
                                        S = sv;
                                        work.push_back(std::move(keep));
                                    }
                                    else
                                        throw EngineError{"notify_one with more than two waiters"};
                                    break;
                                }
                                if(r == 1) break;
                            }
                            pick = cand[k];
                        }
                    }
                    S->t(pick)->notified = Val(1);
                }
                addEvent(tid, 'N', 1 + pick);
            }
            finishCall({Val(0)});
            return CONT;
        }
        case X_CVDESTROY:
        {
            CONC(0, a0);
            for(size_t i = 0; i < S->th.size(); i++)
                if(S->th[i]->st == T_CV && S->th[i]->cv == a0)
                {
                    E bad = mkNot(toE(S->th[i]->notified, 1));
                    WitP w;
                    if(!isFalse(bad) && feasible(*S, bad, &w))
                        violation("memory", "condition variable destroyed while a thread waits on it", w);
                }
            finishCall({Val(0)});
            return CONT;
        }
        // ---------------------------------------------------------------- threads
        case X_SELF: finishCall({Val(T->handle)}); return CONT;
        case X_VP_TID: finishCall({Val((u64)tid)}); return CONT;
        case X_TCREATE:
        {
            CONC(0, a0);
            CONC(1, a1);
            int nt = S->th.size();
            if(nt >= MAXT) throw EngineError{"too many threads"};
            u32 fi = (u32)((a0 & 0xfffffffffffull) >> 4) - 1;
            if(addrKind(a0) != SP_FUNC || fi >= funcs.size()) throw EngineError{"bad thread function"};
            DFunc* f = funcs[fi].get();
            if(!f->decoded) decode(f);
            int bit = 0;
            while(S->handlesUsed >> bit & 1) bit++;
            S->handlesUsed |= 1ull << bit;
            u64 h = 0x10000 + 0x1000ull * bit;
            Thread* n = new Thread;
            n->handle = h;
            Frame* nf = new Frame;
            nf->f = f;
            nf->regs.assign(f->nregs, Val(0));
            nf->regs[f->params[0].first] = Val(a1);
            n->fr.push_back(Ref<Frame>(nf));
            S->th.push_back(Ref<Thread>(n));
            initTls(*S, nt);
            hbFork(nt);
            f->executed = true;
            addEvent(tid, 'C', (u64)nt | (h << 8));
            finishCall({Val(h)});
            return CONT;
        }
        case X_TJOIN:
        {
            CONC(0, a0);
            int j = -1;
            for(size_t i = 0; i < S->th.size(); i++)
                if(S->th[i]->handle == a0 && !S->th[i]->joined && !S->th[i]->detached) j = i;
            if(j < 0) violation("thread-misuse", "join of an unknown or already joined thread");
            if(j == tid) violation("deadlock", "thread joins itself");
            if(S->th[j]->st != T_FIN) return R_STOP;
            takeResume();
            addEvent(tid, 'J', j);
            hbJoin(j);
            S->t(j)->joined = true;
            S->handlesUsed &= ~(1ull << ((a0 - 0x10000) / 0x1000));
            finishCall({Val(0)});
            return CONT;
        }
        case X_TDETACH:
        {
            CONC(0, a0);
            for(size_t i = 0; i < S->th.size(); i++)
                if(S->th[i]->handle == a0 && !S->th[i]->joined && !S->th[i]->detached)
                {
                    S->t(i)->detached = true;
                    if(S->th[i]->st == T_FIN) S->handlesUsed &= ~(1ull << ((a0 - 0x10000) / 0x1000));
                    break;
                }
            addEvent(tid, 'H', 0);
            finishCall({Val(0)});
            return CONT;
        }
        case X_YIELD:
            if(S->sched && !resume) return R_STOP;
            takeResume();
            addEvent(tid, 'Z', 0);
            finishCall({Val(0)});
            return CONT;
        case X_NANOSLEEP:
        {
            if(S->sched && !resume) return R_STOP;
            takeResume();
            CONC(0, a0);
            Val sec, ns;
            if(!load(Val(a0), 64, sec) || !load(Val(a0 + 8), 64, ns)) return R_KILL;
            S->now = vBin(K_ADD, 64, S->now, vBin(K_ADD, 64, vBin(K_MUL, 64, sec, Val(1000000000ull)), ns));
            addEvent(tid, 'Z', 0);
            finishCall({Val(0)});
            return CONT;
        }
        case X_NOW:
        {
            if(S->clockMode == 1)
            {
                Val d = nondet(64, "clk", T->clkCtr++, tid);
                if(!d.conc()) sol.assertE(mkAnd(mkBin(K_ULT, 64, d.e, mkConst((u128)1 << 50, 64)), mkBin(K_ULE, 64, mkConst(CLOCKMIN, 64), d.e)));
                if(mode == M_RANDOM) d = Val(CLOCKMIN + (d.c & 0xfffff));
                S->now = vBin(K_ADD, 64, S->now, d);
            }
            else if(S->clockMode > 1)
                S->now = vBin(K_ADD, 64, S->now, Val((u64)S->clockMode));
            addEvent(tid, 'T', S->now.c);
            finishCall({S->now});
            return CONT;
        }
        // ---------------------------------------------------------------- exceptions, termination
        case X_UNWIND:
        {
            CONC(0, a0);
            CONC(1, a1);
            // the caller is the throwing frame; unwinding starts there
            if(!unwind(a0, a1))
            {
                violation("terminate", "exception escapes the thread (std::terminate)");
            }
            return CONT;
        }
        case X_TERMINATE: violation("terminate", "std::terminate/abort called"); 
        case X_ASSERTFAIL:
        {
            CONC(0, a0);
            violation("terminate", "assertion failed: " + cstr(a0));
        }
        case X_TRAP: violation("terminate", "trap instruction reached");
        case X_TLSADDR: finishCall({Val(mkAddr(SP_TLS, tid, I.off))}); return CONT;
        case X_TYPEID: finishCall({Val((I.off >> 4) & 0x7fffffff)}); return CONT;
        // ---------------------------------------------------------------- arithmetic helpers
        case X_UMAX:
        case X_UMIN:
        case X_SMAX:
        case X_SMIN:
        {
            Val a = AV(0), b = AV(1);
            bool sg = I.intr == X_SMAX || I.intr == X_SMIN;
            Val lt = vBin(sg ? K_SLT : K_ULT, I.w, a, b);
            bool mx = I.intr == X_UMAX || I.intr == X_SMAX;
            finishCall({vIte(toE(lt, 1), I.w, mx ? b : a, mx ? a : b)});
            return CONT;
        }
        case X_ABS:
        {
            Val a = AV(0);
            Val neg = vBin(K_SLT, I.w, a, Val(0));
            finishCall({vIte(toE(neg, 1), I.w, vBin(K_SUB, I.w, Val(0), a), a)});
            return CONT;
        }
        case X_USUBSAT:
        {
            Val a = AV(0), b = AV(1);
            Val lt = vBin(K_ULT, I.w, a, b);
            finishCall({vIte(toE(lt, 1), I.w, Val(0), vBin(K_SUB, I.w, a, b))});
            return CONT;
        }
        case X_UADDO:
        {
            Val a = AV(0), b = AV(1);
            Val s = vBin(K_ADD, I.w, a, b);
            finishCall({s, vBin(K_ULT, I.w, s, a)});
            return CONT;
        }
        case X_UMULO:
        {
            Val a = AV(0), b = AV(1);
            if(!a.conc() || !b.conc()) throw EngineError{"symbolic umul.with.overflow"};
            u128 p = (u128)a.c * b.c;
            finishCall({Val((u64)p & maskw(I.w)), Val((u64)(p >> I.w != 0))});
            return CONT;
        }
        case X_CEIL:
        {
            double x;
            u64 b = AV(0).c;
            memcpy(&x, &b, 8);
            x = std::ceil(x);
            memcpy(&b, &x, 8);
            finishCall({Val(b)});
            return CONT;
        }
        case X_CTLZ:
        {
            CONC(0, a0);
            u64 n = 0;
            for(int i = I.w - 1; i >= 0 && !(a0 >> i & 1); i--) n++;
            finishCall({Val(n)});
            return CONT;
        }
        case X_CTTZ:
        {
            CONC(0, a0);
            u64 n = 0;
            for(int i = 0; i < I.w && !(a0 >> i & 1); i++) n++;
            finishCall({Val(n)});
            return CONT;
        }
        case X_CTPOP:
        {
            CONC(0, a0);
            finishCall({Val((u64)__builtin_popcountll(a0))});
            return CONT;
        }
        case X_BSWAP:
        {
            CONC(0, a0);
            finishCall({Val(__builtin_bswap64(a0) >> (64 - I.w))});
            return CONT;
        }
        case X_FSHL:
        {
            CONC(2, a2);
            a2 %= I.w;
            finishCall({a2 ? vBin(K_OR, I.w, vBin(K_SHL, I.w, AV(0), Val(a2)), vBin(K_LSHR, I.w, AV(1), Val((u64)I.w - a2))) : AV(0)});
            return CONT;
        }
        // ---------------------------------------------------------------- harness interface
        case X_VP_START:
            S->sched = true;
            addEvent(tid, 'B', 0);
            finishCall({});
            return CONT;
        case X_VP_END:
            S->sched = false;
            addEvent(tid, 'E', 0);
            finishCall({});
            return CONT;
        case X_VP_FINAL:
            if(tid != 0) throw EngineError{"vp_final outside the main thread"};
            S->sched = false;
            S->final_ = true;
            addEvent(tid, 'F', 0);
            finishCall({});
            return mode == M_EXPLORE ? R_FINAL : CONT;
        case X_VP_STOP: return R_DONE;
        case X_VP_CONCR: CONC(0, a0); finishCall({Val(a0)}); return CONT;
        case X_VP_ASSERT:
        {
            Val c = AV(0);
            st.asserts++;
            E bad = I.w == 1 ? mkNot(toE(c, 1)) : toE(vBin(K_EQ, I.w, c, Val(0)), 1);
            if(!isFalse(bad))
            {
                WitP w;
                if(!isTrue(bad)) st.assertsSolver++;
                if(opt.safety)
                {
                    // other properties' business; paths on which they hold go on
                    E ok = mkNot(bad);
                    if(!feasible(*S, ok, &w)) return R_KILL;
                    assume(ok, w);
                }
                else if(feasible(*S, bad, &w))
                {
                    CONC(1, a1);
                    violation("assert", cstr(a1), w);
                }
            }
            finishCall({});
            return CONT;
        }
        case X_VP_ASSUME:
        {
            Val c = AV(0);
            E ok = I.w == 1 ? toE(c, 1) : mkNot(toE(vBin(K_EQ, I.w, c, Val(0)), 1));
            WitP w;
            if(!feasible(*S, ok, &w)) return R_KILL;
            assume(ok, w);
            finishCall({});
            return CONT;
        }
        case X_VP_NONDET:
        {
            Val v = nondet(I.w, "in", T->nondetCtr++, tid);
            addEvent(tid, 'I', v.c);
            finishCall({v});
            return CONT;
        }
        case X_VP_REACH:
        case X_VP_EXPECT:
        {
            CONC(0, a0);
            if(mode == M_EXPLORE || I.intr == X_VP_EXPECT) (I.intr == X_VP_REACH ? reached : expected).insert(cstr(a0));
            finishCall({});
            return CONT;
        }
        case X_VP_LOG:
        {
            if(mode == M_GUIDED)
            {
                CONC(0, a0);
                events.push_back({tid, 'O', AV(1).c, cstr(a0)});
            }
            finishCall({});
            return CONT;
        }
        case X_VP_TIMEOUTS:
            CONC(0, a0);
            CONC(1, a1);
            S->timeoutMode = a0;
            S->timeouts = a1;
            finishCall({});
            return CONT;
        case X_VP_SPURIOUS:
            CONC(0, a0);
            S->spurious = a0;
            finishCall({});
            return CONT;
        case X_VP_CLOCK:
            CONC(0, a0);
            S->clockMode = a0;
            finishCall({});
            return CONT;
        case X_VP_ADVANCE:
            S->now = vBin(K_ADD, 64, S->now, AV(0));
            finishCall({});
            return CONT;
        case X_VP_TIME:
            addEvent(tid, 'T', S->now.c);
            finishCall({S->now});
            return CONT;
        case X_VP_DEADLINE:
            addEvent(tid, 'T', S->lastDeadline.c);
            finishCall({S->lastDeadline});
            return CONT;
        case X_VP_TIMEDWAITS:
            addEvent(tid, 'T', S->nTimedWaits);
            finishCall({Val((u64)S->nTimedWaits)});
            return CONT;
        case X_VP_HELD: finishCall({Val((u64)T->held.size())}); return CONT;
        case X_VP_LIVE:
        {
            CONC(0, a0);
            finishCall({Val((u64)(S->mem.get(a0) != nullptr))});
            return CONT;
        }
        default: break;
    }
    throw EngineError{"unhandled intrinsic"};
}

static double asD(u64 b, unsigned w)
{
    if(w == 64)
    {
        double d;
        memcpy(&d, &b, 8);
        return d;
    }
    float f;
    u32 x = b;
    memcpy(&f, &x, 4);
    return f;
}
static u64 fromD(double d, unsigned w)
{
    if(w == 64)
    {
        u64 b;
        memcpy(&b, &d, 8);
        return b;
    }
    float f = (float)d;
    u32 x;
    memcpy(&x, &f, 4);
    return x;
}

// runs S->cur until its next scheduling point
RunRes Engine::interp()
{
    u64 budget = 5000000;
    Thread* T = S->t(S->cur);
    if(T->st == T_FIN || T->fr.empty()) return R_STOP;
    Frame* F = T->top();
    auto reload = [&]() {
        T = S->t(S->cur);
        F = T->top();
    };
    for(;;)
    {
        if(--budget == 0) violation("hang", "a thread runs without reaching another blocking or synchronisation point (5000000 instructions)");
        if(!(++st.instrs & 0xffff) && elapsed() > opt.timeLimit)
            throw EngineError{"time limit reached before the state space was exhausted"};
        DInst& I = F->f->code[F->pc];
        I.hit = true;
        switch(I.op)
        {
            case I_BIN:
            {
                Val a = opv(F, I.ops[0]), b = opv(F, I.ops[1]);
                F->regs[I.dst] = vBin((Kind)I.sub, I.w, a, b);
                F->pc++;
                break;
            }
            case I_ICMP:
            {
                Val a = opv(F, I.ops[0]), b = opv(F, I.ops[1]);
                Val r;
                using namespace llvm;
                switch((CmpInst::Predicate)I.sub)
                {
                    case CmpInst::ICMP_EQ: r = vBin(K_EQ, I.w, a, b); break;
                    case CmpInst::ICMP_NE: r = vBin(K_EQ, I.w, a, b); r = r.conc() ? Val(r.c ^ 1) : fromE(mkNot(r.e)); break;
                    case CmpInst::ICMP_ULT: r = vBin(K_ULT, I.w, a, b); break;
                    case CmpInst::ICMP_ULE: r = vBin(K_ULE, I.w, a, b); break;
                    case CmpInst::ICMP_UGT: r = vBin(K_ULT, I.w, b, a); break;
                    case CmpInst::ICMP_UGE: r = vBin(K_ULE, I.w, b, a); break;
                    case CmpInst::ICMP_SLT: r = vBin(K_SLT, I.w, a, b); break;
                    case CmpInst::ICMP_SLE: r = vBin(K_SLE, I.w, a, b); break;
                    case CmpInst::ICMP_SGT: r = vBin(K_SLT, I.w, b, a); break;
                    case CmpInst::ICMP_SGE: r = vBin(K_SLE, I.w, b, a); break;
                    default: throw EngineError{"icmp"};
                }
                F->regs[I.dst] = r;
                F->pc++;
                break;
            }
            case I_CAST:
            {
                Val a = opv(F, I.ops[0]);
                Val r = I.sub == 0 ? vZext(a, I.w, I.w2) : I.sub == 1 ? vSext(a, I.w, I.w2) : I.sub == 2 ? vExtract(a, I.w, 0, I.w2) : a;
                F->regs[I.dst] = r;
                F->pc++;
                break;
            }
            case I_ALLOCA:
            {
                u64 a = mkAddr(SP_STACK, S->cur, T->stackTop++);
                S->mem.put(a, new Obj(I.off, 0xAA));
                F->regs[I.dst] = Val(a);
                F->pc++;
                break;
            }
            case I_GEP:
            {
                Val r = opv(F, I.ops[0]);
                if(I.off) r = vBin(K_ADD, 64, r, Val(I.off));
                for(size_t k = 0; k < I.scale.size(); k++)
                {
                    Val ix = opv(F, I.ops[1 + k]);
                    ix = I.opw[k] < 64 ? vSext(ix, I.opw[k], 64) : ix;
                    r = vBin(K_ADD, 64, r, I.scale[k] == 1 ? ix : vBin(K_MUL, 64, ix, Val(I.scale[k])));
                }
                F->regs[I.dst] = r;
                F->pc++;
                break;
            }
            case I_LOAD:
            case I_STORE:
            case I_RMW:
            case I_CMPXCHG:
            {
                Val p = opv(F, I.ops[0]);
                if(!p.conc() && p.e->kind != K_GC)
                {
                    u64 x;
                    if(!conc(F, I.ops[0], 64, x)) return R_KILL;
                    reload();
                    p = Val(x);
                }
                if(!p.conc() && opt.race && S->sched)
                {
                    // tracked accesses are to one place
                    bool tr = false;
                    for(u32 k = 0; k < p.e->nk && !tr; k++) tr = I.atomic || hbTracked(p.e->gv[k], (I.w + 7) / 8);
                    if(tr)
                    {
                        u64 x;
                        if(!conc(F, I.ops[0], 64, x)) return R_KILL;
                        reload();
                        p = Val(x);
                    }
                }
                bool wr = I.op != I_LOAD;
                bool counted = I.atomic && (!I.refcount || opt.refcountVisible);
                if(counted)
                {
                    if(!S->resume)
                    {
                        bool vis = false;
                        if(p.conc())
                            vis = record(p.c, wr);
                        else
                            for(u32 k = 0; k < p.e->nk; k++) vis = record(p.e->gv[k], wr) || vis;
                        if(S->sched && vis) return R_STOP;
                    }
                    S->resume = false;
                    addEvent(S->cur, 'A', 0);
                }
                if(opt.race && (I.atomic || !F->f->model))
                {
                    u32 n = (I.w + 7) / 8;
                    if(p.conc())
                        hbAccess(p.c, n, wr, I.atomic);
                    else
                        for(u32 k = 0; k < p.e->nk; k++) hbAccess(p.e->gv[k], n, wr, I.atomic);
                    if(I.atomic && p.conc())
                    {
                        if(wr && I.op != I_STORE && (I.order & 1)) hbAcquire(p.c, n);
                        if(!wr && (I.order & 1)) hbAcquire(p.c, n);
                        if(I.op == I_STORE)
                            hbRelease(p.c, I.order & 2 ? 1 : 2);
                        else if(wr && (I.order & 2))
                            hbRelease(p.c, 0);
                    }
                }
                if(I.op == I_LOAD)
                {
                    Val v;
                    if(!load(p, I.w, v)) return R_KILL;
                    F->regs[I.dst] = v;
                }
                else if(I.op == I_STORE)
                {
                    if(!store(p, I.w, opv(F, I.ops[1]))) return R_KILL;
                }
                else if(I.op == I_RMW)
                {
                    Val v, b = opv(F, I.ops[1]), n;
                    if(!load(p, I.w, v)) return R_KILL;
                    using namespace llvm;
                    switch((AtomicRMWInst::BinOp)I.sub)
                    {
                        case AtomicRMWInst::Xchg: n = b; break;
                        case AtomicRMWInst::Add: n = vBin(K_ADD, I.w, v, b); break;
                        case AtomicRMWInst::Sub: n = vBin(K_SUB, I.w, v, b); break;
                        case AtomicRMWInst::And: n = vBin(K_AND, I.w, v, b); break;
                        case AtomicRMWInst::Or: n = vBin(K_OR, I.w, v, b); break;
                        case AtomicRMWInst::Xor: n = vBin(K_XOR, I.w, v, b); break;
                        default: throw EngineError{"atomicrmw op"};
                    }
                    if(!store(p, I.w, n)) return R_KILL;
                    F->regs[I.dst] = v;
                }
                else
                {
                    Val v, c = opv(F, I.ops[1]), n = opv(F, I.ops[2]);
                    if(!load(p, I.w, v)) return R_KILL;
                    Val eq = vBin(K_EQ, I.w, v, c);
                    if(!store(p, I.w, vIte(toE(eq, 1), I.w, n, v))) return R_KILL;
                    F->regs[I.dst] = v;
                    F->regs[I.dst + 1] = eq;
                }
                F->pc++;
                break;
            }
            case I_BR: takeEdge(F, I.edges[0]); break;
            case I_CBR:
            {
                Val c = opv(F, I.ops[0]);
                if(c.conc())
                {
                    takeEdge(F, I.edges[c.c ? 0 : 1]);
                    break;
                }
                State other;
                int r = decide(c.e, &other);
                reload();
                if(r == 2)
                {
                    Frame* OF = other.t(other.cur)->top();
                    takeEdge(OF, I.edges[1]);
                    work.push_back(std::move(other));
                    takeEdge(F, I.edges[0]);
                }
                else
                    takeEdge(F, I.edges[r ? 0 : 1]);
                break;
            }
            case I_SWITCH:
            {
                u64 v;
                Val c = opv(F, I.ops[0]);
                if(!c.conc() && c.e->kind != K_GC)
                {
                    // decide case by case
                    size_t k = 0;
                    bool done = false;
                    for(; k < I.cases.size() && !done; k++)
                    {
                        State other;
                        int r = decide(toE(vBin(K_EQ, I.w, c, Val(I.cases[k])), 1), &other);
                        reload();
                        if(r == 2)
                        {
                            work.push_back(std::move(other)); // re-executes the switch on the false side
                            F->regs[I.ops[0].reg] = Val(I.cases[k]);
                            done = true;
                        }
                        else if(r == 1)
                        {
                            F->regs[I.ops[0].reg] = Val(I.cases[k]);
                            done = true;
                        }
                    }
                    if(!done)
                    {
                        takeEdge(F, I.edges[0]);
                        break;
                    }
                    c = opv(F, I.ops[0]);
                }
                if(!conc(F, I.ops[0], I.w, v)) return R_KILL;
                reload();
                size_t k = 0;
                while(k < I.cases.size() && I.cases[k] != v) k++;
                takeEdge(F, k < I.cases.size() ? I.edges[k + 1] : I.edges[0]);
                break;
            }
            case I_SELECT:
            {
                Val c = opv(F, I.ops[0]);
                int n = I.nl;
                for(int k = 0; k < n; k++)
                {
                    Val a = opv(F, I.ops[1 + k]), b = opv(F, I.ops[1 + n + k]);
                    F->regs[I.dst + k] = c.conc() ? (c.c ? a : b) : vIte(c.e, I.opw[k], a, b);
                }
                F->pc++;
                break;
            }
            case I_MOV:
            {
                Val t[16];
                for(int k = 0; k < I.nl; k++) t[k] = opv(F, I.ops[k]);
                for(int k = 0; k < I.nl; k++) F->regs[I.dst + k] = t[k];
                F->pc++;
                break;
            }
            case I_NOP: F->pc++; break;
            case I_CALL:
            case I_INVOKE:
            {
                DFunc* callee = I.callee;
                if(I.intr)
                {
                    RunRes r = doCall(I, F, T);
                    if(r != R_CONT) return r;
                    reload();
                    break;
                }
                if(I.sub == 1)
                {
                    u64 a;
                    if(!conc(F, I.ops[0], 64, a)) return R_KILL;
                    reload();
                    u32 fi = (u32)((a & 0xfffffffffffull) >> 4) - 1;
                    if(addrKind(a) != SP_FUNC || fi >= funcs.size()) violation("memory", "call through an invalid function pointer");
                    callee = funcs[fi].get();
                }
                if(callee->F->isDeclaration()) throw EngineError{"call of unmodelled function " + callee->name};
                if(!callee->decoded) decode(callee);
                callee->executed = true;
                if(T->fr.size() > 200) violation("hang", "call depth exceeds 200 frames");
                Ref<Frame> nfr(new Frame);
                Frame* nf = nfr.p;
                nf->f = callee;
                nf->stackBase = T->stackTop;
                nf->regs.assign(callee->nregs, Val(0));
                for(size_t k = 0; k < callee->params.size() && k < I.args.size(); k++)
                {
                    auto& pr = callee->params[k];
                    for(int j = 0; j < pr.second; j++) nf->regs[pr.first + j] = opv(F, I.ops[I.args[k].first + j]);
                    if(I.args[k].second)
                    {
                        u64 src;
                        if(!conc(F, I.ops[I.args[k].first], 64, src)) return R_KILL;
                        reload();
                        std::string err;
                        u32 n = I.args[k].second;
                        const Obj* so = checkAcc(src, n, false, err);
                        if(!so) violation("memory", err + " (by-value argument)");
                        Obj* o = new Obj(n, 0);
                        u64 off = addrOff(src);
                        memcpy(o->data.data(), &so->data[off], n);
                        memcpy(o->gran.data(), &so->gran[off], n);
                        for(auto& c : so->sym)
                            if(c.off >= off && c.off + c.n <= off + n) o->write(c.off - off, c.n, fromE(c.e));
                            else if(c.off < off + n && off < c.off + c.n) throw EngineError{"byval partial cell"};
                        u64 a = mkAddr(SP_STACK, S->cur, T->stackTop++);
                        S->mem.put(a, o);
                        nf->regs[pr.first] = Val(a);
                    }
                }
                T->fr.push_back(nfr);
                F = T->top();
                break;
            }
            case I_RET:
            {
                std::vector<Val> rv;
                for(auto& o : I.ops) rv.push_back(opv(F, o));
                popStack(F->stackBase);
                T->stackTop = F->stackBase;
                T->fr.pop_back();
                if(T->fr.empty())
                {
                    T->st = T_FIN;
                    addEvent(S->cur, 'Q', 0);
                    if(S->cur == 0)
                    {
                        S->mainDone = true;
                        return R_DONE;
                    }
                    if(T->detached) S->handlesUsed &= ~(1ull << ((T->handle - 0x10000) / 0x1000));
                    if(!T->held.empty()) violation("lock-misuse", "thread ends while holding a mutex");
                    return R_STOP;
                }
                finishCall(rv);
                F = T->top();
                break;
            }
            case I_LPAD:
            {
                u64 sel = 0;
                for(auto& c : I.clauses)
                {
                    if(c.second == 1)
                    {
                        sel = 0xffffffff;
                        break;
                    }
                    if(typeMatch(T->excTi, c.first))
                    {
                        sel = (c.first >> 4) & 0x7fffffff;
                        if(!sel) sel = 0x7fffffff;
                        break;
                    }
                }
                F->regs[I.dst] = Val(T->excObj);
                F->regs[I.dst + 1] = Val(sel);
                F->pc++;
                break;
            }
            case I_RESUME:
            {
                u64 o;
                if(!conc(F, I.ops[0], 64, o)) return R_KILL;
                reload();
                // type info is stored in the exception header
                Val ti;
                if(!load(Val(o - 56), 64, ti)) return R_KILL;
                // pop this frame, continue unwinding in the caller
                popStack(F->stackBase);
                T->stackTop = F->stackBase;
                T->fr.pop_back();
                if(T->fr.empty() || !unwind(o, ti.c)) violation("terminate", "exception escapes the thread (std::terminate)");
                reload();
                break;
            }
            case I_UNREACH: violation("terminate", "unreachable instruction executed");
            case I_FP:
            {
                using namespace llvm;
                Val a = opv(F, I.ops[0]), b = I.ops.size() > 1 ? opv(F, I.ops[1]) : Val(0);
                if(!a.conc() || !b.conc()) throw EngineError{"symbolic floating point"};
                u64 r = 0;
                switch(I.off)
                {
                    case Instruction::FAdd: r = fromD(asD(a.c, I.w) + asD(b.c, I.w), I.w2); break;
                    case Instruction::FSub: r = fromD(asD(a.c, I.w) - asD(b.c, I.w), I.w2); break;
                    case Instruction::FMul: r = fromD(asD(a.c, I.w) * asD(b.c, I.w), I.w2); break;
                    case Instruction::FDiv: r = fromD(asD(a.c, I.w) / asD(b.c, I.w), I.w2); break;
                    case Instruction::UIToFP: r = fromD((double)a.c, I.w2); break;
                    case Instruction::SIToFP: r = fromD((double)(int64_t)vSext(a, I.w, 64).c, I.w2); break;
                    case Instruction::FPToUI: r = (u64)asD(a.c, I.w) & maskw(I.w2); break;
                    case Instruction::FPToSI: r = (u64)(int64_t)asD(a.c, I.w) & maskw(I.w2); break;
                    case Instruction::FPExt:
                    case Instruction::FPTrunc: r = fromD(asD(a.c, I.w), I.w2); break;
                    case Instruction::FCmp:
                    {
                        double x = asD(a.c, I.w), y = asD(b.c, I.w);
                        switch((CmpInst::Predicate)I.sub)
                        {
                            case CmpInst::FCMP_OEQ:
                            case CmpInst::FCMP_UEQ: r = x == y; break;
                            case CmpInst::FCMP_ONE:
                            case CmpInst::FCMP_UNE: r = x != y; break;
                            case CmpInst::FCMP_OLT:
                            case CmpInst::FCMP_ULT: r = x < y; break;
                            case CmpInst::FCMP_OLE:
                            case CmpInst::FCMP_ULE: r = x <= y; break;
                            case CmpInst::FCMP_OGT:
                            case CmpInst::FCMP_UGT: r = x > y; break;
                            case CmpInst::FCMP_OGE:
                            case CmpInst::FCMP_UGE: r = x >= y; break;
                            default: throw EngineError{"fcmp"};
                        }
                        break;
                    }
                    default: throw EngineError{"fp op"};
                }
                F->regs[I.dst] = Val(r);
                F->pc++;
                break;
            }
        }
    }
}
