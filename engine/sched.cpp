// Symbolic scheduler: level-wise exploration of all interleavings with state merging.
#include "engine.h"
#include <algorithm>

State Engine::initial()
{
    State s;
    s.lit = mkTrue();
    s.wit = std::make_shared<Witness>();
    initGlobals(s);
    if(auto* g = mod->getGlobalVariable("vp_scenario")) s.mem.mut(gaddr[g])->write(0, 4, Val(opt.scenario));
    Thread* n = new Thread;
    n->handle = 0x10000;
    s.handlesUsed = 1;
    n->st = T_RUN;
    DFunc* f = getFunc(mod->getFunction("vp_entry"));
    if(!f->decoded) decode(f);
    f->executed = true;
    Frame* nf = new Frame;
    nf->f = f;
    nf->regs.assign(f->nregs, Val(0));
    n->fr.push_back(Ref<Frame>(nf));
    s.th.push_back(Ref<Thread>(n));
    initTls(s, 0);
    return s;
}

static u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

// pointer-valued leaves make a term part of the heap topology
static bool ptrTerm(E e)
{
    if(e->kind != K_GC || e->width != 64) return false;
    for(u32 i = 0; i < e->nk; i++)
        if(ptrLike(e->gv[i])) return true;
    return false;
}

static u64 objHash(const Obj* o, int mode)
{
    u64 h = o->size;
    if(mode == 2)
    {
        for(auto& c : o->sym) h = mix(mix(h, c.off), c.e->id);
        u32 i = 0;
        for(; i + 8 <= o->size; i += 8)
        {
            u64 v;
            memcpy(&v, &o->data[i], 8);
            if(v) h = mix(h ^ i, v);
        }
        for(; i < o->size; i++) h = mix(h, o->data[i]);
        return h;
    }
    for(auto& c : o->sym)
        if(c.n == 8 && ptrTerm(c.e)) h = mix(mix(h, c.off), c.e->id);
    for(u32 i = 0; i + 8 <= o->size; i += 8)
    {
        u64 v;
        memcpy(&v, &o->data[i], 8);
        if(ptrLike(v)) h = mix(h ^ i, v);
    }
    return h;
}

u64 Engine::memHash(State& s)
{
    u64 h = 0;
    for(size_t k = 0; k < s.mem.sp.size(); k++)
    {
        auto& sp = s.mem.sp[k];
        if(!sp) continue;
        for(size_t c = 0; c < sp->c.size(); c++)
        {
            Chunk* ch = sp->c[c].p;
            if(!ch) continue;
            if(!ch->phv)
            {
                ch->ph = 0;
                for(int i = 0; i < 32; i++)
                {
                    Obj* o = ch->o[i].p;
                    if(!o) continue;
                    if(!o->phv)
                    {
                        o->ph = objHash(o, opt.merge);
                        o->phv = true;
                    }
                    ch->ph = mix(ch->ph ^ i, o->ph);
                }
                ch->phv = true;
            }
            h = mix(h ^ (k << 20 | c), ch->ph);
        }
    }
    return h;
}

static bool bit(const std::vector<u64>& b, int i) { return b[i / 64] >> (i % 64) & 1; }

u64 Engine::sig(State& s)
{
    u64 h = 1;
    for(auto& tr : s.th)
    {
        const Thread* t = tr.p;
        h = mix(h, t->st | (t->detached << 4) | (t->joined << 5) | (t->timed << 6));
        h = mix(h, t->cv);
        h = mix(h, t->mtx);
        h = mix(h, t->heapCtr);
        h = mix(h, t->stackTop);
        h = mix(h, ((u64)t->nondetCtr << 32) | t->clkCtr);
        h = mix(h, t->handle);
        h = mix(h, t->excObj);
        h = mix(h, t->excTi);
        auto held = t->held;
        std::sort(held.begin(), held.end());
        for(u64 m : held) h = mix(h, m);
        h = mix(h, t->fr.size());
        for(auto& f : t->fr)
        {
            h = mix(h, (u64)f->f->idx);
            h = mix(h, (u64)f->pc);
            h = mix(h, f->stackBase);
            if(opt.merge && !f->regs.empty())
            {
                const DInst& I = f->f->code[f->pc];
                bool top = f.p == t->fr.back().p && t->st != T_CV;
                const std::vector<u64>& live = top ? I.liveIn : I.liveAfter;
                for(size_t q = 0; q < f->regs.size(); q++)
                {
                    if(!live.empty() && !bit(live, q)) continue;
                    const Val& v = f->regs[q];
                    if(opt.merge == 2)
                        h = mix(h ^ q, v.conc() ? v.c : v.e->id + (1ull << 60));
                    else if(v.conc() ? ptrLike(v.c) : ptrTerm(v.e))
                        h = mix(h ^ q, v.conc() ? v.c : v.e->id + (1ull << 60));
                }
            }
        }
        if(opt.merge == 2)
        {
            h = mix(h, t->deadline.conc() ? t->deadline.c : t->deadline.e->id + (1ull << 60));
            h = mix(h, t->notified.conc() ? t->notified.c : t->notified.e->id + (1ull << 60));
        }
        if(t->st == T_RUN && !t->fr.empty())
        {
            const Frame* F = t->fr.back().p;
            const DInst& I = F->f->code[F->pc];
            if((I.op == I_CALL || I.op == I_INVOKE) && I.intr >= X_LOCK && I.intr <= X_TDETACH && I.intr != X_SELF)
                for(size_t a = 0; a < I.args.size() && a < 2; a++)
                {
                    const Op& o = I.ops[I.args[a].first];
                    Val v = o.reg >= 0 ? F->regs[o.reg] : o.c;
                    h = mix(h, v.conc() ? v.c : 0);
                }
        }
    }
    h = mix(h, s.mem.liveHash);
    if(opt.merge) h = mix(h, memHash(s));
    h = mix(h, s.handlesUsed);
    h = mix(h, ((u64)s.spurious << 40) | ((u64)s.timeouts << 20) | (s.timeoutMode << 4) | (s.sched ? 1 : 0));
    h = mix(h, s.clockMode);
    h = mix(h, s.nTimedWaits);
    if(hbExact) h = mix(h, hbHash(s));
    return h;
}

static Obj* mergeObj(const std::vector<const Obj*>& os, const std::vector<E>& al)
{
    const Obj* b = os[0];
    Obj* r = new Obj(*b);
    r->rc = 0;
    r->phv = false;
    u32 n = b->size;
    // symbolic cover maps: start offset of covering cell per state is found on demand
    auto coveredCont = [&](const Obj* o, u32 off) {
        if(o->gran[off] == 0xff) return true;
        for(auto& c : o->sym)
            if(off > c.off && off < c.off + c.n) return true;
        return false;
    };
    auto cellAt = [&](const Obj* o, u32 off) -> const Cell* {
        for(auto& c : o->sym)
            if(off >= c.off && off < c.off + c.n) return &c;
        return nullptr;
    };
    auto same = [&](u32 off) {
        const Cell* c0 = cellAt(b, off);
        for(size_t i = 1; i < os.size(); i++)
        {
            if(os[i] == b) continue;
            const Cell* c = cellAt(os[i], off);
            if((c0 == nullptr) != (c == nullptr)) return false;
            if(c0)
            {
                if(c0->e != c->e || c0->off != c->off) return false;
            }
            else if(b->data[off] != os[i]->data[off])
                return false;
        }
        return true;
    };
    // quick check
    bool anySym = false;
    for(auto o : os) anySym = anySym || !o->sym.empty();
    u32 off = 0;
    while(off < n)
    {
        if(!anySym)
        {
            bool eq = true;
            for(size_t i = 1; i < os.size() && eq; i++)
                if(os[i] != b && os[i]->data[off] != b->data[off]) eq = false;
            if(eq)
            {
                off++;
                continue;
            }
        }
        else if(same(off))
        {
            off++;
            continue;
        }
        u32 s = off, e = off + 1;
        auto contAny = [&](u32 x) {
            for(auto o : os)
                if(coveredCont(o, x)) return true;
            return false;
        };
        while(s > 0 && contAny(s)) s--;
        while(e < n && contAny(e)) e++;
        for(u32 p = s; p < e;)
        {
            u32 len = std::min<u32>(8, e - p);
            if(p % 8) len = std::min<u32>(len, 8 - p % 8);
            // avoid odd lengths straddling: use the recorded granularity if it fits
            std::vector<Val> vs;
            bool eq = true;
            for(auto o : os) vs.push_back(o->read(p, len));
            for(size_t i = 1; i < vs.size(); i++) eq = eq && vs[i] == vs[0];
            if(!eq)
            {
                std::vector<E> es;
                for(auto& v : vs) es.push_back(toE(v, len * 8));
                r->write(p, len, fromE(mkSelect(al, es)));
            }
            p += len;
        }
        off = e;
    }
    return r;
}

State Engine::mergeGroup(std::vector<State>& g, int level, bool final_)
{
    size_t n = g.size();
    st.merges++;
    st.mergedStates += n;
    std::vector<E> al(n);
    int lg = groupCtr++;
    NodeInfo ni;
    std::vector<E> ors;
    for(size_t i = 0; i < n; i++)
    {
        al[i] = newLit(lg, "a");
        constrain(al[i], g[i].lit, nullptr);
        ni.in.push_back({al[i], g[i].node, g[i].stepT, g[i].stepAlt});
        ors.push_back(al[i]);
    }
    if(n <= 8)
        for(size_t i = 0; i < n; i++)
            for(size_t j = i + 1; j < n; j++) sol.assertE(mkOr(mkNot(al[i]), mkNot(al[j])));
    else
    {
        // ladder: l[i] holds if one of al[0..i] does
        E prev = nullptr;
        for(size_t i = 0; i < n; i++)
        {
            E l = newLit(groupCtr++, "l");
            sol.assertE(mkOr(mkNot(al[i]), l));
            if(prev)
            {
                sol.assertE(mkOr(mkNot(prev), l));
                sol.assertE(mkOr(mkNot(prev), mkNot(al[i])));
            }
            prev = l;
        }
    }
    E b = newLit(groupCtr++, "n");
    ors.push_back(mkNot(b));
    sol.assertE(mkOrN(ors));
    State r = g[0];
    r.lit = b;
    sol.up[b] = al;
    r.wit = extendWit(g[0].wit, {al[0], b});
    r.pool.clear();
    for(size_t k = 0; r.pool.size() < POOL; k++)
    {
        bool any = false;
        for(size_t i = 0; i < n && r.pool.size() < POOL; i++)
        {
            if(k == 0 && i == 0) continue;
            if(k > 0 && k - 1 >= g[i].pool.size()) continue;
            any = true;
            r.pool.push_back(extendWit(k == 0 ? g[i].wit : g[i].pool[k - 1], {al[i], b}));
        }
        if(!any && k > 0) break;
    }
    r.node = nodes.size();
    nodes.push_back(ni);
    r.mult = 0;
    r.detCount = 0;
    for(auto& s : g) r.mult += s.mult;
    auto mergeV = [&](unsigned w, std::function<Val(State&)> get) -> Val {
        std::vector<E> es;
        Val v0 = get(g[0]);
        bool eq = true;
        for(auto& s : g) eq = eq && get(s) == v0;
        if(eq) return v0;
        for(auto& s : g) es.push_back(toE(get(s), w));
        return fromE(mkSelect(al, es));
    };
    r.now = mergeV(64, [](State& s) { return s.now; });
    r.lastDeadline = mergeV(64, [](State& s) { return s.lastDeadline; });
    if(final_)
        for(auto& s : g) r.t(0)->heapCtr = std::max(r.th[0]->heapCtr, s.th[0]->heapCtr);
    for(size_t t = 0; t < (final_ ? 1 : r.th.size()); t++)
    {
        bool eq = true;
        for(auto& s : g) eq = eq && s.th[t].p == g[0].th[t].p;
        if(eq) continue;
        Thread* T = r.t(t);
        T->deadline = mergeV(64, [t](State& s) { return s.th[t]->deadline; });
        T->notified = mergeV(1, [t](State& s) { return s.th[t]->notified; });
        for(size_t k = 0; k < T->fr.size(); k++)
        {
            bool feq = true;
            for(auto& s : g) feq = feq && s.th[t]->fr[k].p == g[0].th[t]->fr[k].p;
            if(feq) continue;
            Frame* F = T->fr[k].mut();
            const DInst& I = F->f->code[F->pc];
            bool top = k + 1 == T->fr.size() && T->st != T_CV;
            const std::vector<u64>& live = top ? I.liveIn : I.liveAfter;
            for(size_t q = 0; q < F->regs.size(); q++)
            {
                if(!live.empty() && !bit(live, q))
                {
                    F->regs[q] = Val(0);
                    continue;
                }
                Val v0 = g[0].th[t]->fr[k]->regs[q];
                bool req = true;
                for(auto& s : g) req = req && s.th[t]->fr[k]->regs[q] == v0;
                if(req) continue;
                unsigned w = F->f->regw[q];
                std::vector<E> es;
                for(auto& s : g) es.push_back(toE(s.th[t]->fr[k]->regs[q], w));
                F->regs[q] = fromE(mkSelect(al, es));
            }
        }
    }
    // memory
    for(size_t k = 0; k < r.mem.sp.size(); k++)
    {
        if(final_ && k / MAXT + SP_GLOBAL == SP_STACK && k % MAXT != 0) continue;
        bool eq = true;
        for(auto& s : g) eq = eq && s.mem.sp[k].p == g[0].mem.sp[k].p;
        if(eq) continue;
        size_t nc = 0;
        for(auto& s : g)
            if(s.mem.sp[k]) nc = std::max(nc, s.mem.sp[k]->c.size());
        for(size_t c = 0; c < nc; c++)
        {
            auto chunk = [&](State& s) -> const Chunk* {
                auto& sp = s.mem.sp[k];
                return sp && c < sp->c.size() ? sp->c[c].p : nullptr;
            };
            bool ceq = true;
            for(auto& s : g) ceq = ceq && chunk(s) == chunk(g[0]);
            if(ceq) continue;
            for(int i = 0; i < 32; i++)
            {
                const Obj* o0 = chunk(g[0]) ? chunk(g[0])->o[i].p : nullptr;
                std::vector<const Obj*> os;
                bool oeq = true;
                for(auto& s : g)
                {
                    const Obj* o = chunk(s) ? chunk(s)->o[i].p : nullptr;
                    oeq = oeq && o == o0;
                    os.push_back(o);
                }
                if(oeq) continue;
                u64 addr = mkAddr((int)(k / MAXT) + SP_GLOBAL, (int)(k % MAXT), (u32)(c * 32 + i));
                if(final_)
                {
                    const Obj* big = nullptr;
                    std::vector<E> lv;
                    for(size_t j = 0; j < n; j++)
                    {
                        if(!os[j]) continue;
                        lv.push_back(al[j]);
                        if(!big || os[j]->size > big->size) big = os[j];
                    }
                    std::vector<std::unique_ptr<Obj>> padded;
                    for(auto& o : os)
                    {
                        if(!o)
                            o = big;
                        else if(o->size != big->size)
                        {
                            // same address, different allocation: keep the contents, pad to the larger size
                            padded.emplace_back(new Obj(*o));
                            Obj* x = padded.back().get();
                            x->rc = 0;
                            x->phv = false;
                            x->size = big->size;
                            x->data.resize(big->size, 0);
                            x->gran.resize(big->size, 0);
                            o = x;
                        }
                    }
                    Obj* m = mergeObj(os, al);
                    if(lv.size() < n) m->live = mkOrN(lv);
                    r.mem.slot(addr) = Ref<Obj>(m);
                    continue;
                }
                for(auto o : os)
                    if(!o || o->size != o0->size) throw EngineError{"merge of different heap shapes"};
                Obj* m = mergeObj(os, al);
                r.mem.slot(addr) = Ref<Obj>(m);
            }
        }
    }
    r.level = level;
    if(opt.race && !final_) hbMerge(r, g);
    return r;
}

std::vector<std::pair<int, int>> Engine::pathOf(State& s, const Witness* w)
{
    std::vector<std::pair<int, int>> p;
    if(s.stepT >= 0) p.push_back({s.stepT, s.stepAlt});
    int n = s.node;
    ev.begin(w);
    while(n >= 0)
    {
        bool found = false;
        for(auto& a : nodes[n].in)
            if(nodes[n].in.size() == 1 || ev.eval(a.lit))
            {
                if(a.tid >= 0) p.push_back({a.tid, a.alt});
                n = a.parent;
                found = true;
                break;
            }
        if(!found) throw EngineError{"witness does not determine a path"};
    }
    std::reverse(p.begin(), p.end());
    return p;
}

E Engine::choices(State& s, std::vector<Choice>& out)
{
    E any = mkFalse();
    std::vector<E> ors;
    for(size_t t = 0; t < s.th.size(); t++)
        for(int a = 0; a < 3; a++)
        {
            E c = enabled(s, t, a, false);
            if(isFalse(c)) continue;
            out.push_back({(int)t, a, c});
            ors.push_back(c);
        }
    any = mkOrN(ors);
    if(!isTrue(any))
    {
        for(size_t t = 0; t < s.th.size(); t++)
            if(s.th[t]->st == T_CV && s.th[t]->timed)
            {
                E c = mkAnd(enabled(s, t, 1, true), mkNot(any));
                if(isFalse(c)) continue;
                bool dup = false;
                for(auto& x : out)
                    if(x.tid == (int)t && x.alt == 1)
                    {
                        x.cond = mkOr(x.cond, c);
                        dup = true;
                    }
                if(!dup) out.push_back({(int)t, 1, c});
                ors.push_back(c);
            }
        any = mkOrN(ors);
    }
    return any;
}

// deterministic continuation outside the scheduled section
bool Engine::detPick()
{
    if(++S->detCount > 20000) violation("hang", "no termination under a fair deterministic schedule (20000 steps)");
    int n = S->th.size();
    for(int pass = 0; pass < 2; pass++)
    {
        int bestT = -1;
        for(int k = 1; k <= n; k++)
        {
            int t = (S->cur + k) % n;
            int alt = -1;
            E c = mkFalse();
            if(pass == 0)
            {
                c = enabled(*S, t, 0, false);
                alt = 0;
                if(isFalse(c))
                {
                    c = enabled(*S, t, 1, false);
                    if(S->timeoutMode == 1) c = mkFalse();
                    alt = 1;
                }
            }
            else
            {
                if(S->th[t]->st != T_CV || !S->th[t]->timed) continue;
                c = enabled(*S, t, 1, true);
                alt = 1;
            }
            if(isFalse(c)) continue;
            if(!isTrue(c))
            {
                State other;
                int r = decide(c, &other);
                if(r == 0) continue;
                if(r == 2)
                {
                    other.resume = false;
                    // false side: continues searching; simply re-run the pick later
                    other.cur = S->cur;
                    other.noMerge = true; // marks "needs detPick"
                    work.push_back(std::move(other));
                }
            }
            if(pass == 1 && bestT >= 0)
            {
                Val a = S->th[bestT]->deadline, b = S->th[t]->deadline;
                if(a.conc() && b.conc() && (int64_t)b.c < (int64_t)a.c) bestT = t;
                continue;
            }
            if(pass == 1)
            {
                bestT = t;
                continue;
            }
            S->cur = t;
            if(S->th[t]->st == T_CV)
                performWake(*S, t, alt);
            else
                S->resume = true;
            return true;
        }
        if(bestT >= 0)
        {
            S->cur = bestT;
            performWake(*S, bestT, 1);
            return true;
        }
    }
    violation("deadlock", "no thread can make progress");
}

void Engine::runState(State&& s0, std::vector<State>& out)
{
    size_t base = work.size();
    work.push_back(std::move(s0));
    while(work.size() > base)
    {
        State cur = std::move(work.back());
        work.pop_back();
        S = &cur;
        bool pick = cur.noMerge;
        cur.noMerge = false;
        for(;;)
        {
            RunRes r = R_STOP;
            if(!pick)
            {
                try
                {
                    r = interp();
                }
                catch(PathEnd&)
                {
                    break;
                }
                catch(EngineError& x)
                {
                    if(x.where.empty() && cur.cur < (int)cur.th.size() && !cur.th[cur.cur]->fr.empty()) x.where = stackStr(cur, cur.cur);
                    throw;
                }
                if(r == R_KILL) break;
                if(r == R_FINAL)
                {
                    finals.push_back(std::move(cur));
                    break;
                }
                if(r == R_DONE)
                {
                    finalState(cur);
                    break;
                }
            }
            pick = false;
            if(cur.final_) throw EngineError{"the main thread blocks or starts a thread after vp_final"};
            int nw = -1;
            for(size_t i = 0; i < cur.th.size() && nw < 0; i++)
                if(cur.th[i]->st == T_NEW) nw = i;
            if(nw >= 0)
            {
                cur.cur = nw;
                cur.t(nw)->st = T_RUN;
                cur.resume = false;
                addEvent(nw, 'S');
                continue;
            }
            if(cur.sched)
            {
                out.push_back(std::move(cur));
                break;
            }
            try
            {
                if(!detPick()) break;
            }
            catch(PathEnd&)
            {
                break;
            }
        }
        S = nullptr;
    }
}

// all states that reached vp_final become one (per control state of the main thread)
void Engine::runFinals(int level)
{
    std::map<std::vector<u64>, std::vector<State>> groups;
    for(auto& s : finals)
    {
        std::vector<u64> key;
        const Thread* t = s.th[0].p;
        for(auto& f : t->fr)
        {
            key.push_back((u64)f->f->idx);
            key.push_back((u64)f->pc);
            key.push_back(f->stackBase);
        }
        key.push_back(t->stackTop);
        key.push_back(t->nondetCtr);
        key.push_back(t->clkCtr);
        groups[key].push_back(std::move(s));
    }
    finals.clear();
    for(auto& kv : groups)
    {
        auto& g = kv.second;
        for(auto& s : g)
        {
            if(s.level > st.maxLevel) st.maxLevel = s.level;
            st.interleavings += s.mult;
            sample(s);
        }
        st.finalStates += g.size();
        std::vector<State> out;
        bool one = g.size() == 1;
        State m = one ? std::move(g[0]) : mergeGroup(g, level, true);
        if(!one) m.stepT = -1;
        m.cur = 0;
        m.resume = false;
        g.clear();
        runState(std::move(m), out);
    }
}

void Engine::sample(State& s)
{
    nSampled++;
    if(opt.samples > 0)
    {
        if((int)sampleFinals.size() < opt.samples)
            sampleFinals.push_back({s.wit, pathOf(s, s.wit.get())});
        else
        {
            u64 k = rng() % nSampled;
            if(k < sampleFinals.size()) sampleFinals[k] = {s.wit, pathOf(s, s.wit.get())};
        }
    }
}

void Engine::finalState(State& s)
{
    if(mode != M_EXPLORE) return;
    st.finals++;
    if(!s.final_) st.interleavings += s.mult;
    if(s.level > st.maxLevel) st.maxLevel = s.level;
    if(s.final_) return;
    st.finalStates++;
    sample(s);
}

static void startStep(Engine& E_, State& s, int tid, int alt)
{
    s.stepT = tid;
    s.stepAlt = alt;
    s.cur = tid;
    if(s.th[tid]->st == T_CV)
        E_.performWake(s, tid, alt);
    else
        s.resume = true;
}

// an exploration that does not end: looks for states from which a fair schedule never terminates
void Engine::probeHang(std::vector<State>& lv, size_t from)
{
    double limit = opt.timeLimit;
    opt.timeLimit = std::max(limit, elapsed() + 30);
    size_t n = lv.size() - from;
    for(size_t i = 0; i < std::min<size_t>(n, 4); i++)
    {
        State s = lv[from + i * n / 4 % n];
        Violation v;
        v.wit = s.wit;
        v.path = pathOf(s, s.wit.get());
        s.sched = false;
        s.stepT = -1;
        s.noMerge = true;
        s.detCount = 0;
        std::vector<State> out;
        size_t nf = finals.size();
        Stats keep = st;
        auto keepSamples = sampleFinals;
        u64 ns = nSampled;
        bool hang = false;
        try
        {
            runState(std::move(s), out);
        }
        catch(FoundViolation& f)
        {
            hang = f.v.kind == "hang";
            v.kind = f.v.kind;
            v.msg = f.v.msg;
            v.where = f.v.where;
        }
        catch(EngineError&)
        {
        }
        work.clear();
        finals.resize(std::min(nf, finals.size()));
        st = keep;
        sampleFinals = keepSamples;
        nSampled = ns;
        S = nullptr;
        if(dirty) throw Restart{};
        if(hang) throw FoundViolation{v};
    }
    opt.timeLimit = limit;
}

void Engine::explorePass()
{
    mode = M_EXPLORE;
    sol.reset();
    nodes.clear();
    feasCache.clear();
    work.clear();
    sampleFinals.clear();
    finals.clear();
    nSampled = 0;
    reached.clear();
    expected.clear();
    dirty = dirtyRace = false;
    u64 restarts = st.restarts;
    st = Stats();
    st.restarts = restarts;
    std::vector<State> frontier;
    {
        State s = initial();
        runState(std::move(s), frontier);
    }
    int level = 0;
    while(!frontier.empty())
    {
        if(dirty || (dirtyRace && level % 16 == 0)) throw Restart{};
        level++;
        // group and merge
        std::vector<State> lv;
        {
            std::map<u64, std::vector<State>> groups;
            std::vector<u64> order;
            for(auto& s : frontier)
            {
                u64 h = sig(s);
                auto& g = groups[h];
                if(g.empty()) order.push_back(h);
                g.push_back(std::move(s));
            }
            frontier.clear();
            for(u64 h : order)
            {
                auto& g = groups[h];
                if(g.size() == 1)
                {
                    State& s = g[0];
                    NodeInfo ni;
                    ni.in.push_back({s.lit, s.node, s.stepT, s.stepAlt});
                    s.node = nodes.size();
                    nodes.push_back(ni);
                    s.level = level;
                    s.detCount = 0;
                    lv.push_back(std::move(s));
                }
                else
                    lv.push_back(mergeGroup(g, level));
                g.clear();
            }
        }
        st.nodes += lv.size();
        st.maxWidth = std::max(st.maxWidth, (int)lv.size());
        if((int)lv.size() > opt.maxNodesPerLevel) throw EngineError{"too many scheduling nodes at one level"};
        if(opt.verbose)
            fprintf(stderr, "level %d nodes %zu finals %llu queries %llu (%.1fs) t=%.1f exprs %zu\n", level, lv.size(),
                    (unsigned long long)st.finals, (unsigned long long)sol.st.queries, sol.st.time, elapsed(), numExprs());
        if(level % 150 == 0) probeHang(lv, 0);
        if(level > opt.maxLevel)
        {
            for(auto& s : lv)
            {
                s.sched = false;
                s.stepT = -1;
                s.noMerge = true;
                st.truncated++;
                runState(std::move(s), frontier);
            }
            runFinals(level);
            return;
        }
        for(auto& s : lv)
        {
            if(elapsed() > opt.timeLimit)
            {
                probeHang(lv, &s - lv.data());
                throw EngineError{"time limit reached before the state space was exhausted"};
            }
            s.stepT = -1;
            S = &s;
            std::vector<Choice> ch;
            E any = choices(s, ch);
            st.deadlockChecks++;
            bool forced = true;
            if(!isTrue(any))
            {
                WitP w;
                if(opt.safety)
                    forced = !feasible(s, mkNot(any), &w);
                else if(feasible(s, mkNot(any), &w))
                {
                    std::string where;
                    for(size_t t = 0; t < s.th.size(); t++)
                        if(s.th[t]->st != T_FIN) where += (where.empty() ? "" : " || ") + stackStr(s, t);
                    if(dirty) throw Restart{};
                    Violation v;
                    v.kind = "deadlock";
                    v.msg = "no thread can make progress";
                    v.where = where;
                    v.wit = w;
                    v.path = pathOf(s, w.get());
                    throw FoundViolation{v};
                }
            }
            std::vector<std::pair<Choice, WitP>> live;
            for(auto& c : ch)
            {
                WitP w;
                if(feasible(s, c.cond, &w)) live.push_back({c, w});
            }
            if(live.size() == 1 && forced)
            {
                // 'any' is implied, so the single choice is forced
                State c = std::move(s);
                c.wit = live[0].second;
                // 'any' holds on every path, so the pool stays valid
                startStep(*this, c, live[0].first.tid, live[0].first.alt);
                st.edges++;
                runState(std::move(c), frontier);
                if(dirty) throw Restart{};
                continue;
            }
            int g = groupCtr++;
            std::vector<E> el;
            for(auto& c : live)
            {
                E l = newLit(g, "e");
                constrain(l, s.lit, c.first.cond);
                el.push_back(l);
            }
            for(size_t i = 0; i < el.size(); i++)
                for(size_t j = i + 1; j < el.size(); j++) sol.assertE(mkOr(mkNot(el[i]), mkNot(el[j])));
            for(size_t i = 0; i < live.size(); i++)
            {
                State c = s;
                c.lit = el[i];
                c.wit = extendWit(live[i].second, {el[i]});
                splitPool(s.pool, live[i].first.cond, true, {el[i]}, c.pool);
                if(c.pool.size() < POOL && live[i].second != s.wit)
                {
                    ev.begin(s.wit.get());
                    if(ev.eval(live[i].first.cond)) c.pool.push_back(extendWit(s.wit, {el[i]}));
                }
                st.edges++;
                startStep(*this, c, live[i].first.tid, live[i].first.alt);
                runState(std::move(c), frontier);
                if(dirty) throw Restart{};
            }
            s = State();
        }
    }
    if(level > st.maxLevel) st.maxLevel = level;
    if(dirty || dirtyRace) throw Restart{};
    runFinals(level);
    if(dirtyRace) throw Restart{};
}

void Engine::randomRun()
{
    mode = M_RANDOM;
    std::vector<State> fr;
    work.clear();
    try
    {
        runState(initial(), fr);
        int steps = 0;
        while(!fr.empty() && ++steps < 3000)
        {
            State s = std::move(fr.back());
            fr.clear();
            S = &s;
            std::vector<Choice> ch;
            choices(s, ch);
            std::vector<Choice> c2;
            for(auto& c : ch)
                if(isTrue(c.cond)) c2.push_back(c);
            if(c2.empty()) break;
            auto& c = c2[rng() % c2.size()];
            startStep(*this, s, c.tid, c.alt);
            runState(std::move(s), fr);
        }
    }
    catch(FoundViolation&)
    {
    }
    work.clear();
}

void Engine::prepass()
{
    rng.seed(opt.seed);
    for(int i = 0; i < opt.prepass; i++) randomRun();
    dirty = false;
}

bool Engine::guidedRun(const std::vector<std::pair<int, int>>& g, const Witness* w, Violation& v)
{
    mode = M_GUIDED;
    guideWit = w;
    events.clear();
    work.clear();
    std::vector<State> fr;
    try
    {
        runState(initial(), fr);
        size_t k = 0;
        while(!fr.empty())
        {
            if(fr.size() != 1) throw EngineError{"guided run forked"};
            State s = std::move(fr.back());
            fr.clear();
            S = &s;
            std::vector<Choice> ch;
            E any = choices(s, ch);
            if(k == g.size())
            {
                if(isFalse(any))
                {
                    v.kind = "deadlock";
                    v.msg = "no thread can make progress";
                    return true;
                }
                // bound reached: deterministic continuation
                s.sched = false;
                s.noMerge = true;
                runState(std::move(s), fr);
                return false;
            }
            bool ok = false;
            for(auto& c : ch)
                if(c.tid == g[k].first && c.alt == g[k].second && isTrue(c.cond)) ok = true;
            if(!ok) throw EngineError{"guided run diverged from the solver's schedule"};
            startStep(*this, s, g[k].first, g[k].second);
            k++;
            runState(std::move(s), fr);
        }
        return false;
    }
    catch(FoundViolation& f)
    {
        v = f.v;
        return true;
    }
}

void Engine::explore()
{
    haveVio = false;
    prepass();
    for(int i = 0; i < (opt.race ? 400 : 60); i++)
    {
        try
        {
            explorePass();
            return;
        }
        catch(Restart&)
        {
            st.restarts++;
            work.clear();
        }
        catch(FoundViolation& f)
        {
            if(dirty)
            {
                st.restarts++;
                work.clear();
                continue;
            }
            if(f.v.kind == "race")
            {
                // merged knowledge may be too coarse; the concrete run is exact, also about the place of the other access
                Violation v;
                bool same = false;
                try
                {
                    same = guidedRun(f.v.path, f.v.wit.get(), v) && v.kind == "race";
                }
                catch(EngineError&)
                {
                }
                work.clear();
                if(same)
                    f.v.msg = v.msg;
                else if(!hbExact)
                {
                    hbExact = true;
                    st.restarts++;
                    continue;
                }
            }
            haveVio = true;
            vio = f.v;
            return;
        }
    }
    throw EngineError{"visible-operation refinement did not converge"};
}
