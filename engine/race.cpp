// Data races: happens-before knowledge of memory accesses is part of the state.
// An access is tracked once two threads were seen at its location without a common lock, one of them writing.
// For every tracked access (location, bytes, thread, kind) each thread either knows it (it happened before) or not, and
// synchronisation objects carry knowledge from one thread to another. A conflicting access that is not known is a race.
#include "engine.h"
#include <algorithm>

typedef std::vector<u64> Bits;

static bool get(const Bits& b, u32 i)
{
    return i / 64 < b.size() && (b[i / 64] >> (i % 64) & 1);
}
static void put(Bits& b, u32 i, bool v)
{
    if(i / 64 >= b.size())
    {
        if(!v) return;
        b.resize(i / 64 + 1);
    }
    if(v)
        b[i / 64] |= 1ull << (i % 64);
    else
        b[i / 64] &= ~(1ull << (i % 64));
}

HB* Engine::hb()
{
    if(!S->hb) S->hb = Ref<HB>(new HB);
    HB* h = S->hb.mut();
    if(h->unk.size() < S->th.size()) h->unk.resize(S->th.size());
    return h;
}

bool Engine::hbOn() const
{
    return opt.race && S->sched;
}

// one access to the bytes of 'mask' within the 8-byte granule at g
void Engine::hbGranule(u64 g, u8 mask, bool wr, bool atomic)
{
    PLoc& l = plocs[g];
    u8 tid = S->cur;
    if(mode != M_GUIDED && !l.cand)
    {
        u32 ls = lsId(S->th[tid]->held);
        bool have = false;
        for(auto& a : l.accs) have = have || (a.tid == tid && a.w == wr && a.at == atomic && a.mask == mask && a.ls == ls);
        if(!have)
        {
            for(auto& a : l.accs)
                if(a.tid != tid && (a.w || wr) && !(a.at && atomic) && (a.mask & mask))
                {
                    bool common = false;
                    for(u64 m : lsVec[a.ls])
                        for(u64 k : lsVec[ls]) common = common || m == k;
                    if(!common)
                    {
                        l.cand = true;
                        dirtyRace = true;
                        break;
                    }
                }
            l.accs.push_back({tid, wr, atomic, mask, ls});
        }
    }
    if(!l.cand) return;
    st.raceChecks++;
    HB* h = hb();
    for(auto& d : l.ids)
        if(d.tid != tid && (d.w || wr) && !(d.at && atomic) && (d.mask & mask) && get(h->unk[tid], d.id))
        {
            if(mode == M_RANDOM) continue;
            std::string was = d.where ? whereStr(*d.where) : std::string("?");
            violation("race", std::string(wr ? "write" : "read") + " not ordered with a " + (d.w ? "write" : "read") + " by another thread (" + was + ")");
        }
    PId* id = nullptr;
    for(auto& d : l.ids)
        if(d.tid == tid && d.w == wr && d.at == atomic && d.mask == mask) id = &d;
    if(!id)
    {
        l.ids.push_back({tid, wr, atomic, mask, nPIds++, nullptr});
        id = &l.ids.back();
        objIds[g & ~0xfffffull].push_back(id->id);
    }
    Frame* F = S->th[tid]->fr.empty() ? nullptr : S->th[tid]->fr.back().p;
    if(F) id->where = &F->f->code[F->pc];
    for(size_t t = 0; t < h->unk.size(); t++) put(h->unk[t], id->id, t != tid);
    for(auto& kv : h->known) put(kv.second, id->id, false);
}

bool Engine::hbTracked(u64 a, u64 n)
{
    for(u64 g = a & ~7ull; g < a + n; g += 8)
    {
        auto it = plocs.find(g);
        if(it != plocs.end() && it->second.cand) return true;
    }
    return false;
}

void Engine::hbAccess(u64 a, u64 n, bool wr, bool atomic)
{
    if(!hbOn() || !n) return;
    int k = addrKind(a);
    if(k < SP_GLOBAL || k > SP_HEAP) return;
    u64 base = a & ~0xfffffull;
    if(k == SP_STACK || k == SP_TLS)
    {
        bool own = addrTid(a) == S->cur;
        auto it = shared.find(base);
        if(it == shared.end())
        {
            if(own) return;
            if(mode == M_GUIDED) return;
            shared.insert(base);
            dirtyRace = true;
        }
    }
    const Obj* o = S->mem.get(a);
    if(!o || o->ro) return;
    for(u64 g = a & ~7ull; g < a + n; g += 8)
    {
        u8 mask = 0;
        for(int i = 0; i < 8; i++)
            if(g + i >= a && g + i < a + n) mask |= 1 << i;
        hbGranule(g, mask, wr, atomic);
    }
}

// the object at 'base' goes away
void Engine::hbDead(u64 base, bool check)
{
    if(!hbOn()) return;
    base &= ~0xfffffull;
    const Obj* o = S->mem.get(base | OBJBASE);
    if(!o) return;
    if((addrKind(base) == SP_STACK || addrKind(base) == SP_TLS) && !shared.count(base)) return;
    if(check)
        for(u64 g = base | OBJBASE; g < (base | OBJBASE) + o->size; g += 8)
        {
            auto it = plocs.find(g);
            if(it == plocs.end()) continue;
            u8 mask = 0;
            for(auto& a : it->second.accs) mask |= a.mask;
            for(auto& a : it->second.ids) mask |= a.mask;
            hbGranule(g, mask, true, false);
        }
    if(!S->hb) return;
    HB* h = hb();
    auto it = objIds.find(base);
    if(it != objIds.end())
        for(u32 id : it->second)
            for(auto& u : h->unk) put(u, id, false);
    auto k = h->known.lower_bound(base);
    while(k != h->known.end() && k->first < base + 0x100000) k = h->known.erase(k);
}

// from everything released within the n bytes at s
void Engine::hbAcquire(u64 s, u32 n)
{
    if(!hbOn() || !S->hb) return;
    for(u64 a = s; a < s + n; a++)
    {
        auto f = S->hb->known.find(a);
        if(f == S->hb->known.end()) continue;
        HB* h = hb();
        Bits& u = h->unk[S->cur];
        const Bits& k = h->known[a];
        for(size_t i = 0; i < u.size() && i < k.size(); i++) u[i] &= ~k[i];
    }
}

// 0: adds to what is there, 1: replaces it, 2: replaces it by nothing
void Engine::hbRelease(u64 s, int how)
{
    if(!hbOn()) return;
    if(how == 2)
    {
        if(S->hb && S->hb->known.count(s)) hb()->known.erase(s);
        return;
    }
    HB* h = hb();
    Bits& k = h->known[s];
    Bits& u = h->unk[S->cur];
    size_t n = (nPIds + 63) / 64;
    k.resize(std::max(n, k.size()));
    for(size_t i = 0; i < n; i++)
    {
        u64 x = ~(i < u.size() ? u[i] : 0);
        k[i] = how == 1 ? x : k[i] | x;
    }
}

void Engine::hbFork(int child)
{
    if(!hbOn() || !S->hb) return;
    HB* h = hb();
    h->unk[child] = h->unk[S->cur];
}

void Engine::hbJoin(int j)
{
    if(!hbOn() || !S->hb) return;
    HB* h = hb();
    Bits& u = h->unk[S->cur];
    const Bits& k = h->unk[j];
    for(size_t i = 0; i < u.size(); i++) u[i] &= i < k.size() ? k[i] : 0;
}

// restricted to what can still matter
u64 Engine::hbHash(State& s)
{
    if(!s.hb) return 0;
    const HB* h = s.hb.p;
    u64 r = 0;
    Bits any;
    auto gone = [&](size_t t) { return t < s.th.size() && s.th[t]->st == T_FIN && (s.th[t]->joined || s.th[t]->detached); };
    for(size_t t = 0; t < h->unk.size(); t++)
    {
        if(gone(t)) continue;
        const Bits& u = h->unk[t];
        if(any.size() < u.size()) any.resize(u.size());
        for(size_t i = 0; i < u.size(); i++)
        {
            any[i] |= u[i];
            if(u[i]) r ^= Mem::oh(u[i] + Mem::oh(t << 32 | i));
        }
    }
    for(auto& kv : h->known)
        for(size_t i = 0; i < kv.second.size() && i < any.size(); i++)
            if(kv.second[i] & any[i]) r ^= Mem::oh((kv.second[i] & any[i]) + Mem::oh(kv.first * 64 + i));
    return r;
}

// only what is known in all of them
void Engine::hbMerge(State& r, std::vector<State>& g)
{
    bool same = true;
    for(auto& s : g) same = same && s.hb.p == g[0].hb.p;
    if(same) return;
    HB* m = new HB;
    Ref<HB> keep(m);
    m->unk.resize(r.th.size());
    bool first = true;
    for(auto& s : g)
    {
        static const HB none;
        const HB* h = s.hb ? s.hb.p : &none;
        for(size_t t = 0; t < h->unk.size() && t < m->unk.size(); t++)
        {
            Bits& u = m->unk[t];
            if(u.size() < h->unk[t].size()) u.resize(h->unk[t].size());
            for(size_t i = 0; i < h->unk[t].size(); i++) u[i] |= h->unk[t][i];
        }
    }
    // an access that a state did not make counts as known there
    for(auto& s : g)
    {
        static const HB none;
        const HB* h = s.hb ? s.hb.p : &none;
        Bits any;
        for(auto& u : h->unk)
        {
            if(any.size() < u.size()) any.resize(u.size());
            for(size_t i = 0; i < u.size(); i++) any[i] |= u[i];
        }
        size_t n = (nPIds + 63) / 64;
        any.resize(n);
        std::map<u64, Bits> k;
        auto eff = [&](const Bits* b) {
            Bits x(n);
            for(size_t i = 0; i < n; i++) x[i] = ~any[i] | (b && i < b->size() ? (*b)[i] : 0);
            return x;
        };
        if(first)
        {
            for(auto& kv : h->known) m->known[kv.first] = eff(&kv.second);
            for(auto& o : g)
                if(o.hb)
                    for(auto& kv : o.hb->known)
                        if(!m->known.count(kv.first)) m->known[kv.first] = eff(nullptr);
        }
        else
            for(auto& kv : m->known)
            {
                auto f = h->known.find(kv.first);
                Bits x = eff(f == h->known.end() ? nullptr : &f->second);
                for(size_t i = 0; i < n; i++) kv.second[i] &= x[i];
            }
        first = false;
    }
    r.hb = keep;
}
