#include "expr.h"
#include <algorithm>
#include <chrono>

// ------------------------------------------------------------------ arena + hash consing
namespace
{
std::vector<std::string> g_varNames;
std::unordered_map<std::string, E> g_vars;
std::vector<E> g_all;

struct Table
{
    std::vector<Expr*> t;
    size_t n = 0;
    Table() : t(1 << 16, nullptr) {}
    void grow()
    {
        std::vector<Expr*> o(t.size() * 2, nullptr);
        o.swap(t);
        for(auto* e : o)
            if(e)
            {
                size_t i = e->hash & (t.size() - 1);
                while(t[i]) i = (i + 1) & (t.size() - 1);
                t[i] = e;
            }
    }
} g_tab;

char* g_ap = nullptr;
size_t g_aleft = 0;
void* arena(size_t n)
{
    n = (n + 15) & ~15ull;
    if(n > g_aleft)
    {
        size_t sz = std::max<size_t>(n, 1 << 22);
        g_ap = (char*)malloc(sz);
        g_aleft = sz;
    }
    void* p = g_ap;
    g_ap += n;
    g_aleft -= n;
    return p;
}

u64 mixh(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

E intern(Kind kind, unsigned width, u64 lo, u64 hi, u32 nk, const E* k, const u64* gv, int group = -1)
{
    u64 h = mixh(mixh(kind, width), mixh(lo, hi));
    for(u32 i = 0; i < nk; i++) h = mixh(h, k[i]->id + 1);
    if(gv)
        for(u32 i = 0; i < nk; i++) h = mixh(h, gv[i]);
    size_t i = h & (g_tab.t.size() - 1);
    while(g_tab.t[i])
    {
        Expr* e = g_tab.t[i];
        if(e->hash == h && e->kind == kind && e->width == width && e->lo == lo && e->hi == hi && e->nk == nk)
        {
            bool same = true;
            for(u32 j = 0; j < nk && same; j++) same = e->k[j] == k[j];
            if(same && gv)
                for(u32 j = 0; j < nk && same; j++) same = e->gv[j] == gv[j];
            if(same) return e;
        }
        i = (i + 1) & (g_tab.t.size() - 1);
    }
    Expr* e = (Expr*)arena(sizeof(Expr));
    e->id = g_all.size();
    e->kind = kind;
    e->width = width;
    e->nk = nk;
    e->lo = lo;
    e->hi = hi;
    e->group = group;
    e->hash = h;
    e->k = nullptr;
    e->gv = nullptr;
    if(nk)
    {
        E* kk = (E*)arena(nk * sizeof(E));
        memcpy(kk, k, nk * sizeof(E));
        e->k = kk;
        if(gv)
        {
            u64* g = (u64*)arena(nk * 8);
            memcpy(g, gv, nk * 8);
            e->gv = g;
        }
    }
    g_all.push_back(e);
    g_tab.t[i] = e;
    if(++g_tab.n * 2 > g_tab.t.size()) g_tab.grow();
    return e;
}
} // namespace

size_t numExprs() { return g_all.size(); }

E mkConst(u128 v, unsigned w)
{
    v &= mask128(w);
    return intern(K_CONST, w, (u64)v, (u64)(v >> 64), 0, nullptr, nullptr);
}
static E cT, cF;
E mkTrue()
{
    if(!cT) cT = mkConst(1, 1);
    return cT;
}
E mkFalse()
{
    if(!cF) cF = mkConst(0, 1);
    return cF;
}
E mkVar(const std::string& name, unsigned w, int group)
{
    auto it = g_vars.find(name);
    if(it != g_vars.end()) return it->second;
    u64 idx = g_varNames.size();
    g_varNames.push_back(name);
    E e = intern(K_VAR, w, idx, 0, 0, nullptr, nullptr, group);
    g_vars[name] = e;
    return e;
}
const std::string& varName(E v) { return g_varNames[v->lo]; }

static u128 cval(E e) { return ((u128)e->hi << 64) | e->lo; }

E mkNot(E a)
{
    assert(a->width == 1);
    if(a->kind == K_CONST) return a->lo ? mkFalse() : mkTrue();
    if(a->kind == K_NOT) return a->k[0];
    return intern(K_NOT, 1, 0, 0, 1, &a, nullptr);
}

static bool exclusive(E a, E b)
{
    return a->kind == K_VAR && b->kind == K_VAR && a != b && a->group >= 0 && a->group == b->group;
}

static const unsigned MAXFLAT = 12;

static E mkAndOrN(Kind kd, const std::vector<E>& in)
{
    // kd AND: unit true, zero false ; OR dual
    bool isAnd = kd == K_AND;
    std::vector<E> v;
    for(E x : in)
    {
        if(x->kind == K_CONST)
        {
            if((x->lo == 1) == isAnd) continue;
            return x;
        }
        if(x->kind == kd && in.size() + x->nk <= MAXFLAT)
            for(u32 i = 0; i < x->nk; i++) v.push_back(x->k[i]);
        else
            v.push_back(x);
    }
    std::sort(v.begin(), v.end(), [](E a, E b) { return a->id < b->id; });
    v.erase(std::unique(v.begin(), v.end()), v.end());
    if(v.empty()) return isAnd ? mkTrue() : mkFalse();
    if(v.size() == 1) return v[0];
    auto has = [&](E x) {
        return std::binary_search(v.begin(), v.end(), x, [](E a, E b) { return a->id < b->id; });
    };
    for(E x : v)
    {
        if(x->kind == K_NOT && has(x->k[0])) return isAnd ? mkFalse() : mkTrue();
        // absorption: x & (x | y) = x ; x | (x & y) = x
    }
    if(v.size() <= MAXFLAT)
    {
        std::vector<E> r;
        for(E x : v)
        {
            bool drop = false;
            Kind dual = isAnd ? K_OR : K_AND;
            if(x->kind == dual)
            {
                bool unitConflict = false;
                std::vector<E> keep;
                for(u32 i = 0; i < x->nk && !drop; i++)
                {
                    E y = x->k[i];
                    if(has(y)) drop = true;
                    // x & (!x | y) = x & y
                    E ny = y->kind == K_NOT ? y->k[0] : nullptr;
                    bool conflict = ny ? has(ny) : false;
                    if(!ny)
                        for(E z : v)
                            if(z->kind == K_NOT && z->k[0] == y) conflict = true;
                    if(isAnd && !conflict && y->kind == K_VAR && y->group >= 0)
                        for(E z : v)
                            if(exclusive(z, y)) conflict = true;
                    if(conflict)
                        unitConflict = true;
                    else
                        keep.push_back(y);
                }
                if(!drop && unitConflict)
                {
                    E nx = mkAndOrN(dual, keep);
                    std::vector<E> again;
                    for(E z : v) again.push_back(z == x ? nx : z);
                    return mkAndOrN(kd, again);
                }
            }
            if(!drop) r.push_back(x);
        }
        v.swap(r);
        if(v.size() == 1) return v[0];
        if(isAnd)
        {
            for(size_t i = 0; i < v.size(); i++)
                for(size_t j = i + 1; j < v.size(); j++)
                    if(exclusive(v[i], v[j])) return mkFalse();
            // lit & !otherlit (exclusive) = lit
            std::vector<E> r2;
            for(E x : v)
            {
                bool drop = false;
                if(x->kind == K_NOT)
                    for(E z : v)
                        if(exclusive(z, x->k[0])) drop = true;
                if(!drop) r2.push_back(x);
            }
            v.swap(r2);
            if(v.size() == 1) return v[0];
        }
        else if(v.size() == 2)
        {
            // (a & x) | (a & !x) = a
            E p = v[0], q = v[1];
            if(p->kind == K_AND && q->kind == K_AND && p->nk == q->nk)
            {
                int dp = -1;
                u32 same = 0;
                std::vector<E> rest;
                E px = nullptr;
                for(u32 i = 0; i < p->nk; i++)
                {
                    bool f = false;
                    for(u32 j = 0; j < q->nk; j++)
                        if(q->k[j] == p->k[i]) f = true;
                    if(f)
                    {
                        same++;
                        rest.push_back(p->k[i]);
                    }
                    else
                    {
                        dp = i;
                        px = p->k[i];
                    }
                }
                if(same + 1 == p->nk && dp >= 0)
                {
                    E n = mkNot(px);
                    for(u32 j = 0; j < q->nk; j++)
                        if(q->k[j] == n) return mkAndOrN(K_AND, rest);
                }
            }
        }
    }
    return intern(kd, 1, 0, 0, v.size(), v.data(), nullptr);
}

E mkAnd(E a, E b)
{
    if(a == b) return a;
    if(a->kind == K_CONST) return a->lo ? b : a;
    if(b->kind == K_CONST) return b->lo ? a : b;
    return mkAndOrN(K_AND, {a, b});
}
E mkOr(E a, E b)
{
    if(a == b) return a;
    if(a->kind == K_CONST) return a->lo ? a : b;
    if(b->kind == K_CONST) return b->lo ? b : a;
    return mkAndOrN(K_OR, {a, b});
}
E mkOrN(const std::vector<E>& v)
{
    return mkAndOrN(K_OR, v);
}

// ------------------------------------------------------------------ guarded constants
E mkGC(std::vector<std::pair<u64, E>> leaves, unsigned w)
{
    assert(w <= 64);
    std::vector<std::pair<u64, E>> l;
    for(auto& p : leaves)
        if(!isFalse(p.second)) l.push_back({p.first & maskw(w), p.second});
    assert(!l.empty());
    std::stable_sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.first < b.first; });
    std::vector<std::pair<u64, E>> m;
    for(size_t i = 0; i < l.size();)
    {
        size_t j = i;
        std::vector<E> g;
        while(j < l.size() && l[j].first == l[i].first) g.push_back(l[j++].second);
        m.push_back({l[i].first, g.size() == 1 ? g[0] : mkOrN(g)});
        i = j;
    }
    for(auto& p : m)
        if(isTrue(p.second)) return mkConst(p.first, w);
    if(m.size() == 1) return mkConst(m[0].first, w);
    if(m.size() == 2)
    {
        // keep guards complementary, using the simpler one
        E g0 = m[0].second, g1 = m[1].second;
        auto cost = [](E e) { return e->kind == K_VAR ? 0u : e->kind == K_NOT ? 1u : 2u + e->nk; };
        if(cost(g0) <= cost(g1))
            m[1].second = mkNot(g0);
        else
            m[0].second = mkNot(g1);
    }
    if(w == 1)
    {
        // boolean: value = guard of the '1' leaf
        return m[1].second;
    }
    std::vector<E> ks;
    std::vector<u64> vs;
    for(auto& p : m)
    {
        vs.push_back(p.first);
        ks.push_back(p.second);
    }
    return intern(K_GC, w, 0, 0, ks.size(), ks.data(), vs.data());
}

static bool gcLike(E e) { return e->kind == K_GC || (e->kind == K_CONST && e->width <= 64); }
static u32 gcN(E e) { return e->kind == K_GC ? e->nk : 1; }
static u64 gcV(E e, u32 i) { return e->kind == K_GC ? e->gv[i] : e->lo; }
static E gcG(E e, u32 i) { return e->kind == K_GC ? e->k[i] : mkTrue(); }

E mkSelect(const std::vector<E>& guards, const std::vector<E>& vals)
{
    assert(!vals.empty());
    bool same = true;
    for(auto* v : vals) same = same && v == vals[0];
    if(same) return vals[0];
    unsigned w = vals[0]->width;
    if(vals.size() > 3)
    {
        // one guard per distinct value
        std::unordered_map<E, size_t> at;
        std::vector<E> dv;
        std::vector<std::vector<E>> dg;
        for(size_t i = 0; i < vals.size(); i++)
        {
            auto r = at.emplace(vals[i], dv.size());
            if(r.second)
            {
                dv.push_back(vals[i]);
                dg.emplace_back();
            }
            dg[r.first->second].push_back(guards[i]);
        }
        if(dv.size() < vals.size())
        {
            std::vector<E> g;
            for(auto& x : dg) g.push_back(mkOrN(x));
            return mkSelect(g, dv);
        }
    }
    if(w == 1)
    {
        std::vector<E> o;
        for(size_t i = 0; i < vals.size(); i++) o.push_back(mkAnd(guards[i], vals[i]));
        // prefer the complement when most are constant true
        if(vals.size() == 2)
        {
            if(isTrue(vals[0]) && isFalse(vals[1])) return guards[0];
            if(isFalse(vals[0]) && isTrue(vals[1])) return guards[1];
        }
        return mkOrN(o);
    }
    bool gc = w <= 64;
    size_t n = 0;
    for(auto* v : vals)
    {
        gc = gc && gcLike(v);
        if(gc) n += gcN(v);
    }
    if(gc && n <= 512)
    {
        std::vector<std::pair<u64, E>> l;
        for(size_t i = 0; i < vals.size(); i++)
            for(u32 j = 0; j < gcN(vals[i]); j++) l.push_back({gcV(vals[i], j), mkAnd(guards[i], gcG(vals[i], j))});
        return mkGC(l, w);
    }
    E r = vals.back();
    for(size_t i = vals.size() - 1; i-- > 0;)
        if(vals[i] != r)
        {
            E ks[3] = {guards[i], vals[i], r};
            if(guards[i]->kind == K_CONST)
                r = guards[i]->lo ? vals[i] : r;
            else
                r = intern(K_ITE, w, 0, 0, 3, ks, nullptr);
        }
    return r;
}

E mkIte(E c, E a, E b)
{
    if(c->kind == K_CONST) return c->lo ? a : b;
    if(a == b) return a;
    if(a->width == 1) return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b));
    return mkSelect({c, mkNot(c)}, {a, b});
}

// ------------------------------------------------------------------ constant folding
static i128 sx(u128 v, unsigned w)
{
    if(w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    return (i128)((v ^ m) - m);
}
static u128 fold(Kind op, unsigned w, u128 a, u128 b)
{
    u128 m = mask128(w);
    switch(op)
    {
        case K_ADD: return (a + b) & m;
        case K_SUB: return (a - b) & m;
        case K_MUL: return (a * b) & m;
        case K_UDIV: return b ? a / b : m;
        case K_UREM: return b ? a % b : a;
        case K_SDIV:
            if(!b) return sx(a, w) < 0 ? 1 : m;
            return (u128)(sx(a, w) / sx(b, w)) & m;
        case K_SREM:
            if(!b) return a;
            return (u128)(sx(a, w) % sx(b, w)) & m;
        case K_AND: return a & b;
        case K_OR: return a | b;
        case K_XOR: return a ^ b;
        case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
        case K_LSHR: return b >= w ? 0 : a >> (unsigned)b;
        case K_ASHR: return (u128)(sx(a, w) >> (unsigned)(b >= w ? w - 1 : (unsigned)b)) & m;
        case K_EQ: return a == b;
        case K_ULT: return a < b;
        case K_ULE: return a <= b;
        case K_SLT: return sx(a, w) < sx(b, w);
        case K_SLE: return sx(a, w) <= sx(b, w);
        default: assert(0 && "fold"); return 0;
    }
}
static bool isCmp(Kind op) { return op >= K_EQ && op <= K_SLE; }

static bool isMulC(E e, E& x, u64& c)
{
    if(e->kind == K_MUL && e->k[1]->kind == K_CONST)
    {
        x = e->k[0];
        c = e->k[1]->lo;
        return true;
    }
    return false;
}

// sums: leaves with their coefficients; false if there are too many
static bool flatten(E e, unsigned w, u64 k, std::vector<std::pair<E, u64>>& t, u64& c, unsigned& leaves)
{
    if(e->kind == K_CONST)
    {
        c += k * e->lo;
        return true;
    }
    if(e->kind == K_ADD) return flatten(e->k[0], w, k, t, c, leaves) && flatten(e->k[1], w, k, t, c, leaves);
    if(e->kind == K_SUB) return flatten(e->k[0], w, k, t, c, leaves) && flatten(e->k[1], w, 0 - k, t, c, leaves);
    if(++leaves > 16) return false;
    for(auto& x : t)
        if(x.first == e)
        {
            x.second += k;
            return true;
        }
    t.push_back({e, k});
    return true;
}
// a + b or a - b with terms that cancel out; null if none do
static E cancel(int op, unsigned w, E a, E b)
{
    if(w > 64 || !(a->kind == K_ADD || a->kind == K_SUB || b->kind == K_ADD || b->kind == K_SUB)) return nullptr;
    std::vector<std::pair<E, u64>> t;
    u64 c = 0;
    unsigned leaves = 0;
    if(!flatten(a, w, 1, t, c, leaves) || !flatten(b, w, op == K_ADD ? 1 : ~(u64)0, t, c, leaves)) return nullptr;
    size_t n = 0;
    for(auto& x : t)
    {
        u64 k = x.second & maskw(w);
        if(!k) continue;
        if(k != 1 && k != maskw(w)) return nullptr;
        t[n++] = {x.first, k};
    }
    if(n == t.size()) return nullptr;
    t.resize(n);
    E pos = nullptr, neg = nullptr;
    for(auto& x : t)
    {
        E& d = x.second == 1 ? pos : neg;
        if(!d)
            d = x.first;
        else
        {
            E ks[2] = {d, x.first};
            d = intern(K_ADD, w, 0, 0, 2, ks, nullptr);
        }
    }
    E r = pos ? pos : mkConst(0, w);
    if(neg)
    {
        E ks[2] = {r, neg};
        r = intern(K_SUB, w, 0, 0, 2, ks, nullptr);
    }
    c &= maskw(w);
    return c ? mkBin(K_ADD, w, r, mkConst(c, w)) : r;
}
// an upper bound that follows from the shape alone (saturated)
static u128 shapeMax(E e)
{
    const u128 top = mask128(e->width);
    switch(e->kind)
    {
        case K_CONST: return cval(e);
        case K_ZEXT: return shapeMax(e->k[0]);
        case K_MUL:
        case K_ADD:
        {
            u128 x = shapeMax(e->k[0]), y = shapeMax(e->k[1]);
            if(x >> 64 || y >> 64) return top;
            u128 r = e->kind == K_MUL ? x * y : x + y;
            return r > top ? top : r;
        }
        default: return top;
    }
}
// the value is below 2^(w-1) and was computed without wrapping
static bool boundedNonNeg(E e, unsigned w)
{
    return shapeMax(e) < ((u128)1 << (w - 1));
}
E mkBin(Kind op, unsigned w, E a, E b)
{
    assert(a->width == w && b->width == w);
    unsigned rw = isCmp(op) ? 1 : w;
    if(a->kind == K_CONST && b->kind == K_CONST) return mkConst(fold(op, w, cval(a), cval(b)), rw);
    if(w == 1)
    {
        switch(op)
        {
            case K_AND:
            case K_MUL: return mkAnd(a, b);
            case K_OR: return mkOr(a, b);
            case K_XOR:
            case K_ADD:
            case K_SUB:
                if(a->kind == K_CONST) return a->lo ? mkNot(b) : b;
                if(b->kind == K_CONST) return b->lo ? mkNot(a) : a;
                if(a == b) return mkFalse();
                return mkOr(mkAnd(a, mkNot(b)), mkAnd(mkNot(a), b));
            case K_EQ: return mkNot(mkBin(K_XOR, 1, a, b));
            case K_ULT: return mkAnd(mkNot(a), b);
            case K_ULE: return mkOr(mkNot(a), b);
            case K_SLT: return mkAnd(a, mkNot(b));
            case K_SLE: return mkOr(a, mkNot(b));
            default: break;
        }
        fprintf(stderr, "engine: unsupported bool op %d\n", op);
        abort();
    }
    if(w <= 64 && gcLike(a) && gcLike(b) && (size_t)gcN(a) * gcN(b) <= 1024)
    {
        std::vector<std::pair<u64, E>> l;
        std::vector<E> trues, falses;
        for(u32 i = 0; i < gcN(a); i++)
            for(u32 j = 0; j < gcN(b); j++)
            {
                u64 r = (u64)fold(op, w, gcV(a, i), gcV(b, j));
                E g = mkAnd(gcG(a, i), gcG(b, j));
                if(isFalse(g)) continue;
                if(rw == 1)
                    (r ? trues : falses).push_back(g);
                else
                    l.push_back({r, g});
            }
        if(rw == 1)
        {
            if(trues.empty()) return mkFalse();
            if(falses.empty()) return mkTrue();
            if(trues.size() <= falses.size()) return mkOrN(trues);
            return mkNot(mkOrN(falses));
        }
        if(!l.empty()) return mkGC(l, w);
        return mkConst(0, w); // infeasible combination
    }
    // canonical order for commutative operations: constant on the right
    if((op == K_ADD || op == K_MUL || op == K_AND || op == K_OR || op == K_XOR || op == K_EQ) && a->kind == K_CONST)
        std::swap(a, b);
    bool bc = b->kind == K_CONST;
    u128 bv = bc ? cval(b) : 0;
    switch(op)
    {
        case K_SUB:
            if(a == b) return mkConst(0, w);
            if(E r = cancel(op, w, a, b)) return r;
            if(bc) return mkBin(K_ADD, w, a, mkConst((u128)0 - bv, w));
            // (x + c) - x = c ; (x + y) - x = y
            if(a->kind == K_ADD)
            {
                if(a->k[0] == b) return a->k[1];
                if(a->k[1] == b) return a->k[0];
                if(a->k[1]->kind == K_CONST) return mkBin(K_ADD, w, mkBin(K_SUB, w, a->k[0], b), a->k[1]);
            }
            if(b->kind == K_ADD && b->k[1]->kind == K_CONST)
                return mkBin(K_ADD, w, mkBin(K_SUB, w, a, b->k[0]), mkConst((u128)0 - cval(b->k[1]), w));
            // x - (x - y) = y
            if(b->kind == K_SUB && b->k[0] == a) return b->k[1];
            if(b->kind == K_ADD)
            {
                if(b->k[0] == a) return mkBin(K_SUB, w, mkConst(0, w), b->k[1]);
                if(b->k[1] == a) return mkBin(K_SUB, w, mkConst(0, w), b->k[0]);
            }
            break;
        case K_ADD:
        {
            if(bc && bv == 0) return a;
            if(!bc)
                if(E r = cancel(op, w, a, b)) return r;
            if(bc && a->kind == K_ADD && a->k[1]->kind == K_CONST)
                return mkBin(K_ADD, w, a->k[0], mkConst(bv + cval(a->k[1]), w));
            if(!bc && a->kind == K_ADD && a->k[1]->kind == K_CONST)
                return mkBin(K_ADD, w, mkBin(K_ADD, w, a->k[0], b), a->k[1]);
            if(!bc && b->kind == K_ADD && b->k[1]->kind == K_CONST)
                return mkBin(K_ADD, w, mkBin(K_ADD, w, a, b->k[0]), b->k[1]);
            // q*K + (x + q*(-K)) = x   and  q*K + (x - q*K) = x
            for(int sw = 0; sw < 2; sw++)
            {
                E p = sw ? b : a, r = sw ? a : b;
                if(r->kind == K_SUB && r->k[1] == p) return r->k[0];
                E x, y;
                u64 c, d;
                if(isMulC(p, x, c) && r->kind == K_ADD)
                    for(int t = 0; t < 2; t++)
                        if(isMulC(r->k[t], y, d) && x == y && ((c + d) & maskw(w)) == 0) return r->k[1 - t];
            }
            break;
        }
        case K_MUL:
            if(bc && bv == 0) return b;
            if(bc && bv == 1) return a;
            // (x / c) * c = x - x % c
            if(bc && (a->kind == K_SDIV || a->kind == K_UDIV) && a->k[1]->kind == K_CONST && cval(a->k[1]))
            {
                E rem = mkBin(a->kind == K_SDIV ? K_SREM : K_UREM, w, a->k[0], a->k[1]);
                if(cval(a->k[1]) == bv) return mkBin(K_SUB, w, a->k[0], rem);
                if(cval(a->k[1]) == (((u128)0 - bv) & mask128(w))) return mkBin(K_SUB, w, rem, a->k[0]);
            }
            break;
        case K_AND:
            if(a == b) return a;
            if(bc && bv == 0) return b;
            if(bc && bv == mask128(w)) return a;
            break;
        case K_OR:
            if(a == b) return a;
            if(bc && bv == 0) return a;
            if(bc && bv == mask128(w)) return b;
            break;
        case K_XOR:
            if(a == b) return mkConst(0, w);
            if(bc && bv == 0) return a;
            break;
        case K_SHL:
        case K_LSHR:
        case K_ASHR:
            if(bc && bv == 0) return a;
            break;
        case K_UREM:
        case K_SREM:
            if(bc && bv > 1 && a->kind == K_MUL && a->k[1]->kind == K_CONST && cval(a->k[1]) % bv == 0 && boundedNonNeg(a, w))
                return mkConst(0, w);
            break;
        case K_UDIV:
        case K_SDIV:
            if(bc && bv > 1 && a->kind == K_MUL && a->k[1]->kind == K_CONST && cval(a->k[1]) % bv == 0 && boundedNonNeg(a, w))
                return mkBin(K_MUL, w, a->k[0], mkConst(cval(a->k[1]) / bv, w));
            if(bc && bv == 1) return a;
            if(bc && a->kind == (op == K_SDIV ? K_SREM : K_UREM) && a->k[1] == b && bv) return mkConst(0, w);
            break;
        case K_EQ:
            if(a == b) return mkTrue();
            if(bc && a->kind == K_ADD && a->k[1]->kind == K_CONST)
                return mkBin(K_EQ, w, a->k[0], mkConst(bv - cval(a->k[1]), w));
            if(bc && a->kind == K_ZEXT)
            {
                unsigned iw = a->k[0]->width;
                if(bv > mask128(iw)) return mkFalse();
                if(iw == 1) return bv ? a->k[0] : mkNot(a->k[0]);
                return mkBin(K_EQ, iw, a->k[0], mkConst(bv, iw));
            }
            if(bc && a->kind == K_ITE && a->k[1]->kind == K_CONST && a->k[2]->kind == K_CONST)
            {
                bool x = cval(a->k[1]) == bv, y = cval(a->k[2]) == bv;
                if(!x && !y) return mkFalse();
            }
            if(a->id > b->id && !bc) std::swap(a, b);
            break;
        case K_ULT:
            if(a == b) return mkFalse();
            if(bc && bv == 0) return mkFalse();
            if(bc && bv == 1) return mkBin(K_EQ, w, a, mkConst(0, w));
            break;
        case K_ULE:
            if(a == b) return mkTrue();
            if(bc && bv == mask128(w)) return mkTrue();
            break;
        case K_SLT:
            if(a == b) return mkFalse();
            break;
        case K_SLE:
            if(a == b) return mkTrue();
            break;
        default: break;
    }
    E ks[2] = {a, b};
    return intern(op, rw, 0, 0, 2, ks, nullptr);
}

E mkExtract(E a, unsigned lo, unsigned w)
{
    assert(lo + w <= a->width);
    if(w == a->width) return a;
    if(a->kind == K_CONST) return mkConst(cval(a) >> lo, w);
    if(a->kind == K_GC)
    {
        std::vector<std::pair<u64, E>> l;
        for(u32 i = 0; i < a->nk; i++) l.push_back({(a->gv[i] >> lo) & maskw(w), a->k[i]});
        return mkGC(l, w);
    }
    if(a->kind == K_EXTRACT) return mkExtract(a->k[0], a->lo + lo, w);
    if(a->kind == K_CONCAT)
    {
        unsigned lw = a->k[1]->width;
        if(lo + w <= lw) return mkExtract(a->k[1], lo, w);
        if(lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    }
    if(a->kind == K_ZEXT)
    {
        unsigned iw = a->k[0]->width;
        if(lo + w <= iw) return mkExtract(a->k[0], lo, w);
        if(lo >= iw) return mkConst(0, w);
        if(lo == 0) return mkZext(a->k[0], w);
    }
    if(a->kind == K_SEXT && lo + w <= a->k[0]->width) return mkExtract(a->k[0], lo, w);
    if(a->kind == K_ITE) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    return intern(K_EXTRACT, w, lo, 0, 1, &a, nullptr);
}
E mkConcat(E hi, E lo)
{
    unsigned w = hi->width + lo->width;
    if(hi->kind == K_CONST && lo->kind == K_CONST) return mkConst((cval(hi) << lo->width) | cval(lo), w);
    if(hi->kind == K_CONST && cval(hi) == 0) return mkZext(lo, w);
    if(w <= 64 && hi->width > 1 && lo->width > 1 && gcLike(hi) && gcLike(lo) && gcN(hi) * gcN(lo) <= 256)
    {
        std::vector<std::pair<u64, E>> l;
        for(u32 i = 0; i < gcN(hi); i++)
            for(u32 j = 0; j < gcN(lo); j++)
                l.push_back({(gcV(hi, i) << lo->width) | gcV(lo, j), mkAnd(gcG(hi, i), gcG(lo, j))});
        bool any = false;
        for(auto& p : l) any = any || !isFalse(p.second);
        if(any) return mkGC(l, w);
    }
    if(hi->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->k[0] == lo->k[0] && hi->lo == lo->lo + lo->width)
        return mkExtract(hi->k[0], lo->lo, w);
    E ks[2] = {hi, lo};
    return intern(K_CONCAT, w, 0, 0, 2, ks, nullptr);
}
E mkZext(E a, unsigned w)
{
    if(w == a->width) return a;
    assert(w > a->width);
    if(a->kind == K_CONST) return mkConst(cval(a), w);
    if(w <= 64)
    {
        if(a->width == 1) return mkGC({{1, a}, {0, mkNot(a)}}, w);
        if(a->kind == K_GC)
        {
            std::vector<std::pair<u64, E>> l;
            for(u32 i = 0; i < a->nk; i++) l.push_back({a->gv[i], a->k[i]});
            return mkGC(l, w);
        }
    }
    if(a->kind == K_ZEXT) return mkZext(a->k[0], w);
    return intern(K_ZEXT, w, 0, 0, 1, &a, nullptr);
}
E mkSext(E a, unsigned w)
{
    if(w == a->width) return a;
    if(a->kind == K_CONST) return mkConst((u128)sx(cval(a), a->width), w);
    if(a->kind == K_ZEXT) return mkZext(a->k[0], w);
    if(w <= 64)
    {
        if(a->width == 1) return mkGC({{maskw(w), a}, {0, mkNot(a)}}, w);
        if(a->kind == K_GC)
        {
            std::vector<std::pair<u64, E>> l;
            for(u32 i = 0; i < a->nk; i++) l.push_back({(u64)sx(a->gv[i], a->width), a->k[i]});
            return mkGC(l, w);
        }
    }
    return intern(K_SEXT, w, 0, 0, 1, &a, nullptr);
}

Val vBin(Kind op, unsigned w, const Val& a, const Val& b)
{
    if(a.conc() && b.conc() && w <= 64) return Val((u64)fold(op, w, a.c & maskw(w), b.c & maskw(w)));
    return fromE(mkBin(op, w, toE(a, w), toE(b, w)));
}
Val vIte(E c, unsigned w, const Val& a, const Val& b)
{
    if(a == b) return a;
    return fromE(mkIte(c, toE(a, w), toE(b, w)));
}
Val vExtract(const Val& a, unsigned aw, unsigned lo, unsigned w)
{
    if(a.conc()) return Val((a.c >> lo) & maskw(w));
    return fromE(mkExtract(a.e, lo, w));
}
Val vZext(const Val& a, unsigned aw, unsigned w)
{
    if(a.conc() && w <= 64) return Val(a.c & maskw(aw));
    return fromE(mkZext(toE(a, aw), w));
}
Val vSext(const Val& a, unsigned aw, unsigned w)
{
    if(a.conc() && w <= 64) return Val((u64)sx(a.c & maskw(aw), aw) & maskw(w));
    return fromE(mkSext(toE(a, aw), w));
}

std::string exprStr(E e, int d)
{
    static const char* nm[] = {"const", "var",  "gc",   "ite",  "not",  "and", "or",  "xor", "add",
                               "sub",   "mul",  "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr",
                               "=",     "<u",   "<=u",  "<s",   "<=s",  "concat", "extract", "zext", "sext"};
    if(e->kind == K_CONST) return std::to_string(e->lo);
    if(e->kind == K_VAR) return varName(e);
    if(d == 0) return "..";
    std::string s = "(" + std::string(nm[e->kind]);
    for(u32 i = 0; i < e->nk; i++)
    {
        s += " ";
        if(e->kind == K_GC)
        {
            char b[32];
            snprintf(b, 32, "%llx:", (unsigned long long)e->gv[i]);
            s += b;
        }
        s += exprStr(e->k[i], d - 1);
    }
    return s + ")";
}

// ------------------------------------------------------------------ evaluation
void Evaluator::begin(const Witness* w_)
{
    size_t n = g_all.size();
    if(memo.size() < n)
    {
        memo.resize(n + n / 2);
        epoch.resize(memo.size());
        litEpoch.resize(memo.size());
    }
    if(w_->uid == wuid && cur)
    {
        w = w_;
        return;
    }
    wuid = w_->uid;
    w = w_;
    cur++;
    for(const Witness* x = w; x; x = x->up.get())
        for(E l : x->own) litEpoch[l->id] = cur;
}
u128 Evaluator::eval(E e)
{
    if(e->kind == K_CONST) return cval(e);
    if(e->id >= memo.size())
    {
        memo.resize(g_all.size() + g_all.size() / 2);
        epoch.resize(memo.size());
        litEpoch.resize(memo.size());
    }
    if(e->width <= 64 && epoch[e->id] == cur) return memo[e->id];
    u128 r = 0;
    unsigned kw = e->nk ? e->k[0]->width : 0;
    switch(e->kind)
    {
        case K_VAR:
            if(e->group >= 0)
                r = litEpoch[e->id] == cur;
            else
                r = w->input(e);
            break;
        case K_GC:
            r = e->gv[e->nk - 1];
            for(u32 i = 0; i + 1 < e->nk; i++)
                if(eval(e->k[i]))
                {
                    r = e->gv[i];
                    break;
                }
            break;
        case K_ITE: r = eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]); break;
        case K_NOT: r = !eval(e->k[0]); break;
        case K_AND:
            if(e->width == 1)
            {
                r = 1;
                for(u32 i = 0; i < e->nk; i++)
                    if(!eval(e->k[i]))
                    {
                        r = 0;
                        break;
                    }
            }
            else
                r = eval(e->k[0]) & eval(e->k[1]);
            break;
        case K_OR:
            if(e->width == 1)
            {
                for(u32 i = 0; i < e->nk; i++)
                    if(eval(e->k[i]))
                    {
                        r = 1;
                        break;
                    }
            }
            else
                r = eval(e->k[0]) | eval(e->k[1]);
            break;
        case K_CONCAT: r = (eval(e->k[0]) << e->k[1]->width) | eval(e->k[1]); break;
        case K_EXTRACT: r = (eval(e->k[0]) >> e->lo) & mask128(e->width); break;
        case K_ZEXT: r = eval(e->k[0]); break;
        case K_SEXT: r = (u128)sx(eval(e->k[0]), kw) & mask128(e->width); break;
        default: r = fold(e->kind, kw, eval(e->k[0]), eval(e->k[1]));
    }
    if(e->width <= 64)
    {
        memo[e->id] = (u64)r;
        epoch[e->id] = cur;
    }
    return r;
}

// ------------------------------------------------------------------ Z3
static void zerr(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "engine: z3 error %s\n", Z3_get_error_msg(c, e));
    abort();
}
Solver::Solver()
{
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, zerr);
    exact = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, "exact"), Z3_mk_bool_sort(ctx));
    Z3_inc_ref(ctx, exact);
    notExact = Z3_mk_not(ctx, exact);
    Z3_inc_ref(ctx, notExact);
}
void Solver::makeSolver()
{
    if(s) Z3_solver_dec_ref(ctx, s);
    if(!logic.empty())
        s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, logic.c_str()));
    else
        s = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
    if(getenv("VP_PHASE")) Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "phase_selection"), atoi(getenv("VP_PHASE")));
    if(getenv("VP_REL")) Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "relevancy"), atoi(getenv("VP_REL")));
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
}
void Solver::reset()
{
    makeSolver();
    base.clear();
    up.clear();
    defsDone = 0;
}
Z3_ast Solver::tr(E e)
{
    if(e->id >= memo.size()) memo.resize(numExprs() + numExprs() / 2 + 16, nullptr);
    if(memo[e->id]) return memo[e->id];
    Z3_ast r = nullptr;
    auto K = [&](u32 i) { return tr(e->k[i]); };
    switch(e->kind)
    {
        case K_CONST:
            if(e->width == 1)
                r = e->lo ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
            else if(e->width <= 64)
                r = Z3_mk_unsigned_int64(ctx, e->lo, Z3_mk_bv_sort(ctx, e->width));
            else
            {
                Z3_ast h = Z3_mk_unsigned_int64(ctx, e->hi & maskw(e->width - 64), Z3_mk_bv_sort(ctx, e->width - 64));
                Z3_inc_ref(ctx, h);
                Z3_ast l = Z3_mk_unsigned_int64(ctx, e->lo, Z3_mk_bv_sort(ctx, 64));
                Z3_inc_ref(ctx, l);
                r = Z3_mk_concat(ctx, h, l);
            }
            break;
        case K_VAR:
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, varName(e).c_str()),
                            e->width == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->width));
            break;
        case K_GC:
        {
            Z3_sort so = Z3_mk_bv_sort(ctx, e->width);
            r = Z3_mk_unsigned_int64(ctx, e->gv[e->nk - 1], so);
            Z3_inc_ref(ctx, r);
            for(u32 i = e->nk - 1; i-- > 0;)
            {
                Z3_ast v = Z3_mk_unsigned_int64(ctx, e->gv[i], so);
                Z3_inc_ref(ctx, v);
                r = Z3_mk_ite(ctx, K(i), v, r);
                Z3_inc_ref(ctx, r);
            }
            break;
        }
        case K_ITE: r = Z3_mk_ite(ctx, K(0), K(1), K(2)); break;
        case K_NOT: r = Z3_mk_not(ctx, K(0)); break;
        case K_AND:
        case K_OR:
            if(e->width == 1)
            {
                std::vector<Z3_ast> a;
                for(u32 i = 0; i < e->nk; i++) a.push_back(K(i));
                r = e->kind == K_AND ? Z3_mk_and(ctx, a.size(), a.data()) : Z3_mk_or(ctx, a.size(), a.data());
            }
            else
                r = e->kind == K_AND ? Z3_mk_bvand(ctx, K(0), K(1)) : Z3_mk_bvor(ctx, K(0), K(1));
            break;
        case K_XOR: r = Z3_mk_bvxor(ctx, K(0), K(1)); break;
        case K_ADD: r = Z3_mk_bvadd(ctx, K(0), K(1)); break;
        case K_SUB: r = Z3_mk_bvsub(ctx, K(0), K(1)); break;
        case K_MUL: r = Z3_mk_bvmul(ctx, K(0), K(1)); break;
        case K_UDIV:
        case K_SDIV:
        case K_UREM:
        case K_SREM:
        {
            bool sg = e->kind == K_SDIV || e->kind == K_SREM, quo = e->kind == K_UDIV || e->kind == K_SDIV;
            if(e->width <= 64 && e->k[1]->kind == K_CONST && e->k[1]->lo > 1 && !(sg && (e->k[1]->lo >> (e->width - 1))))
                r = divConst(e->k[0], e->k[1], sg, quo);
            else if(quo)
                r = sg ? Z3_mk_bvsdiv(ctx, K(0), K(1)) : Z3_mk_bvudiv(ctx, K(0), K(1));
            else
                r = sg ? Z3_mk_bvsrem(ctx, K(0), K(1)) : Z3_mk_bvurem(ctx, K(0), K(1));
            break;
        }
        case K_SHL: r = Z3_mk_bvshl(ctx, K(0), K(1)); break;
        case K_LSHR: r = Z3_mk_bvlshr(ctx, K(0), K(1)); break;
        case K_ASHR: r = Z3_mk_bvashr(ctx, K(0), K(1)); break;
        case K_EQ: r = Z3_mk_eq(ctx, K(0), K(1)); break;
        case K_ULT: r = Z3_mk_bvult(ctx, K(0), K(1)); break;
        case K_ULE: r = Z3_mk_bvule(ctx, K(0), K(1)); break;
        case K_SLT: r = Z3_mk_bvslt(ctx, K(0), K(1)); break;
        case K_SLE: r = Z3_mk_bvsle(ctx, K(0), K(1)); break;
        case K_CONCAT:
        {
            auto bv = [&](u32 i) {
                Z3_ast x = K(i);
                if(e->k[i]->width == 1)
                {
                    Z3_sort so = Z3_mk_bv_sort(ctx, 1);
                    x = Z3_mk_ite(ctx, x, Z3_mk_unsigned_int64(ctx, 1, so), Z3_mk_unsigned_int64(ctx, 0, so));
                    Z3_inc_ref(ctx, x);
                }
                return x;
            };
            r = Z3_mk_concat(ctx, bv(0), bv(1));
            break;
        }
        case K_EXTRACT:
            r = Z3_mk_extract(ctx, e->lo + e->width - 1, e->lo, K(0));
            if(e->width == 1)
            {
                Z3_inc_ref(ctx, r);
                r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
            }
            break;
        case K_ZEXT:
        case K_SEXT:
        {
            Z3_ast x = K(0);
            if(e->k[0]->width == 1)
            {
                Z3_sort so = Z3_mk_bv_sort(ctx, 1);
                x = Z3_mk_ite(ctx, x, Z3_mk_unsigned_int64(ctx, 1, so), Z3_mk_unsigned_int64(ctx, 0, so));
                Z3_inc_ref(ctx, x);
            }
            r = e->kind == K_ZEXT ? Z3_mk_zero_ext(ctx, e->width - e->k[0]->width, x)
                                  : Z3_mk_sign_ext(ctx, e->width - e->k[0]->width, x);
            break;
        }
    }
    Z3_inc_ref(ctx, r);
    if(e->id >= memo.size()) memo.resize(numExprs() + numExprs() / 2 + 16, nullptr);
    memo[e->id] = r;
    return r;
}
// division by a constant: quotient and remainder are fresh constants that the
// defining (total, single-valued) constraint x = q * c + r determines
Z3_ast Solver::divConst(E x, E c, bool sg, bool quo)
{
    auto key = std::make_tuple(x->id, c->id, sg);
    auto it = divs.find(key);
    if(it == divs.end())
    {
        unsigned w = x->width;
        Z3_sort so = Z3_mk_bv_sort(ctx, w);
        auto keep = [&](Z3_ast a) {
            Z3_inc_ref(ctx, a);
            return a;
        };
        auto num = [&](u64 v) { return keep(Z3_mk_unsigned_int64(ctx, v & maskw(w), so)); };
        Z3_ast X = tr(x), C = tr(c);
        Z3_ast q = keep(Z3_mk_fresh_const(ctx, "q", so)), r = keep(Z3_mk_fresh_const(ctx, "r", so));
        u64 cv = c->lo;
        std::vector<Z3_ast> d;
        // without `exact` only the range of the remainder is known (see check)
        Z3_ast ne = keep(Z3_mk_not(ctx, exact));
        auto full = [&](Z3_ast a) { return keep(Z3_mk_or(ctx, 2, std::vector<Z3_ast>{ne, a}.data())); };
        d.push_back(full(keep(Z3_mk_eq(ctx, X, keep(Z3_mk_bvadd(ctx, keep(Z3_mk_bvmul(ctx, q, C)), r))))));
        if(!sg)
        {
            d.push_back(keep(Z3_mk_bvult(ctx, r, C)));
            d.push_back(keep(Z3_mk_bvule(ctx, r, X)));
            d.push_back(keep(Z3_mk_bvule(ctx, q, num(maskw(w) / cv))));
        }
        else
        {
            u64 mx = maskw(w) >> 1, lim = (mx + 1) / cv;
            Z3_ast zero = num(0), neg = keep(Z3_mk_bvslt(ctx, X, zero));
            Z3_ast pos[] = {keep(Z3_mk_bvsle(ctx, r, X)), keep(Z3_mk_bvsle(ctx, zero, r)), keep(Z3_mk_bvslt(ctx, r, C)), keep(Z3_mk_bvsle(ctx, zero, q)),
                            keep(Z3_mk_bvsle(ctx, q, num(mx / cv)))};
            Z3_ast ngs[] = {keep(Z3_mk_bvsle(ctx, X, r)), keep(Z3_mk_bvsle(ctx, r, zero)), keep(Z3_mk_bvslt(ctx, num(0 - cv), r)), keep(Z3_mk_bvsle(ctx, q, zero)),
                            keep(Z3_mk_bvsle(ctx, num(0 - lim), q))};
            for(auto p : pos) d.push_back(keep(Z3_mk_or(ctx, 2, std::vector<Z3_ast>{neg, p}.data())));
            Z3_ast nn = keep(Z3_mk_not(ctx, neg));
            for(auto p : ngs) d.push_back(keep(Z3_mk_or(ctx, 2, std::vector<Z3_ast>{nn, p}.data())));
        }
        for(auto a : d) defs.push_back(a);
        it = divs.emplace(key, std::make_pair(q, r)).first;
    }
    return quo ? it->second.first : it->second.second;
}
void Solver::flushDefs()
{
    for(; defsDone < defs.size(); defsDone++) add(defs[defsDone]);
}
void Solver::assertE(E e)
{
    Z3_ast a = tr(e);
    flushDefs();
    add(a);
}
void Solver::add(Z3_ast a)
{
    if(fresh)
        base.push_back(a);
    else
        Z3_solver_assert(ctx, s, a);
}

int Solver::check(const std::vector<E>& as, WitP* model)
{
    auto t0 = std::chrono::steady_clock::now();
    std::vector<Z3_ast> a;
    bool complex = false;
    for(E e : as)
    {
        if(isTrue(e)) continue;
        if(isFalse(e)) return 0;
        if(!(e->kind == K_VAR || (e->kind == K_NOT && e->k[0]->kind == K_VAR))) complex = true;
    }
    for(E e : as)
        if(!isTrue(e)) a.push_back(tr(e));
    flushDefs();
    Z3_lbool r = Z3_L_TRUE;
    if(fresh)
    {
        // most conflicts need no more of a division than the range of its remainder
        for(int ph = defs.empty() ? 1 : 0; ph < 2 && r != Z3_L_FALSE; ph++)
        {
            makeSolver();
            for(auto x : base) Z3_solver_assert(ctx, s, x);
            for(auto x : a) Z3_solver_assert(ctx, s, x);
            if(!defs.empty()) Z3_solver_assert(ctx, s, ph ? exact : notExact);
            r = Z3_solver_check(ctx, s);
        }
    }
    else if(complex)
    {
        Z3_solver_push(ctx, s);
        for(auto x : a) Z3_solver_assert(ctx, s, x);
    }
    st.queries++;
    if(complex) a.clear();
    if(!defs.empty() && !fresh)
    {
        a.push_back(notExact);
        r = Z3_solver_check_assumptions(ctx, s, a.size(), a.data());
        a.back() = exact;
    }
    if(r != Z3_L_FALSE && !fresh) r = a.empty() ? Z3_solver_check(ctx, s) : Z3_solver_check_assumptions(ctx, s, a.size(), a.data());
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if(res == 1 && model)
    {
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        auto w = std::make_shared<Witness>();
        // the literals on the path that leads to the first assumption
        E l = as[0];
        while(l && l->kind == K_VAR)
        {
            w->own.push_back(l);
            E nx = nullptr;
            auto it = up.find(l);
            if(it != up.end())
                for(E c : it->second)
                {
                    if(it->second.size() > 1)
                    {
                        Z3_func_decl d = Z3_get_app_decl(ctx, Z3_to_app(ctx, tr(c)));
                        Z3_ast v = Z3_model_get_const_interp(ctx, m, d);
                        if(!v || Z3_get_bool_value(ctx, v) != Z3_L_TRUE) continue;
                    }
                    nx = c;
                    break;
                }
            l = nx;
        }
        auto in = std::make_shared<std::map<E, u64>>();
        for(E x : inputs)
        {
            Z3_func_decl d = Z3_get_app_decl(ctx, Z3_to_app(ctx, tr(x)));
            Z3_ast v = Z3_model_get_const_interp(ctx, m, d);
            if(!v) continue;
            if(x->width == 1)
            {
                if(Z3_get_bool_value(ctx, v) == Z3_L_TRUE) (*in)[x] = 1;
            }
            else
            {
                uint64_t u = 0;
                if(Z3_get_numeral_uint64(ctx, v, &u)) (*in)[x] = u;
            }
        }
        w->in = in;
        *model = w;
        Z3_model_dec_ref(ctx, m);
    }
    if(complex && !fresh) Z3_solver_pop(ctx, s, 1);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    st.time += dt;
    static const char* slow = getenv("VP_SLOW");
    if(slow && dt > atof(slow))
        for(E e : as) fprintf(stderr, "slow query %.1fs (%d): %s\n", dt, res, exprStr(e, 9).c_str());
    if(dt > st.maxTime) st.maxTime = dt;
    if(res == 1)
        st.sat++;
    else if(res == 0)
        st.unsat++;
    else
        st.unknown++;
    return res;
}
