// Machine state: copy-on-write memory, threads, path literal.
#pragma once
#include "decode.h"
#include <array>

template<class T>
struct Ref
{
    T* p;
    Ref() : p(nullptr) {}
    explicit Ref(T* q) : p(q)
    {
        if(p) p->rc++;
    }
    Ref(const Ref& o) : p(o.p)
    {
        if(p) p->rc++;
    }
    Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
    Ref& operator=(const Ref& o)
    {
        if(o.p) o.p->rc++;
        rel();
        p = o.p;
        return *this;
    }
    Ref& operator=(Ref&& o) noexcept
    {
        std::swap(p, o.p);
        return *this;
    }
    ~Ref() { rel(); }
    void rel()
    {
        if(p && --p->rc == 0) delete p;
        p = nullptr;
    }
    T* operator->() const { return p; }
    explicit operator bool() const { return p; }
    // unique, writable copy
    T* mut()
    {
        if(p->rc > 1)
        {
            T* n = new T(*p);
            n->rc = 0;
            *this = Ref(n);
        }
        return p;
    }
};

struct Cell
{
    u32 off;
    u32 n; // bytes
    E e;   // width 8*n
};

struct Obj
{
    int rc = 0;
    u32 size = 0;
    bool ro = false;
    bool heap = false;
    E live = nullptr; // after a final merge: condition under which the object exists
    bool phv = false; // ph is valid
    u64 ph = 0;       // hash of the merge-relevant contents
    std::vector<u8> data;
    std::vector<u8> gran; // store granularity at byte (0 unknown, 0xff continuation)
    std::vector<Cell> sym; // sorted, disjoint

    Obj() {}
    Obj(u32 n, u8 fill) : size(n), data(n, fill), gran(n, 0) {}
    E byteE(u32 off) const
    {
        for(auto& c : sym)
            if(off >= c.off && off < c.off + c.n) return mkExtract(c.e, (off - c.off) * 8, 8);
        return mkConst(data[off], 8);
    }
    Val read(u32 off, u32 n) const
    {
        bool ov = false;
        for(auto& c : sym)
            if(c.off < off + n && off < c.off + c.n)
            {
                ov = true;
                if(c.off == off && c.n == n) return fromE(c.e);
                if(c.off <= off && off + n <= c.off + c.n) return fromE(mkExtract(c.e, (off - c.off) * 8, n * 8));
            }
        if(!ov)
        {
            u64 v = 0;
            if(n <= 8)
            {
                memcpy(&v, &data[off], n);
                return Val(v);
            }
            u128 x = 0;
            memcpy(&x, &data[off], n);
            return fromE(mkConst(x, n * 8));
        }
        E r = byteE(off);
        for(u32 i = 1; i < n; i++) r = mkConcat(byteE(off + i), r);
        return fromE(r);
    }
    void clearSym(u32 off, u32 n)
    {
        if(sym.empty()) return;
        std::vector<Cell> out;
        bool ch = false;
        for(auto& c : sym)
        {
            if(!(c.off < off + n && off < c.off + c.n))
            {
                out.push_back(c);
                continue;
            }
            ch = true;
            // keep the bytes outside [off, off+n)
            for(u32 i = 0; i < c.n; i++)
            {
                u32 b = c.off + i;
                if(b >= off && b < off + n) continue;
                E x = mkExtract(c.e, i * 8, 8);
                if(x->kind == K_CONST)
                    data[b] = (u8)x->lo;
                else
                    out.push_back({b, 1, x});
            }
        }
        if(ch) sym.swap(out);
    }
    void write(u32 off, u32 n, const Val& v)
    {
        clearSym(off, n);
        gran[off] = n;
        for(u32 i = 1; i < n; i++) gran[off + i] = 0xff;
        if(v.conc())
        {
            u64 c = v.c;
            memcpy(&data[off], &c, n);
        }
        else if(v.e->kind == K_CONST)
        {
            u128 x = ((u128)v.e->hi << 64) | v.e->lo;
            memcpy(&data[off], &x, n);
        }
        else
        {
            size_t i = 0;
            while(i < sym.size() && sym[i].off < off) i++;
            sym.insert(sym.begin() + i, Cell{off, n, v.e});
            memset(&data[off], 0, n);
        }
    }
};

struct Chunk
{
    int rc = 0;
    bool phv = false;
    u64 ph = 0;
    std::array<Ref<Obj>, 32> o;
};
struct SpaceVec
{
    int rc = 0;
    std::vector<Ref<Chunk>> c;
};

enum
{
    SP_FUNC = 1,
    SP_GLOBAL = 2,
    SP_TLS = 3,
    SP_STACK = 4,
    SP_HEAP = 5
};
static const int MAXT = 16;
static const u64 OBJBASE = 0x1000;
static inline u64 mkAddr(int kind, int tid, u32 idx) { return ((u64)kind << 44) | ((u64)tid << 38) | ((u64)idx << 20) | OBJBASE; }
static inline int addrKind(u64 a) { return (int)(a >> 44); }
static inline int addrTid(u64 a) { return (int)(a >> 38) & 63; }
static inline u32 addrIdx(u64 a) { return (u32)(a >> 20) & 0x3ffff; }
static inline u64 addrOff(u64 a) { return (a & 0xfffff) - OBJBASE; }

static inline bool ptrLike(u64 v)
{
    int k = addrKind(v);
    return k >= SP_FUNC && k <= SP_HEAP && addrTid(v) < MAXT && (v & 0xfffff) >= OBJBASE;
}

struct Mem
{
    // spaces: [kind-2][tid]
    std::array<Ref<SpaceVec>, 4 * MAXT> sp;
    u64 liveHash = 0;
    static int spIdx(int kind, int tid) { return (kind - SP_GLOBAL) * MAXT + tid; }
    static u64 oh(u64 a)
    {
        a ^= a >> 33;
        a *= 0xff51afd7ed558ccdull;
        a ^= a >> 29;
        a *= 0xc4ceb9fe1a85ec53ull;
        return a ^ (a >> 32);
    }
    const Obj* get(u64 addr) const
    {
        int k = addrKind(addr);
        if(k < SP_GLOBAL || k > SP_HEAP) return nullptr;
        int t = addrTid(addr);
        if(t >= MAXT) return nullptr;
        auto& s = sp[spIdx(k, t)];
        if(!s) return nullptr;
        u32 i = addrIdx(addr);
        if(i / 32 >= s->c.size()) return nullptr;
        auto& ch = s->c[i / 32];
        if(!ch) return nullptr;
        return ch->o[i % 32].p;
    }
    Ref<Obj>& slot(u64 addr)
    {
        auto& s = sp[spIdx(addrKind(addr), addrTid(addr))];
        if(!s) s = Ref<SpaceVec>(new SpaceVec);
        SpaceVec* sv = s.mut();
        u32 i = addrIdx(addr);
        if(i / 32 >= sv->c.size()) sv->c.resize(i / 32 + 1);
        if(!sv->c[i / 32]) sv->c[i / 32] = Ref<Chunk>(new Chunk);
        Chunk* ch = sv->c[i / 32].mut();
        ch->phv = false;
        return ch->o[i % 32];
    }
    Obj* mut(u64 addr)
    {
        Obj* o = slot(addr).mut();
        o->phv = false;
        return o;
    }
    void put(u64 addr, Obj* o)
    {
        u64 b = addr & ~0xfffffull;
        auto& r = slot(addr);
        if(r) liveHash ^= oh(b + r->size);
        liveHash ^= oh(b + o->size);
        r = Ref<Obj>(o);
    }
    void del(u64 addr)
    {
        u64 b = addr & ~0xfffffull;
        auto& r = slot(addr);
        if(r) liveHash ^= oh(b + r->size);
        r = Ref<Obj>();
    }
};

struct Frame
{
    int rc = 0;
    DFunc* f = nullptr;
    int pc = 0;
    u32 stackBase = 0;
    std::vector<Val> regs;
};

enum TSt : u8
{
    T_NEW,
    T_RUN,
    T_CV,
    T_FIN
};

struct Thread
{
    int rc = 0;
    TSt st = T_NEW;
    bool detached = false, joined = false;
    bool timed = false;
    u64 cv = 0, mtx = 0;
    Val deadline;
    Val notified; // width 1
    u32 heapCtr = 0, stackTop = 0, nondetCtr = 0, clkCtr = 0;
    u64 handle = 0;
    std::vector<u64> held;
    std::vector<Ref<Frame>> fr;
    u64 excObj = 0, excTi = 0;
    Frame* top() { return fr.back().mut(); }
};

// happens-before knowledge of tracked accesses
struct HB
{
    int rc = 0;
    std::vector<std::vector<u64>> unk;           // per thread: accesses it does not know
    std::map<u64, std::vector<u64>> known;       // per synchronisation object: accesses it passes on
};

struct State
{
    E lit = nullptr;
    WitP wit;                // one assignment that leads here
    std::vector<WitP> pool; // further ones
    Mem mem;
    std::vector<Ref<Thread>> th;
    Val now = Val(1000000000ull); // virtual clock, ns
    bool sched = false;
    bool resume = false; // the pending visible operation of 'cur' may be executed
    int cur = 0;
    int spurious = 0, timeouts = 0;
    u8 timeoutMode = 2; // 0 never, 1 any time within the budget, 2 only when nothing else can run
    u32 clockMode = 0;  // 0 virtual, 1 symbolic advance, more: every reading advances by that many ns
    u64 handlesUsed = 0; // bitmask of live pthread handles
    int node = -1;       // scheduling node this step started from
    int stepT = -1, stepAlt = 0;
    double mult = 1;
    int level = 0;
    Val lastDeadline;
    u32 nTimedWaits = 0;
    bool mainDone = false;
    bool noMerge = false;
    bool final_ = false; // after vp_final: only the main thread continues
    u32 detCount = 0;
    Ref<HB> hb;
    Thread* t(int i) { return th[i].mut(); }
};
