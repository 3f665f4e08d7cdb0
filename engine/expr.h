// Hash-consed bit-vector / boolean terms with "guarded constant" nodes, plus the Z3 back end.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <tuple>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : u8
{
    K_CONST,
    K_VAR,
    K_GC, // guarded constants: value gv[i] where guard k[i] holds (exclusive + exhaustive on the path)
    K_ITE,
    K_NOT,
    K_AND,
    K_OR,
    K_XOR,
    K_ADD,
    K_SUB,
    K_MUL,
    K_UDIV,
    K_SDIV,
    K_UREM,
    K_SREM,
    K_SHL,
    K_LSHR,
    K_ASHR,
    K_EQ,
    K_ULT,
    K_ULE,
    K_SLT,
    K_SLE,
    K_CONCAT,
    K_EXTRACT,
    K_ZEXT,
    K_SEXT
};

struct Expr
{
    u32 id;
    Kind kind;
    u16 width;
    u32 nk;
    u64 lo, hi;           // constant value; var index; extract low bit
    const Expr* const* k; // kids / guards
    const u64* gv;        // GC values
    int group;            // exclusivity group of a path literal, or -1
    u64 hash;
};
typedef const Expr* E;

// value in a register or memory cell: concrete (e==nullptr, width<=64) or symbolic
struct Val
{
    u64 c;
    E e;
    Val() : c(0), e(nullptr) {}
    Val(u64 c_) : c(c_), e(nullptr) {}
    Val(int c_) : c((u64)(long long)c_), e(nullptr) {}
    Val(unsigned long long c_) : c(c_), e(nullptr) {}
    explicit Val(E e_) : c(0), e(e_) {}
    bool conc() const { return e == nullptr; }
    bool operator==(const Val& o) const { return e == o.e && (e || c == o.c); }
    bool operator!=(const Val& o) const { return !(*this == o); }
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, int group = -1);
E mkTrue();
E mkFalse();
E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkOrN(const std::vector<E>& v);
E mkBin(Kind op, unsigned w, E a, E b); // w = operand width
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
// select among values by (exclusive, exhaustive) guards
E mkSelect(const std::vector<E>& guards, const std::vector<E>& vals);
E mkGC(std::vector<std::pair<u64, E>> leaves, unsigned w);

static inline bool isTrue(E e) { return e->kind == K_CONST && e->lo == 1; }
static inline bool isFalse(E e) { return e->kind == K_CONST && e->lo == 0; }

static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c & maskw(w), w); }
static inline Val fromE(E e)
{
    if(e->kind == K_CONST && e->width <= 64) return Val(e->lo);
    return Val(e);
}
Val vBin(Kind op, unsigned w, const Val& a, const Val& b);
Val vIte(E c, unsigned w, const Val& a, const Val& b);
Val vExtract(const Val& a, unsigned aw, unsigned lo, unsigned w);
Val vZext(const Val& a, unsigned aw, unsigned w);
Val vSext(const Val& a, unsigned aw, unsigned w);

const std::string& varName(E v);
size_t numExprs();
std::string exprStr(E e, int depth = 4);

// ---- witnesses (concrete assignments) ----
struct Witness
{
    std::vector<E> own;                      // path literals that are true, added to those of 'up' (others false)
    std::shared_ptr<const Witness> up;
    std::shared_ptr<const std::map<E, u64>> in; // values of input variables (default 0)
    u64 uid = nextUid();
    static u64 nextUid()
    {
        static u64 n = 0;
        return ++n;
    }
    u64 input(E e) const
    {
        if(!in) return 0;
        auto it = in->find(e);
        return it == in->end() ? 0 : it->second;
    }
};
typedef std::shared_ptr<const Witness> WitP;
// evaluate under witness; caches across calls with the same (witness, extra) pair
struct Evaluator
{
    std::vector<u64> memo;
    std::vector<u32> epoch;
    std::vector<u32> litEpoch;
    u32 cur = 0;
    const Witness* w = nullptr;
    u64 wuid = 0;
    void begin(const Witness* w_);
    u128 eval(E e);
};

// ---- solver ----
struct SolverStats
{
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, witnessHits = 0;
    double time = 0, maxTime = 0;
};
struct Solver
{
    Z3_context ctx;
    Z3_solver s = nullptr;
    std::vector<Z3_ast> memo;
    SolverStats st;
    unsigned timeoutMs = 120000;
    bool fresh = false; // a new solver for every query instead of an incremental one
    std::vector<Z3_ast> base;
    void makeSolver();
    void add(Z3_ast a);
    std::string logic; // of the Z3 solver, empty for the general one
    Solver();
    void reset();
    Z3_ast tr(E e);
    Z3_ast divConst(E x, E c, bool isSigned, bool quotient);
    void flushDefs();
    std::map<std::tuple<u32, u32, bool>, std::pair<Z3_ast, Z3_ast>> divs;
    std::vector<Z3_ast> defs; // definitions of fresh constants, valid in every scope
    size_t defsDone = 0;
    Z3_ast exact, notExact;
    void assertE(E e);
    // 1 sat, 0 unsat, -1 unknown
    int check(const std::vector<E>& assumptions, WitP* model);
    std::unordered_map<E, std::vector<E>> up; // path literal -> literals one of which it implies
    std::vector<E> inputs; // all input variables
};
