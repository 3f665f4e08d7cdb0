#pragma once
#include "state.h"
#include <chrono>
#include <functional>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/LLVMContext.h>
#include <random>
#include <set>
#include <unordered_set>

enum Intr : int
{
    X_NONE = 0,
    X_NOP,
    X_MALLOC,
    X_FREE,
    X_MEMCPY,
    X_MEMSET,
    X_MEMCMP,
    X_STRLEN,
    X_SNPRINTF,
    X_LOCK,
    X_TRYLOCK,
    X_UNLOCK,
    X_CVWAIT,
    X_CVTIMED,
    X_CVNOTIFY_ONE,
    X_CVNOTIFY_ALL,
    X_CVDESTROY,
    X_RDLOCK,
    X_WRLOCK,
    X_TRYRD,
    X_TRYWR,
    X_RWUNLOCK,
    X_SELF,
    X_TCREATE,
    X_TJOIN,
    X_TDETACH,
    X_YIELD,
    X_NANOSLEEP,
    X_NOW,
    X_UNWIND,
    X_TERMINATE,
    X_ASSERTFAIL,
    X_TLSADDR,
    X_UMAX,
    X_UMIN,
    X_SMAX,
    X_SMIN,
    X_ABS,
    X_CEIL,
    X_TYPEID,
    X_TRAP,
    X_BSWAP,
    X_CTLZ,
    X_CTTZ,
    X_CTPOP,
    X_UADDO,
    X_UMULO,
    X_USUBSAT,
    X_FSHL,
    X_EXPECT,
    X_VP_START,
    X_VP_END,
    X_VP_FINAL,
    X_VP_STOP,
    X_VP_ASSERT,
    X_VP_ASSUME,
    X_VP_NONDET,
    X_VP_REACH,
    X_VP_EXPECT,
    X_VP_LOG,
    X_VP_TIMEOUTS,
    X_VP_SPURIOUS,
    X_VP_CLOCK,
    X_VP_TIME,
    X_VP_DEADLINE,
    X_VP_TIMEDWAITS,
    X_VP_TID,
    X_VP_LIVE,
    X_VP_ADVANCE,
    X_VP_HELD,
    X_VP_CONCR,
};

struct Violation
{
    std::string kind, msg, where;
    std::vector<std::pair<int, int>> path; // (thread, alternative) per scheduling level
    WitP wit;
};
struct FoundViolation
{
    Violation v;
};
// the path is given up
struct PathEnd
{
};
struct Restart
{
};
struct EngineError
{
    std::string msg, where = {};
};

struct Acc
{
    u8 tid;
    bool w;
    bool plain;
    u32 ls;
};
struct Loc
{
    bool visible = false;
    std::vector<Acc> accs;
};

// plain accesses to a granule of 8 bytes
struct PAcc
{
    u8 tid;
    bool w, at;
    u8 mask;
    u32 ls;
};
struct PId
{
    u8 tid;
    bool w, at;
    u8 mask;
    u32 id;
    const DInst* where;
};
struct PLoc
{
    bool cand = false; // tracked
    std::vector<PAcc> accs;
    std::vector<PId> ids;
};

struct NodeArr
{
    E lit;
    int parent;
    int tid, alt;
};
struct NodeInfo
{
    std::vector<NodeArr> in;
};

struct Event
{
    int tid;
    char kind;
    u64 val;
    std::string s;
};

struct Options
{
    int maxLevel = 400;
    double timeLimit = 600;
    int samples = 3;
    bool verbose = false;
    int maxNodesPerLevel = 20000;
    u64 seed = 1;
    int scenario = 0;
    int merge = 1; // states merge if equal in: 0 control only, 1 control and heap topology, 2 everything
    bool race = false;
    bool safety = false; // only memory errors, races and misuse of locks count
    bool refcountVisible = false;
    int prepass = 12;
    double solverBudget = 0; // seconds; 0: unlimited
};

enum RunRes
{
    R_STOP,
    R_FINAL,
    R_CONT,
    R_KILL,
    R_DONE
};

struct Engine
{
    llvm::LLVMContext lctx;
    std::unique_ptr<llvm::Module> mod;
    const llvm::DataLayout* DL = nullptr;
    std::vector<std::unique_ptr<DFunc>> funcs;
    std::unordered_map<const llvm::Function*, DFunc*> fmap;
    std::unordered_map<const llvm::GlobalVariable*, u64> gaddr;
    std::vector<const llvm::GlobalVariable*> tlsVars;
    std::unordered_map<const llvm::GlobalVariable*, u32> tlsIdx;
    std::unordered_map<u64, std::string> gname;
    Options opt;
    Solver sol;
    Evaluator ev;

    // exploration bookkeeping
    std::unordered_map<u64, Loc> locs;
    std::map<std::vector<u64>, u32> lsIds;
    std::vector<std::vector<u64>> lsVec;
    bool dirty = false;
    bool dirtyRace = false; // a location has become a candidate for races
    std::vector<NodeInfo> nodes;
    int litCtr = 0, groupCtr = 0;
    std::set<std::string> reached, expected;
    std::map<std::pair<E, E>, int> feasCache;
    std::vector<State> work;
    struct Stats
    {
        u64 instrs = 0, nodes = 0, edges = 0, forks = 0, merges = 0, mergedStates = 0, finals = 0, asserts = 0,
            assertsSolver = 0, deadlockChecks = 0, restarts = 0, truncated = 0, memChecks = 0, raceChecks = 0, finalStates = 0;
        int maxLevel = 0, maxWidth = 0;
        double interleavings = 0;
    } st;
    std::chrono::steady_clock::time_point t0;

    // guided / random modes
    enum Mode
    {
        M_EXPLORE,
        M_GUIDED,
        M_RANDOM
    } mode = M_EXPLORE;
    std::vector<std::pair<int, int>> guide;
    const Witness* guideWit = nullptr;
    std::mt19937_64 rng{1};
    std::vector<Event> events;
    std::vector<std::pair<WitP, std::vector<std::pair<int, int>>>> sampleFinals;

    // current execution context
    State* S = nullptr;

    // --- decode.cpp
    void load(const std::string& bc);
    DFunc* getFunc(const llvm::Function* F);
    void decode(DFunc* f);
    int lanes(llvm::Type* t);
    void laneWidths(llvm::Type* t, std::vector<u16>& w);
    void constLanes(const llvm::Constant* c, std::vector<Val>& out);
    u64 constAddr(const llvm::Constant* c);
    void initGlobals(State& s);
    void initTls(State& s, int tid);
    void writeInit(Obj* o, u64 off, const llvm::Constant* c);
    std::string whereStr(const DInst& i);
    void lines(std::set<std::string>& present, std::set<std::string>& hit);
    std::string stackStr(State& s, int tid);
    void liveness(DFunc* f);

    // --- exec.cpp
    double elapsed();
    [[noreturn]] void violation(const std::string& kind, const std::string& msg, WitP w = nullptr);
    void assume(E ok, WitP w);
    bool feasible(State& s, E cond, WitP* w);
    E newLit(int group, const char* pfx);
    void constrain(E lit, E parent, E cond);
    bool forkBranch(E cond, State& other); // true if both sides are feasible; S keeps 'cond'; returns via flags
    void splitPool(const std::vector<WitP>& from, E cond, bool val, const std::vector<E>& lits, std::vector<WitP>& to);
    int decide(E cond, State* other);      // 1: only true, 0: only false, 2: both (other = false side)
    void narrow(State& s, E cond);
    RunRes interp();
    RunRes doCall(DInst& I, Frame* F, Thread* T);
    void finishCall(const std::vector<Val>& ret);
    void takeEdge(Frame* F, const Edge& e);
    void popStack(u32 base);
    bool unwind(u64 obj, u64 ti);
    bool typeMatch(u64 thrown, u64 caught);
    Val opv(Frame* F, const Op& o) { return o.reg >= 0 ? F->regs[o.reg] : o.c; }
    // concretize an operand; returns false if the state was forked/killed
    bool conc(Frame* F, const Op& o, unsigned w, u64& out);
    bool load(const Val& p, unsigned w, Val& out);
    bool store(const Val& p, unsigned w, const Val& v);
    const Obj* checkAcc(u64 a, u64 n, bool wr, std::string& err, E guard = nullptr);
    u64 alloc(u64 n, u8 fill);
    std::string cstr(u64 a);
    bool record(u64 addr, bool w, bool plain = false);
    u32 lsId(const std::vector<u64>& h);
    E enabled(State& s, int tid, int alt, bool anyOther);
    void runState(State&& s, std::vector<State>& out);
    bool detPick();
    void performWake(State& s, int tid, int alt);
    bool mutexFree(State& s, u64 m, E& cond);
    void addEvent(int tid, char kind, u64 val = 0, const std::string& str = "");
    Val nondet(unsigned w, const char* what, u32 ctr, int tid);
    void finalState(State& s);
    u64 callInstrs = 0;

    // --- sched.cpp
    u64 sig(State& s);
    u64 memHash(State& s);
    State mergeGroup(std::vector<State>& g, int level, bool final_ = false);
    std::vector<State> finals;
    void runFinals(int level);
    void sample(State& s);
    u64 nSampled = 0;
    void explore();
    void explorePass();
    void probeHang(std::vector<State>& lv, size_t from);
    void prepass();
    bool guidedRun(const std::vector<std::pair<int, int>>& g, const Witness* w, Violation& v);
    void randomRun();
    struct Choice
    {
        int tid, alt;
        E cond;
    };
    E choices(State& s, std::vector<Choice>& out); // returns the condition under which something can run
    std::vector<std::pair<int, int>> pathOf(State& s, const Witness* w);
    State initial();
    Violation vio;
    bool haveVio = false;

    // --- race.cpp
    std::unordered_map<u64, PLoc> plocs;
    std::unordered_map<u64, std::vector<u32>> objIds;
    std::unordered_set<u64> shared; // stack objects used by other threads
    u32 nPIds = 0;
    bool hbExact = false; // states with different knowledge are kept apart
    HB* hb();
    bool hbOn() const;
    void hbGranule(u64 g, u8 mask, bool wr, bool atomic);
    void hbAccess(u64 a, u64 n, bool wr, bool atomic);
    bool hbTracked(u64 a, u64 n);
    void hbDead(u64 base, bool check);
    void hbAcquire(u64 s, u32 n = 1);
    void hbRelease(u64 s, int how);
    void hbFork(int child);
    void hbJoin(int j);
    u64 hbHash(State& s);
    void hbMerge(State& r, std::vector<State>& g);
};

extern Engine* G;
WitP extendWit(const WitP& w, std::initializer_list<E> lits);
static const size_t POOL = 24;
