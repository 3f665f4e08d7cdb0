// Native replay runtime: runs the compiled library + harness under the exact schedule and inputs of an engine trace.
// One thread runs at a time; every synchronisation operation is an event that must match the trace.
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <mutex>
#include <pthread.h>
#include <sanitizer/allocator_interface.h>
#include <string>
#include <system_error>
#include <unistd.h>
#include <unordered_map>
#include <vector>

void harness();
extern "C" int vp_scenario;
int vp_scenario = 0;

namespace
{
struct event
{
    int tid;
    char kind;
    uint64_t val;
    std::string s;
};
#define EARLY __attribute__((init_priority(101)))
std::vector<event> trace EARLY;
size_t pos = 0;
bool wantViolation = false;
std::string wantMsg EARLY;

pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t Gc = PTHREAD_COND_INITIALIZER;

struct thr
{
    uint64_t handle = 0;
    pthread_t real{};
    bool parked = false, finished = false, joined = false, detached = false;
    bool waiting = false, notified = false, timed = false;
    void* cv = nullptr;
    void* mtx = nullptr;
    char pend = 0;
    void* pendArg = nullptr;
    int held = 0;
    int64_t deadline = 0;
};
std::vector<thr*> T EARLY;
int running = 0;
thread_local int me = 0;
int64_t now_ns = 1000000000;
int64_t lastDeadline = 0;
uint64_t timedWaits = 0;
struct mtx
{
    int owner = 0; // tid + 1
    int count = 0;
    int readers = 0;
};
std::unordered_map<void*, mtx> M EARLY; // no trees: those of the code under test are instrumented in race replays

[[noreturn]] void finish(int code, const char* verdict, const std::string& msg)
{
    printf("%s %s\n", verdict, msg.c_str());
    fflush(stdout);
    _exit(code);
}
[[noreturn]] void diverged(const std::string& m)
{
    char b[200];
    snprintf(b, sizeof b, " (event %zu of %zu, thread %d)", pos, trace.size(), me);
    finish(3, "REPLAY-DIVERGED", m + b);
}
[[noreturn]] void confirmed(const std::string& m)
{
    finish(10, "REPLAY-CONFIRMED", m);
}

bool canRun(int t)
{
    thr* x = T[t];
    if(x->finished) return false;
    if(x->waiting)
    {
        bool fr = M[x->mtx].owner == 0;
        return fr && (x->notified || (x->timed && x->deadline <= now_ns));
    }
    switch(x->pend)
    {
        case 'L': return M[x->pendArg].owner == 0;
        case 'X': return M[x->pendArg].owner == 0 && M[x->pendArg].readers == 0;
        case 'R': return M[x->pendArg].owner == 0;
        case 'J': return T[(size_t)x->pendArg]->finished;
        default: return true;
    }
}

// after the trace of a suspected hang: all threads go on under a fair schedule
bool wantHang = false;
int freeTid = -1, freeLast = 0;
uint64_t freeSteps = 0;
bool freeRun()
{
    return wantHang && pos >= trace.size();
}
void freePick()
{
    if(running != -1 || freeTid != -1) return;
    if(++freeSteps > 100000) confirmed("hang: no termination under a fair schedule");
    int n = (int)T.size();
    for(int pass = 0; pass < 2; pass++)
        for(int k = 1; k <= n; k++)
        {
            int t = (freeLast + k) % n;
            if(!T[t]->parked) continue;
            if(!(pass ? T[t]->waiting && T[t]->timed && M[T[t]->mtx].owner == 0 : canRun(t))) continue;
            freeTid = freeLast = t;
            return;
        }
    confirmed("deadlock: no thread can make progress");
}
event& freeEvent(char kind, void* arg)
{
    static thread_local event e;
    e.tid = me;
    e.kind = kind;
    e.val = 0;
    if(kind == 'Y') e.val = M[arg].owner == 0;
    if(kind == 'K') e.val = T[me]->notified ? 0 : 1;
    return e;
}

void exhausted()
{
    // called with G held when the trace is used up and the current thread reached a further event point
    for(auto* x : T)
        if(!x->parked && !x->finished) return; // somebody still runs
    if(!wantViolation) diverged("trace exhausted before the harness finished");
    for(size_t i = 0; i < T.size(); i++)
        if(canRun(i)) finish(4, "REPLAY-NOT-CONFIRMED", "threads can still make progress at the end of the trace");
    confirmed("deadlock: no thread can make progress");
}

// waits for the turn of this thread's next event; G is held on return
event& turn(const char* kinds, void* arg)
{
    pthread_mutex_lock(&G);
    thr* x = T[me];
    x->parked = true;
    x->pend = kinds[0];
    x->pendArg = arg;
    if(running == me) running = -1;
    pthread_cond_broadcast(&Gc);
    for(;;)
    {
        if(freeRun())
        {
            freePick();
            if(freeTid == me)
            {
                freeTid = -1;
                running = me;
                x->parked = false;
                x->pend = 0;
                return freeEvent(kinds[0], arg);
            }
            pthread_cond_broadcast(&Gc);
        }
        else if(pos >= trace.size())
        {
            if(kinds[0] == 'L' && M[arg].owner == me + 1 && M[arg].count == 0)
                confirmed("deadlock: a thread locks a mutex it already holds");
            exhausted();
        }
        else if(running == -1 && trace[pos].tid == me)
            break;
        pthread_cond_wait(&Gc, &G);
    }
    event& e = trace[pos];
    if(!strchr(kinds, e.kind))
        diverged(std::string("expected event ") + e.kind + ", thread is at " + kinds);
    pos++;
    running = me;
    x->parked = false;
    x->pend = 0;
    return e;
}
void done()
{
    pthread_mutex_unlock(&G);
}

// records that do not need a turn: the thread is running and reads the value recorded for it
event& value(char kind)
{
    pthread_mutex_lock(&G);
    if(running != me) diverged("value read by a thread that should not run");
    if(pos >= trace.size())
    {
        if(wantViolation)
        {
            static thread_local event dflt;
            dflt = event{0, 0, 0, ""};
            if(kind == 'C') dflt.val = T.size() | (0x20000 + T.size() * 0x100) << 8;
            return dflt;
        }
        diverged("trace exhausted");
    }
    event& e = trace[pos];
    if(e.tid != me || e.kind != kind) diverged(std::string("expected event ") + e.kind + ", thread reads " + kind);
    pos++;
    return e;
}

void onTerminate()
{
    if(wantViolation) confirmed("std::terminate called");
    finish(5, "REPLAY-UNEXPECTED", "std::terminate");
}
void onAlarm(int)
{
    if(wantHang && pos >= trace.size())
    {
        const char m[] = "REPLAY-CONFIRMED hang: no progress\n";
        (void)!write(1, m, sizeof m - 1);
        _exit(10);
    }
    const char m[] = "REPLAY-TIMEOUT\n";
    (void)!write(1, m, sizeof m - 1);
    _exit(6);
}

// data races, by vector clocks; only one thread runs at a time
typedef std::vector<uint32_t> clocks;
struct access
{
    int tid;
    uint32_t clk;
    bool wr, at;
    uint8_t mask;
};
bool racing = false; // between vp_start and vp_final
std::vector<clocks> VC EARLY;
std::unordered_map<void*, clocks> SC EARLY;
std::unordered_map<uintptr_t, std::vector<access>> shadow EARLY;

clocks& mine(int t)
{
    if(VC.size() <= (size_t)t) VC.resize(t + 1);
    if(VC[t].size() <= (size_t)t) VC[t].resize(t + 1, 0);
    if(!VC[t][t]) VC[t][t] = 1;
    return VC[t];
}
void join(clocks& a, const clocks& b)
{
    if(a.size() < b.size()) a.resize(b.size(), 0);
    for(size_t i = 0; i < b.size(); i++)
        if(b[i] > a[i]) a[i] = b[i];
}
void touch(uintptr_t a, uint64_t n, bool wr, bool at)
{
    if(!racing) return;
    clocks& c = mine(me);
    for(uintptr_t g = a & ~(uintptr_t)7; g < a + n; g += 8)
    {
        uint8_t mask = 0;
        for(int i = 0; i < 8; i++)
            if(g + i >= a && g + i < a + n) mask |= 1 << i;
        auto& l = shadow[g];
        access* same = nullptr;
        for(auto& x : l)
        {
            bool known = x.tid == me || ((size_t)x.tid < c.size() && c[x.tid] >= x.clk);
            if(!known && (x.wr || wr) && !(x.at && at) && (x.mask & mask) && wantViolation && wantMsg.compare(0, 4, "race") == 0)
            {
                racing = false;
                confirmed(std::string("race: ") + (wr ? "write" : "read") + " not ordered with a " + (x.wr ? "write" : "read") + " by thread " + std::to_string(x.tid));
            }
            if(x.tid == me && x.wr == wr && x.at == at && x.mask == mask) same = &x;
        }
        if(same)
            same->clk = c[me];
        else
            l.push_back({me, c[me], wr, at, mask});
    }
}
void gone(uintptr_t a, uint64_t n)
{
    if(!racing) return;
    for(uintptr_t g = a & ~(uintptr_t)7; g < a + n; g += 8)
    {
        auto it = shadow.find(g);
        if(it == shadow.end()) continue;
        uint8_t mask = 0;
        for(auto& x : it->second) mask |= x.mask;
        for(int i = 0; i < 8; i++)
            if((mask >> i & 1) && g + i >= a && g + i < a + n) touch(g + i, 1, true, false);
        shadow.erase(g);
    }
    for(auto s = SC.begin(); s != SC.end();)
        s = (uintptr_t)s->first >= a && (uintptr_t)s->first < a + n ? SC.erase(s) : std::next(s);
}
void acquire(void* s, uint64_t n = 1)
{
    if(!racing) return;
    for(uint64_t i = 0; i < n; i++)
    {
        auto it = SC.find((char*)s + i);
        if(it != SC.end()) join(mine(me), it->second);
    }
}
void release(void* s, bool replace = false)
{
    if(!racing) return;
    clocks& c = mine(me);
    if(replace)
        SC[s] = c;
    else
        join(SC[s], c);
    c[me]++;
}
void used(void* s)
{
    (void)*static_cast<volatile char*>(s);
    touch((uintptr_t)s, 8, false, true);
}

struct tls_end
{
    tls_end* next;
    void (*f)(void*);
    void* p;
};
thread_local tls_end* tlsEnds = nullptr;

struct state_base
{
    virtual ~state_base() {}
    virtual void run() = 0;
};
struct start_arg
{
    int tid;
    state_base* st;
};
void* entry(void* p)
{
    start_arg* a = static_cast<start_arg*>(p);
    me = a->tid;
    turn("S", nullptr);
    done();
    state_base* s = a->st;
    delete a;
    s->run();
    delete s;
    while(auto* e = tlsEnds)
    {
        tlsEnds = e->next;
        e->f(e->p);
        delete e;
    }
    pthread_mutex_lock(&G);
    if(pos < trace.size() && trace[pos].tid == me && trace[pos].kind == 'Q') pos++;
    else if(pos < trace.size()) diverged("thread finished early");
    T[me]->finished = true;
    if(T[me]->held && wantViolation) confirmed("thread ends while holding a mutex");
    running = -1;
    pthread_cond_broadcast(&Gc);
    if(freeRun())
        freePick();
    else if(pos >= trace.size())
        exhausted();
    pthread_mutex_unlock(&G);
    return nullptr;
}
} // namespace

extern "C"
{
int vpn_pthread_mutex_lock(pthread_mutex_t* m)
{
    int kind = m->__data.__kind & 127;
    turn("L", m);
    used(m);
    mtx& x = M[m];
    if(kind == PTHREAD_MUTEX_RECURSIVE && x.owner == me + 1)
        x.count++;
    else
    {
        if(x.owner) diverged("mutex is not free");
        x.owner = me + 1;
        T[me]->held++;
    }
    acquire(m);
    done();
    return 0;
}
static int trylock(void* m, bool again, bool reader, bool writer)
{
    event& e = turn("Y", m);
    used(m);
    mtx& x = M[m];
    again = again && x.owner == me + 1;
    bool ok = again || (x.owner == 0 && !(writer && x.readers));
    if(ok != (e.val == 1)) diverged("try_lock result differs");
    if(ok)
    {
        acquire(m);
        if(again)
            x.count++;
        else if(reader)
            x.readers++;
        else
            x.owner = me + 1;
        if(!again) T[me]->held++;
    }
    done();
    return ok ? 0 : EBUSY;
}
int vpn_pthread_mutex_trylock(pthread_mutex_t* m)
{
    return trylock(m, (m->__data.__kind & 127) == 1, false, false);
}
int vpn_pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    return trylock(m, false, true, false);
}
int vpn_pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    return trylock(m, false, false, true);
}
int vpn_pthread_mutex_unlock(pthread_mutex_t* m)
{
    pthread_mutex_lock(&G);
    used(m);
    mtx& x = M[m];
    if(x.owner != me + 1)
    {
        if(wantViolation) confirmed("unlock of a mutex the thread does not hold");
        diverged("unlock of a mutex the thread does not hold");
    }
    release(m);
    if(x.count)
        x.count--;
    else
    {
        x.owner = 0;
        T[me]->held--;
    }
    done();
    return 0;
}
static int cvwait(void* cv, pthread_mutex_t* m, bool timed, int64_t dl)
{
    turn("W", cv);
    used(cv);
    used(m);
    thr* x = T[me];
    if(M[m].owner != me + 1)
    {
        if(wantViolation) confirmed("condition wait without holding the mutex");
        diverged("condition wait without the mutex");
    }
    release(m);
    M[m].owner = 0;
    x->held--;
    x->waiting = true;
    x->notified = false;
    x->timed = timed;
    x->deadline = dl;
    x->cv = cv;
    x->mtx = m;
    if(timed)
    {
        lastDeadline = dl;
        timedWaits++;
    }
    done();
    event& e = turn("K", cv);
    used(m);
    int alt = (int)(e.val & 3);
    if(alt == 0 && !x->notified) diverged("wake-up without notification");
    if(alt == 1 && !timed) diverged("time-out of an untimed wait");
    if(M[m].owner) diverged("mutex not free at wake-up");
    if(alt == 1)
    {
        if(dl > now_ns) now_ns = dl;
        if((int64_t)(e.val >> 2) > now_ns) now_ns = (int64_t)(e.val >> 2);
    }
    M[m].owner = me + 1;
    acquire(m);
    x->held++;
    x->waiting = false;
    done();
    return alt == 1 ? ETIMEDOUT : 0;
}
int vpn_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    return cvwait(c, m, false, 0);
}
int vpn_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    return cvwait(c, m, true, ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
int vpn_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts)
{
    return cvwait(c, m, true, ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
static void notify(void* c)
{
    event& e = turn("N", c);
    used(c);
    for(size_t i = 0; i < T.size(); i++)
        if(T[i]->waiting && T[i]->cv == c && (e.val == 0 || e.val == i + 1)) T[i]->notified = true;
    done();
}
int vpn_pthread_cond_signal(pthread_cond_t* c)
{
    notify(c);
    return 0;
}
int vpn_pthread_cond_broadcast(pthread_cond_t* c)
{
    notify(c);
    return 0;
}
int vpn_pthread_cond_destroy(pthread_cond_t* c)
{
    pthread_mutex_lock(&G);
    for(auto* x : T)
        if(x->waiting && x->cv == c && !x->notified && wantViolation) confirmed("condition variable destroyed while a thread waits on it");
    done();
    return 0;
}
int vpn_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    turn("R", m);
    used(m);
    acquire(m);
    M[m].readers++;
    T[me]->held++;
    done();
    return 0;
}
int vpn_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    turn("X", m);
    used(m);
    acquire(m);
    M[m].owner = me + 1;
    T[me]->held++;
    done();
    return 0;
}
int vpn_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    pthread_mutex_lock(&G);
    used(m);
    release(m);
    if(M[m].owner == me + 1)
        M[m].owner = 0;
    else
        M[m].readers--;
    T[me]->held--;
    done();
    return 0;
}
uint64_t vpn_pthread_self()
{
    return T[me]->handle;
}
int vpn_sched_yield()
{
    turn("Z", nullptr);
    done();
    return 0;
}
int vpn_nanosleep(const timespec*, timespec*)
{
    turn("Z", nullptr);
    done();
    return 0;
}
void vp_yield()
{
    vpn_sched_yield();
}
int vpn___cxa_thread_atexit(void (*f)(void*), void* p, void*)
{
    tlsEnds = new tls_end{tlsEnds, f, p};
    return 0;
}
void vpn_atomic()
{
    turn("A", nullptr);
    done();
}
void vpn_read(void* p, uint64_t n)
{
    touch((uintptr_t)p, n, false, false);
}
void vpn_write(void* p, uint64_t n)
{
    touch((uintptr_t)p, n, true, false);
}
// bits: 1 load, 2 store, 4 acquire, 8 release
void vpn_order(void* p, uint64_t n, int how)
{
    touch((uintptr_t)p, n, how & 2, true);
    if(how & 4) acquire(p, n);
    if(how & 8)
        release(p, !(how & 1));
    else if(racing && (how & 3) == 2)
        SC.erase(p);
}
void vpn_dead(void* p, uint64_t n)
{
    gone((uintptr_t)p, n);
}
void vpn_free(void* p)
{
    if(p) gone((uintptr_t)p, __sanitizer_get_allocated_size(p));
}

// std::condition_variable
void vpn__ZNSt18condition_variableC1Ev(void* c)
{
    memset(c, 0, sizeof(pthread_cond_t));
}
void vpn__ZNSt18condition_variableC2Ev(void* c)
{
    memset(c, 0, sizeof(pthread_cond_t));
}
void vpn__ZNSt18condition_variableD1Ev(void* c)
{
    vpn_pthread_cond_destroy(static_cast<pthread_cond_t*>(c));
}
void vpn__ZNSt18condition_variableD2Ev(void* c)
{
    vpn_pthread_cond_destroy(static_cast<pthread_cond_t*>(c));
}
void vpn__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, std::unique_lock<std::mutex>* l)
{
    cvwait(c, l->mutex()->native_handle(), false, 0);
}
void vpn__ZNSt18condition_variable10notify_oneEv(void* c)
{
    notify(c);
}
void vpn__ZNSt18condition_variable10notify_allEv(void* c)
{
    notify(c);
}

// std::thread
void vpn__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(uint64_t* self, void** up, void*)
{
    event& e = value('C');
    int tid = (int)(e.val & 255);
    if(tid != (int)T.size()) diverged("thread numbering");
    thr* x = new thr;
    x->handle = e.val >> 8;
    x->parked = true;
    x->pend = 'S';
    T.push_back(x);
    start_arg* a = new start_arg{tid, static_cast<state_base*>(*up)};
    *up = nullptr;
    *self = x->handle;
    if(racing)
    {
        mine(me);
        mine(tid);
        join(VC[tid], VC[me]);
        VC[me][me]++;
    }
    if(pthread_create(&x->real, nullptr, entry, a)) diverged("pthread_create failed");
    done();
}
void vpn__ZNSt6thread4joinEv(uint64_t* self)
{
    if(!*self) throw std::system_error(EINVAL, std::generic_category());
    int j = -1;
    pthread_mutex_lock(&G);
    for(size_t i = 0; i < T.size(); i++)
        if(T[i]->handle == *self && !T[i]->joined && !T[i]->detached) j = (int)i;
    pthread_mutex_unlock(&G);
    if(j < 0 || j == me)
    {
        if(wantViolation) confirmed("join of an unknown thread or of the calling thread");
        diverged("bad join");
    }
    turn("J", (void*)(size_t)j);
    T[j]->joined = true;
    if(racing)
    {
        mine(j);
        join(mine(me), VC[j]);
    }
    pthread_t r = T[j]->real;
    done();
    pthread_join(r, nullptr);
    *self = 0;
}
void vpn__ZNSt6thread6detachEv(uint64_t* self)
{
    value('H');
    for(auto* x : T)
        if(x->handle == *self && !x->joined && !x->detached)
        {
            x->detached = true;
            pthread_detach(x->real);
            break;
        }
    *self = 0;
    done();
}
unsigned vpn__ZNSt6thread20hardware_concurrencyEv()
{
    return 2;
}
int64_t vpn__ZNSt6chrono3_V212steady_clock3nowEv()
{
    int64_t v = (int64_t)value('T').val;
    if(v) now_ns = v;
    done();
    return now_ns;
}
int64_t vpn__ZNSt6chrono3_V212system_clock3nowEv()
{
    return vpn__ZNSt6chrono3_V212steady_clock3nowEv();
}
void vpn___assert_fail(const char* a, const char*, unsigned, const char*)
{
    if(wantViolation) confirmed(std::string("assertion failed: ") + a);
    finish(5, "REPLAY-UNEXPECTED", a);
}

// harness interface
void vp_start()
{
    value('B');
    racing = true;
    done();
}
void vp_end()
{
    value('E');
    done();
}
void vp_final()
{
    value('F');
    racing = false;
    done();
}
void vp_stop()
{
    if(wantViolation) finish(4, "REPLAY-NOT-CONFIRMED", "harness finished");
    if(pos < trace.size()) diverged("harness finished before the trace");
    finish(0, "REPLAY-OK", std::to_string(trace.size()));
}
void vp_assert_impl(bool c, const char* w)
{
    if(c) return;
    if(wantViolation) confirmed(std::string("assert: ") + w);
    finish(5, "REPLAY-UNEXPECTED", std::string("assert: ") + w);
}
void vp_assume(bool c)
{
    if(!c) diverged("assumption does not hold");
}
static uint64_t in()
{
    uint64_t v = value('I').val;
    done();
    return v;
}
uint64_t vp_nondet_u64()
{
    return in();
}
uint32_t vp_nondet_u32()
{
    return (uint32_t)in();
}
uint16_t vp_nondet_u16()
{
    return (uint16_t)in();
}
uint8_t vp_nondet_u8()
{
    return (uint8_t)in();
}
bool vp_nondet_bool()
{
    return in() & 1;
}
void vp_reach(const char*) {}
void vp_expect(const char*) {}
void vp_log(const char* l, uint64_t v)
{
    event& e = value('O');
    if(e.kind && (e.s != l || e.val != v)) diverged(std::string("log differs at ") + l);
    done();
}
void vp_timeouts(int, int) {}
void vp_spurious(int) {}
void vp_clock(int) {}
void vp_advance(uint64_t ns)
{
    now_ns += (int64_t)ns;
}
uint64_t vp_time()
{
    uint64_t v = value('T').val;
    done();
    return v;
}
uint64_t vp_deadline()
{
    uint64_t v = value('T').val;
    if(v != (uint64_t)lastDeadline && pos < trace.size()) diverged("deadline differs");
    done();
    return lastDeadline;
}
uint64_t vp_timed_waits()
{
    uint64_t v = value('T').val;
    if(v != timedWaits && pos < trace.size()) diverged("number of timed waits differs");
    done();
    return timedWaits;
}
uint32_t vp_tid()
{
    return (uint32_t)me;
}
uint32_t vp_held()
{
    return (uint32_t)T[me]->held;
}
uint64_t vp_concretize(uint64_t v)
{
    return v;
}
const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=11:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1";
}
} // extern "C"

// static constructors of library/harness run before main and may already produce events
__attribute__((constructor(102))) static void load()
{
    thr* x = new thr;
    x->handle = 0x10000;
    T.push_back(x);
    if(const char* sc = getenv("VP_SCENARIO")) vp_scenario = atoi(sc);
    const char* file = getenv("VP_TRACE");
    FILE* f = file ? fopen(file, "r") : nullptr;
    if(!f)
    {
        fprintf(stderr, "VP_TRACE not set\n");
        _exit(2);
    }
    char line[4096];
    while(fgets(line, sizeof line, f))
    {
        size_t n = strlen(line);
        while(n && line[n - 1] == '\n') line[--n] = 0;
        if(line[0] == '#')
        {
            wantViolation = strncmp(line + 2, "violation", 9) == 0;
            if(wantViolation) wantMsg = line + 12;
            wantHang = wantViolation && wantMsg.compare(0, 4, "hang") == 0;
            continue;
        }
        event e;
        unsigned long long v;
        int used = 0;
        if(sscanf(line, "%d %c %llu%n", &e.tid, &e.kind, &v, &used) < 3) continue;
        if(e.kind == 'D') continue;
        e.val = v;
        if(line[used] == ' ') used++;
        e.s = line + used;
        trace.push_back(e);
    }
    fclose(f);
    std::set_terminate(onTerminate);
    signal(SIGALRM, onAlarm);
    alarm(40);
}

int main()
{
    harness();
    if(wantViolation) finish(4, "REPLAY-NOT-CONFIRMED", "harness finished");
    if(pos + 1 < trace.size()) diverged("harness finished before the trace");
    finish(0, "REPLAY-OK", std::to_string(trace.size()));
}
