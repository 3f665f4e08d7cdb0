// C06: a promise is satisfied at most once and all observers agree
//@ 0 three racing setters | quick | | 2 set_value with 64-bit symbolic values, 1 set_exception with a 32-bit symbolic payload, all interleavings
//@ 1 observers during the set | quick | | 2 setters, 1 polling observer with 3 looks, 64-bit symbolic values, all interleavings
//@ 2 shared observers on three threads | quick | | setter, 2 loop threads and main holding copies, 64-bit symbolic value or exception, all interleavings
//@ 3 void results | quick | | set_value against set_exception, all interleavings
//@ 4 late setters | quick | | 4 repeated sets after every kind of outcome (symbolic choice), 64-bit symbolic values
//@ 5 no shared state | quick | | default-constructed, moved-from and consumed futures, shared_futures and promises of 3 result types
//@ 6 retrieval and consumption | quick | | 2 threads racing for get_future, every kind of get, share and move
//@ 7 heap payloads seen by several observers | quick | | vector and shared_ptr results with 64-bit symbolic contents, 2 threads and a continuation reading repeatedly, all interleavings
#include "common.h"
using namespace std::chrono_literals;

namespace
{
struct err : std::exception
{
    uint32_t code;
    err(uint32_t c) : code(c) {}
};

// 1: done, 2: promise_already_satisfied, 3: anything else
template<class F>
int attempt(F f)
{
    try
    {
        f();
        return 1;
    }
    catch(std::future_error& e)
    {
        return e.code() == std::future_errc::promise_already_satisfied ? 2 : 3;
    }
    catch(...)
    {
        return 3;
    }
}

// -1: no error, else the future_errc thrown
template<class F>
int code_of(F f)
{
    try
    {
        f();
        return -1;
    }
    catch(std::future_error& e)
    {
        return e.code().value();
    }
    catch(...)
    {
        return -2;
    }
}
const int no_state = (int)std::future_errc::no_state;
const int retrieved = (int)std::future_errc::future_already_retrieved;

void racing()
{
    vp_expect("first");
    vp_expect("second");
    vp_expect("exception");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    uint32_t c = vp_nondet_u32();
    tpp::promise<uint64_t> p;
    auto s = p.get_future().share();
    int ra = 0, rb = 0, rc = 0;
    vp_start();
    std::thread t1([&] { ra = attempt([&] { p.set_value(a); }); });
    std::thread t2([&] { rb = attempt([&] { p.set_value(b); }); });
    std::thread t3([&] { rc = attempt([&] { p.set_exception(std::make_exception_ptr(err(c))); }); });
    s.wait();
    VP_ASSERT(s.is_ready(), "ready after the wait");
    t1.join();
    t2.join();
    t3.join();
    vp_final();
    VP_ASSERT(ra != 0 && rb != 0 && rc != 0, "every attempt ended");
    VP_ASSERT(ra != 3 && rb != 3 && rc != 3, "an attempt succeeds or reports promise_already_satisfied");
    VP_ASSERT((ra == 1) + (rb == 1) + (rc == 1) == 1, "exactly one attempt succeeds");
    VP_ASSERT(s.has_error() == (rc == 1), "the outcome is the winner's");
    if(rc == 1)
    {
        bool ok = false;
        try
        {
            s.get();
        }
        catch(err& e)
        {
            ok = e.code == c;
        }
        VP_ASSERT(ok, "the winner's exception is delivered");
        vp_reach("exception");
    }
    else
    {
        VP_ASSERT(s.get() == (ra == 1 ? a : b), "the winner's value is delivered");
        vp_reach(ra == 1 ? "first" : "second");
    }
    vp_stop();
}

void stable()
{
    vp_expect("seen early");
    vp_expect("seen late");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    tpp::promise<uint64_t> p;
    auto s = p.get_future().share();
    int ra = 0, rb = 0;
    bool saw[3] = {};
    uint64_t val[3] = {};
    vp_start();
    std::thread t1([&] { ra = attempt([&] { p.set_value(a); }); });
    std::thread t2([&] { rb = attempt([&] { p.set_value(b); }); });
    for(int i = 0; i < 3; i++)
    {
        saw[i] = s.is_ready();
        if(saw[i]) val[i] = s.get();
    }
    t1.join();
    t2.join();
    vp_final();
    uint64_t out = s.get();
    VP_ASSERT((ra == 1) != (rb == 1), "exactly one attempt succeeds");
    VP_ASSERT(out == (ra == 1 ? a : b), "the final outcome is the winner's");
    for(int i = 0; i < 3; i++)
    {
        if(i) VP_ASSERT(!saw[i - 1] || saw[i], "once ready, always ready");
        VP_ASSERT(!saw[i] || val[i] == out, "an observer that saw it ready saw the final outcome");
    }
    if(saw[0]) vp_reach("seen early");
    if(!saw[2]) vp_reach("seen late");
    vp_stop();
}

void observers()
{
    vp_expect("value");
    vp_expect("exception");
    tpp::init();
    auto t = tpp::make_thread("t");
    auto u = tpp::make_thread("u");
    settle(t);
    settle(u);
    uint64_t a = vp_nondet_u64();
    bool ex = vp_nondet_bool();
    tpp::promise<uint64_t> p;
    auto s = p.get_future().share();
    uint64_t got[3] = {};
    latch l;
    auto look = [](const tpp::shared_future<uint64_t>& f, uint64_t& out) {
        try
        {
            out = f.get() ^ 1;
        }
        catch(err& e)
        {
            out = uint64_t(e.code) ^ 2;
        }
    };
    vp_start();
    tpp::invoke(t.get_id(), [&, c = s] { look(c, got[0]); l.hit(); });
    tpp::invoke(u.get_id(), [&, c = s] { look(c, got[1]); l.hit(); });
    if(ex)
        p.set_exception(std::make_exception_ptr(err((uint32_t)a)));
    else
        p.set_value(a);
    look(s, got[2]);
    l.wait(2);
    vp_final();
    uint64_t want = ex ? uint64_t((uint32_t)a) ^ 2 : a ^ 1;
    for(auto g : got) VP_ASSERT(g == want, "every copy on every thread obtains the same outcome");
    vp_reach(ex ? "exception" : "value");
    vp_stop();
}

void void_results()
{
    vp_expect("value");
    vp_expect("exception");
    tpp::init();
    uint32_t c = vp_nondet_u32();
    tpp::promise<void> p;
    auto f = p.get_future();
    int ra = 0, rb = 0;
    vp_start();
    std::thread t1([&] { ra = attempt([&] { p.set_value(); }); });
    std::thread t2([&] { rb = attempt([&] { p.set_exception(std::make_exception_ptr(err(c))); }); });
    int out = 0;
    try
    {
        f.get();
        out = 1;
    }
    catch(err& e)
    {
        out = e.code == c ? 2 : 3;
    }
    t1.join();
    t2.join();
    vp_final();
    VP_ASSERT(ra + rb == 3 && ra != 0 && rb != 0, "exactly one attempt succeeds, the other reports promise_already_satisfied");
    VP_ASSERT(out == (ra == 1 ? 1 : 2), "get delivers the winner's outcome");
    vp_reach(ra == 1 ? "value" : "exception");
    vp_stop();
}

void late()
{
    vp_expect("value");
    vp_expect("exception");
    vp_expect("abandoned");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    uint32_t c = vp_nondet_u32(), d = vp_nondet_u32();
    unsigned how = vp_choice(3);
    auto p = std::make_unique<tpp::promise<uint64_t>>();
    auto s = p->get_future().share();
    VP_ASSERT(!s.is_ready() && !s.has_error(), "not ready before the set");
    if(how == 0) p->set_value(a);
    if(how == 1) p->set_exception(std::make_exception_ptr(err(c)));
    if(how == 2) p->abandon();
    for(int i = 0; i < 2; i++)
    {
        VP_ASSERT(attempt([&] { p->set_value(b); }) == 2, "a later set_value throws promise_already_satisfied");
        VP_ASSERT(attempt([&] { p->set_exception(std::make_exception_ptr(err(d))); }) == 2,
                  "a later set_exception throws promise_already_satisfied");
        if(i) p.reset(); // the promise's end does not change the outcome either
        VP_ASSERT(s.is_ready() && s.has_error() == (how != 0), "still the first outcome");
        uint64_t got = 0;
        int kind = 3;
        try
        {
            got = s.get();
            kind = 0;
        }
        catch(err& e)
        {
            kind = 1;
            got = e.code;
        }
        catch(std::future_error& e)
        {
            if(e.code() == std::future_errc::broken_promise) kind = 2;
        }
        VP_ASSERT(kind == (int)how, "the kind of outcome is unchanged");
        if(how == 0) VP_ASSERT(got == a, "the value is unchanged");
        if(how == 1) VP_ASSERT(got == c, "the exception is unchanged");
        if(!p) break;
    }
    vp_reach(how == 0 ? "value" : how == 1 ? "exception" : "abandoned");
    tpp::shutdown();
}

template<class T, class Set>
void stateless(Set set)
{
    auto id = tpp::this_thread::get_id();
    auto none = [&](auto& f) {
        VP_ASSERT(!f.valid(), "no shared state");
        VP_ASSERT(code_of([&] { f.is_ready(); }) == no_state, "is_ready without shared state throws no_state");
        VP_ASSERT(code_of([&] { f.has_error(); }) == no_state, "has_error without shared state throws no_state");
        VP_ASSERT(code_of([&] { f.wait(); }) == no_state, "wait without shared state throws no_state");
        VP_ASSERT(code_of([&] { f.wait_for(1s); }) == no_state, "wait_for without shared state throws no_state");
        VP_ASSERT(code_of([&] { f.get(); }) == no_state, "get without shared state throws no_state");
        VP_ASSERT(code_of([&] { f.then(id, [](auto) {}); }) == no_state, "then without shared state throws no_state");
    };
    tpp::future<T> f;
    none(f);
    tpp::shared_future<T> s;
    none(s);
    tpp::promise<T> p;
    f = p.get_future();
    VP_ASSERT(f.valid(), "valid");
    VP_ASSERT(code_of([&] { p.get_future(); }) == retrieved, "get_future works once per promise");
    tpp::future<T> g = std::move(f);
    none(f);
    VP_ASSERT(g.valid(), "valid after a move");
    tpp::promise<T> q = std::move(p);
    VP_ASSERT(code_of([&] { p.get_future(); }) == no_state, "a moved-from promise has no state");
    VP_ASSERT(code_of([&] { set(p); }) == no_state, "a moved-from promise has no state");
    VP_ASSERT(code_of([&] { p.set_exception(std::make_exception_ptr(1)); }) == no_state, "a moved-from promise has no state");
    VP_ASSERT(code_of([&] { q.get_future(); }) == retrieved, "the retrieved flag moves along");
    set(q);
    g.get();
    none(g);
    tpp::promise<T> r;
    auto sh = r.get_future().share();
    set(r);
    sh.get();
    VP_ASSERT(sh.valid(), "get does not consume a shared_future");
    sh.get();
    sh.then(id, [](auto) {});
    VP_ASSERT(sh.valid() && sh.is_ready(), "then does not consume a shared_future");
    tpp::promise<T> u, w;
    auto early = u.get_future(), late = w.get_future();
    set(w);
    early.then(id, [](auto) {});
    late.then(id, [](auto) {});
    none(early);
    none(late);
    set(u);
    none(early);
    auto sh2 = std::move(sh);
    none(sh);
    VP_ASSERT(sh2.valid() && sh2.is_ready(), "valid after a move");
}

void no_shared_state()
{
    vp_expect("all");
    tpp::init();
    uint64_t a = vp_nondet_u64();
    vp_start();
    stateless<uint64_t>([&](tpp::promise<uint64_t>& p) { p.set_value(a); });
    stateless<void>([](tpp::promise<void>& p) { p.set_value(); });
    stateless<std::unique_ptr<uint64_t>>([&](auto& p) { p.set_value(std::make_unique<uint64_t>(a)); });
    vp_end();
    vp_reach("all");
}

void retrieval()
{
    vp_expect("first");
    vp_expect("second");
    tpp::init();
    uint64_t a = vp_nondet_u64();
    tpp::promise<uint64_t> p;
    tpp::future<uint64_t> f1, f2;
    int r1 = 0, r2 = 0;
    vp_start();
    std::thread t1([&] { r1 = code_of([&] { f1 = p.get_future(); }); });
    std::thread t2([&] { r2 = code_of([&] { f2 = p.get_future(); }); });
    p.set_value(a);
    t1.join();
    t2.join();
    vp_end();
    VP_ASSERT((r1 == -1 && r2 == retrieved) || (r2 == -1 && r1 == retrieved), "exactly one get_future succeeds");
    VP_ASSERT(f1.valid() == (r1 == -1) && f2.valid() == (r2 == -1), "and only that one yields a future");
    auto& f = f1.valid() ? f1 : f2;
    auto s = f.share();
    VP_ASSERT(!f.valid() && s.valid(), "share transfers the state");
    VP_ASSERT(s.get() == a && s.valid(), "a shared_future is not consumed");
    vp_reach(r1 == -1 ? "first" : "second");
}
// a result that owns memory is the same for every observer, however often it is read
void heap_payload()
{
    vp_expect("all read");
    tpp::init();
    struct data
    {
        std::vector<uint64_t> v;
        std::shared_ptr<uint64_t> p;
    };
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    auto t = tpp::make_thread("t");
    settle(t);
    vp_timeouts(0, 0);
    tpp::promise<data> pr;
    auto sf = pr.get_future().share();
    auto copy = sf;
    latch l;
    bool ok[3] = {};
    auto good = [&](const tpp::shared_future<data>& f) {
        bool r = true;
        for(int i = 0; i < 2; i++)
        {
            const data& d = f.get();
            r &= d.v.size() == 2 && d.v[0] == a && d.v[1] == b && d.p && *d.p == (a ^ b);
            data own = f.get();
            r &= own.v.size() == 2 && own.v[1] == b && own.p;
        }
        return r;
    };
    auto g = sf.then(tpp::this_thread::get_id(), [&](tpp::shared_future<data> f) { return good(f); });
    vp_start();
    std::thread s([&] {
        data d;
        d.v = {a, b};
        d.p = std::make_shared<uint64_t>(a ^ b);
        pr.set_value(std::move(d));
    });
    tpp::invoke(t.get_id(), [&] {
        ok[0] = good(copy);
        l.hit();
    });
    ok[1] = good(sf);
    ok[2] = g.get();
    l.wait(1);
    s.join();
    vp_reach("all read");
    vp_final();
    VP_ASSERT(ok[0] && ok[1] && ok[2], "every observer reads the complete value, every time");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: racing(); break;
        case 1: stable(); break;
        case 2: observers(); break;
        case 3: void_results(); break;
        case 4: late(); break;
        case 5: no_shared_state(); break;
        case 6: retrieval(); break;
        case 7: heap_payload(); break;
    }
}
