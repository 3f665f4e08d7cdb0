// C10: work runs on the thread and at the time the launch policy says
//@ 0 async with any policy | quick | | every 32-bit policy value; target is the caller, another thread, or caller_id(); value and void
//@ 1 then on a complete future | quick | | every 32-bit policy value; target is the caller, another thread, or caller_id(); value and void, future and shared_future
//@ 2 then completed by another thread | quick | | every 32-bit policy value; target is the attaching thread, the completing thread, a third one, or caller_id(); future; all interleavings
//@ 3 invoke and dispatch | quick | | from the target, from inside one of its tasks, from another thread (symbolic choice), all interleavings
//@ 4 async without a thread | quick | | every 32-bit policy value, the fresh thread unregisters afterwards, all interleavings
//@ 5 then without a thread | quick | | future, void future, shared_future, shared void future; completion before or after attach, all interleavings
//@ 6 unregistered completing thread | quick | | caller_id() with any policy value, completed by an unregistered thread
//@ 7 queued behind earlier tasks | quick | | async and then with policy async to the caller run after the tasks queued before, in order
//@ 8 shutdown after threadless work | quick | | async without a thread, then shutdown: the fresh thread leaves and shutdown reports none left
//@ 9 then completed by another thread, shared_future | quick | | every 32-bit policy value; target is the attaching thread, the completing thread, a third one, or caller_id(); shared_future; all interleavings
//@ 10 then completed by another thread, void future | quick | | every 32-bit policy value; target is the attaching thread, the completing thread, a third one, or caller_id(); void future; all interleavings
//@ 11 then completed by another thread, shared void future | quick | | every 32-bit policy value; target is the attaching thread, the completing thread, a third one, or caller_id(); shared void future; all interleavings
#include "common.h"
using namespace std::chrono_literals;

namespace
{
template<class F>
tpp::thread worker(F f)
{
    return tpp::thread([f]() mutable {
        tpp::this_thread::register_this_thread();
        f();
        tpp::this_thread::unregister_this_thread();
    });
}

constexpr uint32_t async_only = static_cast<uint32_t>(std::launch::async);

void async_policy()
{
    vp_expect("inline");
    vp_expect("queued");
    vp_expect("other");
    tpp::init();
    auto t = tpp::make_thread("t");
    settle(t);
    uint32_t policy = vp_nondet_u32();
    unsigned target = vp_choice(3);
    bool isvoid = vp_choice(2);
    auto me = tpp::this_thread::get_id();
    tpp::thread::id id = target == 0 ? me : target == 1 ? t.get_id() : tpp::caller_id();
    auto dest = target == 1 ? t.get_id() : me;
    int ran = 0;
    uint32_t depth = 99;
    bool returned = false, early = false;
    tpp::thread::id where = 0;
    vp_timeouts(0, 0);
    auto body = [&] {
        ran++;
        early = !returned;
        where = tpp::this_thread::get_id();
        depth = tpp::this_thread::get_depth();
        return 3;
    };
    vp_start();
    int got = 3;
    if(isvoid)
    {
        auto f = tpp::async(id, static_cast<std::launch>(policy), [&] { body(); });
        if(target != 1)
        {
            returned = true;
            VP_ASSERT(ran == (policy == async_only ? 0 : 1), "inline exactly unless the policy is async");
            VP_ASSERT(f.is_ready() == (policy != async_only), "result at once when inline");
        }
        f.get();
    }
    else
    {
        auto f = tpp::async(id, static_cast<std::launch>(policy), body);
        if(target != 1)
        {
            returned = true;
            VP_ASSERT(ran == (policy == async_only ? 0 : 1), "inline exactly unless the policy is async");
            VP_ASSERT(f.is_ready() == (policy != async_only), "result at once when inline");
        }
        got = f.get();
    }
    vp_reach(target == 1 ? "other" : policy == async_only ? "queued" : "inline");
    vp_final();
    VP_ASSERT(ran == 1 && got == 3, "once");
    VP_ASSERT(where == dest, "on the target thread");
    if(target == 1)
        VP_ASSERT(depth == 1, "as a queued task");
    else
    {
        VP_ASSERT(early == (policy != async_only), "during the call when inline");
        VP_ASSERT(depth == (policy == async_only ? 1 : 0), "through the queue only when queued");
    }
    vp_stop();
}

// the four kinds of parent
template<class Fut>
struct parent;
template<>
struct parent<tpp::future<int>>
{
    tpp::promise<int> p;
    tpp::future<int> get() { return p.get_future(); }
    void set() { p.set_value(7); }
    static bool good(tpp::future<int>& f) { return f.get() == 7; }
};
template<>
struct parent<tpp::shared_future<int>>
{
    tpp::promise<int> p;
    tpp::shared_future<int> get() { return p.get_future().share(); }
    void set() { p.set_value(7); }
    static bool good(tpp::shared_future<int>& f) { return f.get() == 7; }
};
template<>
struct parent<tpp::future<void>>
{
    tpp::promise<void> p;
    tpp::future<void> get() { return p.get_future(); }
    void set() { p.set_value(); }
    static bool good(tpp::future<void>& f)
    {
        f.get();
        return true;
    }
};
template<>
struct parent<tpp::shared_future<void>>
{
    tpp::promise<void> p;
    tpp::shared_future<void> get() { return p.get_future().share(); }
    void set() { p.set_value(); }
    static bool good(tpp::shared_future<void>& f)
    {
        f.get();
        return true;
    }
};

template<class Fut>
void then_ready()
{
    parent<Fut> par;
    Fut f = par.get();
    par.set();
    auto t = tpp::make_thread("t");
    settle(t);
    uint32_t policy = vp_nondet_u32();
    unsigned target = vp_choice(3);
    auto me = tpp::this_thread::get_id();
    tpp::thread::id id = target == 0 ? me : target == 1 ? t.get_id() : tpp::caller_id();
    auto dest = target == 1 ? t.get_id() : me;
    int ran = 0;
    bool good = false;
    uint32_t depth = 99;
    tpp::thread::id where = 0;
    vp_timeouts(0, 0);
    vp_start();
    auto g = f.then(id, static_cast<std::launch>(policy), [&](Fut x) {
        ran++;
        where = tpp::this_thread::get_id();
        depth = tpp::this_thread::get_depth();
        good = parent<Fut>::good(x);
    });
    if(target != 1)
    {
        VP_ASSERT(ran == (policy == async_only ? 0 : 1), "inline exactly unless the policy is async");
        VP_ASSERT(g.is_ready() == (policy != async_only), "result at once when inline");
    }
    g.get();
    vp_reach(target == 1 ? "other" : policy == async_only ? "queued" : "inline");
    vp_final();
    VP_ASSERT(ran == 1 && good, "once, with its parent");
    VP_ASSERT(where == dest, "on the target thread");
    VP_ASSERT(depth == (target == 1 || policy == async_only ? 1 : 0), "through the queue only when queued");
    vp_stop();
}

void then_policy()
{
    vp_expect("inline");
    vp_expect("queued");
    vp_expect("other");
    tpp::init();
    switch(vp_choice(4))
    {
        case 0: then_ready<tpp::future<int>>(); break;
        case 1: then_ready<tpp::shared_future<int>>(); break;
        case 2: then_ready<tpp::future<void>>(); break;
        case 3: then_ready<tpp::shared_future<void>>(); break;
    }
}

template<class Fut>
void then_completed()
{
    uint32_t policy = vp_nondet_u32();
    unsigned target = vp_choice(4);
    auto me = tpp::this_thread::get_id();
    auto t = tpp::make_thread("t"); // completes
    settle(t);
    tpp::thread u;
    if(target == 2)
    {
        u = tpp::make_thread("u");
        settle(u);
    }
    auto id = target == 0 ? me : target == 1 ? t.get_id() : target == 2 ? u.get_id() : tpp::caller_id();
    parent<Fut> par;
    Fut f = par.get();
    int ran = 0;
    bool insideset = false, insidethen = false, inset = false, inthen = false, queued = false, good = false;
    bool setfirst = false, thenfirst = false;
    std::atomic<bool> setdone{false}, thendone{false};
    tpp::thread::id where = 0;
    auto tid = t.get_id();
    vp_timeouts(0, 0);
    vp_start();
    tpp::invoke(tid, [&] {
        thenfirst = thendone;
        inset = true;
        par.set();
        inset = false;
        setdone = true;
    });
    setfirst = setdone;
    inthen = true;
    auto g = f.then(id, static_cast<std::launch>(policy), [&](Fut x) {
        ran++;
        where = tpp::this_thread::get_id();
        if(where == tid) insideset = inset;
        if(where == me) insidethen = inthen;
        queued = tpp::this_thread::get_depth() == (where == tid && insideset ? 2u : 1u);
        good = parent<Fut>::good(x);
    });
    inthen = false;
    thendone = true;
    g.get();
    vp_reach(target == 0 ? "attaching" : target == 1 ? "completing" : target == 2 ? "third" : "caller");
    vp_final();
    VP_ASSERT(ran == 1 && good, "once, with its parent");
    if(target == 0) VP_ASSERT(where == me, "on the attaching thread");
    if(target == 1) VP_ASSERT(where == tid, "on the completing thread");
    if(target == 2) VP_ASSERT(where == u.get_id() && queued, "on the third thread");
    if(target == 3)
    {
        VP_ASSERT(where == me || where == tid, "on the thread that attaches or completes");
        if(thenfirst) VP_ASSERT(where == tid, "caller_id() is the completing thread");
        if(setfirst) VP_ASSERT(where == me, "caller_id() is the attaching thread when already complete");
    }
    if(policy == async_only)
    {
        VP_ASSERT(!insidethen && !insideset, "never inline with policy async");
        VP_ASSERT(queued, "as a task of its own");
    }
    else
    {
        if(target == 3) VP_ASSERT(insidethen || insideset, "inline where it completes");
        if(target == 0 && setfirst) VP_ASSERT(insidethen, "inline on the attaching thread when already complete");
        if(target == 1 && thenfirst) VP_ASSERT(insideset, "inline on the completing thread");
    }
    vp_stop();
}

template<class Fut>
void then_race()
{
    vp_expect("attaching");
    vp_expect("completing");
    vp_expect("third");
    vp_expect("caller");
    tpp::init();
    then_completed<Fut>();
}

void inv_disp()
{
    vp_expect("self");
    vp_expect("nested");
    vp_expect("other");
    tpp::init();
    unsigned from = vp_choice(3);
    bool disp = vp_choice(2);
    auto t = tpp::make_thread("t");
    settle(t);
    auto tid = t.get_id();
    auto me = tpp::this_thread::get_id();
    int ran = 0;
    bool accepted = false, during = false, incall = false;
    tpp::thread::id where = 0;
    latch done;
    vp_timeouts(0, 0);
    auto body = [&] {
        ran++;
        during = incall;
        where = tpp::this_thread::get_id();
        done.hit();
    };
    auto call = [&](tpp::thread::id id) {
        if(id == tpp::this_thread::get_id()) incall = true;
        accepted = disp ? tpp::dispatch(id, body) : tpp::invoke(id, body);
        incall = false;
    };
    vp_start();
    if(from == 0)
    {
        call(me);
        VP_ASSERT(ran == (disp ? 1 : 0), "invoke queues, dispatch to the caller runs at once");
        tpp::this_thread::process();
    }
    else if(from == 1)
        tpp::invoke(tid, [&] { call(tid); });
    else
        call(tid);
    done.wait(1);
    if(from == 1) settle(t);
    vp_reach(from == 0 ? "self" : from == 1 ? "nested" : "other");
    vp_final();
    VP_ASSERT(accepted, "accepted");
    VP_ASSERT(ran == 1, "once");
    VP_ASSERT(where == (from == 0 ? me : tid), "on the target");
    VP_ASSERT(during == (disp && from != 2), "inside the call exactly for dispatch to the caller");
    vp_stop();
}

void async_free()
{
    vp_expect("done");
    tpp::init();
    uint32_t policy = vp_nondet_u32();
    auto me = tpp::this_thread::get_id();
    bool with = vp_choice(2);
    int ran = 0, got = 0;
    bool registered = false;
    tpp::thread::id where = 0;
    vp_timeouts(0, 0);
    auto body = [&](int x) {
        ran++;
        where = tpp::this_thread::get_id();
        registered = tpp::this_thread::is_registered() && contains(tpp::get_all_registered_threads(), where);
        return x + 1;
    };
    vp_start();
    auto f = with ? tpp::async(static_cast<std::launch>(policy), body, 4) : tpp::async(body, 4);
    got = f.get();
    // the fresh thread leaves by itself: asking for its exit or waiting for it is not needed
    int left = tpp::shutdown(std::chrono::seconds(20));
    vp_reach("done");
    vp_final();
    VP_ASSERT(ran == 1 && got == 5, "once");
    VP_ASSERT(where != me && where != 0 && registered, "on a registered thread of its own");
    VP_ASSERT(left == 0, "which unregisters itself");
    vp_stop();
}

template<class P, class M, class R>
void then_free_with(M make, R set)
{
    P p;
    auto f = make(p);
    using Fut = decltype(f);
    auto me = tpp::this_thread::get_id();
    bool before = vp_choice(2);
    int ran = 0;
    bool registered = false, ready = false;
    tpp::thread::id where = 0;
    vp_timeouts(0, 0);
    vp_start();
    if(before) set(p);
    auto g = f.then([&](Fut x) {
        ran++;
        ready = x.is_ready();
        where = tpp::this_thread::get_id();
        registered = contains(tpp::get_all_registered_threads(), where);
    });
    if(!before) set(p);
    g.get();
    int left = tpp::shutdown(std::chrono::seconds(20));
    vp_reach(before ? "before" : "after");
    vp_final();
    VP_ASSERT(ran == 1 && ready, "once");
    VP_ASSERT(where != me && where != 0 && registered, "on a registered thread of its own");
    VP_ASSERT(left == 0, "which unregisters itself");
    vp_stop();
}

void then_free()
{
    vp_expect("before");
    vp_expect("after");
    tpp::init();
    unsigned kind = vp_choice(4);
    auto plain = [](auto& p) { return p.get_future(); };
    auto share = [](auto& p) { return p.get_future().share(); };
    auto seti = [](tpp::promise<int>& p) { p.set_value(1); };
    auto setv = [](tpp::promise<void>& p) { p.set_value(); };
    if(kind == 0)
        then_free_with<tpp::promise<int>>(plain, seti);
    else if(kind == 1)
        then_free_with<tpp::promise<void>>(plain, setv);
    else if(kind == 2)
        then_free_with<tpp::promise<int>>(share, seti);
    else
        then_free_with<tpp::promise<void>>(share, setv);
}

void unregistered()
{
    vp_expect("inline");
    vp_expect("refused");
    tpp::init();
    uint32_t policy = vp_nondet_u32();
    tpp::promise<int> p;
    int ran = 0, got = 0, broken = 0;
    uint32_t where = 0, setter = 0;
    latch done;
    auto g = p.get_future().then(tpp::caller_id(), static_cast<std::launch>(policy), [&](tpp::future<int> x) {
        ran++;
        where = vp_tid();
        return x.get();
    });
    vp_start();
    std::thread s([&] {
        setter = vp_tid();
        p.set_value(2);
        done.hit();
    });
    try
    {
        got = g.get();
    }
    catch(const std::future_error& e)
    {
        broken = e.code() == std::future_errc::broken_promise;
    }
    done.wait(1);
    vp_reach(ran ? "inline" : "refused");
    vp_final();
    if(policy == async_only)
        VP_ASSERT(ran == 0 && broken == 1, "nothing to queue it on");
    else
        VP_ASSERT(ran == 1 && where == setter && got == 2, "inline on the completing thread");
    vp_stop();
}

void in_order()
{
    vp_expect("done");
    tpp::init();
    int log[4] = {}, n = 0;
    auto me = tpp::this_thread::get_id();
    auto put = [&](int i) { log[n++] = i; };
    bool viathen = vp_choice(2);
    tpp::invoke(me, [&] { put(1); });
    tpp::future<void> f;
    if(viathen)
        f = tpp::make_ready_future().then(me, std::launch::async, [&](tpp::future<void>) { put(2); });
    else
        f = tpp::async(me, std::launch::async, [&] { put(2); });
    tpp::invoke(me, [&] { put(3); });
    VP_ASSERT(n == 0, "nothing runs before the thread processes");
    f.get();
    VP_ASSERT(n == 2 && log[0] == 1 && log[1] == 2, "in order, and waiting runs no more than needed");
    tpp::this_thread::process();
    VP_ASSERT(n == 3 && log[2] == 3, "the rest later");
    vp_reach("done");
    vp_stop();
}

void free_shutdown()
{
    vp_expect("value");
    tpp::init();
    int ran = 0, o = -1;
    vp_timeouts(0, 0);
    vp_start();
    auto f = tpp::async([&] { ran++; });
    int left = tpp::shutdown(std::chrono::seconds(20));
    try
    {
        f.get();
        o = 0;
    }
    catch(const std::future_error& e)
    {
        o = e.code() == std::future_errc::broken_promise ? 1 : 2;
    }
    vp_reach(o == 0 ? "value" : "dropped");
    vp_final();
    VP_ASSERT(left == 0, "none left");
    VP_ASSERT(o == (ran ? 0 : 1), "run or dropped");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: async_policy(); break;
        case 1: then_policy(); break;
        case 2: then_race<tpp::future<int>>(); break;
        case 9: then_race<tpp::shared_future<int>>(); break;
        case 10: then_race<tpp::future<void>>(); break;
        case 11: then_race<tpp::shared_future<void>>(); break;
        case 3: inv_disp(); break;
        case 4: async_free(); break;
        case 5: then_free(); break;
        case 6: unregistered(); break;
        case 7: in_order(); break;
        case 8: free_shutdown(); break;
    }
}
