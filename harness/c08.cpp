// C08: an abandoned result becomes a broken_promise, never a hang
//@ 0 promise destroyed | quick | | value, void, shared and shared void future (symbolic choice), a thread waiting in get/wait, promise set or destroyed at any moment
//@ 1 promise overwritten | quick | | move assignment and swap onto an unsatisfied promise (symbolic choice), waiting thread, all interleavings
//@ 2 refused task | quick | | async and then addressed to an unknown, huge, unregistered or joined id (symbolic choice), every launch policy value
//@ 3 target exits first | quick | | async sent to a thread that is asked to exit at any moment, waiting thread, all interleavings
//@ 4 target unregisters first | quick | | async sent to a thread that unregisters at any moment, value, void and exception result
//@ 5 chain of continuations | quick | --merge 2 | 3 continuations in a row, promise abandoned or set at any moment, second target dead or alive
//@ 6 get after exit notification | quick | | value, void, shared and shared void future, 1 thread asked to exit at any moment, value set or not
//@ 7 stopped jobs | quick | | a pending job with a future is stopped with stop, stop_all, handle stop or pool destruction (symbolic choice)
//@ 8 results kept | quick | | satisfied promises destroyed, moved from or overwritten keep their result; explicit abandon; symbolic 64-bit value
//@ 9 several waiters of an abandoned result | quick | --merge 2 | 2 threads waiting on a shared_future and 1 continuation, promise destroyed at any moment
//@ 10 continuation dropped with its target | quick | | continuation queued on a thread that exits, future of the continuation waited for
//@ 11 many results | quick |  | 200 pending results of every kind on a thread that exits, and 70 futures of one promise, symbolic order
#include "common.h"
using namespace std::chrono_literals;

namespace
{
enum
{
    VALUE,
    BROKEN,
    OTHER
};

template<class F>
int outcome(F f)
{
    try
    {
        f();
        return VALUE;
    }
    catch(const std::future_error& e)
    {
        return e.code() == std::future_errc::broken_promise ? BROKEN : OTHER;
    }
    catch(...)
    {
        return OTHER;
    }
}

template<class F>
tpp::thread worker(F f)
{
    return tpp::thread([f]() mutable {
        tpp::this_thread::register_this_thread();
        f();
        tpp::this_thread::unregister_this_thread();
    });
}

template<class P>
void fulfil(P& p, uint64_t v)
{
    p.set_value(v);
}
void fulfil(tpp::promise<void>& p, uint64_t)
{
    p.set_value();
}

template<class T, class F>
void destroyed_with(bool set, F make)
{
    auto p = std::make_unique<tpp::promise<T>>();
    auto f = make(*p);
    uint64_t v = vp_nondet_u64();
    bool onlywait = vp_choice(2);
    int got = -1;
    bool ready = false;
    latch done;
    vp_timeouts(0, 0);
    vp_start();
    auto t = worker([&] {
        if(onlywait) f.wait();
        ready = f.is_ready();
        got = outcome([&] { f.get(); });
        done.hit();
    });
    if(set) fulfil(*p, v);
    p.reset();
    done.wait(1);
    vp_reach(set ? "set" : "destroyed");
    vp_final();
    if(set)
        VP_ASSERT(got == VALUE, "a set result is delivered");
    else
        VP_ASSERT(got == BROKEN, "broken_promise after the promise is gone");
    if(onlywait) VP_ASSERT(ready, "wait returns with the result");
    vp_stop();
}

void destroyed()
{
    vp_expect("set");
    vp_expect("destroyed");
    tpp::init();
    unsigned kind = vp_choice(4);
    bool set = vp_choice(2);
    auto plain = [](auto& p) { return p.get_future(); };
    auto share = [](auto& p) { return p.get_future().share(); };
    if(kind == 0)
        destroyed_with<uint64_t>(set, plain);
    else if(kind == 1)
        destroyed_with<void>(set, plain);
    else if(kind == 2)
        destroyed_with<uint64_t>(set, share);
    else
        destroyed_with<void>(set, share);
}

template<class T>
void overwritten_with(bool waits)
{
    tpp::promise<T> p;
    auto f = p.get_future();
    int got = -1, cont = 0;
    latch done;
    unsigned how = vp_choice(3);
    vp_timeouts(0, 0);
    tpp::thread t;
    vp_start();
    if(waits)
        t = worker([&] {
            got = outcome([&] { f.get(); });
            done.hit();
        });
    else
        f.then(tpp::caller_id(), [&](tpp::future<T> x) {
            cont++;
            got = outcome([&] { x.get(); });
            done.hit();
        });
    if(how == 0)
        p = tpp::promise<T>();
    else if(how == 1)
    {
        tpp::promise<T> q;
        fulfil(q, 1);
        p = std::move(q);
    }
    else
    {
        tpp::promise<T> q;
        std::swap(p, q);
        // the first state now lives in q
    }
    done.wait(1);
    vp_reach("overwritten");
    vp_final();
    VP_ASSERT(got == BROKEN, "broken_promise after the promise was overwritten");
    VP_ASSERT(waits || cont == 1, "the continuation runs");
    vp_stop();
}

void overwritten()
{
    vp_expect("overwritten");
    tpp::init();
    bool waits = vp_choice(2);
    if(vp_choice(2))
        overwritten_with<void>(waits);
    else
        overwritten_with<uint64_t>(waits);
}

void refused()
{
    vp_expect("async");
    vp_expect("then");
    tpp::init();
    unsigned which = vp_choice(4);
    tpp::thread::id id = which == 1 ? 77 : ~tpp::thread::id(0); // 0 means the caller here
    if(which >= 2)
    {
        auto t = tpp::make_thread("t");
        id = t.get_id();
        if(which == 2)
            t.join();
        else
            t = tpp::thread();
    }
    uint32_t policy = vp_nondet_u32();
    // policy deferred|anything addressed to the caller runs inline; none of these ids is the caller
    bool ran = false;
    {
        auto f = tpp::async(id, static_cast<std::launch>(policy), [&] { ran = true; });
        VP_ASSERT(f.valid() && f.is_ready(), "refused async is ready at once");
        VP_ASSERT(f.has_error(), "and carries an error");
        VP_ASSERT(outcome([&] { f.get(); }) == BROKEN, "namely broken_promise");
        vp_reach("async");
    }
    {
        tpp::promise<int> p;
        auto g = p.get_future().then(id, static_cast<std::launch>(policy), [&](tpp::future<int> x) {
            ran = true;
            return x.get();
        });
        bool before = vp_choice(2);
        if(before) VP_ASSERT(!g.is_ready(), "not before the parent completes");
        p.set_value(5);
        VP_ASSERT(g.is_ready(), "refused continuation abandons its future");
        VP_ASSERT(outcome([&] { g.get(); }) == BROKEN, "namely broken_promise");
        vp_reach("then");
    }
    VP_ASSERT(!ran, "a refused task never runs");
    vp_stop();
}

void target_exits()
{
    vp_expect("ran");
    vp_expect("dropped");
    tpp::init();
    uint64_t v = vp_nondet_u64();
    uint64_t got = 0;
    int o = -1, ran = 0;
    latch done;
    auto t = tpp::make_thread("t");
    auto id = t.get_id();
    vp_timeouts(0, 0);
    vp_start();
    auto u = worker([&] {
        auto f = tpp::async(id, [&ran](uint64_t x) {
            ran++;
            return x;
        }, v);
        o = outcome([&] { got = f.get(); });
        done.hit();
    });
    tpp::notify_for_exit(id);
    t.join();
    done.wait(1);
    vp_reach(o == VALUE ? "ran" : "dropped");
    vp_final();
    VP_ASSERT(o == VALUE || o == BROKEN, "the result or broken_promise");
    VP_ASSERT((o == VALUE) == (ran == 1), "a result only if the task ran");
    VP_ASSERT(ran <= 1, "at most once");
    VP_ASSERT(o != VALUE || got == v, "the value");
    vp_stop();
}

template<class T, class F>
void unregisters_with(F body)
{
    int o = -1, ran = 0;
    latch done;
    tpp::thread::id id{};
    vp_timeouts(0, 0);
    unsigned mode = vp_choice(2);
    auto t = tpp::thread([&, mode] {
        tpp::this_thread::register_this_thread();
        if(mode) tpp::this_thread::process();
        tpp::this_thread::unregister_this_thread();
    });
    id = t.get_id();
    vp_start();
    auto f = tpp::async(id, [&ran, body]() -> T {
        ran++;
        return body();
    });
    o = outcome([&] { f.get(); });
    vp_reach(ran ? "ran" : "dropped");
    vp_final();
    VP_ASSERT(o == BROKEN || ran == 1, "broken_promise unless it ran");
    VP_ASSERT(o != BROKEN || ran == 0, "no broken_promise if it ran");
    VP_ASSERT(ran <= 1, "at most once");
    vp_stop();
}

void target_unregisters()
{
    vp_expect("ran");
    vp_expect("dropped");
    tpp::init();
    unsigned kind = vp_choice(3);
    if(kind == 0)
        unregisters_with<int>([] { return 1; });
    else if(kind == 1)
        unregisters_with<void>([] {});
    else
        unregisters_with<int>([]() -> int { throw std::runtime_error("x"); });
}

void chain()
{
    vp_expect("abandoned");
    vp_expect("set");
    tpp::init();
    bool set = vp_choice(2), dead = vp_choice(2);
    uint64_t v = vp_nondet_u64();
    auto t = tpp::make_thread("t");
    settle(t);
    auto id = t.get_id();
    auto p = std::make_unique<tpp::promise<uint64_t>>();
    int ran1 = 0, ran2 = 0, ran3 = 0, o = -1;
    uint64_t got = 0;
    auto f = p->get_future();
    vp_timeouts(0, 0);
    vp_start();
    auto pp = p.get();
    auto u = worker([set, v, pp, &p] {
        if(set) pp->set_value(v);
        p.reset();
    });
    auto g = f.then(id, [&](tpp::future<uint64_t> x) {
                  ran1++;
                  return x.get() + 1;
              })
                 .then(dead ? tpp::thread::id(99) : id, [&](tpp::future<uint64_t> x) {
                     ran2++;
                     return x.get() + 1;
                 })
                 .then(tpp::this_thread::get_id(), [&](tpp::future<uint64_t> x) {
                     ran3++;
                     return x.get() + 1;
                 });
    o = outcome([&] { got = g.get(); });
    vp_reach(set ? "set" : "abandoned");
    vp_final();
    VP_ASSERT(ran1 == 1, "the first continuation always runs");
    VP_ASSERT(ran2 == (dead ? 0 : 1), "the second unless its target is gone");
    VP_ASSERT(ran3 == 1, "the third always runs");
    if(set && !dead)
        VP_ASSERT(o == VALUE && got == v + 3, "value through the chain");
    else
        VP_ASSERT(o == BROKEN, "broken_promise through the chain");
    vp_stop();
}

template<class T, class M>
void exit_get_with(M make)
{
    tpp::promise<T> p;
    auto f = make(p);
    int o = -1;
    bool wasset = false, exiting = false;
    latch done;
    bool set = vp_choice(2);
    vp_timeouts(0, 0);
    auto t = worker([&] {
        o = outcome([&] { f.get(); });
        exiting = tpp::this_thread::notified_for_exit();
        done.hit();
    });
    auto id = t.get_id();
    vp_start();
    if(set)
    {
        wasset = true;
        fulfil(p, 3);
    }
    tpp::notify_for_exit(id);
    done.wait(1);
    vp_reach(set ? "set" : "unset");
    vp_final();
    if(set)
        VP_ASSERT(o == VALUE, "a result set before is delivered");
    else
    {
        VP_ASSERT(exiting, "returned because of the exit notification");
        VP_ASSERT(o == BROKEN, "get never returns normally without a result");
    }
    vp_stop();
}

void exit_get()
{
    vp_expect("set");
    vp_expect("unset");
    tpp::init();
    unsigned kind = vp_choice(4);
    auto plain = [](auto& p) { return p.get_future(); };
    auto share = [](auto& p) { return p.get_future().share(); };
    if(kind == 0)
        exit_get_with<uint64_t>(plain);
    else if(kind == 1)
        exit_get_with<void>(plain);
    else if(kind == 2)
        exit_get_with<uint64_t>(share);
    else
        exit_get_with<void>(share);
}

void stopped_jobs()
{
    vp_expect("cancelled");
    vp_expect("ran");
    tpp::init();
    unsigned how = vp_choice(4);
    auto pool = std::make_unique<tpp::thread_pool>(
        std::map<tpp::priority::category, size_t>{{tpp::priority::category::normal, 1}});
    int ran = 0, o = -1;
    vp_timeouts(0, 0);
    vp_start();
    auto f = pool->schedule([&] { ran++; });
    if(how == 0)
        pool->stop(f.id);
    else if(how == 1)
        pool->stop_all();
    else if(how == 2)
        f.stop();
    else
        pool.reset();
    o = outcome([&] { f.get(); });
    vp_reach(ran ? "ran" : "cancelled");
    vp_final();
    VP_ASSERT(o == (ran ? VALUE : BROKEN), "cancelled jobs report broken_promise, executed ones their result");
    VP_ASSERT(ran <= 1, "at most once");
    vp_stop();
}

void kept()
{
    vp_expect("kept");
    tpp::init();
    uint64_t v = vp_nondet_u64();
    unsigned how = vp_choice(6);
    tpp::future<uint64_t> f;
    int o = -1;
    bool expect_value = true;
    {
        tpp::promise<uint64_t> p;
        f = p.get_future();
        if(how == 0) p.set_value(v);
        if(how == 1)
        {
            tpp::promise<uint64_t> q(std::move(p));
            q.set_value(v);
            VP_ASSERT(f.is_ready(), "set through the moved promise");
        }
        if(how == 2)
        {
            p.set_value(v);
            p = tpp::promise<uint64_t>();
        }
        if(how == 3)
        {
            p.abandon();
            expect_value = false;
            bool threw = false;
            try
            {
                p.set_value(v);
            }
            catch(const std::future_error& e)
            {
                threw = e.code() == std::future_errc::promise_already_satisfied;
            }
            VP_ASSERT(threw, "an abandoned promise is satisfied");
        }
        if(how == 4)
        {
            // moving the promise away does not abandon its state
            tpp::promise<uint64_t> q;
            {
                tpp::promise<uint64_t> r(std::move(p));
                q = std::move(r);
            }
            VP_ASSERT(!f.is_ready(), "moving does not abandon");
            q.set_value(v);
        }
        if(how == 5)
        {
            expect_value = false;
            VP_ASSERT(!f.is_ready(), "not abandoned while the promise lives");
        }
    }
    VP_ASSERT(f.is_ready(), "ready after the promise is gone");
    uint64_t got = 0;
    o = outcome([&] { got = f.get(); });
    VP_ASSERT(o == (expect_value ? VALUE : BROKEN), "the outcome that was set");
    VP_ASSERT(!expect_value || got == v, "the value");
    vp_reach("kept");
    vp_stop();
}

void many_waiters()
{
    vp_expect("all");
    tpp::init();
    auto p = std::make_unique<tpp::promise<int>>();
    auto f = p->get_future().share();
    int o[3] = {-1, -1, -1};
    latch done;
    vp_timeouts(0, 0);
    vp_start();
    auto body = [&](int i) {
        auto g = f;
        o[i] = outcome([&] { g.get(); });
        done.hit();
    };
    auto t = worker([&] { body(0); });
    auto u = worker([&] { body(1); });
    auto c = f.then(tpp::caller_id(), [&](tpp::shared_future<int> x) { x.get(); });
    p.reset();
    o[2] = outcome([&] { c.get(); });
    done.wait(2);
    vp_reach("all");
    vp_final();
    VP_ASSERT(o[0] == BROKEN && o[1] == BROKEN && o[2] == BROKEN, "every observer gets broken_promise");
    vp_stop();
}

void dropped_continuation()
{
    vp_expect("ran");
    vp_expect("dropped");
    tpp::init();
    tracker::live() = 0;
    auto t = tpp::make_thread("t");
    auto id = t.get_id();
    int ran = 0, o = -1;
    latch done;
    tpp::promise<int> p;
    vp_timeouts(0, 0);
    auto f = p.get_future().then(id, [&ran, k = tracker()](tpp::future<int> x) {
        ran++;
        return x.get();
    });
    vp_start();
    auto u = worker([&] {
        o = outcome([&] { f.get(); });
        done.hit();
    });
    p.set_value(1);
    tpp::notify_for_exit(id);
    t.join();
    done.wait(1);
    vp_reach(ran ? "ran" : "dropped");
    vp_final();
    VP_ASSERT(o == (ran ? VALUE : BROKEN), "broken_promise if the continuation never ran");
    VP_ASSERT(ran <= 1, "at most once");
    VP_ASSERT(tracker::live() == 0, "the continuation is released");
    vp_stop();
}

void many()
{
    vp_expect("done");
    vp_timeouts(0, 0);
    tpp::init();
    bool joined = vp_choice(2);
    auto t = std::make_unique<tpp::thread>(tpp::make_thread());
    settle(*t);
    auto id = t->get_id();
    latch running, gate;
    tpp::invoke(id, [&] {
        running.hit();
        gate.wait(1);
    });
    running.wait(1);
    int ran = 0;
    std::vector<tpp::future<void>> fs;
    std::vector<tpp::future<uint64_t>> gs;
    for(unsigned i = 0; i < 100; i++)
    {
        fs.push_back(tpp::async(id, [&] { ran++; }));
        gs.push_back(tpp::async(id, [&] { return uint64_t(ran++); }));
    }
    tpp::promise<uint64_t> p;
    auto s = p.get_future().share();
    std::vector<tpp::shared_future<uint64_t>> copies(70, s);
    tpp::notify_for_exit(id);
    gate.hit();
    if(joined) t->join();
    t.reset();
    {
        tpp::promise<uint64_t> other;
        std::swap(other, p);
    }
    for(auto& f : fs) VP_ASSERT(outcome([&] { f.get(); }) == BROKEN, "broken");
    for(auto& f : gs) VP_ASSERT(outcome([&] { f.get(); }) == BROKEN, "broken");
    for(auto& f : copies) VP_ASSERT(f.is_ready() && outcome([&] { f.get(); }) == BROKEN, "broken");
    VP_ASSERT(ran == 0, "nothing ran");
    vp_reach("done");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
    case 0: destroyed(); break;
    case 1: overwritten(); break;
    case 2: refused(); break;
    case 3: target_exits(); break;
    case 4: target_unregisters(); break;
    case 5: chain(); break;
    case 6: exit_get(); break;
    case 7: stopped_jobs(); break;
    case 8: kept(); break;
    case 9: many_waiters(); break;
    case 10: dropped_continuation(); break;
    case 11: many(); break;
    }
}
