// C07: waiting on a future returns once the result is set
//@ 0 one waiter | quick | | wait, get, wait_for, wait_until, shared get (symbolic choice) against the setter, 64-bit symbolic value, 1 spurious wake-up, all interleavings
//@ 1 three waiters | quick | | 2 loop threads and main waiting on one shared_future, all interleavings
//@ 2 nested wait on the same future | quick | | a task run by the waiting thread waits for the same result (5 symbolic choices), all interleavings
//@ 3 nested timed wait on the same future | quick | | the nested wait_for may time out at any moment, result set at any moment, all interleavings
//@ 4 nested wait on another future | quick | | the inner result set before or after the outer one (symbolic choice), all interleavings
//@ 5 timed waits | quick | | wait_for with timeouts at any moment (budget 2), then get, all interleavings
//@ 6 set by a task of the waiting thread | quick | | 2 queued tasks, one sets the result (symbolic choice), a third thread interferes
//@ 7 async round trip | quick | | async to a loop thread and back by a continuation, all interleavings
//@ 8 two futures, two waiters | quick | | 2 threads each waiting for a result the other one sets, all interleavings
//@ 9 exceptions wake too | quick | | set_exception, promise destroyed or value (symbolic choice) against 2 waiters, all interleavings
//@ 10 continuation that needs the waiter | quick | | value, void or exception (symbolic), a continuation run by the setter waits for a thread that waits for the same result, all interleavings
//@ 11 result available to an exiting thread | quick | | asked to exit before, during or after the set (symbolic), any way of waiting (symbolic): a result that is there is reported and delivered, all interleavings
//@ 12 many waiters | quick |  | 6 loop threads and main waiting on one shared_future, symbolic 64-bit value, one schedule
#include "common.h"
using namespace std::chrono_literals;

namespace
{
void one_waiter()
{
    static const char* names[] = {"wait", "get", "wait_for", "wait_until", "shared"};
    for(auto n : names) vp_expect(n);
    tpp::init();
    uint64_t a = vp_nondet_u64();
    unsigned how = vp_choice(5);
    tpp::promise<uint64_t> p;
    auto f = p.get_future();
    uint64_t got = 0;
    vp_timeouts(0, 0);
    vp_spurious(1);
    vp_start();
    std::thread s([&] { p.set_value(a); });
    switch(how)
    {
        case 0:
            f.wait();
            VP_ASSERT(f.is_ready(), "ready when the wait returns");
            got = f.get();
            break;
        case 1: got = f.get(); break;
        case 2:
            VP_ASSERT(f.wait_for(5s) == std::future_status::ready, "wait_for reports ready");
            got = f.get();
            break;
        case 3:
            VP_ASSERT(f.wait_until(tpp::clock::now() + 5s) == std::future_status::ready, "wait_until reports ready");
            got = f.get();
            break;
        case 4:
        {
            auto sh = f.share();
            got = sh.get();
            break;
        }
    }
    s.join();
    vp_end();
    VP_ASSERT(got == a, "the result that was set");
    vp_reach(names[how]);
}

void three_waiters()
{
    vp_expect("all woke");
    tpp::init();
    auto t = tpp::make_thread("t");
    auto u = tpp::make_thread("u");
    settle(t);
    settle(u);
    uint64_t a = vp_nondet_u64();
    tpp::promise<uint64_t> p;
    auto s = p.get_future().share();
    uint64_t got[3] = {};
    latch l;
    vp_start();
    tpp::invoke(t.get_id(), [&, c = s] { got[0] = c.get(); l.hit(); });
    tpp::invoke(u.get_id(), [&, c = s] { got[1] = c.get(); l.hit(); });
    std::thread set([&] { p.set_value(a); });
    got[2] = s.get();
    set.join();
    l.wait(2);
    vp_final();
    VP_ASSERT(got[0] == a && got[1] == a && got[2] == a, "every waiter gets the result");
    vp_reach("all woke");
    vp_stop();
}

void nested_same()
{
    static const char* names[] = {"wait", "get", "wait_for", "two tasks", "two levels"};
    for(auto n : names) vp_expect(n);
    tpp::init();
    auto id = tpp::this_thread::get_id();
    uint64_t a = vp_nondet_u64();
    unsigned how = vp_choice(5);
    tpp::promise<uint64_t> p;
    auto s = p.get_future().share();
    int inner = 0;
    uint64_t got = 0, got2 = 0;
    vp_timeouts(0, 0);
    vp_start();
    std::thread x([&] {
        tpp::invoke(id, [&] {
            inner++;
            if(how == 0)
            {
                s.wait();
                got2 = s.get();
            }
            else if(how == 2)
            {
                VP_ASSERT(s.wait_for(5s) == std::future_status::ready, "nested wait_for reports ready");
                got2 = s.get();
            }
            else
                got2 = s.get();
        });
        if(how >= 3)
            tpp::invoke(id, [&] {
                inner++;
                if(how == 4) s.wait();
            });
        p.set_value(a);
    });
    got = s.get();
    x.join();
    tpp::this_thread::process();
    vp_final();
    VP_ASSERT(got == a && got2 == a, "outer and nested waits deliver the result");
    VP_ASSERT(inner == (how >= 3 ? 2 : 1), "the tasks ran");
    vp_reach(names[how]);
    vp_stop();
}

void nested_timed()
{
    vp_expect("inner timed out");
    vp_expect("inner ready");
    tpp::init();
    auto id = tpp::this_thread::get_id();
    uint64_t a = vp_nondet_u64();
    tpp::promise<uint64_t> p;
    auto s = p.get_future().share();
    uint64_t got = 0;
    bool inner = false;
    auto st = std::future_status::deferred;
    vp_timeouts(1, 1);
    vp_start();
    tpp::invoke(id, [&] {
        st = s.wait_for(5s);
        inner = true;
    });
    std::thread x([&] { p.set_value(a); });
    got = s.get(); // must not miss the result because the nested wait gave up
    if(!inner) tpp::this_thread::process();
    x.join();
    vp_final();
    VP_ASSERT(got == a, "the outer wait delivers the result");
    VP_ASSERT(st != std::future_status::deferred, "nobody asked for exit");
    vp_reach(st == std::future_status::ready ? "inner ready" : "inner timed out");
    vp_stop();
}

void nested_other()
{
    vp_expect("inner first");
    vp_expect("outer first");
    tpp::init();
    auto id = tpp::this_thread::get_id();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    bool inner_first = vp_nondet_bool();
    tpp::promise<uint64_t> p, q;
    auto f = p.get_future();
    auto g = q.get_future();
    uint64_t got = 0, got2 = 0;
    vp_start();
    std::thread x([&] {
        tpp::invoke(id, [&] { got2 = g.get(); });
        if(inner_first) q.set_value(b);
        p.set_value(a);
        if(!inner_first) q.set_value(b);
    });
    got = f.get();
    x.join();
    tpp::this_thread::process();
    vp_final();
    VP_ASSERT(got == a, "outer result");
    VP_ASSERT(got2 == b, "inner result");
    vp_reach(inner_first ? "inner first" : "outer first");
    vp_stop();
}

void timed()
{
    vp_expect("timed out");
    vp_expect("ready at once");
    tpp::init();
    auto t = tpp::make_thread("t");
    settle(t);
    uint64_t a = vp_nondet_u64();
    tpp::promise<uint64_t> p;
    auto s = p.get_future().share();
    vp_timeouts(1, 2);
    uint64_t got = 0, got2 = 0;
    latch l;
    auto first = std::future_status::deferred;
    vp_start();
    tpp::invoke(t.get_id(), [&, c = s] {
        c.wait_for(3s);
        got2 = c.get();
        l.hit();
    });
    std::thread x([&] { p.set_value(a); });
    first = s.wait_for(5s);
    if(first == std::future_status::ready) VP_ASSERT(s.is_ready(), "ready means ready");
    got = s.get();
    x.join();
    l.wait(1);
    vp_final();
    VP_ASSERT(first != std::future_status::deferred, "nobody asked for exit");
    VP_ASSERT(got == a && got2 == a, "a wait that timed out does not lose the result");
    vp_reach(first == std::future_status::ready ? "ready at once" : "timed out");
    vp_stop();
}

void own_queue()
{
    vp_expect("first sets");
    vp_expect("second sets");
    tpp::init();
    auto id = tpp::this_thread::get_id();
    uint64_t a = vp_nondet_u64();
    bool second = vp_nondet_bool();
    tpp::promise<uint64_t> p;
    auto f = p.get_future();
    int ran = 0;
    vp_start();
    std::thread x([&] {
        tpp::invoke(id, [&] {
            ran++;
            if(!second) p.set_value(a);
        });
        tpp::notify(id);
        tpp::invoke(id, [&] {
            ran++;
            if(second) p.set_value(a);
        });
    });
    uint64_t got = f.get();
    x.join();
    vp_end();
    VP_ASSERT(got == a, "result set by a task of the waiting thread");
    VP_ASSERT(ran == 2 || (!second && ran == 1), "tasks up to the setting one ran");
    vp_reach(second ? "second sets" : "first sets");
}

void round_trip()
{
    vp_expect("back");
    tpp::init();
    auto t = tpp::make_thread("t");
    settle(t);
    auto id = tpp::this_thread::get_id();
    uint64_t a = vp_nondet_u64();
    vp_start();
    tpp::thread::id on = 0;
    auto f = tpp::async(t.get_id(), [a] { return a ^ 5; }).then(id, [&](tpp::future<uint64_t> x) {
        on = tpp::this_thread::get_id();
        return x.get() ^ 9;
    });
    uint64_t got = f.get();
    vp_final();
    VP_ASSERT(got == (a ^ 5 ^ 9), "result of the round trip");
    VP_ASSERT(on == id, "continued on the waiting thread");
    vp_reach("back");
    vp_stop();
}

void crossed()
{
    vp_expect("crossed");
    tpp::init();
    auto t = tpp::make_thread("t");
    settle(t);
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    tpp::promise<uint64_t> p, q;
    auto f = p.get_future();
    auto g = q.get_future();
    uint64_t r1 = 0, r2 = 0;
    latch l;
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        q.set_value(b);
        r1 = f.get();
        l.hit();
    });
    p.set_value(a);
    r2 = g.get();
    l.wait(1);
    vp_final();
    VP_ASSERT(r1 == a && r2 == b, "both results arrive");
    vp_reach("crossed");
    vp_stop();
}

void other_outcomes()
{
    vp_expect("value");
    vp_expect("exception");
    vp_expect("broken");
    tpp::init();
    auto t = tpp::make_thread("t");
    settle(t);
    unsigned how = vp_choice(3);
    auto p = std::make_unique<tpp::promise<void>>();
    auto s = p->get_future().share();
    int got[2] = {-1, -1};
    latch l;
    auto look = [](const tpp::shared_future<void>& f) {
        try
        {
            f.get();
            return 0;
        }
        catch(std::runtime_error&)
        {
            return 1;
        }
        catch(std::future_error& e)
        {
            return e.code() == std::future_errc::broken_promise ? 2 : 3;
        }
    };
    vp_start();
    tpp::invoke(t.get_id(), [&, c = s] { got[0] = look(c); l.hit(); });
    std::thread x([&] {
        if(how == 0) p->set_value();
        if(how == 1) p->set_exception(std::make_exception_ptr(std::runtime_error("x")));
        if(how == 2) p.reset();
    });
    got[1] = look(s);
    x.join();
    l.wait(1);
    vp_final();
    VP_ASSERT(got[0] == (int)how && got[1] == (int)how, "every waiter gets the outcome");
    vp_reach(how == 0 ? "value" : how == 1 ? "exception" : "broken");
    vp_stop();
}

template<typename T, typename Set>
void needs_waiter_of(Set set)
{
    tpp::promise<T> p;
    auto s = p.get_future().share();
    tpp::promise<void> woke;
    auto seen = woke.get_future();
    bool ran = false;
    vp_start();
    std::thread w([&, s] {
        tpp::this_thread::register_this_thread();
        s.wait();
        woke.set_value();
        tpp::this_thread::unregister_this_thread();
    });
    auto g = s.then(tpp::this_thread::get_id(), [&](auto) {
        seen.wait();
        ran = true;
    });
    set(p);
    w.join();
    g.wait();
    vp_final();
    VP_ASSERT(ran, "continued");
    vp_reach("done");
}

void needs_waiter()
{
    vp_expect("done");
    tpp::init();
    unsigned how = vp_choice(3);
    vp_timeouts(0, 0);
    if(how == 0)
        needs_waiter_of<uint64_t>([](auto& p) { p.set_value(1); });
    else if(how == 1)
        needs_waiter_of<void>([](auto& p) { p.set_value(); });
    else
        needs_waiter_of<uint64_t>([](auto& p) { p.set_exception(std::make_exception_ptr(1)); });
    vp_stop();
}

// an exit request does not hide a result that is already there
void exiting()
{
    vp_expect("waited");
    vp_expect("gave up");
    tpp::init();
    uint64_t a = vp_nondet_u64(), got = 0;
    unsigned how = vp_choice(4), racing = vp_choice(2);
    tpp::promise<uint64_t> p;
    auto f = p.get_future();
    bool had = false, ready = false, delivered = false, first = true;
    latch asked;
    tpp::thread::id id{};
    vp_timeouts(0, 0);
    vp_start();
    auto t = std::make_unique<tpp::thread>([&] {
        tpp::this_thread::register_this_thread();
        id = tpp::this_thread::get_id();
        asked.hit();
        if(!racing) asked.wait(2);
        had = f.is_ready();
        if(how == 0) f.wait();
        if(how == 1) first = f.wait_for(1h) == std::future_status::ready;
        if(how == 2) first = f.wait_until(tpp::clock::now() + 1h) == std::future_status::ready;
        ready = f.is_ready();
        if(how == 3 || ready)
        {
            try
            {
                got = f.get();
                delivered = true;
            }
            catch(const std::future_error&)
            {
            }
        }
        tpp::this_thread::unregister_this_thread();
    });
    asked.wait(1);
    p.set_value(a);
    tpp::notify_for_exit(id);
    if(!racing) asked.hit();
    t.reset();
    vp_reach(had ? "waited" : "gave up");
    vp_final();
    VP_ASSERT(ready || how == 3 || racing, "the result is seen");
    if(had) VP_ASSERT(ready && first && delivered, "a result that is there is reported and delivered");
    if(delivered) VP_ASSERT(got == a, "value");
    VP_ASSERT(had || racing, "set before");
    vp_stop();
}

void many_waiters()
{
    vp_expect("all");
    tpp::init();
    uint64_t a = vp_nondet_u64();
    tpp::promise<uint64_t> p;
    auto f = p.get_future().share();
    vp_timeouts(0, 0);
    std::vector<tpp::thread> ts;
    uint64_t got[6] = {};
    latch waiting, done;
    for(int i = 0; i < 6; i++)
    {
        ts.push_back(tpp::make_thread());
        settle(ts.back());
        tpp::invoke(ts.back().get_id(), [&, i, f] {
            waiting.hit();
            got[i] = f.get();
            done.hit();
        });
    }
    waiting.wait(6);
    auto s = tpp::make_thread();
    tpp::invoke(s.get_id(), [&] { p.set_value(a); });
    uint64_t mine = f.get();
    done.wait(6);
    vp_reach("all");
    VP_ASSERT(mine == a, "value");
    for(auto g : got) VP_ASSERT(g == a, "value");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: one_waiter(); break;
        case 1: three_waiters(); break;
        case 2: nested_same(); break;
        case 3: nested_timed(); break;
        case 4: nested_other(); break;
        case 5: timed(); break;
        case 6: own_queue(); break;
        case 7: round_trip(); break;
        case 8: crossed(); break;
        case 9: other_outcomes(); break;
        case 10: needs_waiter(); break;
        case 11: exiting(); break;
        case 12: many_waiters(); break;
    }
}
