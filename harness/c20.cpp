// C20: shutdown waits for all threads and reports exactly the stragglers
//@ 0 nesting | quick | | 1..3 init calls and 4 shutdown calls (symbolic), with or without a second round
//@ 1 one loop thread | quick | | shutdown against the exit of a loop thread, no timeout: a missed last exit is a deadlock, all interleavings
//@ 2 two loop threads | quick | | as 1 with 2 loop threads, all interleavings
//@ 3 stragglers after the timeout | quick | | 0..2 threads that do not exit (symbolic) and 1 that does, timeout 0..1000 s (all values)
//@ 4 timeout against the last exit | quick | | the wait may time out at any moment, 1 thread, all interleavings
//@ 5 timeout against two exits | quick | | the wait may time out at any moment, 2 threads, all interleavings
//@ 6 blocked threads are released | quick | | threads in this_thread::wait, future wait and condition_variable wait (symbolic), all interleavings
//@ 7 concurrent shutdown calls | quick | | 1 or 2 init calls (symbolic), 2 threads call shutdown, all interleavings, then a new init
//@ 8 tasks left on the caller | quick | | 0..2 tasks queued on the thread calling shutdown (symbolic): released, not executed
//@ 9 start again after shutdown | quick | | init, loop thread, shutdown twice in a row with tasks executed in both rounds, all interleavings of the second
//@ 10 pool workers and futures | quick | | pool with 1 worker and a job, destroyed before shutdown or told to exit by it (symbolic), all interleavings
//@ 11 many threads | quick |  | 6 loop threads and 0..3 stragglers (symbolic), one schedule
#include "common.h"
using namespace std::chrono_literals;

namespace
{
void nesting()
{
    vp_expect("done");
    int early = tpp::shutdown(0s);
    unsigned n = 1 + vp_choice(3);
    bool ok = early == -1;
    for(int round = 0; round < 2; round++)
    {
        for(unsigned i = 0; i < n; i++)
        {
            tpp::init();
            if(!tpp::this_thread::is_registered()) ok = false;
        }
        auto id = tpp::this_thread::get_id();
        if(tpp::main_thread::get_id() != id) ok = false;
        for(unsigned i = 0; i < 4; i++)
        {
            if(i < n && tpp::this_thread::get_id() != id) ok = false;
            int r = tpp::shutdown(0s);
            if(r != (i + 1 == n ? 0 : -1)) ok = false;
            if(tpp::this_thread::is_registered() != (i + 1 < n)) ok = false;
        }
        if(!tpp::get_all_registered_threads().empty()) ok = false;
    }
    vp_reach("done");
    VP_ASSERT(ok, "only the matching shutdown acts");
    vp_stop();
}

void loop_threads(int n)
{
    vp_expect("done");
    tpp::init();
    auto a = tpp::make_thread("a");
    settle(a);
    tpp::thread b;
    if(n == 2)
    {
        b = tpp::make_thread("b");
        settle(b);
    }
    vp_timeouts(0, 0);
    vp_start();
    int r = tpp::shutdown(1s);
    size_t left = tpp::get_all_registered_threads().size();
    vp_reach("done");
    vp_final();
    VP_ASSERT(r == 0 && left == 0, "all gone");
    vp_stop();
}

void stragglers()
{
    vp_expect("none");
    vp_expect("one");
    vp_expect("two");
    tpp::init();
    unsigned n = vp_choice(3);
    uint64_t timeout = vp_nondet_u64();
    vp_assume(timeout <= 1000);
    latch never;
    std::vector<std::thread> ts;
    latch in;
    for(unsigned i = 0; i < n; i++)
    {
        ts.emplace_back([&] {
            tpp::this_thread::register_this_thread();
            in.hit();
            never.wait(1);
            tpp::this_thread::unregister_this_thread();
        });
        in.wait(i + 1);
    }
    auto a = tpp::make_thread("a");
    settle(a);
    vp_timeouts(2, 0);
    uint64_t t0 = vp_time();
    vp_start();
    int r = tpp::shutdown(std::chrono::seconds(timeout));
    uint64_t t1 = vp_time();
    vp_reach(n == 0 ? "none" : n == 1 ? "one" : "two");
    vp_final();
    if(n == 0)
    {
        VP_ASSERT(r == 0 || (r == 1 && timeout == 0), "done as soon as all have unregistered");
        VP_ASSERT(t1 == t0, "without waiting");
    }
    else
    {
        VP_ASSERT(r == (int)n || (r == (int)n + 1 && timeout == 0), "the number still registered");
        VP_ASSERT(t1 - t0 >= timeout * 1000000000ull, "only after the timeout");
    }
    vp_stop();
}

void race(int n)
{
    vp_expect("out");
    vp_expect("in");
    tpp::init();
    auto a = tpp::make_thread("a");
    settle(a);
    tpp::thread b;
    if(n == 2)
    {
        b = tpp::make_thread("b");
        settle(b);
    }
    vp_timeouts(1, 1);
    vp_start();
    int r = tpp::shutdown(1s);
    size_t left = tpp::get_all_registered_threads().size();
    if(r == 0) vp_reach("in");
    if(r == n) vp_reach("out");
    vp_final();
    VP_ASSERT(r >= 0 && r <= n, "a number of threads");
    VP_ASSERT((int)left <= r, "not fewer than are still there");
    VP_ASSERT(r != 0 || left == 0, "success means all gone");
    vp_stop();
}

void blocked()
{
    vp_expect("done");
    tpp::init();
    unsigned what = vp_choice(4);
    latch in;
    bool out = false;
    tpp::promise<int> p;
    auto f = p.get_future();
    tpp::condition_variable cv;
    std::mutex m;
    std::thread t([&] {
        tpp::this_thread::register_this_thread();
        in.hit();
        while(!tpp::this_thread::notified_for_exit())
        {
            if(what == 0) tpp::this_thread::wait();
            if(what == 1) f.wait();
            if(what == 2)
            {
                std::unique_lock<std::mutex> l(m);
                cv.wait(l);
            }
            if(what == 3) tpp::this_thread::wait_for(1000h);
        }
        out = true;
        tpp::this_thread::unregister_this_thread();
    });
    in.wait(1);
    vp_timeouts(0, 0);
    vp_start();
    int r = tpp::shutdown(1s);
    bool o = out;
    t.join();
    vp_reach("done");
    vp_final();
    VP_ASSERT(r == 0 && o, "the thread was told to exit and did");
    vp_stop();
}

void concurrent()
{
    vp_expect("one");
    vp_expect("two");
    bool twice = vp_choice(2);
    tpp::init();
    if(twice) tpp::init();
    int r[2] = {7, 7};
    vp_timeouts(0, 0);
    vp_start();
    std::thread t([&] { r[1] = tpp::shutdown(1s); });
    // with one init the main thread's registration may be left to the main thread
    r[0] = tpp::shutdown(1s);
    tpp::this_thread::unregister_this_thread();
    t.join();
    tpp::init();
    bool again = tpp::this_thread::is_registered();
    int last = tpp::shutdown(1s);
    int none = tpp::shutdown(1s);
    vp_reach(twice ? "two" : "one");
    vp_final();
    VP_ASSERT((r[0] == 0 && r[1] == -1) || (r[0] == -1 && r[1] == 0), "exactly one of them acts");
    VP_ASSERT(again && last == 0 && none == -1, "the library can be initialised again");
    vp_stop();
}

void own_tasks()
{
    vp_expect("done");
    tpp::init();
    unsigned n = vp_choice(3);
    int ran = 0;
    auto live = std::make_shared<int>(0);
    auto id = tpp::this_thread::get_id();
    for(unsigned i = 0; i < n; i++) tpp::invoke(id, [&ran, live] { ran++; });
    tpp::future<int> f = tpp::async(id, std::launch::async, [] { return 1; });
    int r = tpp::shutdown(1s);
    vp_reach("done");
    VP_ASSERT(r == 0 && ran == 0, "not executed");
    VP_ASSERT(live.use_count() == 1, "released");
    VP_ASSERT(f.is_ready() && f.has_error(), "abandoned");
    vp_stop();
}

void again()
{
    vp_expect("done");
    int ran[2] = {0, 0}, r[2] = {7, 7};
    for(int round = 0; round < 2; round++)
    {
        tpp::init();
        auto a = tpp::make_thread("a");
        settle(a);
        if(round == 1)
        {
            vp_timeouts(0, 0);
            vp_start();
        }
        auto f = tpp::async(a.get_id(), [&ran, round] { ran[round]++; });
        f.wait();
        r[round] = tpp::shutdown(1s);
        a.join();
    }
    vp_reach("done");
    vp_final();
    VP_ASSERT(ran[0] == 1 && ran[1] == 1 && r[0] == 0 && r[1] == 0, "both rounds");
    vp_stop();
}

void with_pool()
{
    vp_expect("before");
    vp_expect("during");
    tpp::init();
    bool before = vp_choice(2);
    int ran = 0;
    auto pool = std::make_unique<tpp::thread_pool>(std::map<tpp::priority::category, size_t>{{tpp::priority::category::normal, 1}});
    auto me = tpp::this_thread::get_id();
    for(auto id : tpp::get_all_registered_threads())
    {
        if(id == me) continue;
        latch l;
        tpp::invoke(id, [&l] { l.hit(); });
        l.wait(1);
    }
    vp_timeouts(0, 0);
    vp_start();
    auto f = pool->schedule([&] { ran++; });
    if(before) pool.reset();
    int r = tpp::shutdown(1s);
    pool.reset();
    vp_reach(before ? "before" : "during");
    vp_final();
    VP_ASSERT(r == 0, "all gone");
    VP_ASSERT(f.is_ready() && f.has_error() == !ran && ran <= 1, "executed or cancelled");
    vp_stop();
}

void many()
{
    vp_expect("all left");
    vp_expect("stragglers");
    tpp::init();
    unsigned stay = vp_choice(4);
    std::vector<tpp::thread> ts;
    latch in, gate;
    for(int i = 0; i < 6; i++)
    {
        ts.push_back(tpp::make_thread());
        settle(ts.back());
    }
    for(unsigned i = 0; i < stay; i++)
        tpp::invoke(ts[i * 2].get_id(), [&] {
            in.hit();
            gate.wait(1);
        });
    in.wait(stay);
    vp_timeouts(1, 0);
    int r = tpp::shutdown(5s);
    VP_ASSERT(r == (int)stay, "reports the stragglers");
    vp_reach(stay ? "stragglers" : "all left");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: nesting(); break;
        case 1: loop_threads(1); break;
        case 2: loop_threads(2); break;
        case 3: stragglers(); break;
        case 4: race(1); break;
        case 5: race(2); break;
        case 6: blocked(); break;
        case 7: concurrent(); break;
        case 8: own_tasks(); break;
        case 9: again(); break;
        case 10: with_pool(); break;
        case 11: many(); break;
    }
}
