// C18: pool teardown cancels pending jobs, finishes running ones, frees handles
//@ 0 destruction with a running and a pending job | quick | | the running job is released by another thread at any moment, all interleavings
//@ 1 destruction right after scheduling | quick | | 2 jobs on 1 worker, destroyed at once, all interleavings
//@ 2 destruction with two workers | quick | --merge 2 | 1 job on 2 workers, destroyed at once, all interleavings
//@ 3 handles after destruction | quick | | stop/change_priority of job_future, job_shared_future and copies (symbolic) after the pool is gone
//@ 4 handles after a move | quick | | pool moved by construction or assignment (symbolic), source kept or destroyed (symbolic), then stop/change_priority through the handle
//@ 5 pool overwritten | quick | | move assignment over a pool with a running and a pending job: its jobs finish or are broken, handles of both pools
//@ 6 thread waiting for a job of a destroyed pool | quick | | another thread in get() on a pending job's future, all interleavings
//@ 7 job scheduling during destruction | quick | | a running job schedules another one while the pool is destroyed, all interleavings
//@ 8 job using handles during destruction | quick | | a running job stops or reprioritises a pending one through its handle while the pool is destroyed, all interleavings
//@ 9 continuation of a pending job at destruction | quick | | continuation on the destroying thread and on a third thread
//@ 10 queued jobs of all categories | quick | --merge 2 | 1 worker, 3 pending jobs of symbolic category, destruction while the worker is busy
//@ 12 pending job while a worker leaves | quick | | 2 workers with a job each, the first one looks for the exit request at any moment, the second ends after that, 1 pending job, all interleavings
//@ 13 jobs scheduling while workers of two categories leave | quick | | 2 categories with 1 worker and 1 running job each, released in either order, each schedules a job during destruction
//@ 11 two jobs on two workers | thorough | --merge 2 | 2 jobs on 2 workers, destroyed at once, all interleavings
//@ 14 many jobs | quick |  | pool of 2 workers moved (symbolic) or not, destroyed with 1 running and 200 pending jobs of which one (symbolic) is stopped first, one schedule
#include "common.h"
using namespace std::chrono_literals;
using tpp::priority::category;

namespace
{
enum
{
    VALUE,
    BROKEN,
    OTHER
};

template<class F>
int outcome(F f)
{
    try
    {
        f();
        return VALUE;
    }
    catch(const std::future_error& e)
    {
        return e.code() == std::future_errc::broken_promise ? BROKEN : OTHER;
    }
    catch(...)
    {
        return OTHER;
    }
}

using levels = std::map<category, size_t>;

void settle_all()
{
    auto me = tpp::this_thread::get_id();
    for(auto id : tpp::get_all_registered_threads())
    {
        if(id == me) continue;
        latch l;
        tpp::invoke(id, [&l] { l.hit(); });
        l.wait(1);
    }
}

std::unique_ptr<tpp::thread_pool> make_pool(size_t n)
{
    auto p = std::make_unique<tpp::thread_pool>(levels{{category::normal, n}});
    settle_all();
    return p;
}

void running_and_pending()
{
    vp_expect("done");
    tpp::init();
    auto pool = make_pool(1);
    latch gate, started;
    bool finished = false, gone = false, late = false;
    int pending = 0;
    auto f = pool->schedule([&] {
        started.hit();
        gate.wait(1);
        late = gone;
        finished = true;
    });
    started.wait(1);
    auto g = pool->schedule([&] { pending++; });
    vp_timeouts(0, 0);
    vp_start();
    std::thread t([&] { gate.hit(); });
    pool.reset();
    gone = true;
    bool fin = finished;
    size_t left = tpp::get_all_registered_threads().size();
    int of = outcome([&] { f.get(); });
    int og = outcome([&] { g.get(); });
    t.join();
    vp_reach("done");
    vp_final();
    VP_ASSERT(fin && of == VALUE && !late, "the running job finished before the destructor returned");
    // it is cancelled unless its worker got to it before
    VP_ASSERT(og == (pending ? VALUE : BROKEN) && pending <= 1, "the pending one is executed or cancelled");
    VP_ASSERT(left == 1, "the worker is gone");
    vp_stop();
}

void at_once()
{
    vp_expect("none");
    vp_expect("both");
    vp_expect("one");
    tpp::init();
    auto pool = make_pool(1);
    bool gone = false, late = false;
    int ran[2] = {0, 0}, o[2];
    tpp::job_future<void> f[2];
    vp_timeouts(0, 0);
    vp_start();
    for(int i = 0; i < 2; i++)
        f[i] = pool->schedule([&, i] {
            ran[i]++;
            if(gone) late = true;
        });
    pool.reset();
    gone = true;
    int n = ran[0] + ran[1];
    for(int i = 0; i < 2; i++) o[i] = outcome([&] { f[i].get(); });
    vp_reach(n == 0 ? "none" : n == 1 ? "one" : "both");
    vp_final();
    for(int i = 0; i < 2; i++) VP_ASSERT(ran[i] <= 1 && o[i] == (ran[i] ? VALUE : BROKEN), "executed once or cancelled");
    VP_ASSERT(!late && n == ran[0] + ran[1], "nothing runs afterwards");
    vp_stop();
}

void two_workers(bool both)
{
    vp_expect("none");
    vp_expect("some");
    tpp::init();
    auto pool = make_pool(2);
    std::atomic<int> ran{0};
    bool gone = false, late = false;
    int o[2] = {0, 0};
    tpp::job_future<void> f[2];
    vp_timeouts(0, 0);
    vp_start();
    for(int i = 0; i < (both ? 2 : 1); i++)
        f[i] = pool->schedule([&] {
            ran++;
            if(gone) late = true;
        });
    pool.reset();
    gone = true;
    int n = ran;
    for(int i = 0; i < (both ? 2 : 1); i++) o[i] = outcome([&] { f[i].get(); }) == VALUE;
    size_t left = tpp::get_all_registered_threads().size();
    vp_reach(n ? "some" : "none");
    vp_final();
    VP_ASSERT(n == o[0] + o[1] && n == ran, "executed once or cancelled");
    VP_ASSERT(!late && left == 1, "nothing is left");
    vp_stop();
}

void handles_after()
{
    vp_expect("done");
    tpp::init();
    auto pool = make_pool(1);
    latch gate, started;
    int pending = 0;
    auto f = pool->schedule([&] {
        started.hit();
        gate.wait(1);
    });
    started.wait(1);
    auto g = pool->schedule([&] { pending++; });
    auto h = pool->schedule([&] { pending++; }).share();
    auto copy = h;
    std::thread t([&] { gate.hit(); });
    pool.reset();
    t.join();
    unsigned what = vp_choice(8);
    if(what == 0) f.stop();
    if(what == 1) g.stop();
    if(what == 2) h.stop();
    if(what == 3) copy.stop();
    if(what == 4) f.change_priority(tpp::priority::critical(1));
    if(what == 5) g.change_priority(tpp::priority::critical(1));
    if(what == 6) h.change_priority(tpp::priority::critical(1));
    if(what == 7) copy.change_priority(tpp::priority::critical(1));
    tpp::job_future<void> none;
    none.stop();
    none.change_priority(tpp::priority::high());
    int of = outcome([&] { f.get(); }), og = outcome([&] { g.get(); }), oh = outcome([&] { copy.get(); });
    vp_reach("done");
    VP_ASSERT(of == VALUE && og == BROKEN && oh == BROKEN && pending == 0, "outcomes unaffected");
    vp_stop();
}

void handles_moved()
{
    vp_expect("done");
    tpp::init();
    bool assign = vp_choice(2), keep = vp_choice(2);
    unsigned what = vp_choice(3);
    auto pool = make_pool(1);
    latch gate, started;
    int order[4], n = 0;
    auto f = pool->schedule([&] {
        started.hit();
        gate.wait(1);
    });
    started.wait(1);
    auto g = pool->schedule(tpp::priority::normal(1), [&] { order[n++] = 1; });
    auto h = pool->schedule(tpp::priority::normal(2), [&] { order[n++] = 2; });
    std::unique_ptr<tpp::thread_pool> to;
    if(assign)
    {
        to = std::make_unique<tpp::thread_pool>(levels{});
        *to = std::move(*pool);
    }
    else
    {
        to = std::make_unique<tpp::thread_pool>(std::move(*pool));
    }
    if(!keep) pool.reset();
    auto k = to->schedule(tpp::priority::normal(3), [&] { order[n++] = 3; });
    if(what == 0) g.stop();
    if(what == 1) g.change_priority(tpp::priority::high());
    if(what == 2)
    {
        auto s = g.share();
        s.stop();
        g = tpp::job_future<void>();
    }
    k.change_priority(tpp::priority::normal(5));
    gate.hit();
    to->wait_all();
    settle_all();
    vp_reach("done");
    if(what == 1)
    {
        VP_ASSERT(n == 3 && order[0] == 1 && order[1] == 3 && order[2] == 2, "raised through the handle");
    }
    else
    {
        VP_ASSERT(n == 2 && order[0] == 3 && order[1] == 2, "stopped through the handle");
    }
    vp_stop();
}

void overwritten()
{
    vp_expect("done");
    tpp::init();
    auto a = make_pool(1);
    auto b = make_pool(1);
    latch gate, started, gate2, started2;
    int pa = 0, pb = 0;
    auto f = a->schedule([&] {
        started.hit();
        gate.wait(1);
    });
    started.wait(1);
    auto g = a->schedule([&] { pa++; });
    auto hold = b->schedule([&] {
        started2.hit();
        gate2.wait(1);
    });
    started2.wait(1);
    auto h = b->schedule([&] { pb++; });
    bool stop = vp_choice(2);
    std::thread t([&] { gate.hit(); });
    *a = std::move(*b);
    t.join();
    g.stop();
    g.change_priority(tpp::priority::high());
    b.reset();
    if(stop) h.stop();
    gate2.hit();
    int of = outcome([&] { f.get(); }), og = outcome([&] { g.get(); }), oh = outcome([&] { h.get(); });
    a->wait_all();
    vp_reach("done");
    VP_ASSERT(of == VALUE && og == BROKEN && pa == 0, "the overwritten pool was torn down");
    VP_ASSERT(oh == (stop ? BROKEN : VALUE) && pb == (stop ? 0 : 1), "the moved one works on");
    vp_stop();
}

void waiting_thread()
{
    vp_expect("broken");
    tpp::init();
    auto pool = make_pool(1);
    latch gate, started;
    int ran = 0, o = -1;
    auto f = pool->schedule([&] {
        started.hit();
        gate.wait(1);
    });
    started.wait(1);
    auto g = pool->schedule([&] { ran++; });
    vp_timeouts(0, 0);
    vp_start();
    std::thread w([&] {
        tpp::this_thread::register_this_thread();
        o = outcome([&] { g.get(); });
        tpp::this_thread::unregister_this_thread();
    });
    std::thread t([&] { gate.hit(); });
    pool.reset();
    w.join();
    t.join();
    if(!ran) vp_reach("broken");
    vp_final();
    VP_ASSERT(o == (ran ? VALUE : BROKEN), "the waiting thread is released with the outcome");
    vp_stop();
}

void schedule_during()
{
    vp_expect("cancelled");
    tpp::init();
    auto pool = make_pool(1);
    latch gate, started;
    int ran = 0, o = -1;
    tpp::job_future<void> g;
    // no handle is kept
    tpp::future<void> f = pool->schedule([&, p = pool.get()] {
        started.hit();
        gate.wait(1);
        g = p->schedule([&] { ran++; });
    });
    started.wait(1);
    vp_timeouts(0, 0);
    vp_start();
    std::thread t([&] { gate.hit(); });
    pool.reset();
    g.stop();
    o = outcome([&] { g.get(); });
    int of = outcome([&] { f.get(); });
    t.join();
    if(!ran) vp_reach("cancelled");
    vp_final();
    VP_ASSERT(of == VALUE, "the running job finishes");
    VP_ASSERT(o == (ran ? VALUE : BROKEN), "the new one is executed or cancelled");
    vp_stop();
}

void handle_during()
{
    vp_expect("cancelled");
    tpp::init();
    auto pool = make_pool(1);
    latch gate, started;
    int ran = 0, o = -1;
    bool stop = vp_choice(2);
    tpp::job_shared_future<void> g;
    auto f = pool->schedule([&] {
        started.hit();
        gate.wait(1);
        if(stop)
            g.stop();
        else
            g.change_priority(tpp::priority::critical());
    });
    started.wait(1);
    g = pool->schedule([&] { ran++; }).share();
    vp_timeouts(0, 0);
    vp_start();
    std::thread t([&] { gate.hit(); });
    pool.reset();
    o = outcome([&] { g.get(); });
    int of = outcome([&] { f.get(); });
    t.join();
    if(!ran) vp_reach("cancelled");
    vp_final();
    VP_ASSERT(of == VALUE, "the running job finishes");
    VP_ASSERT(o == (ran ? VALUE : BROKEN) && !(stop && ran), "the other one is executed or cancelled");
    vp_stop();
}

void continuation()
{
    vp_expect("done");
    tpp::init();
    auto pool = make_pool(1);
    latch gate, started;
    int o1 = -1, o2 = -1, n1 = 0, n2 = 0;
    auto f = pool->schedule([&] {
        started.hit();
        gate.wait(1);
    });
    started.wait(1);
    auto g = pool->schedule([] {});
    auto h = pool->schedule([] {});
    auto me = tpp::this_thread::get_id();
    bool own = false;
    auto c1 = g.then(me, [&](tpp::future<void> x) {
        o1 = outcome([&] { x.get(); });
        n1++;
        own = tpp::this_thread::get_id() == me;
    });
    auto c2 = h.then(tpp::caller_id(), [&](tpp::future<void> x) {
        o2 = outcome([&] { x.get(); });
        n2++;
    });
    bool early = vp_choice(2);
    vp_timeouts(0, 0);
    vp_start();
    std::thread t([&] { gate.hit(); });
    if(early) g.stop();
    g = tpp::job_future<void>();
    pool.reset();
    c1.get();
    c2.get();
    t.join();
    vp_reach("done");
    vp_final();
    VP_ASSERT(n1 == 1 && n2 == 1 && own, "each continuation runs once");
    VP_ASSERT(o1 != OTHER && o2 != OTHER && (!early || o1 >= VALUE), "with the outcome of its job");
    vp_stop();
}

void categories()
{
    vp_expect("done");
    tpp::init();
    auto pool = make_pool(1);
    latch gate, started;
    int ran = 0, o[3];
    auto f = pool->schedule([&] {
        started.hit();
        gate.wait(1);
    });
    started.wait(1);
    tpp::job_future<void> g[3];
    for(int i = 0; i < 3; i++)
    {
        unsigned c = vp_choice(3);
        g[i] = pool->schedule(c == 0 ? tpp::priority::normal() : c == 1 ? tpp::priority::high() : tpp::priority::critical(), [&] { ran++; });
    }
    std::thread t([&] { gate.hit(); });
    pool.reset();
    for(int i = 0; i < 3; i++) o[i] = outcome([&] { g[i].get(); });
    t.join();
    vp_reach("done");
    VP_ASSERT(ran == 0 && o[0] == BROKEN && o[1] == BROKEN && o[2] == BROKEN, "all cancelled");
    vp_stop();
}

// the second job ends after the destructor reached the first worker
void leaving_worker()
{
    vp_expect("cancelled");
    tpp::init();
    auto pool = make_pool(2);
    latch go, told, started, second;
    std::atomic<bool> past{false};
    bool late = false;
    int ran = 0;
    std::atomic<int> nth{0};
    auto job = [&] {
        if(nth++ == 0)
        {
            started.hit();
            go.wait(1);
            past = tpp::this_thread::notified_for_exit();
            told.hit();
            second.wait(1);
        }
        else
        {
            started.hit();
            told.wait(1);
            second.hit();
        }
    };
    // the first worker of the pool is the one that is joined first
    auto f = pool->schedule(job);
    started.wait(1);
    auto g = pool->schedule(job);
    started.wait(2);
    auto h = pool->schedule([&] {
        if(past) late = true;
        ran++;
    });
    vp_timeouts(0, 0);
    vp_start();
    go.hit();
    pool.reset();
    int o[3] = {outcome([&] { f.get(); }), outcome([&] { g.get(); }), outcome([&] { h.get(); })};
    if(!ran && past) vp_reach("cancelled");
    vp_final();
    VP_ASSERT(o[0] == VALUE && o[1] == VALUE, "running jobs finish");
    VP_ASSERT(!late && o[2] == (ran ? VALUE : BROKEN), "no pending job starts once a worker was told to exit");
    vp_stop();
}

void schedule_two()
{
    vp_expect("done");
    tpp::init();
    auto pool = std::make_unique<tpp::thread_pool>(levels{{category::normal, 1}, {category::high, 1}});
    settle_all();
    latch gate[2], started;
    int ran[2] = {0, 0}, o[2];
    tpp::future<void> f[2];
    tpp::job_future<void> g[2];
    auto p = pool.get();
    for(int i = 0; i < 2; i++)
    {
        f[i] = pool->schedule(i ? tpp::priority::high() : tpp::priority::normal(), [&, i] {
            started.hit();
            gate[i].wait(1);
            g[i] = p->schedule([&, i] { ran[i]++; });
        });
        started.wait(i + 1);
    }
    unsigned first = vp_choice(2);
    vp_timeouts(0, 0);
    vp_start();
    std::thread t([&] {
        gate[first].hit();
        gate[1 - first].hit();
    });
    pool.reset();
    for(int i = 0; i < 2; i++) o[i] = outcome([&] { g[i].get(); });
    t.join();
    vp_reach("done");
    vp_final();
    for(int i = 0; i < 2; i++) VP_ASSERT(o[i] == (ran[i] ? VALUE : BROKEN) && ran[i] <= 1, "new jobs are executed or cancelled");
    vp_stop();
}

void many()
{
    vp_expect("moved");
    vp_expect("destroyed");
    vp_timeouts(0, 0);
    tpp::init();
    bool moved = vp_choice(2);
    static const unsigned places[] = {0, 64, 199};
    unsigned at = places[vp_choice(3)];
    auto pool = std::make_unique<tpp::thread_pool>(levels{{category::normal, 1}});
    settle_all();
    latch running, gate;
    int ran = 0;
    auto first = pool->schedule([&] {
        running.hit();
        gate.wait(1);
        return uint64_t(77);
    });
    running.wait(1);
    std::vector<tpp::job_future<void>> fs;
    for(unsigned i = 0; i < 200; i++) fs.push_back(pool->schedule(tpp::priority::normal(i), [&] { ran++; }));
    if(moved) pool = std::make_unique<tpp::thread_pool>(std::move(*pool));
    fs[at].stop();
    VP_ASSERT(outcome([&] { fs[at].get(); }) == BROKEN, "stopped");
    VP_ASSERT(pool->get_jobs_count() == 200, "the others remain");
    auto helper = tpp::make_thread();
    settle(helper);
    tpp::invoke(helper.get_id(), [&] {
        tpp::this_thread::sleep_for(1ms);
        gate.hit();
    });
    vp_timeouts(1, 0);
    pool.reset();
    uint64_t x = 0;
    VP_ASSERT(outcome([&] { x = first.get(); }) == VALUE && x == 77, "the running one finished");
    for(unsigned i = 0; i < 200; i++)
        if(i != at) VP_ASSERT(outcome([&] { fs[i].get(); }) == BROKEN, "cancelled");
    VP_ASSERT(ran == 0, "none started");
    vp_reach(moved ? "moved" : "destroyed");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: running_and_pending(); break;
        case 1: at_once(); break;
        case 2: two_workers(false); break;
        case 3: handles_after(); break;
        case 4: handles_moved(); break;
        case 5: overwritten(); break;
        case 6: waiting_thread(); break;
        case 7: schedule_during(); break;
        case 8: handle_during(); break;
        case 9: continuation(); break;
        case 10: categories(); break;
        case 12: leaving_worker(); break;
        case 13: schedule_two(); break;
        case 11: two_workers(true); break;
        case 14: many(); break;
    }
}
