// C17: the pool may be used from jobs, continuations and destructors
//@ 0 schedule from a job | quick | | a job schedules another one on its own single-worker pool and waits for it or not, all interleavings
//@ 1 other calls from a job | quick | | stop, handle stop, stop_all, change_priority, get_jobs_count (symbolic choice) from a job, 1 pending job
//@ 2 calls from a continuation | quick | | continuation on the completing worker calls schedule, stop, change_priority, get_jobs_count (symbolic choice)
//@ 3 continuation of a cancelled job | quick | | stop, handle stop or stop_all (symbolic choice) runs the continuation, which uses the pool
//@ 4 destructor of a dropped callable | quick | | the captured object of a cancelled job uses the pool: schedule, stop, get_jobs_count, wait (symbolic choice)
//@ 5 nested waiting | quick | | three jobs deep, each waiting for the one it scheduled, one worker
//@ 6 two pools | quick | | a job of one pool schedules on another one whose job schedules back, waiting for results
//@ 7 schedule from a destructor after execution | quick | | captured object of an executed job schedules another job
//@ 8 job waiting through the pool | quick | | pool.wait(id) from a job for a job it scheduled, also when stopped by main
#include "common.h"
using namespace std::chrono_literals;
using tpp::priority::category;

namespace
{
enum
{
    VALUE,
    BROKEN,
    OTHER
};

template<class F>
int outcome(F f)
{
    try
    {
        f();
        return VALUE;
    }
    catch(const std::future_error& e)
    {
        return e.code() == std::future_errc::broken_promise ? BROKEN : OTHER;
    }
    catch(...)
    {
        return OTHER;
    }
}

using levels = std::map<category, size_t>;

std::vector<tpp::thread::id> workers;

void settle_all()
{
    auto me = tpp::this_thread::get_id();
    if(workers.empty()) workers = tpp::get_all_registered_threads();
    for(auto id : workers)
    {
        if(id == me) continue;
        latch l;
        tpp::invoke(id, [&l] { l.hit(); });
        l.wait(1);
    }
}

template<class F>
struct on_destroy
{
    F f;
    bool armed = true;
    explicit on_destroy(F x) : f(std::move(x)) {}
    on_destroy(on_destroy&& o) : f(std::move(o.f)), armed(o.armed) { o.armed = false; }
    ~on_destroy()
    {
        if(armed) f();
    }
};
template<class F>
std::shared_ptr<on_destroy<F>> at_end(F f)
{
    return std::make_shared<on_destroy<F>>(std::move(f));
}

void from_job()
{
    vp_expect("waited");
    vp_expect("left");
    tpp::init();
    tpp::thread_pool pool(levels{{category::normal, 1}});
    settle_all();
    bool wait = vp_choice(2);
    int outer = 0, inner = 0, got = 0;
    vp_timeouts(0, 0);
    vp_start();
    tpp::job_future<int> g;
    auto f = pool.schedule([&] {
        outer++;
        g = pool.schedule([&] {
            inner++;
            return 4;
        });
        return wait ? g.get() + 1 : 5;
    });
    got = f.get();
    if(!wait) got += g.get() - 4;
    vp_reach(wait ? "waited" : "left");
    vp_final();
    VP_ASSERT(outer == 1 && inner == 1, "both run once");
    VP_ASSERT(got == 5, "results");
    vp_stop();
}

void calls_from_job()
{
    vp_expect("done");
    tpp::init();
    tpp::thread_pool pool(levels{{category::normal, 1}});
    settle_all();
    unsigned what = vp_choice(5);
    int ran = 0, other = 0, o = -1;
    size_t count = 0;
    latch gate;
    vp_timeouts(0, 0);
    vp_start();
    tpp::job_future<void> g;
    tpp::job_id gid = 0;
    auto f = pool.schedule([&] {
        gate.wait(1);
        ran++;
        if(what == 0) pool.stop(gid);
        if(what == 1) g.stop();
        if(what == 2) pool.stop_all();
        if(what == 3) pool.change_priority(gid, tpp::priority::critical(3));
        if(what == 4) count = pool.get_jobs_count();
    });
    g = pool.schedule([&] { other++; });
    gid = g.id;
    gate.hit();
    f.get();
    o = outcome([&] { g.get(); });
    vp_reach("done");
    vp_final();
    VP_ASSERT(ran == 1, "the job completes");
    VP_ASSERT(o == (what < 3 ? BROKEN : VALUE) && other == (what < 3 ? 0 : 1), "with the normal effect");
    VP_ASSERT(what != 4 || count == 2, "counting itself and the pending one");
    vp_stop();
}

void calls_from_continuation()
{
    vp_expect("done");
    tpp::init();
    tpp::thread_pool pool(levels{{category::normal, 1}});
    settle_all();
    unsigned what = vp_choice(4);
    int ran = 0, extra = 0, o = -1, other = 0;
    size_t count = 0;
    latch gate, cont;
    vp_timeouts(0, 0);
    tpp::job_future<void> g, h;
    tpp::job_id gid = 0;
    auto f = pool.schedule([&] {
        gate.wait(1);
        ran++;
    });
    g = pool.schedule([&] { other++; });
    gid = g.id;
    auto c = f.then(tpp::caller_id(), [&](tpp::future<void>) {
        if(what == 0) h = pool.schedule([&] { extra++; });
        if(what == 1) pool.stop(gid);
        if(what == 2) pool.change_priority(gid, tpp::priority::critical(3));
        if(what == 3) count = pool.get_jobs_count();
        cont.hit();
    });
    vp_start();
    gate.hit();
    c.get();
    o = outcome([&] { g.get(); });
    if(what == 0) h.get();
    vp_reach("done");
    vp_final();
    VP_ASSERT(ran == 1 && cont.n == 1, "the job and its continuation complete");
    VP_ASSERT(o == (what == 1 ? BROKEN : VALUE) && other == (what == 1 ? 0 : 1), "with the normal effect");
    VP_ASSERT(extra == (what == 0 ? 1 : 0), "scheduled from the continuation");
    VP_ASSERT(what != 3 || count == 2, "still counted while its continuations run");
    vp_stop();
}

void cancelled_continuation()
{
    vp_expect("done");
    tpp::init();
    tpp::thread_pool pool(levels{{category::normal, 1}});
    settle_all();
    unsigned how = vp_choice(3), what = vp_choice(3);
    int ran = 0, extra = 0, o = -1, cont = 0;
    size_t count = 9;
    latch gate;
    vp_timeouts(0, 0);
    auto f = pool.schedule([&] { gate.wait(1); });
    auto g = pool.schedule([&] { ran++; });
    auto gid = g.id;
    auto handle = static_cast<tpp::job_future_storage>(g);
    tpp::job_future<void> h;
    auto c = g.then(tpp::caller_id(), [&](tpp::future<void> x) {
        o = outcome([&] { x.get(); });
        if(what == 0) h = pool.schedule([&] { extra++; });
        if(what == 1) pool.stop(gid);
        if(what == 2) count = pool.get_jobs_count();
        cont++;
    });
    vp_start();
    if(how == 0) pool.stop(gid);
    if(how == 1) handle.stop();
    if(how == 2) pool.stop_all();
    gate.hit();
    c.get();
    f.wait();
    if(what == 0) h.wait();
    vp_reach("done");
    vp_final();
    VP_ASSERT(cont == 1 && o == BROKEN && ran == 0, "cancelled, the continuation ran");
    VP_ASSERT(what != 0 || extra == 1, "scheduled from it");
    VP_ASSERT(what != 2 || count == 1 || (count == 0 && how == 2), "the cancelled job is not counted any more");
    vp_stop();
}

void dropped_callable()
{
    vp_expect("done");
    tpp::init();
    tpp::thread_pool pool(levels{{category::normal, 1}});
    settle_all();
    unsigned how = vp_choice(2), what = vp_choice(4);
    int extra = 0, ended = 0;
    size_t count = 9;
    latch gate;
    vp_timeouts(0, 0);
    auto f = pool.schedule([&] { gate.wait(1); });
    tpp::job_future<void> h;
    tpp::job_id other = 0;
    auto end = [&] {
        if(what == 0) h = pool.schedule([&] { extra++; });
        if(what == 1) pool.stop(12345);
        if(what == 2) count = pool.get_jobs_count();
        if(what == 3) pool.wait(other);
        ended++;
    };
    auto g = pool.schedule([k = at_end(end)] {});
    vp_start();
    if(how == 0) pool.stop(g.id);
    if(how == 1) pool.stop_all();
    gate.hit();
    f.wait();
    if(what == 0) h.wait();
    vp_reach("done");
    vp_final();
    VP_ASSERT(ended == 1, "the captured object is gone");
    VP_ASSERT(what != 0 || extra == 1, "scheduled from the destructor");
    VP_ASSERT(what != 2 || count == 1 || (count == 0 && how == 1), "the cancelled job is not counted any more");
    vp_stop();
}

void nested()
{
    vp_expect("done");
    tpp::init();
    uint64_t v = vp_nondet_u64();
    tpp::thread_pool pool(levels{{category::normal, 1}});
    settle_all();
    uint64_t got = 0;
    vp_timeouts(0, 0);
    vp_start();
    auto f = pool.schedule([&] {
        return pool.schedule([&] { return pool.schedule([&] { return v; }).get() + 1; }).get() + 1;
    });
    got = f.get();
    vp_reach("done");
    vp_final();
    VP_ASSERT(got == v + 2, "results of the nested jobs");
    vp_stop();
}

void two_pools()
{
    vp_expect("done");
    tpp::init();
    tpp::thread_pool a(levels{{category::normal, 1}});
    tpp::thread_pool b(levels{{category::normal, 1}});
    settle_all();
    int got = 0;
    vp_timeouts(0, 0);
    vp_start();
    auto f = a.schedule([&] { return b.schedule([&] { return a.schedule([] { return 1; }).get() + 1; }).get() + 1; });
    got = f.get();
    vp_reach("done");
    vp_final();
    VP_ASSERT(got == 3, "results");
    vp_stop();
}

void after_run()
{
    vp_expect("done");
    tpp::init();
    tpp::thread_pool pool(levels{{category::normal, 1}});
    settle_all();
    int ran = 0, extra = 0;
    latch ended;
    vp_timeouts(0, 0);
    auto end = [&] {
        pool.schedule([&] {
            extra++;
            ended.hit();
        });
    };
    vp_start();
    pool.schedule([&, k = at_end(end)] { ran++; });
    ended.wait(1);
    vp_reach("done");
    vp_final();
    VP_ASSERT(ran == 1 && extra == 1, "both ran");
    vp_stop();
}

void wait_in_job()
{
    vp_expect("ran");
    vp_expect("stopped");
    tpp::init();
    tpp::thread_pool pool(levels{{category::normal, 1}});
    settle_all();
    bool stop = vp_choice(2);
    int inner = 0, o = -1;
    bool fin = false;
    latch sched;
    tpp::job_id id = 0;
    vp_timeouts(0, 0);
    vp_start();
    auto f = pool.schedule([&] {
        auto g = pool.schedule([&] { inner++; });
        id = g.id;
        sched.hit();
        pool.wait(g.id);
        fin = true;
        o = outcome([&] { g.get(); });
    });
    if(stop)
    {
        sched.wait(1);
        pool.stop(id);
    }
    f.get();
    vp_reach(inner ? "ran" : "stopped");
    vp_final();
    VP_ASSERT(fin, "the wait ended");
    VP_ASSERT(o == (inner ? VALUE : BROKEN), "executed or cancelled");
    VP_ASSERT(stop || inner == 1, "executed unless stopped");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: from_job(); break;
        case 1: calls_from_job(); break;
        case 2: calls_from_continuation(); break;
        case 3: cancelled_continuation(); break;
        case 4: dropped_callable(); break;
        case 5: nested(); break;
        case 6: two_pools(); break;
        case 7: after_run(); break;
        case 8: wait_in_job(); break;
    }
}
