// C15: each pool job runs exactly once or is cancelled, never both or neither
//@ 0 jobs on one worker | quick | | 2 jobs with symbolic 64-bit arguments scheduled while the worker runs, all interleavings
//@ 1 job on two workers | quick | --merge 2 | 1 job, 2 workers, wait_all, all interleavings
//@ 2 stop against start | quick | | 1 worker, 1 job stopped by id, by handle, or by stop_all (symbolic choice) at any moment, all interleavings
//@ 3 stop of a running or finished job | quick | | job known to be running or finished, stopped by id, by handle, or by stop_all (symbolic choice); 1 job pending behind it
//@ 4 wait for one job | quick | | wait(id) from a thread concurrent with execution, finished jobs, unknown ids, all interleavings
//@ 5 wait_all | quick | | wait_all with one job running and one pending, all interleavings
//@ 6 wait after stop_all | quick | | stop_all while a job is running, then wait, wait_all and get_jobs_count, all interleavings
//@ 7 waiting for a job that is cancelled | quick | | wait(id) or wait_all concurrent with stop or stop_all, all interleavings
//@ 8 throwing jobs | quick | | job throws a symbolic payload: counted finished, future carries it, the worker goes on
//@ 9 two scheduling threads | quick | --merge 2 | 2 threads schedule 1 job each on 1 worker, all interleavings
//@ 10 no eligible worker | quick | | job below every worker's category: never runs, stays counted, can be stopped or made eligible
//@ 11 job count | quick | | 2 jobs, one gated, any one stopped (symbolic choice): count at every stable point
//@ 12 two jobs on two workers | thorough | --merge 2 | 2 jobs, 2 workers, wait_all, all interleavings
//@ 13 job for an idle worker | quick | --merge 2 | 2 workers of the same or of two categories (symbolic), one of them (symbolic) blocked by its job, the other one idle or about to be, all interleavings
//@ 14 default pool | quick | --merge 2 | default-constructed pool (2 workers in the model), 2 jobs without a group that need each other, all interleavings
//@ 15 many jobs | quick |  | 300 pending jobs on 1 worker, one of them (4 symbolic positions) stopped, symbolic arguments, one schedule
//@ 16 waiting for many jobs | quick |  | wait_all or wait (symbolic) for 70 unfinished jobs on 1 worker, the last one to run (3 symbolic positions) taking longer, one schedule
#include "common.h"
using namespace std::chrono_literals;
using tpp::priority::category;

namespace
{
enum
{
    VALUE,
    BROKEN,
    OTHER
};

template<class F>
int outcome(F f)
{
    try
    {
        f();
        return VALUE;
    }
    catch(const std::future_error& e)
    {
        return e.code() == std::future_errc::broken_promise ? BROKEN : OTHER;
    }
    catch(...)
    {
        return OTHER;
    }
}

struct payload
{
    uint64_t v;
};

template<class F>
tpp::thread worker(F f)
{
    return tpp::thread([f]() mutable {
        tpp::this_thread::register_this_thread();
        f();
        tpp::this_thread::unregister_this_thread();
    });
}

using levels = std::map<category, size_t>;

std::unique_ptr<tpp::thread_pool> make_pool(size_t n)
{
    return std::make_unique<tpp::thread_pool>(levels{{category::normal, n}});
}

std::vector<tpp::thread::id> workers;

// lets every worker finish the tasks it has
void settle_all()
{
    auto me = tpp::this_thread::get_id();
    if(workers.empty()) workers = tpp::get_all_registered_threads();
    for(auto id : workers)
    {
        if(id == me) continue;
        latch l;
        tpp::invoke(id, [&l] { l.hit(); });
        l.wait(1);
    }
}

void one_worker()
{
    vp_expect("done");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    auto pool = make_pool(1);
    settle_all();
    int ran[2] = {};
    tpp::thread::id where = 0;
    auto me = tpp::this_thread::get_id();
    vp_timeouts(0, 0);
    vp_start();
    auto f = pool->schedule([&](uint64_t x) {
        ran[0]++;
        where = tpp::this_thread::get_id();
        return x + 1;
    }, a);
    auto g = pool->schedule([&](uint64_t x) {
        ran[1]++;
        return x + 2;
    }, b);
    uint64_t y = g.get(), x = f.get();
    vp_reach("done");
    vp_final();
    VP_ASSERT(ran[0] == 1 && ran[1] == 1, "each job exactly once");
    VP_ASSERT(x == a + 1 && y == b + 2, "own results");
    VP_ASSERT(where != me, "on a worker");
    VP_ASSERT(f.id != g.id && f.id != 0 && g.id != 0, "distinct job ids");
    vp_stop();
}

void two_workers(bool both)
{
    vp_expect("done");
    tpp::init();
    auto pool = make_pool(2);
    settle_all();
    std::atomic<int> ran[2] = {};
    vp_timeouts(0, 0);
    vp_start();
    auto f = pool->schedule([&] { ran[0]++; });
    tpp::job_future<void> g;
    if(both) g = pool->schedule([&] { ran[1]++; });
    pool->wait_all();
    bool ready = f.is_ready() && (!both || g.is_ready());
    vp_reach("done");
    vp_final();
    VP_ASSERT(ran[0] == 1 && ran[1] == (both ? 1 : 0), "each job exactly once");
    VP_ASSERT(ready, "finished when wait_all returns");
    vp_stop();
}

void stop_start()
{
    vp_expect("ran");
    vp_expect("cancelled");
    tpp::init();
    unsigned how = vp_choice(3);
    auto pool = make_pool(1);
    settle_all();
    int ran = 0, next = 0, o = -1;
    vp_timeouts(0, 0);
    vp_start();
    auto f = pool->schedule([&] { ran++; });
    if(how == 0) pool->stop(f.id);
    if(how == 1) f.stop();
    if(how == 2) pool->stop_all();
    o = outcome([&] { f.get(); });
    // the pool goes on
    pool->schedule([&] { next++; }).get();
    settle_all();
    size_t left = pool->get_jobs_count();
    vp_reach(ran ? "ran" : "cancelled");
    vp_final();
    VP_ASSERT(o == (ran ? VALUE : BROKEN), "either executed or reported as broken_promise");
    VP_ASSERT(ran <= 1, "never twice");
    VP_ASSERT(next == 1, "later jobs run");
    VP_ASSERT(left == 0, "nothing left");
    vp_stop();
}

void stop_late()
{
    vp_expect("running");
    vp_expect("finished");
    tpp::init();
    unsigned how = vp_choice(3);
    bool finished = vp_choice(2);
    auto pool = make_pool(1);
    settle_all();
    latch gate;
    int ran = 0, o = -1, o2 = -1, ran2 = 0;
    latch started;
    vp_timeouts(0, 0);
    vp_start();
    auto f = pool->schedule([&] {
        ran++;
        started.hit();
        if(!finished) gate.wait(1);
        return 6;
    });
    started.wait(1);
    if(finished) f.wait();
    tpp::job_future<void> g;
    if(how != 2) g = pool->schedule([&] { ran2++; });
    if(how == 0) pool->stop(f.id);
    if(how == 1) f.stop();
    if(how == 2) pool->stop_all();
    bool still = f.is_ready();
    gate.hit();
    int got = 0;
    o = outcome([&] { got = f.get(); });
    if(how != 2) o2 = outcome([&] { g.get(); });
    vp_reach(finished ? "finished" : "running");
    vp_final();
    VP_ASSERT(still == finished, "stopping a running job does nothing");
    VP_ASSERT(o == VALUE && got == 6 && ran == 1, "it finishes normally");
    VP_ASSERT(how == 2 || (o2 == VALUE && ran2 == 1), "and does not disturb the others");
    vp_stop();
}

void wait_one()
{
    vp_expect("done");
    tpp::init();
    auto pool = make_pool(1);
    settle_all();
    int ran = 0;
    bool fin = false, ok = false, ok2 = false;
    latch done;
    vp_timeouts(0, 0);
    vp_start();
    auto f = pool->schedule([&] {
        ran++;
        fin = true;
    });
    auto id = f.id;
    auto t = worker([&, id] {
        pool->wait(id);
        ok = fin;
        done.hit();
    });
    pool->wait(id);
    ok2 = fin;
    pool->wait(id + 100); // never existed
    pool->wait(0);
    done.wait(1);
    settle_all();
    pool->wait(id); // long gone
    vp_reach("done");
    vp_final();
    VP_ASSERT(ran == 1, "once");
    VP_ASSERT(ok && ok2, "wait returns after the job");
    vp_stop();
}

void all_running()
{
    vp_expect("done");
    tpp::init();
    auto pool = make_pool(1);
    settle_all();
    int fin = 0, seen = 0;
    latch started;
    bool first = vp_choice(2);
    vp_timeouts(0, 0);
    vp_start();
    pool->schedule([&] {
        started.hit();
        fin++;
    });
    if(first) started.wait(1);
    pool->schedule([&] { fin++; });
    pool->wait_all();
    seen = fin;
    // nothing to wait for
    pool->wait_all();
    vp_reach("done");
    vp_final();
    VP_ASSERT(seen == 2, "all accepted jobs are finished when wait_all returns");
    vp_stop();
}

void wait_after_stop()
{
    vp_expect("wait");
    vp_expect("wait_all");
    tpp::init();
    auto pool = make_pool(1);
    settle_all();
    unsigned how = vp_choice(3);
    bool fin = false, seen = false;
    size_t count = 9, after = 9;
    int ran2 = 0, o2 = -1;
    latch started;
    latch gate;
    vp_timeouts(0, 0);
    vp_start();
    auto f = pool->schedule([&] {
        started.hit();
        gate.wait(1);
        fin = true;
    });
    auto g = pool->schedule([&] { ran2++; });
    started.wait(1);
    pool->stop_all();
    count = pool->get_jobs_count();
    gate.hit();
    if(how == 0) pool->wait(f.id);
    if(how == 1) pool->wait_all();
    if(how == 2) f.get();
    seen = fin;
    o2 = outcome([&] { g.get(); });
    settle_all();
    after = pool->get_jobs_count();
    vp_reach(how == 0 ? "wait" : "wait_all");
    vp_final();
    VP_ASSERT(count == 1, "the running job is still counted");
    VP_ASSERT(seen, "waiting for it still works");
    VP_ASSERT(o2 == BROKEN && ran2 == 0, "the pending one is cancelled");
    VP_ASSERT(after == 0, "nothing left");
    vp_stop();
}

void wait_cancelled()
{
    vp_expect("done");
    tpp::init();
    auto pool = make_pool(1);
    settle_all();
    bool all = vp_choice(2), stopall = vp_choice(2);
    int ran = 0, o = -1;
    int seen = 9;
    bool over = false, late = false;
    latch done, started;
    latch gate;
    vp_timeouts(0, 0);
    // the worker is busy, so the second job stays pending
    auto g = pool->schedule([&] {
        started.hit();
        gate.wait(1);
    });
    started.wait(1);
    auto f = pool->schedule([&] {
        ran++;
        late = over;
    });
    auto id = f.id;
    vp_start();
    auto t = worker([&, id] {
        if(all)
            pool->wait_all();
        else
            pool->wait(id);
        seen = ran;
        over = true;
        done.hit();
    });
    if(stopall)
        pool->stop_all();
    else
        pool->stop(id);
    if(all) gate.hit();
    done.wait(1);
    if(!all) gate.hit();
    o = outcome([&] { f.get(); });
    g.get();
    vp_reach("done");
    vp_final();
    VP_ASSERT(seen == ran && !late, "the wait ends when the job is finished or cancelled, not before");
    VP_ASSERT(o == (ran ? VALUE : BROKEN), "executed or cancelled");
    vp_stop();
}

void throwing()
{
    vp_expect("done");
    tpp::init();
    uint64_t v = vp_nondet_u64();
    auto pool = make_pool(1);
    settle_all();
    uint64_t got = 0;
    int next = 0;
    vp_timeouts(0, 0);
    vp_start();
    auto f = pool->schedule([&]() -> int { throw payload{v}; });
    auto g = pool->schedule([&] { next++; });
    pool->wait(f.id);
    bool ready = f.is_ready();
    try
    {
        f.get();
    }
    catch(const payload& p)
    {
        got = p.v + 1;
    }
    g.get();
    settle_all();
    size_t left = pool->get_jobs_count();
    vp_reach("done");
    vp_final();
    VP_ASSERT(ready, "finished by throwing");
    VP_ASSERT(got == v + 1, "the future carries the exception");
    VP_ASSERT(next == 1 && left == 0, "the worker goes on");
    vp_stop();
}

void two_schedulers()
{
    vp_expect("done");
    tpp::init();
    auto pool = make_pool(1);
    settle_all();
    int ran[2] = {};
    tpp::job_id ids[2] = {};
    latch done;
    auto t = tpp::make_thread("t");
    settle(t);
    vp_timeouts(0, 0);
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        auto f = pool->schedule([&] { ran[0]++; });
        ids[0] = f.id;
        done.hit();
    });
    auto g = pool->schedule([&] { ran[1]++; });
    ids[1] = g.id;
    g.wait();
    done.wait(1);
    pool->wait_all();
    vp_reach("done");
    vp_final();
    VP_ASSERT(ran[0] == 1 && ran[1] == 1, "each exactly once");
    VP_ASSERT(ids[0] != ids[1], "distinct ids");
    vp_stop();
}

void not_eligible()
{
    vp_expect("stopped");
    vp_expect("raised");
    vp_expect("dropped");
    tpp::init();
    auto pool = std::make_unique<tpp::thread_pool>(levels{{category::high, 1}});
    settle_all();
    unsigned how = vp_choice(3);
    int ran = 0, o = -1;
    vp_timeouts(0, 0);
    vp_start();
    auto f = pool->schedule(tpp::priority::normal(), [&] { ran++; });
    pool->schedule(tpp::priority::high(), [] {}).get();
    settle_all();
    int early = ran;
    size_t count = pool->get_jobs_count();
    if(how == 0) f.stop();
    if(how == 1) f.change_priority(tpp::priority::critical());
    if(how == 2) pool.reset();
    o = outcome([&] { f.get(); });
    vp_reach(how == 0 ? "stopped" : how == 1 ? "raised" : "dropped");
    vp_final();
    VP_ASSERT(early == 0 && count == 1, "never started, still counted");
    VP_ASSERT(o == (how == 1 ? VALUE : BROKEN) && ran == (how == 1 ? 1 : 0), "stopped or made eligible");
    vp_stop();
}

void counting()
{
    vp_expect("done");
    tpp::init();
    auto pool = make_pool(1);
    settle_all();
    unsigned stop = vp_choice(4);
    latch started;
    latch gate;
    int ran[3] = {};
    vp_timeouts(0, 0);
    vp_start();
    size_t c0 = pool->get_jobs_count();
    auto f = pool->schedule([&] {
        ran[0]++;
        started.hit();
        gate.wait(1);
    });
    started.wait(1);
    size_t c1 = pool->get_jobs_count();
    auto g = pool->schedule(tpp::priority::normal(1), [&] { ran[1]++; });
    size_t c2 = pool->get_jobs_count();
    if(stop == 1) pool->stop(g.id);
    if(stop == 2) pool->stop(f.id);
    if(stop == 3)
    {
        pool->stop(g.id);
        pool->stop(g.id);
    }
    size_t c4 = pool->get_jobs_count();
    gate.hit();
    f.get();
    int o = outcome([&] { g.get(); });
    settle_all();
    size_t c3 = pool->get_jobs_count();
    vp_reach("done");
    vp_final();
    VP_ASSERT(c0 == 0 && c1 == 1 && c2 == 2, "counts unfinished jobs");
    VP_ASSERT(c4 == (stop == 1 || stop == 3 ? 1 : 2), "cancelled jobs are not counted");
    VP_ASSERT(o == (ran[1] ? VALUE : BROKEN), "executed or cancelled");
    VP_ASSERT(ran[1] == (stop == 0 || stop == 2 ? 1 : 0), "executed unless stopped");
    VP_ASSERT(c3 == 0 && ran[0] == 1 && ran[1] <= 1, "none left");
    vp_stop();
}

// a busy worker does not keep the others from taking jobs
void idle_worker()
{
    vp_expect("one category");
    vp_expect("two categories");
    vp_timeouts(0, 0);
    tpp::init();
    unsigned two = vp_choice(2);
    auto pool = std::make_unique<tpp::thread_pool>(two ? levels{{category::normal, 1}, {category::high, 1}} : levels{{category::normal, 2}});
    auto g = two ? tpp::priority::high(1) : tpp::priority::normal(1);
    unsigned k = vp_choice(2);
    latch started, gate[2], ran;
    bool after = vp_choice(2) != 0;
    settle_all();
    tpp::job_future<void> busy[2];
    for(int i = 0; i < 2; i++)
        busy[i] = pool->schedule(g, [&started, &gate, i] {
            started.hit();
            gate[i].wait(1); // blocks the worker outside the library
        });
    started.wait(2);
    if(!after) vp_start();
    gate[k].hit();
    if(after)
    {
        busy[k].wait();
        vp_start();
    }
    auto b = pool->schedule(g, [&ran] { ran.hit(); });
    ran.wait(1);
    vp_reach(two ? "two categories" : "one category");
    vp_final();
    VP_ASSERT(ran.n == 1, "once");
    vp_stop();
}

void default_pool()
{
    vp_expect("both");
    vp_timeouts(0, 0);
    tpp::init();
    auto pool = std::make_unique<tpp::thread_pool>();
    uint64_t v = vp_nondet_u64();
    latch started, met;
    settle_all();
    auto f = pool->schedule([&] {
        started.hit();
        met.wait(1); // blocks the worker outside the library
    });
    started.wait(1);
    vp_start();
    auto g = pool->schedule(
        [&](uint64_t x) {
            met.hit();
            return x + 1;
        },
        v);
    uint64_t got = g.get();
    vp_reach("both");
    vp_final();
    VP_ASSERT(got == v + 1, "value");
    vp_stop();
}

void many_jobs()
{
    vp_expect("done");
    vp_timeouts(0, 0);
    tpp::init();
    static const unsigned places[] = {0, 15, 255, 299};
    unsigned at = places[vp_choice(4)];
    uint64_t v = vp_nondet_u64();
    auto pool = make_pool(1);
    settle_all();
    latch started, gate;
    auto holder = pool->schedule([&] {
        started.hit();
        gate.wait(1);
    });
    started.wait(1);
    int runs[300] = {};
    std::vector<tpp::job_future<uint64_t>> fs;
    for(unsigned i = 0; i < 300; i++)
        fs.push_back(pool->schedule(
            [&runs, i](uint64_t x) {
                runs[i]++;
                return x;
            },
            v + i));
    VP_ASSERT(pool->get_jobs_count() == 301, "all counted");
    fs[at].stop();
    VP_ASSERT(pool->get_jobs_count() == 300, "all but the stopped one counted");
    gate.hit();
    pool->wait_all();
    for(unsigned i = 0; i < 300; i++)
    {
        VP_ASSERT(runs[i] == (i == at ? 0 : 1), "each exactly once, the stopped one never");
        uint64_t x = 0;
        VP_ASSERT(outcome([&] { x = fs[i].get(); }) == (i == at ? BROKEN : VALUE), "outcome");
        VP_ASSERT(i == at || x == v + i, "value");
    }
    settle_all();
    VP_ASSERT(pool->get_jobs_count() == 0, "none left");
    vp_reach("done");
    vp_stop();
}

void wait_many()
{
    vp_expect("all");
    vp_expect("one");
    vp_timeouts(0, 0);
    tpp::init();
    static const unsigned places[] = {0, 35, 69};
    unsigned at = places[vp_choice(3)];
    bool all = vp_choice(2);
    auto pool = make_pool(1);
    settle_all();
    latch started, gate, last;
    auto holder = pool->schedule([&] {
        started.hit();
        gate.wait(1);
    });
    started.wait(1);
    bool opened = false;
    int ran = 0;
    std::vector<tpp::job_future<void>> fs;
    for(unsigned i = 0; i < 70; i++)
        fs.push_back(pool->schedule(tpp::priority::normal(i == at ? 0 : 1), [&, i] {
            ran++;
            if(i != at) return;
            started.hit();
            last.wait(1);
        }));
    auto helper = tpp::make_thread();
    settle(helper);
    tpp::invoke(helper.get_id(), [&] {
        tpp::this_thread::sleep_for(std::chrono::milliseconds(1));
        gate.hit();
        started.wait(2);
        tpp::this_thread::sleep_for(std::chrono::milliseconds(1));
        opened = true;
        last.hit();
    });
    vp_timeouts(1, 0);
    if(all) pool->wait_all();
    else pool->wait(fs[at].id);
    VP_ASSERT(opened && ran == 70, "not before all have finished");
    vp_reach(all ? "all" : "one");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: one_worker(); break;
        case 1: two_workers(false); break;
        case 2: stop_start(); break;
        case 3: stop_late(); break;
        case 4: wait_one(); break;
        case 5: all_running(); break;
        case 6: wait_after_stop(); break;
        case 7: wait_cancelled(); break;
        case 8: throwing(); break;
        case 9: two_schedulers(); break;
        case 10: not_eligible(); break;
        case 11: counting(); break;
        case 12: two_workers(true); break;
        case 13: idle_worker(); break;
        case 14: default_pool(); break;
        case 15: many_jobs(); break;
        case 16: wait_many(); break;
    }
}
