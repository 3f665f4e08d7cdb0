// C21: pending-task count and nesting depth are exact
//@ 0 any program of posts and nested processing | quick | | 4 steps, each posting a task or processing one (symbolic), inside tasks too (2 levels), counts compared at every step
//@ 1 count from another thread | quick | | 2 tasks executed one by one under control of the observer, count compared at every stage, all interleavings
//@ 2 concurrent observer | quick | | observer reads the count while the thread executes 2 tasks: within the bounds given by what was accepted and finished, all interleavings
//@ 3 depth | quick | | tasks nested 1..4 deep (symbolic) through process, wait, wait_for or process_for (symbolic)
//@ 4 throwing tasks | quick | | 3 tasks throwing or not (symbolic), nested or not (symbolic)
//@ 5 unknown, dead and invalid ids | quick | | symbolic choice of id, any 64-bit value not in use
//@ 6 two posting threads | quick | | 2 threads post 1 task each while the target processes, all interleavings: the count ends at 0 and never exceeds what was posted
//@ 7 tasks dropped | quick | | count after unregistration with 0..3 tasks left (symbolic)
//@ 8 blocking calls inside a task | quick | | a task blocked in a future wait that processes another task: counts and depth seen from inside and outside, all interleavings
//@ 9 count with names | quick | | detailed query returns the name and the same count
//@ 10 longer programs | thorough | | 6 steps
//@ 11 exit request and configuration | quick | | exit requested or queue capacity changed (symbolic 0..40) before any step; 3 tasks, one of them nested: counts and depth at every step
//@ 12 large numbers | quick |  | 300 queued tasks counted while processed, one of them (4 symbolic positions) processing nested, and 12 nested levels
#include "common.h"
using namespace std::chrono_literals;

namespace
{
tpp::thread::id me;
size_t posted, finished, running;
bool exact = true, depth_ok = true;
int deep = 0;

void check()
{
    if(tpp::get_pending_task_count(me) != posted - finished) exact = false;
    if(tpp::this_thread::get_depth() != running) depth_ok = false;
}

void program(int steps, int level);

void post(int steps, int level)
{
    posted++;
    tpp::invoke(me, [steps, level] {
        running++;
        if((int)running > deep) deep = (int)running;
        check();
        if(level > 0) program(steps, level - 1);
        check();
        running--;
        finished++;
    });
}

struct boom
{
};

void program(int steps, int level)
{
    for(int i = 0; i < steps; i++)
    {
        unsigned what = vp_choice(3);
        if(what == 0) post(level > 0 ? 2 : 0, level > 0 ? level - 1 : 0);
        if(what == 1) tpp::this_thread::process();
        if(what == 2 && tpp::get_pending_task_count(me) > running) tpp::this_thread::wait();
        // a finished task is still counted while it is being cleaned up, not afterwards
        check();
    }
}

void programs(int steps)
{
    vp_expect("nested");
    tpp::init();
    me = tpp::this_thread::get_id();
    check();
    post(2, 1);
    program(steps, 1);
    tpp::this_thread::process();
    check();
    if(deep >= 2) vp_reach("nested");
    VP_ASSERT(exact, "count");
    VP_ASSERT(depth_ok, "depth");
    VP_ASSERT(posted == finished && tpp::get_pending_task_count(me) == 0, "nothing left");
    vp_stop();
}

void staged()
{
    vp_expect("done");
    tpp::init();
    auto t = tpp::make_thread("t");
    settle(t);
    latch in1, go1, in2, go2, out;
    size_t c[6];
    vp_timeouts(0, 0);
    vp_start();
    auto id = t.get_id();
    tpp::invoke(id, [&] {
        in1.hit();
        go1.wait(1);
    });
    tpp::invoke(id, [&] {
        in2.hit();
        go2.wait(1);
    });
    c[0] = tpp::get_pending_task_count(id);
    in1.wait(1);
    c[1] = tpp::get_pending_task_count(id);
    go1.hit();
    in2.wait(1);
    c[2] = tpp::get_pending_task_count(id);
    tpp::invoke(id, [&] { out.hit(); });
    c[3] = tpp::get_pending_task_count(id);
    go2.hit();
    out.wait(1);
    c[4] = tpp::get_pending_task_count(id);
    tpp::invoke(id, [&] { out.hit(); });
    out.wait(2);
    c[5] = tpp::get_pending_task_count(id);
    vp_reach("done");
    vp_final();
    VP_ASSERT(c[0] == 2 && c[1] == 2, "queued and executing tasks are counted");
    VP_ASSERT(c[2] == 1 && c[3] == 2, "finished ones are not");
    VP_ASSERT(c[4] <= 1 && c[5] <= 1, "nor the earlier ones");
    vp_stop();
}

void observer()
{
    vp_expect("two");
    vp_expect("one");
    vp_expect("none");
    tpp::init();
    auto t = tpp::make_thread("t");
    settle(t);
    auto id = t.get_id();
    std::atomic<int> started{0}, ended{0};
    vp_timeouts(0, 0);
    auto task = [&] {
        started++;
        ended++;
    };
    tpp::invoke(id, task);
    tpp::invoke(id, task);
    vp_start();
    int before = ended;
    int c = (int)tpp::get_pending_task_count(id);
    int after = started;
    vp_reach(c == 2 ? "two" : c == 1 ? "one" : "none");
    vp_final();
    // a task is over a moment after its last action
    VP_ASSERT(c <= 2 && c <= 3 - before, "not more than are unfinished");
    VP_ASSERT(c >= 2 - after, "not fewer than have not started");
    vp_stop();
}

void nest(int n, unsigned how, bool& ok, int level)
{
    if(tpp::this_thread::get_depth() != (uint32_t)level) ok = false;
    if(n == 0) return;
    auto id = tpp::this_thread::get_id();
    tpp::invoke(id, [=, &ok] { nest(n - 1, how, ok, level + 1); });
    if(how == 0) tpp::this_thread::process();
    if(how == 1) tpp::this_thread::wait();
    if(how == 2) tpp::this_thread::wait_for(1s);
    if(how == 3) tpp::this_thread::process_for(1s);
    if(tpp::this_thread::get_depth() != (uint32_t)level) ok = false;
    if(tpp::get_pending_task_count(id) != (size_t)level) ok = false;
}

void depths()
{
    vp_expect("done");
    uint32_t none = tpp::this_thread::get_depth();
    tpp::init();
    bool ok = true;
    nest(1 + vp_choice(4), vp_choice(4), ok, 0);
    vp_reach("done");
    VP_ASSERT(none == 0 && ok, "depth");
    vp_stop();
}

void throwing()
{
    vp_expect("done");
    tpp::init();
    auto id = tpp::this_thread::get_id();
    bool nested = vp_choice(2), thr[3];
    int ran = 0;
    bool ok = true;
    for(int i = 0; i < 3; i++)
    {
        thr[i] = vp_choice(2);
        tpp::invoke(id, [&, i] {
            ran++;
            int r = ran;
            if(nested && i == 0)
            {
                try
                {
                    tpp::this_thread::process();
                }
                catch(const boom&)
                {
                }
                if(tpp::this_thread::get_depth() != 1) ok = false;
                if(tpp::get_pending_task_count(id) != size_t(3 - ran + 1)) ok = false;
            }
            (void)r;
            if(thr[i]) throw boom{};
        });
    }
    for(int k = 0; k < 4; k++)
    {
        try
        {
            tpp::this_thread::process();
        }
        catch(const boom&)
        {
        }
        if(tpp::this_thread::get_depth() != 0) ok = false;
        if(tpp::get_pending_task_count(id) != size_t(3 - ran)) ok = false;
    }
    vp_reach("done");
    VP_ASSERT(ok && ran == 3, "exact after exceptions");
    vp_stop();
}

void unknown()
{
    vp_expect("zero");
    vp_expect("huge");
    vp_expect("dead");
    tpp::init();
    auto id = tpp::this_thread::get_id();
    tpp::invoke(id, [] {});
    tpp::thread::id dead;
    {
        auto t = tpp::make_thread("t");
        settle(t);
        dead = t.get_id();
    }
    unsigned what = vp_choice(3);
    uint64_t q = what == 0 ? 0 : what == 1 ? ~0ull : dead;
    size_t c = tpp::get_pending_task_count(q);
    auto d = tpp::get_pending_task_count_detailed(q);
    vp_reach(what == 0 ? "zero" : what == 1 ? "huge" : "dead");
    VP_ASSERT(c == 0 && d.count == 0, "nothing pending on a thread that does not exist");
    VP_ASSERT(tpp::get_pending_task_count(id) == 1, "own count");
    vp_stop();
}

void two_posters()
{
    vp_expect("done");
    tpp::init();
    auto id = tpp::this_thread::get_id();
    int ran = 0;
    bool ok = true;
    vp_timeouts(0, 0);
    vp_start();
    auto post_one = [&] {
        tpp::invoke(id, [&] {
            ran++;
            size_t c = tpp::get_pending_task_count(id);
            if(c < 1 || c > size_t(3 - ran)) ok = false;
        });
    };
    std::thread a(post_one);
    std::thread b(post_one);
    while(ran < 2) tpp::this_thread::wait();
    size_t last = tpp::get_pending_task_count(id);
    a.join();
    b.join();
    vp_reach("done");
    vp_final();
    VP_ASSERT(ok, "within the bounds inside a task");
    VP_ASSERT(last == 0, "nothing left");
    vp_stop();
}

void dropped()
{
    vp_expect("done");
    tpp::init();
    auto id = tpp::this_thread::get_id();
    size_t c0 = tpp::get_pending_task_count(id);
    unsigned n = vp_choice(4);
    for(unsigned i = 0; i < n; i++) tpp::invoke(id, [] {});
    size_t c1 = tpp::get_pending_task_count(id);
    tpp::this_thread::unregister_this_thread();
    size_t c2 = tpp::get_pending_task_count(id);
    tpp::this_thread::register_this_thread();
    size_t c3 = tpp::get_pending_task_count(tpp::this_thread::get_id());
    vp_reach("done");
    VP_ASSERT(c0 == 0, "nothing at first");
    VP_ASSERT(c1 == n && c2 == 0 && c3 == 0, "counts");
    vp_stop();
}

void blocked()
{
    vp_expect("done");
    tpp::init();
    auto t = tpp::make_thread("t");
    settle(t);
    auto id = t.get_id();
    tpp::promise<void> p;
    auto f = p.get_future();
    uint32_t d1 = 9, d2 = 9, d3 = 9;
    size_t inside = 9, c1 = 9;
    latch in, nested, go, out;
    vp_timeouts(0, 0);
    vp_start();
    tpp::invoke(id, [&] {
        d1 = tpp::this_thread::get_depth();
        in.hit();
        f.wait();
        d3 = tpp::this_thread::get_depth();
        out.hit();
    });
    in.wait(1);
    tpp::invoke(id, [&] {
        d2 = tpp::this_thread::get_depth();
        inside = tpp::get_pending_task_count(id);
        nested.hit();
        go.wait(1);
    });
    nested.wait(1);
    c1 = tpp::get_pending_task_count(id);
    go.hit();
    p.set_value();
    out.wait(1);
    vp_reach("done");
    vp_final();
    VP_ASSERT(d1 == 1 && d2 == 2 && d3 == 1, "depth");
    VP_ASSERT(inside == 2 && c1 == 2, "both tasks executing");
    vp_stop();
}

void names()
{
    vp_expect("done");
    tpp::init();
    bool named = vp_choice(2);
    auto t = tpp::make_thread(named ? "abc" : "");
    settle(t);
    latch in, go;
    tpp::invoke(t.get_id(), [&] {
        in.hit();
        go.wait(1);
    });
    in.wait(1);
    unsigned n = vp_choice(3);
    for(unsigned i = 0; i < n; i++) tpp::invoke(t.get_id(), [] {});
    auto d = tpp::get_pending_task_count_detailed(t.get_id());
    size_t c = tpp::get_pending_task_count(t.get_id());
    go.hit();
    vp_reach("done");
    VP_ASSERT(c == n + 1 && d.count == c, "count");
    VP_ASSERT(named ? d.thread_name == "abc" : d.thread_name == std::to_string(t.get_id()), "name");
    vp_stop();
}

// neither an exit request nor the capacity settings change what is counted
void exit_and_config()
{
    vp_expect("exit");
    vp_expect("capacity");
    tpp::init();
    auto id = tpp::this_thread::get_id();
    unsigned at = vp_choice(4);
    bool ask = vp_choice(2), ok = true;
    size_t left = 0;
    auto same = [&](uint32_t depth) {
        if(tpp::get_pending_task_count(id) != left) ok = false;
        if(tpp::get_pending_task_count_detailed(id).count != left) ok = false;
        if(tpp::this_thread::get_depth() != depth) ok = false;
    };
    auto step = [&](unsigned n, uint32_t depth) {
        if(n == at)
        {
            if(ask)
                tpp::notify_for_exit(id);
            else
                tpp::set_thread_config(id, {vp_choice(41), vp_choice(3)});
        }
        same(depth);
    };
    step(0, 0);
    left++;
    tpp::invoke(id, [&] {
        step(2, 1);
        left++;
        tpp::invoke(id, [&] { step(3, 2); });
        tpp::this_thread::wait_for(1s);
        left--;
        same(1);
        tpp::this_thread::wait_for(1s);
        left--;
        same(1);
    });
    left++;
    tpp::invoke(id, [&] { same(2); });
    step(1, 0);
    tpp::this_thread::wait_for(1s);
    left--;
    same(0);
    vp_reach(ask ? "exit" : "capacity");
    VP_ASSERT(ok, "exact at every step");
    VP_ASSERT(left == 0, "all done");
    vp_stop();
}

void deeper(uint32_t level, bool& ok)
{
    auto me = tpp::this_thread::get_id();
    if(tpp::this_thread::get_depth() != level) ok = false;
    if(tpp::get_pending_task_count(me) != level) ok = false;
    if(level == 12) return;
    tpp::invoke(me, [&ok, level] { deeper(level + 1, ok); });
    if(tpp::get_pending_task_count(me) != level + 1) ok = false;
    tpp::this_thread::process();
    if(tpp::this_thread::get_depth() != level) ok = false;
}

void large()
{
    vp_expect("done");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    bool ok = true;
    deeper(0, ok);
    VP_ASSERT(ok, "exact at every level");
    static const int places[] = {0, 17, 255, 299};
    int at = places[vp_choice(4)];
    size_t left = 0;
    for(int i = 0; i < 300; i++)
    {
        tpp::invoke(me, [&, i] {
            if(tpp::get_pending_task_count(me) != left) ok = false;
            if(i == at) tpp::this_thread::process();
            left--;
        });
        left++;
        if(tpp::get_pending_task_count(me) != left) ok = false;
    }
    tpp::this_thread::process();
    vp_reach("done");
    VP_ASSERT(ok && left == 0 && tpp::get_pending_task_count(me) == 0, "exact at every step");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: programs(4); break;
        case 1: staged(); break;
        case 2: observer(); break;
        case 3: depths(); break;
        case 4: throwing(); break;
        case 5: unknown(); break;
        case 6: two_posters(); break;
        case 7: dropped(); break;
        case 8: blocked(); break;
        case 9: names(); break;
        case 10: programs(6); break;
        case 11: exit_and_config(); break;
        case 12: large(); break;
    }
}
