// C01: accepted tasks run exactly once, on the target thread only
//@ 0 two producers | quick | | 2 foreign threads, 2 tasks each (invoke and dispatch), 64-bit symbolic payloads, all interleavings
//@ 1 tasks that queue tasks | quick | | 2 loop threads, 2 tasks queueing 4 nested ones, 64-bit symbolic payloads, all interleavings
//@ 2 exit races with invoke | quick | | 1 producer with 2 tasks against join(), all interleavings
//@ 3 refused ids | quick | | every 64-bit id, the joined id, the invalid id, an empty task
//@ 4 main thread drains | quick | | 1 producer with 3 tasks, main drains by process/wait (symbolic choice), all interleavings
//@ 5 nested drains | quick | | 4 queued tasks, the first 3 drain nested in 6 symbolic ways, 2 symbolic outer drains, 64-bit symbolic payloads
//@ 6 nested drains against a producer | quick | | 2 queued tasks draining nested in 4 symbolic ways, 1 foreign producer with 2 tasks, all interleavings
//@ 7 queue capacity settings | quick | | symbolic reserve/shrink limits (0..4), 3 rounds of 1..5 tasks, set by init and by set_thread_config
//@ 8 unregistering with tasks queued | quick | | 3 own tasks of which 0..2 are processed, and 1 foreign producer with 2 tasks, against unregister_this_thread, all interleavings
//@ 9 configuration among tasks | quick | | set_thread_config at a symbolic place among 3 tasks for a busy loop thread, symbolic limits, all interleavings
//@ 10 long queues | quick |  | 600 tasks in bursts beyond the default limits, one of them (symbolic position) processing nested, symbolic payload
#include "common.h"

namespace
{
struct slot
{
    uint64_t want = 0, got = 0;
    uint32_t runs = 0;
    tpp::thread::id on = 0;
};

digest dg; // tasks of one target thread only

auto body(slot& s, latch& l)
{
    uint64_t v = s.want;
    return [&s, &l, v]
    {
        s.got = v;
        dg.add(v);
        s.runs++;
        s.on = tpp::this_thread::get_id();
        l.hit();
    };
}

void check(slot& s, tpp::thread::id id)
{
    VP_ASSERT(s.runs == 1, "an accepted task ran exactly once");
    VP_ASSERT(s.on == id, "the task ran on the thread it was addressed to");
    VP_ASSERT(s.got == s.want, "the task carried its own payload");
}

// two foreign producers, two tasks each, target keeps processing
void two_producers()
{
    vp_expect("all ran");
    tpp::init();
    auto t = tpp::make_thread("t");
    auto id = t.get_id();
    settle(t);
    slot s[4];
    for(auto& x : s) x.want = vp_nondet_u64();
    latch l;
    bool ok[4] = {};
    vp_start();
    std::thread p1([&] {
        ok[0] = tpp::invoke(id, body(s[0], l));
        ok[1] = tpp::invoke(id, body(s[1], l));
    });
    std::thread p2([&] {
        ok[2] = tpp::dispatch(id, body(s[2], l));
        ok[3] = tpp::invoke(id, body(s[3], l));
    });
    p1.join();
    p2.join();
    for(bool b : ok) VP_ASSERT(b, "a task for a registered, processing thread is accepted");
    l.wait(4);
    vp_final();
    for(auto& x : s) check(x, id);
    VP_ASSERT(dg.set == (s[0].want ^ s[1].want ^ s[2].want ^ s[3].want), "exactly the accepted payloads were executed");
    vp_reach("all ran");
    vp_stop();
}

// tasks that themselves invoke on their own thread and on another one
void nested()
{
    vp_expect("nested ran");
    tpp::init();
    auto t = tpp::make_thread("t");
    auto u = tpp::make_thread("u");
    auto idt = t.get_id(), idu = u.get_id();
    settle(t);
    settle(u);
    slot s[4];
    for(auto& x : s) x.want = vp_nondet_u64();
    latch l;
    vp_start();
    bool r0 = tpp::invoke(idt, [&] {
        bool a = tpp::invoke(idt, body(s[0], l));
        bool b = tpp::invoke(idu, body(s[1], l));
        VP_ASSERT(a && b, "invoke from a task is accepted");
        VP_ASSERT(s[0].runs == 0, "invoke on the own thread queues");
    });
    bool r1 = tpp::invoke(idu, [&] {
        bool a = tpp::dispatch(idt, body(s[2], l));
        bool b = tpp::dispatch(idu, body(s[3], l));
        VP_ASSERT(a && b, "dispatch from a task is accepted");
        VP_ASSERT(s[3].runs == 1, "dispatch on the own thread runs at once");
    });
    VP_ASSERT(r0 && r1, "accepted");
    l.wait(4);
    vp_end();
    check(s[0], idt);
    check(s[1], idu);
    check(s[2], idt);
    check(s[3], idu);
    vp_reach("nested ran");
    t.join();
    u.join();
    tpp::shutdown();
}

// a producer races with the exit of the target: run once or destroyed unrun, refused ones never run
void racing_exit()
{
    vp_expect("ran");
    vp_expect("refused");
    vp_expect("dropped");
    tpp::init();
    {
        auto t = tpp::make_thread("t");
        auto id = t.get_id();
        settle(t);
        slot s[2];
        for(auto& x : s) x.want = vp_nondet_u64();
        latch l;
        bool ok[2] = {};
        auto alive = std::make_shared<int>(0);
        vp_start();
        std::thread p([&] {
            for(int i = 0; i < 2; i++)
                ok[i] = tpp::invoke(id, [f = body(s[i], l), alive]() mutable { f(); });
        });
        t.join();
        p.join();
        vp_end();
        for(int i = 0; i < 2; i++)
        {
            VP_ASSERT(s[i].runs <= 1, "no task runs twice");
            if(!ok[i]) VP_ASSERT(s[i].runs == 0, "a refused task never runs");
            if(s[i].runs)
            {
                VP_ASSERT(s[i].on == id && s[i].got == s[i].want, "ran on its target with its payload");
                vp_reach("ran");
            }
            else
                vp_reach(ok[i] ? "dropped" : "refused");
        }
        VP_ASSERT(alive.use_count() == 1, "tasks that were run, refused or dropped are destroyed");
    }
    tpp::shutdown();
}

// unknown, invalid and retired ids refuse
void refused()
{
    vp_expect("refused all");
    tpp::init();
    int runs = 0;
    auto f = [&runs] { runs++; };
    uint64_t k = vp_nondet_u64();
    tpp::thread::id dead = 0;
    {
        auto t = tpp::make_thread("t");
        dead = t.get_id();
        settle(t);
        vp_start();
        t.join();
        vp_end();
    }
    auto self = tpp::this_thread::get_id();
    VP_ASSERT(!tpp::invoke(dead, f), "an id whose thread was joined is refused");
    VP_ASSERT(!tpp::dispatch(dead, f), "an id whose thread was joined is refused");
    VP_ASSERT(!tpp::invoke(tpp::invalid_id(), f), "the invalid id is refused");
    vp_assume(k != self);
    VP_ASSERT(!tpp::invoke(k, f), "an id that is not registered is refused");
    tpp::this_thread::process();
    VP_ASSERT(runs == 0, "refused tasks never run");
    tpp::task none;
    VP_ASSERT(!tpp::detail::invoke_packaged_task(self, none), "an empty task is refused");
    vp_reach("refused all");
    tpp::shutdown();
}

// the registered main thread is the target and drains with process / wait
void main_target()
{
    vp_expect("main drained");
    tpp::init();
    auto id = tpp::this_thread::get_id();
    slot s[3];
    for(auto& x : s) x.want = vp_nondet_u64();
    latch l;
    bool use_wait = vp_nondet_bool();
    vp_start();
    std::thread p([&] {
        for(int i = 0; i < 3; i++) VP_ASSERT(tpp::invoke(id, body(s[i], l)), "accepted");
    });
    while(s[0].runs + s[1].runs + s[2].runs < 3)
    {
        if(!use_wait) tpp::this_thread::process();
        if(s[0].runs + s[1].runs + s[2].runs < 3) tpp::this_thread::wait();
    }
    p.join();
    vp_end();
    for(auto& x : s) check(x, id);
    tpp::this_thread::process();
    for(auto& x : s) check(x, id);
    vp_reach("main drained");
    tpp::shutdown();
}
// drains the queue of the calling thread from inside a task
void drain(unsigned how)
{
    using namespace std::chrono_literals;
    switch(how)
    {
        case 0: break;
        case 1: tpp::this_thread::wait(); break;
        case 2: tpp::this_thread::process(); break;
        case 3: tpp::this_thread::wait_for(1s); break;
        case 4: tpp::this_thread::process_for(1s); break;
        case 5:
            tpp::this_thread::wait();
            tpp::this_thread::process();
            break;
    }
}

// tasks that drain the rest of their own batch
void nested_drains()
{
    vp_expect("nested drained");
    vp_timeouts(0, 0);
    tpp::init();
    auto id = tpp::this_thread::get_id();
    slot s[4];
    latch l;
    for(int i = 0; i < 4; i++)
    {
        s[i].want = vp_nondet_u64();
        unsigned how = i < 3 ? vp_choice(6) : 0;
        VP_ASSERT(tpp::invoke(id, [f = body(s[i], l), how]() mutable { f(); drain(how); }), "accepted");
    }
    if(vp_nondet_bool()) tpp::this_thread::process();
    while(l.get() < 4) tpp::this_thread::wait();
    tpp::this_thread::process();
    for(auto& x : s) check(x, id);
    VP_ASSERT(tpp::get_pending_task_count(id) == 0, "nothing is left");
    // the thread keeps accepting and running tasks
    slot t;
    t.want = vp_nondet_u64();
    VP_ASSERT(tpp::invoke(id, body(t, l)), "accepted");
    tpp::this_thread::wait();
    check(t, id);
    vp_reach("nested drained");
    tpp::shutdown();
}

void nested_against_producer()
{
    vp_expect("all ran");
    vp_timeouts(0, 0);
    tpp::init();
    auto id = tpp::this_thread::get_id();
    slot s[4];
    latch l;
    for(auto& x : s) x.want = vp_nondet_u64();
    unsigned h0 = vp_choice(4), h1 = vp_choice(4);
    tpp::invoke(id, [&] { body(s[0], l)(); drain(h0 == 3 ? 5 : h0); });
    tpp::invoke(id, [&] { body(s[1], l)(); drain(h1 == 3 ? 5 : h1); });
    vp_start();
    std::thread p([&] {
        VP_ASSERT(tpp::invoke(id, body(s[2], l)), "accepted");
        VP_ASSERT(tpp::invoke(id, body(s[3], l)), "accepted");
    });
    while(l.get() < 4) tpp::this_thread::wait();
    p.join();
    vp_end();
    tpp::this_thread::process();
    for(auto& x : s) check(x, id);
    vp_reach("all ran");
    tpp::shutdown();
}

void capacities()
{
    vp_expect("all ran");
    vp_timeouts(0, 0);
    tpp::init_data d;
    d.tasks_capacity.default_reserved_tasks = vp_choice(2) * 3;
    d.tasks_capacity.capacity_shrink_threashold = vp_choice(3) * 2;
    tpp::init(d);
    auto id = tpp::this_thread::get_id();
    slot s[11];
    latch l;
    int n = 0;
    for(auto& x : s) x.want = vp_nondet_u64();
    auto send = [&](int k) {
        for(int i = 0; i < k; i++, n++) VP_ASSERT(tpp::invoke(id, body(s[n], l)), "accepted");
    };
    send(1 + vp_choice(2) * 4);
    tpp::this_thread::process();
    for(int i = 0; i < n; i++) check(s[i], id);
    if(vp_nondet_bool()) VP_ASSERT(tpp::set_thread_config(id, {(size_t)vp_choice(2) * 3, (size_t)vp_choice(2)}), "accepted");
    send(1 + vp_choice(2) * 4);
    tpp::this_thread::process();
    for(int i = 0; i < n; i++) check(s[i], id);
    send(1);
    tpp::this_thread::wait();
    for(int i = 0; i < n; i++) check(s[i], id);
    vp_reach("all ran");
    tpp::shutdown();
}

void unregistering()
{
    vp_expect("some left");
    vp_expect("foreign accepted");
    vp_expect("foreign refused");
    vp_timeouts(0, 0);
    tpp::init();
    tpp::thread::id id = 0, main = tpp::this_thread::get_id();
    bool leaving = false, late = false, elsewhere = false;
    unsigned steps = vp_choice(3), ran[5] = {};
    latch there;
    auto mark = [&](int i) {
        return [&, i] {
            ran[i]++;
            if(leaving) late = true;
            if(tpp::this_thread::get_id() != id) elsewhere = true;
        };
    };
    bool ok[2] = {};
    vp_start();
    std::thread t([&] {
        tpp::this_thread::register_this_thread();
        id = tpp::this_thread::get_id();
        for(int i = 0; i < 3; i++) VP_ASSERT(tpp::invoke(id, mark(i)), "accepted");
        there.hit();
        for(unsigned k = 0; k < steps; k++) tpp::this_thread::wait();
        leaving = true;
        tpp::this_thread::unregister_this_thread();
        // a new registration does not inherit the tasks
        if(steps == 1)
        {
            tpp::this_thread::register_this_thread();
            tpp::this_thread::process();
            tpp::this_thread::unregister_this_thread();
        }
    });
    there.wait(1);
    ok[0] = tpp::invoke(id, mark(3));
    ok[1] = tpp::invoke(id, mark(4));
    t.join();
    vp_end();
    tpp::this_thread::process();
    VP_ASSERT(!late, "no task runs once the thread unregisters");
    VP_ASSERT(!elsewhere, "no task runs on another thread");
    for(unsigned i = 0; i < 3; i++) VP_ASSERT(ran[i] == (i < steps ? 1u : 0u), "each own task once, or never");
    VP_ASSERT(ran[3] == 0 && ran[4] == 0, "the tasks behind them never");
    VP_ASSERT(ok[0] || !ok[1], "once refused, refused for good");
    if(ok[1]) vp_reach("some left");
    if(ok[0]) vp_reach("foreign accepted");
    if(!ok[1]) vp_reach("foreign refused");
    (void)main;
    tpp::shutdown();
}

void configuration()
{
    vp_expect("all ran");
    vp_timeouts(0, 0);
    tpp::init();
    auto t = tpp::make_thread("t");
    auto id = t.get_id();
    settle(t);
    slot s[3];
    latch l;
    for(auto& x : s) x.want = vp_nondet_u64();
    unsigned at = vp_choice(3), res = vp_choice(2), shr = vp_choice(2);
    bool ok[3] = {}, cfg = false;
    vp_start();
    for(unsigned i = 0; i < 3; i++)
    {
        if(i == at) cfg = tpp::set_thread_config(id, {res * 4, shr * 3});
        ok[i] = tpp::invoke(id, body(s[i], l));
    }
    l.wait(3);
    vp_final();
    VP_ASSERT(cfg && ok[0] && ok[1] && ok[2], "accepted");
    for(auto& x : s) check(x, id);
    vp_reach("all ran");
    vp_stop();
}

// far beyond the default capacity limits
void long_queue()
{
    vp_expect("all");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    static const unsigned places[] = {0, 17, 255, 299, 400};
    unsigned at = places[vp_choice(5)];
    uint64_t v = vp_nondet_u64();
    std::vector<uint64_t> got(600);
    std::vector<uint8_t> runs(600);
    bool accepted = true;
    auto post = [&](unsigned from, unsigned to) {
        for(unsigned i = from; i < to; i++)
            accepted &= tpp::invoke(
                me,
                [&, i](uint64_t x) {
                    runs[i]++;
                    got[i] = x;
                    if(i == at) tpp::this_thread::process();
                },
                v + i);
    };
    post(0, 300);
    tpp::invoke(me, [&] { post(300, 600); });
    tpp::this_thread::process();
    vp_reach("all");
    VP_ASSERT(accepted, "accepted");
    for(unsigned i = 0; i < 600; i++) VP_ASSERT(runs[i] == 1 && got[i] == v + i, "each exactly once with its own argument");
    VP_ASSERT(tpp::get_pending_task_count(me) == 0, "nothing left");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: two_producers(); break;
        case 1: nested(); break;
        case 2: racing_exit(); break;
        case 3: refused(); break;
        case 4: main_target(); break;
        case 5: nested_drains(); break;
        case 6: nested_against_producer(); break;
        case 7: capacities(); break;
        case 8: unregistering(); break;
        case 9: configuration(); break;
        case 10: long_queue(); break;
    }
}
