// C02: tasks of a thread start in the order they were accepted
//@ 0 program order of two producers | quick | | 2 foreign threads, 2 tasks each, 64-bit symbolic payloads, all interleavings
//@ 1 real-time order across threads | quick | | 2 foreign threads with 2+1 tasks, all interleavings
//@ 2 every way of draining | quick | | 1 producer with 3 tasks, main drains by process, process_for, wait, wait_for, sleep_for or a blocking future/condition/async wait (symbolic choice), all interleavings
//@ 3 nested draining | quick | | 3 queued tasks, the first drains nested (5 symbolic choices) and queues a 4th, 1 racing foreign task
//@ 4 tasks that queue tasks | quick | | 2 loop threads exchanging 5 tasks, 64-bit symbolic payloads, all interleavings
//@ 5 capacity settings | quick | | symbolic reserve/shrink limits in 0..3, 5 tasks in 2 batches
//@ 6 long queues | quick |  | 600 tasks in bursts beyond the default limits, one of them (symbolic position) processing nested
#include "common.h"

namespace
{
// which positions the numbered tasks started at, on one target thread
struct starts
{
    uint32_t n = 0;
    uint32_t at[8] = {};
    digest d;
    void run(int i, uint64_t payload)
    {
        at[i] = ++n;
        d.add(payload);
    }
};

uint64_t seq(std::initializer_list<uint64_t> v)
{
    digest d;
    for(auto x : v) d.add(x);
    return d.seq;
}

void program_order()
{
    vp_expect("all started");
    vp_expect("first producer last");
    tpp::init();
    auto t = tpp::make_thread("t");
    auto id = t.get_id();
    settle(t);
    starts s;
    uint64_t v[4];
    for(auto& x : v) x = vp_nondet_u64();
    latch l;
    vp_start();
    auto send = [&](int i) { tpp::invoke(id, [&s, &l, i, p = v[i]] { s.run(i, p); l.hit(); }); };
    std::thread p1([&] {
        send(0);
        send(1);
    });
    std::thread p2([&] {
        send(2);
        send(3);
    });
    p1.join();
    p2.join();
    l.wait(4);
    vp_final();
    VP_ASSERT(s.n == 4, "every task started once");
    VP_ASSERT(s.at[0] < s.at[1], "the first producer's tasks start in program order");
    VP_ASSERT(s.at[2] < s.at[3], "the second producer's tasks start in program order");
    bool any = s.d.seq == seq({v[0], v[1], v[2], v[3]});
    any |= s.d.seq == seq({v[0], v[2], v[1], v[3]});
    any |= s.d.seq == seq({v[0], v[2], v[3], v[1]});
    any |= s.d.seq == seq({v[2], v[0], v[1], v[3]});
    any |= s.d.seq == seq({v[2], v[0], v[3], v[1]});
    any |= s.d.seq == seq({v[2], v[3], v[0], v[1]});
    VP_ASSERT(any, "the payloads appear in an order that respects both program orders");
    if(s.at[0] > s.at[3]) vp_reach("first producer last");
    vp_reach("all started");
    vp_stop();
}

void real_time()
{
    vp_expect("first before third");
    vp_expect("third before first");
    vp_expect("overlapping");
    tpp::init();
    auto t = tpp::make_thread("t");
    auto id = t.get_id();
    settle(t);
    starts s;
    latch l;
    std::atomic<bool> done[3] = {};
    bool prec[3][3] = {}; // prec[i][j]: i's invoke had returned before j's began
    vp_start();
    auto send = [&](int i) {
        for(int j = 0; j < 3; j++)
            if((i == 2) != (j == 2)) prec[j][i] = done[j];
        tpp::invoke(id, [&s, &l, i] { s.run(i, 0); l.hit(); });
        done[i] = true;
    };
    std::thread p1([&] {
        send(0);
        send(1);
    });
    std::thread p2([&] { send(2); });
    p1.join();
    p2.join();
    l.wait(3);
    vp_final();
    bool ok = s.at[0] < s.at[1];
    for(int i = 0; i < 3; i++)
        for(int j = 0; j < 3; j++) ok &= !prec[i][j] | (s.at[i] < s.at[j]);
    VP_ASSERT(ok, "a task whose invoke returned before another's began starts first");
    if(prec[0][2]) vp_reach("first before third");
    if(prec[2][0]) vp_reach("third before first");
    if(!prec[0][2] && !prec[2][0]) vp_reach("overlapping");
    vp_stop();
}

void drain_ways()
{
    vp_expect("drained 0");
    vp_expect("drained 1");
    vp_expect("drained 2");
    vp_expect("drained 3");
    vp_expect("drained 4");
    vp_expect("drained 5");
    vp_expect("drained 6");
    using namespace std::chrono_literals;
    tpp::init();
    auto id = tpp::this_thread::get_id();
    starts s;
    uint64_t v[3];
    for(auto& x : v) x = vp_nondet_u64();
    unsigned how = vp_choice(7);
    tpp::promise<void> done;
    auto fut = done.get_future();
    std::mutex m;
    tpp::condition_variable cv;
    vp_start();
    std::thread p([&] {
        for(int i = 0; i < 3; i++) tpp::invoke(id, [&s, i, x = v[i]] { s.run(i, x); });
        tpp::invoke(id, [&] { done.set_value(); });
    });
    switch(how)
    {
        case 0:
            p.join();
            tpp::this_thread::process();
            break;
        case 1:
            while(s.n < 3) tpp::this_thread::wait();
            break;
        case 2:
            while(s.n < 3) tpp::this_thread::wait_for(10s);
            break;
        case 3: tpp::this_thread::sleep_for(1s); break;
        case 4: fut.wait(); break;
        case 5:
            p.join();
            tpp::this_thread::process_for(1s);
            break;
        case 6:
        {
            std::unique_lock<std::mutex> lk(m);
            while(s.n < 3) cv.wait_for(lk, 1s);
            break;
        }
    }
    if(p.joinable()) p.join();
    vp_end();
    VP_ASSERT(s.n == 3, "every task started once");
    VP_ASSERT(s.at[0] == 1 && s.at[1] == 2 && s.at[2] == 3, "tasks start in the order they were invoked");
    VP_ASSERT(s.d.seq == seq({v[0], v[1], v[2]}), "payloads arrive in the order they were sent");
    static const char* names[] = {"drained 0", "drained 1", "drained 2", "drained 3", "drained 4", "drained 5", "drained 6"};
    vp_reach(names[how]);
}

void nested()
{
    vp_expect("racer last");
    vp_expect("racer early");
    using namespace std::chrono_literals;
    tpp::init();
    auto id = tpp::this_thread::get_id();
    starts s;
    uint64_t v[4];
    for(auto& x : v) x = vp_nondet_u64();
    unsigned how = vp_choice(5);
    tpp::promise<void> pr;
    auto fut = pr.get_future();
    uint32_t racer = 0;
    tpp::invoke(id, [&] {
        s.run(0, v[0]);
        tpp::invoke(id, [&] { s.run(3, v[3]); });
        switch(how)
        {
            case 0: tpp::this_thread::process(); break;
            case 1: tpp::this_thread::wait(); break;
            case 2: tpp::this_thread::wait_for(1s); break;
            case 3: fut.wait(); break;
            case 4: tpp::this_thread::process_for(1s); break;
        }
    });
    tpp::invoke(id, [&] { s.run(1, v[1]); });
    tpp::invoke(id, [&] {
        s.run(2, v[2]);
        pr.set_value();
    });
    vp_start();
    std::thread p([&] { tpp::invoke(id, [&] { racer = ++s.n; }); });
    while(s.n < 5) tpp::this_thread::wait();
    p.join();
    vp_end();
    VP_ASSERT(s.n == 5, "every task started once");
    VP_ASSERT(s.at[0] < s.at[1] && s.at[1] < s.at[2], "a nested drain continues with the next accepted task");
    VP_ASSERT(s.at[2] < s.at[3], "a task queued later than another starts later, also across nested drains");
    VP_ASSERT(s.at[2] < racer, "a foreign task accepted later starts later");
    VP_ASSERT(s.d.seq == seq({v[0], v[1], v[2], v[3]}), "payloads arrive in acceptance order");
    if(racer == 5) vp_reach("racer last");
    if(racer == 4) vp_reach("racer early");
}

void exchange()
{
    vp_expect("exchanged");
    tpp::init();
    auto t = tpp::make_thread("t");
    auto u = tpp::make_thread("u");
    auto idt = t.get_id(), idu = u.get_id();
    settle(t);
    settle(u);
    starts st, su;
    uint64_t v[3];
    for(auto& x : v) x = vp_nondet_u64();
    latch l;
    vp_start();
    // main -> t: a, then t -> u: b, c; main -> u: d; u -> t: e
    tpp::invoke(idt, [&] {
        st.run(0, v[0]);
        tpp::invoke(idu, [&] {
            su.run(0, v[1]);
            l.hit();
        });
        tpp::dispatch(idu, [&] {
            su.run(1, v[2]);
            l.hit();
        });
        l.hit();
    });
    tpp::invoke(idu, [&] {
        su.run(2, 0);
        tpp::invoke(idt, [&] {
            st.run(1, 0);
            l.hit();
        });
        l.hit();
    });
    l.wait(5);
    vp_final();
    VP_ASSERT(st.n == 2 && su.n == 3, "every task started once");
    VP_ASSERT(st.at[0] == 1 && st.at[1] == 2, "the earlier task of t starts first");
    VP_ASSERT(su.at[0] < su.at[1], "tasks sent by one task start in the order they were sent");
    VP_ASSERT(su.d.set == (v[1] ^ v[2]), "payloads intact");
    vp_reach("exchanged");
    vp_stop();
}

void capacities()
{
    vp_expect("ordered");
    tpp::init_data d;
    d.tasks_capacity.default_reserved_tasks = vp_choice(4);
    d.tasks_capacity.capacity_shrink_threashold = vp_choice(4);
    tpp::init(d);
    auto id = tpp::this_thread::get_id();
    starts s;
    uint64_t v[5];
    for(auto& x : v) x = vp_nondet_u64();
    for(int i = 0; i < 3; i++) tpp::invoke(id, [&s, i, x = v[i]] { s.run(i, x); });
    tpp::set_thread_config(id, {(size_t)vp_choice(4), (size_t)vp_choice(4)});
    tpp::this_thread::wait();
    for(int i = 3; i < 5; i++) tpp::invoke(id, [&s, i, x = v[i]] { s.run(i, x); });
    tpp::this_thread::process();
    VP_ASSERT(s.n == 5, "every task started once");
    for(int i = 0; i < 5; i++) VP_ASSERT(s.at[i] == (uint32_t)i + 1, "in order of acceptance");
    VP_ASSERT(s.d.seq == seq({v[0], v[1], v[2], v[3], v[4]}), "payloads in order of acceptance");
    vp_reach("ordered");
    tpp::shutdown();
}

void long_queue()
{
    vp_expect("all");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    static const unsigned places[] = {0, 17, 255, 299, 400};
    unsigned at = places[vp_choice(5)], next = 0;
    bool ok = true;
    auto post = [&](unsigned from, unsigned to) {
        for(unsigned i = from; i < to; i++)
            tpp::invoke(me, [&, i] {
                if(i != next++) ok = false;
                if(i == at) tpp::this_thread::process();
            });
    };
    post(0, 300);
    tpp::invoke(me, [&] { post(300, 600); });
    tpp::this_thread::process();
    vp_reach("all");
    VP_ASSERT(ok && next == 600, "in the order of acceptance");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: program_order(); break;
        case 1: real_time(); break;
        case 2: drain_ways(); break;
        case 3: nested(); break;
        case 4: exchange(); break;
        case 5: capacities(); break;
        case 6: long_queue(); break;
    }
}
