// C25: a throwing task leaves its thread usable
//@ 0 process | quick | | 3 queued tasks, each throwing or not (symbolic), process() until empty
//@ 1 wait and wait_for | quick | | 3 queued tasks, each throwing or not (symbolic), consumed by wait(), wait_for() or sleep_for() (symbolic)
//@ 2 condition variable: lock and later notifications | quick | | wait or wait_for (symbolic) ended by a throwing task; then notify_one with another real waiter, all interleavings
//@ 3 future waits | quick | | wait, get or wait_for (symbolic) ended by a throwing task; the future completes later and is consumed
//@ 4 mutex | quick | | lock() ended by a throwing task; the owner unlocks, the thread locks again; a third thread too, all interleavings
//@ 5 nested processing | quick | | a task processes further tasks and handles (or not, symbolic) the exception of a nested one
//@ 6 throwing task racing with the wait | quick | | the throwing task is posted by another thread at any moment of wait(), all interleavings
//@ 7 destructor of a throwing task | quick | | the captured object of a throwing task posts a new task or queries counts (symbolic)
//@ 8 condition variable: repeated failures | quick | | 2 waits ended by exceptions, then a notification and a proper wait, all interleavings
//@ 9 inline execution | quick | | dispatch, async and then on the own thread with a throwing callable (symbolic)
//@ 10 other waiters | quick | | another thread waits on the same variable while a wait is ended by a throwing task, wait or wait_for (symbolic); then notify_one or notify_all, all interleavings
//@ 11 long queues | quick |  | 300 tasks, every one, every 7th or one (4 positions) throwing (symbolic), symbolic payload
#include "common.h"
using namespace std::chrono_literals;

namespace
{
struct boom
{
    int n;
};

void settled(const char* what)
{
    auto me = tpp::this_thread::get_id();
    VP_ASSERT(tpp::this_thread::get_depth() == 0, what);
    VP_ASSERT(vp_held() == 0, "no lock left behind");
    (void)me;
}

void process()
{
    vp_expect("all throw");
    vp_expect("none throws");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    bool thr[3];
    int ran[3] = {}, caught[3] = {}, order = 0;
    bool ordered = true;
    for(int i = 0; i < 3; i++)
    {
        thr[i] = vp_choice(2);
        tpp::invoke(me, [&, i] {
            if(order++ != i) ordered = false;
            ran[i]++;
            if(thr[i]) throw boom{i};
        });
    }
    int throws = thr[0] + thr[1] + thr[2];
    size_t expect = 3;
    for(int k = 0; k <= throws; k++)
    {
        bool c = false;
        try
        {
            tpp::this_thread::process();
        }
        catch(const boom& b)
        {
            c = true;
            caught[b.n]++;
        }
        VP_ASSERT(c == (k < throws), "each exception reaches the caller of process");
        expect = 3 - size_t(order);
        VP_ASSERT(tpp::get_pending_task_count(me) == expect, "the throwing task counts as finished");
        settled("depth is back");
    }
    if(throws == 3) vp_reach("all throw");
    if(throws == 0) vp_reach("none throws");
    for(int i = 0; i < 3; i++) VP_ASSERT(ran[i] == 1 && caught[i] == (thr[i] ? 1 : 0), "each task once");
    VP_ASSERT(ordered, "in order");
    vp_stop();
}

void waits()
{
    vp_expect("done");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    bool thr[3];
    int ran[3] = {}, caught = 0, done = 0;
    unsigned how = vp_choice(3);
    for(int i = 0; i < 3; i++)
    {
        thr[i] = vp_choice(2);
        tpp::invoke(me, [&, i] {
            ran[i]++;
            done++;
            if(thr[i]) throw boom{i};
        });
    }
    vp_timeouts(2, 0);
    for(int k = 0; k < 3 && done < 3; k++)
    {
        try
        {
            if(how == 0) tpp::this_thread::wait();
            if(how == 1) tpp::this_thread::wait_for(1s);
            if(how == 2) tpp::this_thread::sleep_for(1s);
        }
        catch(const boom&)
        {
            caught++;
        }
        VP_ASSERT(tpp::get_pending_task_count(me) == size_t(3 - done), "the throwing task counts as finished");
        settled("depth is back");
    }
    // still usable
    int last = 0;
    tpp::invoke(me, [&] { last++; });
    tpp::this_thread::wait();
    vp_reach("done");
    VP_ASSERT(ran[0] == 1 && ran[1] == 1 && ran[2] == 1 && last == 1, "each task once");
    VP_ASSERT(caught == thr[0] + thr[1] + thr[2], "each exception reaches the caller");
    vp_stop();
}

void condition()
{
    vp_expect("done");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    unsigned how = vp_choice(2);
    std::mutex m;
    tpp::condition_variable cv;
    bool caught = false, held = false, flag = false, woken = false;
    latch waiting;
    // wait fails first
    tpp::invoke(me, [] { throw boom{1}; });
    vp_timeouts(0, 0);
    {
        std::unique_lock<std::mutex> l(m);
        try
        {
            if(how == 0) cv.wait(l);
            if(how == 1) cv.wait_for(l, 1000h);
        }
        catch(const boom&)
        {
            caught = true;
            held = l.owns_lock() && vp_held() == 1;
        }
    }
    VP_ASSERT(caught, "the exception arrives");
    VP_ASSERT(held, "with the lock held");
    VP_ASSERT(tpp::this_thread::get_depth() == 0, "depth is back");
    vp_start();
    // a thread that really waits must get the next notification
    std::thread t([&] {
        tpp::this_thread::register_this_thread();
        {
            std::unique_lock<std::mutex> l(m);
            waiting.hit();
            while(!flag) cv.wait(l);
            woken = true;
        }
        tpp::this_thread::unregister_this_thread();
    });
    waiting.wait(1);
    {
        std::unique_lock<std::mutex> l(m);
        flag = true;
    }
    cv.notify_one();
    t.join();
    vp_reach("done");
    vp_final();
    VP_ASSERT(woken, "the notification reaches the thread that waits");
    vp_stop();
}

void futures()
{
    vp_expect("done");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    unsigned how = vp_choice(4);
    tpp::promise<int> p;
    auto f = p.get_future();
    auto s = tpp::promise<int>();
    auto sf = s.get_future().share();
    bool caught = false;
    tpp::invoke(me, [] { throw boom{1}; });
    vp_timeouts(0, 0);
    try
    {
        if(how == 0) f.wait();
        if(how == 1) f.wait_for(1000h);
        if(how == 2) sf.wait();
        if(how == 3) sf.get();
    }
    catch(const boom&)
    {
        caught = true;
    }
    VP_ASSERT(caught, "the exception arrives");
    settled("depth is back");
    int got = 0, got2 = 0;
    vp_start();
    std::thread t([&] {
        p.set_value(5);
        s.set_value(6);
    });
    got = f.get();
    got2 = sf.get();
    t.join();
    vp_reach("done");
    vp_final();
    VP_ASSERT(got == 5 && got2 == 6, "the results arrive later");
    vp_stop();
}

void mutexes()
{
    vp_expect("done");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    tpp::mutex m;
    latch locked, release;
    int in = 0;
    bool caught = false, both = false;
    std::thread owner([&] {
        tpp::this_thread::register_this_thread();
        m.lock();
        locked.hit();
        release.wait(1);
        m.unlock();
        tpp::this_thread::unregister_this_thread();
    });
    locked.wait(1);
    tpp::invoke(me, [] { throw boom{1}; });
    vp_timeouts(0, 0);
    try
    {
        m.lock();
    }
    catch(const boom&)
    {
        caught = true;
    }
    VP_ASSERT(caught, "the exception arrives");
    settled("depth is back");
    VP_ASSERT(!m.try_lock(), "still owned by the other thread");
    vp_start();
    std::thread other([&] {
        tpp::this_thread::register_this_thread();
        m.lock();
        if(in++) both = true;
        in--;
        m.unlock();
        tpp::this_thread::unregister_this_thread();
    });
    release.hit();
    m.lock();
    if(in++) both = true;
    in--;
    m.unlock();
    other.join();
    owner.join();
    vp_reach("done");
    vp_final();
    VP_ASSERT(!both, "exclusive");
    vp_stop();
}

void nested()
{
    vp_expect("handled");
    vp_expect("passed on");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    bool handle = vp_choice(2), blocking = vp_choice(2);
    int inner = 0, after = 0, caught = 0;
    uint32_t d0 = 9, d1 = 9, d2 = 9;
    size_t count = 99;
    tpp::invoke(me, [&] {
        d0 = tpp::this_thread::get_depth();
        try
        {
            if(blocking)
                tpp::this_thread::wait();
            else
                tpp::this_thread::process();
        }
        catch(const boom&)
        {
            d2 = tpp::this_thread::get_depth();
            count = tpp::get_pending_task_count(me);
            if(!handle) throw;
        }
    });
    tpp::invoke(me, [&] {
        d1 = tpp::this_thread::get_depth();
        inner++;
        throw boom{1};
    });
    tpp::invoke(me, [&] { after++; });
    for(int k = 0; k < 2; k++)
    {
        try
        {
            tpp::this_thread::process();
        }
        catch(const boom&)
        {
            caught++;
        }
        settled("depth is back");
    }
    vp_reach(handle ? "handled" : "passed on");
    VP_ASSERT(d0 == 1 && d1 == 2 && d2 == 1, "nesting depth");
    VP_ASSERT(count == 2, "outer task and remaining one pending");
    VP_ASSERT(inner == 1 && after == 1 && caught == !handle, "each task once");
    VP_ASSERT(tpp::get_pending_task_count(me) == 0, "nothing left");
    vp_stop();
}

void racing()
{
    vp_expect("done");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    int ran = 0, caught = 0, second = 0;
    vp_timeouts(0, 0);
    vp_start();
    std::thread t([&] {
        tpp::invoke(me, [&] {
            ran++;
            throw boom{1};
        });
        tpp::invoke(me, [&] { second++; });
    });
    while(!second)
    {
        try
        {
            tpp::this_thread::wait();
        }
        catch(const boom&)
        {
            caught++;
        }
    }
    size_t left = tpp::get_pending_task_count(me);
    uint32_t d = tpp::this_thread::get_depth();
    t.join();
    vp_reach("done");
    vp_final();
    VP_ASSERT(ran == 1 && caught == 1 && second == 1, "each task once");
    VP_ASSERT(left == 0 && d == 0 && vp_held() == 0, "nothing left behind");
    vp_stop();
}

struct ender
{
    std::function<void()> f;
    ~ender() { f(); }
};

void destructor()
{
    vp_expect("done");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    unsigned what = vp_choice(4);
    int ended = 0, extra = 0, caught = 0;
    uint32_t held = 9;
    auto e = std::make_shared<ender>();
    e->f = [&] {
        held = vp_held();
        if(what == 0) tpp::invoke(me, [&] { extra++; });
        if(what == 1) tpp::get_pending_task_count(me);
        if(what == 2) tpp::notify(me);
        if(what == 3) tpp::this_thread::process();
        ended++;
    };
    tpp::invoke(me, [k = std::move(e)] { throw boom{1}; });
    try
    {
        tpp::this_thread::process();
    }
    catch(const boom&)
    {
        caught++;
    }
    settled("depth is back");
    tpp::this_thread::process();
    vp_reach("done");
    VP_ASSERT(caught == 1 && ended == 1, "destroyed once");
    VP_ASSERT(held == 0, "without a lock");
    VP_ASSERT(what != 0 || extra == 1, "the posted task is executed");
    vp_stop();
}

void repeated()
{
    vp_expect("done");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    std::mutex m;
    tpp::condition_variable cv;
    bool flag = false;
    int caught = 0;
    vp_timeouts(0, 0);
    tpp::invoke(me, [] { throw boom{1}; });
    tpp::invoke(me, [] { throw boom{2}; });
    vp_start();
    std::thread t([&] {
        tpp::this_thread::register_this_thread();
        {
            std::unique_lock<std::mutex> l(m);
            flag = true;
        }
        cv.notify_one();
        tpp::this_thread::unregister_this_thread();
    });
    {
        std::unique_lock<std::mutex> l(m);
        while(!flag || caught < 2)
        {
            try
            {
                cv.wait(l);
            }
            catch(const boom&)
            {
                caught++;
            }
            if(flag && caught < 2) l.unlock(), l.lock(), tpp::notify(me);
        }
    }
    t.join();
    vp_reach("done");
    vp_final();
    VP_ASSERT(caught == 2 && vp_held() == 0, "both exceptions, the wait works on");
    vp_stop();
}

void inline_run()
{
    vp_expect("done");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    unsigned how = vp_choice(3);
    int caught = 0;
    bool error = false;
    if(how == 0)
    {
        try
        {
            tpp::dispatch(me, [] { throw boom{1}; });
        }
        catch(const boom&)
        {
            caught++;
        }
        error = true;
    }
    if(how == 1)
    {
        auto f = tpp::async(me, [] { throw boom{1}; });
        f.wait();
        error = f.has_error();
        try
        {
            f.get();
        }
        catch(const boom&)
        {
            caught++;
        }
    }
    if(how == 2)
    {
        auto f = tpp::make_ready_future(3).then(me, [](tpp::future<int>) -> int { throw boom{1}; });
        f.wait();
        error = f.has_error();
        try
        {
            f.get();
        }
        catch(const boom&)
        {
            caught++;
        }
    }
    vp_reach("done");
    settled("depth is back");
    VP_ASSERT(caught == 1 && error, "the exception arrives where it belongs");
    vp_stop();
}

void other_waiters()
{
    vp_expect("done");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    unsigned how = vp_choice(2), all = vp_choice(2);
    std::mutex m;
    tpp::condition_variable cv;
    bool caught = false, flag = false, woken = false;
    latch waiting;
    auto u = tpp::make_thread("u");
    settle(u);
    tpp::invoke(me, [] { throw boom{1}; });
    vp_timeouts(0, 0);
    vp_start();
    tpp::invoke(u.get_id(), [&] {
        std::unique_lock<std::mutex> l(m);
        while(!flag) cv.wait(l);
        woken = true;
        waiting.hit();
    });
    {
        std::unique_lock<std::mutex> l(m);
        try
        {
            if(how == 0) cv.wait(l);
            if(how == 1) cv.wait_for(l, 1000h);
        }
        catch(const boom&)
        {
            caught = l.owns_lock();
        }
        flag = true;
    }
    if(all)
        cv.notify_all();
    else
        cv.notify_one();
    waiting.wait(1);
    vp_reach("done");
    vp_final();
    VP_ASSERT(caught, "the exception arrives with the lock held");
    VP_ASSERT(woken, "the notification reaches the thread that waits");
    vp_stop();
}

void long_queue()
{
    vp_expect("done");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    static const int places[] = {0, 16, 255, 299};
    unsigned how = vp_choice(3);
    int at = places[vp_choice(4)];
    uint32_t v = vp_nondet_u32();
    auto bad = [=](int i) { return how == 0 || (how == 1 && i % 7 == 3) || (how == 2 && i == at); };
    int runs[300] = {};
    for(int i = 0; i < 300; i++)
        tpp::invoke(me, [&, i] {
            runs[i]++;
            if(bad(i)) throw boom{int(v + i)};
        });
    for(int i = 0; i < 300; i++)
    {
        if(!bad(i)) continue;
        bool caught = false;
        try
        {
            tpp::this_thread::process();
        }
        catch(boom& b)
        {
            caught = b.n == int(v + i);
        }
        VP_ASSERT(caught, "reaches the caller");
        VP_ASSERT(tpp::get_pending_task_count(me) == size_t(299 - i), "counts as finished");
    }
    tpp::this_thread::process();
    for(auto r : runs) VP_ASSERT(r == 1, "each once");
    settled("after all");
    vp_reach("done");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: process(); break;
        case 1: waits(); break;
        case 2: condition(); break;
        case 3: futures(); break;
        case 4: mutexes(); break;
        case 5: nested(); break;
        case 6: racing(); break;
        case 7: destructor(); break;
        case 8: repeated(); break;
        case 9: inline_run(); break;
        case 10: other_waiters(); break;
        case 11: long_queue(); break;
    }
}
