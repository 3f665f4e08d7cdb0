// C03: a blocked thread always wakes for work sent to it
//@ 0 wait against two invokers | quick | | 2 foreign threads, 1 task each, main blocked in wait(), 64-bit symbolic payloads, 1 spurious wake-up, all interleavings
//@ 1 notify ends a wait | quick | | 1 waiting thread, notify() at any moment after registration, all interleavings
//@ 2 exit notification ends a wait | quick | | 1 waiting thread, notify_for_exit() at any moment after registration, all interleavings
//@ 3 timed waits do not sleep on work | quick | | wait_for / wait_until / sleep_for (symbolic choice) with timeouts disabled against 2 tasks, all interleavings
//@ 4 every blocking call processes work | quick | | thread blocked in future, shared_future, timed future, condition, timed condition, mutex or sleep (symbolic choice), task sent at any moment, all interleavings
//@ 5 thread not yet running | quick | | tasks and notify sent right after construction of a loop thread, all interleavings
//@ 6 nested waits | quick | | a task that waits inside wait(), 2 foreign tasks, all interleavings
//@ 7 two targets | quick | | 2 loop threads, one task each handing work to the other, all interleavings
//@ 8 blocking calls inside a task | quick | | a task blocked in wait, wait_for, sleep, future, timed future, condition, timed condition or mutex (symbolic choice) with another task already queued and a third one sent at any moment, all interleavings
//@ 9 work queued before the wait | quick | | 1..3 tasks, notify or exit notification pending before wait, wait_for, wait_until (symbolic choice), plain or nested in a task
#include "common.h"
using namespace std::chrono_literals;

namespace
{
void two_invokers()
{
    vp_expect("woke");
    tpp::init();
    auto id = tpp::this_thread::get_id();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    digest d;
    int n = 0;
    vp_spurious(1);
    vp_start();
    std::thread p([&] { tpp::invoke(id, [&, a] { d.add(a); n++; }); });
    std::thread q([&] { tpp::invoke(id, [&, b] { d.add(b); n++; }); });
    int waits = 0;
    while(n < 2)
    {
        tpp::this_thread::wait();
        waits++;
    }
    p.join();
    q.join();
    vp_final();
    VP_ASSERT(d.set == (a ^ b), "both tasks were processed by the waiting thread");
    VP_ASSERT(waits <= 3, "every return from wait() is explained by work");
    vp_reach("woke");
    vp_stop();
}

void notify_wakes()
{
    vp_expect("woke");
    tpp::init();
    latch ready;
    bool exit_seen = true;
    vp_start();
    tpp::thread t([&] {
        tpp::this_thread::register_this_thread();
        ready.hit();
        tpp::this_thread::wait();
        exit_seen = tpp::this_thread::notified_for_exit();
        tpp::this_thread::unregister_this_thread();
        ready.hit();
    });
    ready.wait(1);
    tpp::notify(t.get_id());
    ready.wait(2); // without another wake-up
    vp_end();
    VP_ASSERT(!exit_seen, "a plain notification does not ask the thread to exit");
    vp_reach("woke");
    t.join();
    tpp::shutdown();
}

void exit_wakes()
{
    vp_expect("woke");
    tpp::init();
    latch ready;
    bool exit_seen = false;
    vp_start();
    tpp::thread t([&] {
        tpp::this_thread::register_this_thread();
        ready.hit();
        tpp::this_thread::wait();
        exit_seen = tpp::this_thread::notified_for_exit();
        tpp::this_thread::unregister_this_thread();
        ready.hit();
    });
    ready.wait(1);
    tpp::notify_for_exit(t.get_id());
    ready.wait(2);
    vp_end();
    VP_ASSERT(exit_seen, "the woken thread sees the exit notification");
    vp_reach("woke");
    t.join();
    tpp::shutdown();
}

void timed()
{
    vp_expect("wait_for");
    vp_expect("wait_until");
    vp_expect("sleep_for");
    tpp::init();
    auto id = tpp::this_thread::get_id();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    digest d;
    int n = 0;
    unsigned how = vp_choice(3);
    vp_timeouts(0, 0); // no wait ever times out: a missed wake-up shows as a deadlock
    vp_start();
    std::thread p([&] {
        tpp::invoke(id, [&, a] { d.add(a); n++; });
        tpp::invoke(id, [&, b] {
            d.add(b);
            n++;
            if(how == 2) tpp::notify_for_exit(id);
        });
    });
    if(how == 2)
        tpp::this_thread::sleep_for(5s); // ended by the exit notification
    else
        while(n < 2)
        {
            auto r = how == 0 ? tpp::this_thread::wait_for(5s) : tpp::this_thread::wait_until(tpp::clock::now() + 5s);
            VP_ASSERT(r == std::cv_status::no_timeout, "woken by work, not by the deadline");
        }
    p.join();
    vp_final();
    VP_ASSERT(n == 2 && d.seq == (((a << 9) | (a >> 55)) ^ b), "both tasks were processed in order");
    vp_reach(how == 0 ? "wait_for" : how == 1 ? "wait_until" : "sleep_for");
    vp_stop();
}

void blocking_calls()
{
    static const char* names[] = {"future", "shared_future", "timed future", "condition", "timed condition", "mutex", "sleep"};
    for(auto n : names) vp_expect(n);
    tpp::init();
    unsigned how = vp_choice(7);
    uint64_t v = vp_nondet_u64(), got = 0;
    tpp::promise<int> p;
    auto f = p.get_future();
    tpp::promise<int> ps;
    auto sf = ps.get_future().share();
    std::mutex m;
    tpp::condition_variable cv;
    bool flag = false;
    tpp::mutex tm;
    latch l;
    tm.lock();
    vp_timeouts(0, 0);
    vp_start();
    tpp::thread t([&] {
        tpp::this_thread::register_this_thread();
        switch(how)
        {
            case 0: f.wait(); break;
            case 1: sf.wait(); break;
            case 2: f.wait_for(100s); break;
            case 3:
            {
                std::unique_lock<std::mutex> lk(m);
                while(!flag) cv.wait(lk);
                break;
            }
            case 4:
            {
                std::unique_lock<std::mutex> lk(m);
                while(!flag) cv.wait_for(lk, 100s);
                break;
            }
            case 5:
                tm.lock();
                tm.unlock();
                break;
            case 6: tpp::this_thread::sleep_for(100s); break;
        }
        tpp::this_thread::unregister_this_thread();
    });
    bool ok = tpp::invoke(t.get_id(), [&, v] {
        got = v;
        l.hit();
    });
    VP_ASSERT(ok, "accepted");
    l.wait(1); // the task runs although the thread stays blocked
    VP_ASSERT(got == v, "the blocked thread processed the task");
    vp_reach(names[how]);
    vp_final();
    vp_stop();
}

void not_running_yet()
{
    vp_expect("done");
    tpp::init();
    latch l;
    uint64_t v = vp_nondet_u64(), got = 0;
    vp_start();
    auto t = tpp::make_thread("t");
    bool ok = tpp::invoke(t.get_id(), [&, v] {
        got = v;
        l.hit();
    });
    VP_ASSERT(ok, "a thread object's id accepts tasks as soon as it is constructed");
    l.wait(1);
    VP_ASSERT(got == v, "processed");
    tpp::notify(t.get_id());
    vp_reach("done");
    t.join();
    vp_end();
    tpp::shutdown();
}

void nested_waits()
{
    vp_expect("done");
    tpp::init();
    auto id = tpp::this_thread::get_id();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    digest d;
    int n = 0;
    vp_start();
    std::thread p([&] {
        tpp::invoke(id, [&, a] {
            d.add(a);
            n++;
            while(n < 2) tpp::this_thread::wait(); // ended by the second task
        });
    });
    std::thread q([&] { tpp::invoke(id, [&, b] { d.add(b); n++; }); });
    while(n < 2) tpp::this_thread::wait();
    p.join();
    q.join();
    vp_final();
    VP_ASSERT(d.set == (a ^ b) && n == 2, "both tasks were processed");
    vp_reach("done");
    vp_stop();
}

void two_targets()
{
    vp_expect("done");
    tpp::init();
    auto t = tpp::make_thread("t");
    auto u = tpp::make_thread("u");
    auto idt = t.get_id(), idu = u.get_id();
    settle(t);
    settle(u);
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    uint64_t ra = 0, rb = 0;
    latch l;
    vp_start();
    tpp::invoke(idt, [&, a] { tpp::invoke(idu, [&, a] { ra = a; l.hit(); }); });
    tpp::invoke(idu, [&, b] { tpp::invoke(idt, [&, b] { rb = b; l.hit(); }); });
    l.wait(2);
    vp_final();
    VP_ASSERT(ra == a && rb == b, "work handed over between blocked threads arrives");
    vp_reach("done");
    vp_stop();
}
void blocked_task()
{
    static const char* names[] = {"wait", "wait_for", "sleep", "future", "timed future", "condition", "timed condition", "mutex"};
    for(auto n : names) vp_expect(n);
    tpp::init();
    unsigned how = vp_choice(8);
    uint64_t v = vp_nondet_u64(), w = vp_nondet_u64(), gotv = 0, gotw = 0;
    tpp::promise<int> p;
    auto f = p.get_future();
    std::mutex m;
    tpp::condition_variable cv;
    bool flag = false;
    tpp::mutex tm;
    latch l, go;
    tm.lock();
    vp_timeouts(0, 0);
    auto t = tpp::make_thread("t");
    settle(t);
    auto id = t.get_id();
    // one batch: the gate, the blocking task and a task behind it
    tpp::invoke(id, [&] { go.wait(1); });
    tpp::invoke(id, [&] {
        switch(how)
        {
            case 0: tpp::this_thread::wait(); tpp::this_thread::wait(); break;
            case 1: tpp::this_thread::wait_for(100s); tpp::this_thread::wait_for(100s); break;
            case 2: tpp::this_thread::sleep_for(100s); break;
            case 3: f.wait(); break;
            case 4: f.wait_for(100s); break;
            case 5:
            {
                std::unique_lock<std::mutex> lk(m);
                while(!flag) cv.wait(lk);
                break;
            }
            case 6:
            {
                std::unique_lock<std::mutex> lk(m);
                while(!flag) cv.wait_for(lk, 100s);
                break;
            }
            case 7:
                tm.lock();
                tm.unlock();
                break;
        }
    });
    tpp::invoke(id, [&, v] {
        gotv = v;
        l.hit();
    });
    vp_start();
    go.hit();
    bool ok = tpp::invoke(id, [&, w] {
        gotw = w;
        l.hit();
    });
    l.wait(2); // both run although their thread stays blocked in the first task
    VP_ASSERT(ok, "accepted");
    vp_reach(names[how]);
    vp_final();
    VP_ASSERT(gotv == v && gotw == w, "the blocked task processed what was queued");
    vp_stop();
}

void queued_before()
{
    vp_expect("tasks");
    vp_expect("notify");
    vp_expect("exit");
    tpp::init();
    vp_timeouts(0, 0);
    auto id = tpp::this_thread::get_id();
    unsigned what = vp_choice(5); // 0..2: tasks, 3: notify, 4: exit
    unsigned how = vp_choice(3);
    bool nested = vp_choice(2);
    int ran = 0;
    auto fill = [&] {
        if(what < 3)
            for(unsigned i = 0; i <= what; i++) tpp::invoke(id, [&] { ran++; });
        else if(what == 3)
        {
            // from another thread: notify() on the own thread has nothing to wake
            std::thread n([&] { tpp::notify(id); });
            n.join();
        }
        else
            tpp::notify_for_exit(id);
    };
    auto wait = [&] {
        // none of these may block
        for(unsigned i = 0; i <= (what < 3 ? what : 0); i++)
        {
            std::cv_status r = std::cv_status::no_timeout;
            if(how == 0)
                tpp::this_thread::wait();
            else if(how == 1)
                r = tpp::this_thread::wait_for(5s);
            else
                r = tpp::this_thread::wait_until(tpp::clock::now() + 5s);
            VP_ASSERT(r == std::cv_status::no_timeout, "work was waiting");
        }
        VP_ASSERT(ran == (what < 3 ? (int)what + 1 : 0), "one task per wait");
    };
    if(nested)
    {
        bool in = vp_nondet_bool();
        bool done = false;
        tpp::invoke(id, [&] {
            if(in) fill();
            wait();
            done = true;
        });
        if(!in) fill();
        if(what == 4 && !in)
        {
            VP_ASSERT(tpp::this_thread::notified_for_exit(), "asked to exit");
            done = true; // the task is not required to run any more
        }
        else
            tpp::this_thread::wait();
        VP_ASSERT(done, "the task finished");
    }
    else
    {
        fill();
        wait();
    }
    vp_reach(what < 3 ? "tasks" : what == 3 ? "notify" : "exit");
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: two_invokers(); break;
        case 1: notify_wakes(); break;
        case 2: exit_wakes(); break;
        case 3: timed(); break;
        case 4: blocking_calls(); break;
        case 5: not_running_yet(); break;
        case 6: nested_waits(); break;
        case 7: two_targets(); break;
        case 8: blocked_task(); break;
        case 9: queued_before(); break;
    }
}
