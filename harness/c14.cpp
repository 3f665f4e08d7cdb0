// C14: tpp::mutex: mutual exclusion, and every blocked lock() gets its turn
//@ 0 two threads, one section each | quick | | lock/unlock by 2 threads and main, all interleavings
//@ 1 blocked on a mutex that is released | quick | | 1 holder, 1 blocked thread, release at any moment, all interleavings
//@ 2 two blocked threads | quick | --merge 2 | 1 holder, 2 blocked threads, release at any moment, all interleavings
//@ 3 try_lock | quick | | try_lock against a concurrent holder: never blocks, fails only while held, all interleavings
//@ 4 any sequence of calls | quick | | 5 symbolic operations (lock, try_lock, unlock) by the owner or another thread, against a reference model
//@ 5 misuse against a concurrent holder | quick | | unlock by a non-owner and repeated lock by the owner, while another thread competes
//@ 6 tasks while blocked | quick | | the blocked thread processes tasks, one of them uses the same mutex, all interleavings
//@ 7 repeated sections | quick | --merge 2 | 2 threads, 2 sections each with std::lock_guard/std::unique_lock, symbolic amounts added to a plain variable
//@ 8 exit notification while blocked | quick | | the blocked thread is asked to exit before the release: it still gets the mutex and ends
//@ 9 lock with condition variable | quick | | critical section protected by tpp::mutex around a future wait, all interleavings
//@ 10 blocked lock ended by a throwing task | quick | --merge 2 | 1 holder, 2 blocked threads, one of them leaves lock() by the exception of a task at any moment around the release, all interleavings
//@ 11 many lockers | quick |  | 6 loop threads blocked on one mutex held by main, one schedule, symbolic number of sections each
#include "common.h"
using namespace std::chrono_literals;

namespace
{
template<class F>
tpp::thread worker(F f)
{
    return tpp::thread([f]() mutable {
        tpp::this_thread::register_this_thread();
        f();
        tpp::this_thread::unregister_this_thread();
    });
}

// the sections are made of two visible steps so that an overlap can be observed
struct section
{
    std::atomic<int> inside{0};
    std::atomic<int> bad{0};
    void run()
    {
        if(inside.exchange(1)) bad = 1;
        if(!inside.exchange(0)) bad = 1;
    }
};

void exclusion()
{
    vp_expect("done");
    tpp::init();
    tpp::mutex m;
    section s;
    latch done;
    vp_timeouts(0, 0);
    auto body = [&] {
        m.lock();
        s.run();
        m.unlock();
        done.hit();
    };
    auto t = tpp::make_thread("t");
    settle(t);
    vp_start();
    tpp::invoke(t.get_id(), body);
    body();
    done.wait(2);
    vp_reach("done");
    vp_final();
    VP_ASSERT(!s.bad, "one thread at a time");
    VP_ASSERT(m.try_lock(), "free afterwards");
    vp_stop();
}

void blocked()
{
    vp_expect("done");
    tpp::init();
    tpp::mutex m;
    latch done;
    bool got = false;
    vp_timeouts(0, 0);
    m.lock();
    vp_start();
    auto t = worker([&] {
        m.lock();
        got = true;
        done.hit();
    });
    m.unlock();
    done.wait(1);
    vp_reach("done");
    vp_final();
    VP_ASSERT(got, "acquired");
    VP_ASSERT(!m.try_lock(), "and held");
    vp_stop();
}

void two_blocked()
{
    vp_expect("done");
    tpp::init();
    tpp::mutex m;
    section s;
    latch done;
    vp_timeouts(0, 0);
    m.lock();
    vp_start();
    auto body = [&] {
        m.lock();
        s.run();
        m.unlock();
        done.hit();
    };
    auto t = worker(body);
    auto u = worker(body);
    m.unlock();
    done.wait(2);
    vp_reach("done");
    vp_final();
    VP_ASSERT(!s.bad, "one thread at a time");
    VP_ASSERT(m.try_lock(), "free afterwards");
    vp_stop();
}

void trying()
{
    vp_expect("failed");
    vp_expect("succeeded");
    tpp::init();
    tpp::mutex m;
    std::atomic<int> before{0}, after{0};
    section s;
    latch done;
    vp_timeouts(0, 0);
    auto t = tpp::make_thread("t");
    settle(t);
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        before = 1;
        if(m.try_lock())
        {
            s.run();
            m.unlock();
            after = 1;
        }
        done.hit();
    });
    int released = after;
    bool ok = m.try_lock();
    int started = before;
    if(ok)
    {
        s.run();
        m.unlock();
    }
    vp_reach(ok ? "succeeded" : "failed");
    done.wait(1);
    bool last = m.try_lock();
    vp_final();
    VP_ASSERT(!s.bad, "one thread at a time");
    VP_ASSERT(ok || (started && !released), "fails only while another thread holds it");
    VP_ASSERT(last, "free afterwards");
    vp_stop();
}

// reference: who holds it (0 nobody, 1 main, 2 the other thread)
void any_sequence()
{
    vp_expect("held");
    vp_expect("free");
    tpp::init();
    tpp::mutex m;
    auto t = tpp::make_thread("t");
    settle(t);
    int owner = 0;
    for(int i = 0; i < 5; ++i)
    {
        int who = 1 + int(vp_choice(2));
        unsigned op = vp_choice(3);
        vp_assume(!(op == 0 && owner != 0 && owner != who)); // would block
        int result = 0; // 1 ok, 2 false, 3 deadlock error, 4 other system_error
        auto act = [&] {
            try
            {
                if(op == 0)
                {
                    m.lock();
                    result = 1;
                }
                else if(op == 1)
                    result = m.try_lock() ? 1 : 2;
                else
                {
                    m.unlock();
                    result = 1;
                }
            }
            catch(const std::system_error& e)
            {
                result = e.code() == std::errc::resource_deadlock_would_occur ? 3 : 4;
            }
        };
        if(who == 1)
            act();
        else
        {
            latch l;
            tpp::invoke(t.get_id(), [&] {
                act();
                l.hit();
            });
            l.wait(1);
        }
        int expected = 1;
        if(op == 0)
        {
            if(owner == who)
                expected = 3;
            else
                owner = who;
        }
        else if(op == 1)
        {
            if(owner)
                expected = 2;
            else
                owner = who;
        }
        else
        {
            if(owner != who)
                expected = 4;
            else
                owner = 0;
        }
        VP_ASSERT(result == expected, "each call has the effect the state calls for");
    }
    bool free = m.try_lock();
    VP_ASSERT(free == (owner == 0), "final state");
    vp_reach(owner ? "held" : "free");
    vp_stop();
}

void misuse()
{
    vp_expect("unlock");
    vp_expect("relock");
    tpp::init();
    tpp::mutex m;
    section s;
    latch done;
    unsigned what = vp_choice(2);
    bool threw = false, foreign = false;
    vp_timeouts(0, 0);
    auto t = tpp::make_thread("t");
    settle(t);
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        m.lock();
        if(what == 1)
        {
            try
            {
                m.lock();
            }
            catch(const std::system_error& e)
            {
                threw = e.code() == std::errc::resource_deadlock_would_occur;
            }
        }
        s.run();
        m.unlock();
        done.hit();
    });
    if(what == 0)
    {
        try
        {
            m.unlock();
        }
        catch(const std::system_error&)
        {
            foreign = true;
        }
    }
    m.lock();
    s.run();
    m.unlock();
    done.wait(1);
    vp_reach(what == 0 ? "unlock" : "relock");
    vp_final();
    VP_ASSERT(!s.bad, "one thread at a time");
    VP_ASSERT(what != 1 || threw, "locking twice is reported");
    VP_ASSERT(what != 0 || foreign, "unlocking a foreign mutex is reported");
    VP_ASSERT(m.try_lock(), "free afterwards");
    vp_stop();
}

void with_tasks()
{
    vp_expect("inside");
    vp_expect("outside");
    tpp::init();
    tpp::mutex m;
    section s;
    latch done;
    bool inlock = false, nested = false;
    int tasks = 0;
    vp_timeouts(0, 0);
    m.lock();
    vp_start();
    auto t = worker([&] {
        inlock = true;
        m.lock();
        inlock = false;
        s.run();
        m.unlock();
        while(tasks < 1) tpp::this_thread::wait();
        done.hit();
    });
    tpp::invoke(t.get_id(), [&] {
        nested = inlock;
        m.lock();
        s.run();
        m.unlock();
        tasks++;
    });
    m.unlock();
    done.wait(1);
    vp_reach(nested ? "inside" : "outside");
    vp_final();
    VP_ASSERT(!s.bad, "one at a time");
    VP_ASSERT(tasks == 1, "the task ran");
    VP_ASSERT(m.try_lock(), "free afterwards");
    vp_stop();
}

void repeated()
{
    vp_expect("done");
    tpp::init();
    uint64_t v[4] = {vp_nondet_u64(), vp_nondet_u64(), vp_nondet_u64(), vp_nondet_u64()};
    tpp::mutex m;
    section s;
    uint64_t sum = 0;
    latch done;
    vp_timeouts(0, 0);
    auto t = tpp::make_thread("t");
    settle(t);
    auto add = [&](uint64_t x) {
        uint64_t old = sum;
        s.run();
        sum = old + x;
    };
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        {
            std::lock_guard<tpp::mutex> l(m);
            add(v[0]);
        }
        std::unique_lock<tpp::mutex> l(m);
        add(v[1]);
        l.unlock();
        done.hit();
    });
    {
        std::unique_lock<tpp::mutex> l(m);
        add(v[2]);
    }
    {
        std::lock_guard<tpp::mutex> l(m);
        add(v[3]);
    }
    done.wait(1);
    vp_reach("done");
    vp_final();
    VP_ASSERT(!s.bad, "one thread at a time");
    VP_ASSERT(sum == v[0] + v[1] + v[2] + v[3], "no update lost");
    vp_stop();
}

void exiting()
{
    vp_expect("done");
    tpp::init();
    tpp::mutex m;
    bool got = false;
    vp_timeouts(0, 0);
    m.lock();
    auto t = worker([&] {
        m.lock();
        got = true;
        m.unlock();
    });
    vp_start();
    m.unlock();
    t.join();
    vp_reach("done");
    vp_final();
    VP_ASSERT(got, "acquired");
    VP_ASSERT(m.try_lock(), "free afterwards");
    vp_stop();
}

void with_future()
{
    vp_expect("done");
    tpp::init();
    uint64_t v = vp_nondet_u64();
    tpp::mutex m;
    section s;
    uint64_t got = 0;
    tpp::promise<uint64_t> p;
    auto f = p.get_future();
    latch done;
    vp_timeouts(0, 0);
    auto t = tpp::make_thread("t");
    settle(t);
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        std::lock_guard<tpp::mutex> l(m);
        s.run();
        p.set_value(v);
        s.run();
    });
    got = f.get();
    {
        std::lock_guard<tpp::mutex> l(m);
        s.run();
    }
    vp_reach("done");
    vp_final();
    VP_ASSERT(!s.bad, "one thread at a time");
    VP_ASSERT(got == v, "value");
    vp_stop();
}

void thrown_out()
{
    vp_expect("thrown");
    vp_expect("acquired");
    tpp::init();
    tpp::mutex m;
    section s;
    latch started, done;
    bool blocked = false, thrown = false;
    vp_timeouts(0, 0);
    auto t = tpp::make_thread("t");
    auto u = tpp::make_thread("u");
    settle(t);
    settle(u);
    m.lock();
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        started.hit();
        blocked = true;
        try
        {
            m.lock();
            s.run();
            m.unlock();
        }
        catch(int)
        {
            thrown = true;
        }
        blocked = false;
        done.hit();
    });
    started.wait(1);
    tpp::invoke(u.get_id(), [&] {
        m.lock();
        s.run();
        m.unlock();
        done.hit();
    });
    tpp::invoke(t.get_id(), [&] {
        if(blocked) throw 1;
    });
    m.unlock();
    done.wait(2);
    vp_reach(thrown ? "thrown" : "acquired");
    vp_final();
    VP_ASSERT(!s.bad, "one thread at a time");
    VP_ASSERT(m.try_lock(), "free afterwards");
    vp_stop();
}

void many()
{
    vp_expect("done");
    vp_timeouts(0, 0);
    tpp::init();
    unsigned n = 1 + vp_choice(3);
    tpp::mutex m;
    section s;
    int count = 0;
    latch blocked, done;
    std::vector<tpp::thread> ts;
    m.lock();
    for(int i = 0; i < 6; i++)
    {
        ts.push_back(tpp::make_thread());
        settle(ts.back());
        tpp::invoke(ts.back().get_id(), [&] {
            blocked.hit();
            for(unsigned k = 0; k < n; k++)
            {
                m.lock();
                s.run();
                count++;
                m.unlock();
            }
            done.hit();
        });
    }
    blocked.wait(6);
    m.unlock();
    done.wait(6);
    VP_ASSERT(!s.bad && count == int(6 * n), "one at a time, all of them");
    VP_ASSERT(m.try_lock(), "free again");
    m.unlock();
    vp_reach("done");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: exclusion(); break;
        case 1: blocked(); break;
        case 2: two_blocked(); break;
        case 3: trying(); break;
        case 4: any_sequence(); break;
        case 5: misuse(); break;
        case 6: with_tasks(); break;
        case 7: repeated(); break;
        case 8: exiting(); break;
        case 9: with_future(); break;
        case 10: thrown_out(); break;
        case 11: many(); break;
    }
}
