// C13: condition_variable: no notification is lost, the lock is held on return
//@ 0 notify_one against one waiter | quick | | predicate loop or single wait, wait or wait_for (symbolic choice), all interleavings
//@ 1 notify_all against two waiters | quick | --merge 2 | 2 waiting threads and main notifying after setting the condition, all interleavings
//@ 2 notify_one per waiter | quick | --merge 2 | 2 consumers, 2 items, one notify_one per item, all interleavings
//@ 3 notification racing with a timeout | quick | | 1 timed and 1 untimed waiter, 1 notify_one, timeout at any moment, all interleavings
//@ 4 lock held on every return | quick | | notified, timed out, exit, task processed (symbolic choice), all interleavings
//@ 5 nested wait on the same variable | quick | | a task run by the waiter waits on the same variable, timed or untimed, all interleavings
//@ 6 notifier under the lock | quick | | notify_one/notify_all (symbolic choice) while holding the user lock, 2 waiters, all interleavings
//@ 7 producer and consumer | quick | | bounded hand-over of 2 symbolic 64-bit items through 2 condition variables, all interleavings
//@ 8 notification without waiters | quick | | stale notifications before the wait do not end it, tasks do not end it, all interleavings
//@ 9 notification after a wake-up | quick | --merge 2 | a waiter woken by notify_one/notify_all (symbolic) is not counted as waiting when the next one is notified by notify_one, all interleavings
//@ 10 many waiters | quick |  | 6 loop threads waiting, notify_all or 6 times notify_one (symbolic), one schedule
#include "common.h"
using namespace std::chrono_literals;

namespace
{
// a registered thread running f
template<class F>
tpp::thread worker(F f)
{
    return tpp::thread([f]() mutable {
        tpp::this_thread::register_this_thread();
        f();
        tpp::this_thread::unregister_this_thread();
    });
}

void one_waiter()
{
    vp_expect("wait");
    vp_expect("wait_for");
    vp_expect("single");
    tpp::init();
    unsigned how = vp_choice(3);
    std::mutex m;
    tpp::condition_variable cv;
    bool flag = false, ready = false;
    latch done;
    vp_timeouts(0, 0);
    vp_start();
    auto t = worker([&] {
        std::unique_lock<std::mutex> lk(m);
        ready = true;
        if(how == 2)
        {
            if(!flag) cv.wait(lk);
        }
        else
            while(!flag)
            {
                if(how == 0)
                    cv.wait(lk);
                else
                    VP_ASSERT(cv.wait_for(lk, 5s) == std::cv_status::no_timeout, "woken by the notification");
            }
        VP_ASSERT(lk.owns_lock(), "the lock is held on return");
        VP_ASSERT(flag, "a wait without tasks ends only by its notification");
        done.hit();
    });
    {
        std::unique_lock<std::mutex> lk(m);
        flag = true;
    }
    cv.notify_one();
    done.wait(1);
    vp_reach(how == 0 ? "wait" : how == 1 ? "wait_for" : "single");
    vp_final();
    vp_stop();
}

void notify_all_two()
{
    vp_expect("both");
    tpp::init();
    std::mutex m;
    tpp::condition_variable cv;
    bool flag = false;
    latch done;
    vp_start();
    auto body = [&] {
        std::unique_lock<std::mutex> lk(m);
        while(!flag) cv.wait(lk);
        done.hit();
    };
    auto t = worker(body);
    auto u = worker(body);
    {
        std::unique_lock<std::mutex> lk(m);
        flag = true;
    }
    cv.notify_all();
    done.wait(2);
    vp_reach("both");
    vp_final();
    vp_stop();
}

void one_each()
{
    vp_expect("both");
    tpp::init();
    uint64_t v[2] = {vp_nondet_u64(), vp_nondet_u64()};
    std::mutex m;
    tpp::condition_variable cv;
    int items = 0, waiting = 0;
    digest d;
    latch done;
    auto body = [&] {
        std::unique_lock<std::mutex> lk(m);
        waiting++;
        while(items == 0) cv.wait(lk);
        items--;
        d.add(v[items]);
        done.hit();
    };
    auto t = tpp::make_thread("t");
    auto u = tpp::make_thread("u");
    settle(t);
    settle(u);
    vp_start();
    tpp::invoke(t.get_id(), body);
    tpp::invoke(u.get_id(), body);
    for(int i = 0; i < 2; i++)
    {
        {
            std::unique_lock<std::mutex> lk(m);
            items++;
        }
        cv.notify_one();
    }
    done.wait(2);
    vp_final();
    VP_ASSERT(items == 0 && waiting == 2, "both consumers went on");
    VP_ASSERT(d.set == (v[0] ^ v[1]) || d.set == 0, "items taken");
    vp_reach("both");
    vp_stop();
}

void timeout_race()
{
    vp_expect("timed took it");
    vp_expect("untimed took it");
    vp_expect("timed out");
    tpp::init();
    std::mutex m;
    tpp::condition_variable cv;
    int waiting = 0;
    auto st = std::cv_status::no_timeout;
    bool b_woke = false, notified = false;
    latch a_done, b_done;
    vp_timeouts(1, 1);
    auto t = tpp::make_thread("t");
    auto u = tpp::make_thread("u");
    settle(t);
    settle(u);
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        std::unique_lock<std::mutex> lk(m);
        waiting++;
        st = cv.wait_for(lk, 5s);
        a_done.hit();
    });
    tpp::invoke(u.get_id(), [&] {
        std::unique_lock<std::mutex> lk(m);
        waiting++;
        cv.wait(lk);
        b_woke = true;
        b_done.hit();
    });
    {
        std::unique_lock<std::mutex> lk(m);
        notified = waiting == 2; // both wait, or one waits and the other has given up
    }
    if(notified)
    {
        cv.notify_one();
        a_done.wait(1);
        bool timed_out = st == std::cv_status::timeout;
        // the notification ended one of the two waits: if the first reports a timeout it was the second
        if(timed_out) b_done.wait(1);
        if(timed_out) vp_reach("timed out");
        vp_reach(timed_out ? "untimed took it" : "timed took it");
    }
    vp_final();
    vp_stop();
}

void lock_held()
{
    vp_expect("notified");
    vp_expect("timed out");
    vp_expect("exit");
    vp_expect("task");
    tpp::init();
    unsigned how = vp_choice(4);
    bool timed = vp_nondet_bool();
    std::mutex m;
    tpp::condition_variable cv;
    int phase = 0, runs = 0;
    uint32_t in_task = 9;
    vp_timeouts(how == 1 ? 1 : 0, 1);
    vp_start();
    auto t = worker([&] {
        std::unique_lock<std::mutex> lk(m);
        uint32_t held = vp_held();
        phase = 1;
        auto st = std::cv_status::no_timeout;
        if(timed || how == 1)
            st = cv.wait_for(lk, 5s);
        else
            cv.wait(lk);
        VP_ASSERT(lk.owns_lock() && vp_held() == held, "the lock, and nothing else, is held on return");
        phase = 2;
        if(how != 1) VP_ASSERT(st == std::cv_status::no_timeout, "no timeout reported");
        if(how == 1 && !tpp::this_thread::notified_for_exit())
        {
            VP_ASSERT(st == std::cv_status::timeout, "the timeout is reported");
            vp_reach("timed out");
        }
    });
    auto id = t.get_id();
    if(how == 3)
        tpp::invoke(id, [&] {
            in_task = vp_held();
            runs++;
        });
    if(how == 0 || how == 3)
        for(bool end = false; !end;)
        {
            {
                std::unique_lock<std::mutex> lk(m);
                end = phase != 0;
            }
            if(end)
                cv.notify_all();
            else
                vp_assume(false); // only runs in which the waiter was there first
        }
    if(how == 0 || how == 3) VP_ASSERT(phase >= 1, "waiter present");
    t.join();
    vp_end();
    VP_ASSERT(phase == 2, "the wait ended");
    VP_ASSERT(runs <= 1 && (runs == 0 || in_task == 0), "tasks run without the user's lock");
    if(how != 1) vp_reach(how == 0 ? "notified" : how == 2 ? "exit" : "task");
}

void nested()
{
    vp_expect("inner timed out");
    vp_expect("inner notified");
    vp_expect("inner untimed");
    tpp::init();
    bool timed = vp_nondet_bool();
    std::mutex m;
    tpp::condition_variable cv;
    int level = 0;
    bool outer_done = false, inner_done = false, inner_timeout = false;
    auto t = tpp::make_thread("t");
    auto id = t.get_id();
    settle(t);
    latch done;
    vp_timeouts(1, 1);
    vp_start();
    tpp::invoke(id, [&] {
        std::unique_lock<std::mutex> lk(m);
        level++;
        cv.wait(lk);
        VP_ASSERT(lk.owns_lock(), "outer wait returns with the lock");
        outer_done = true;
        done.hit();
    });
    tpp::invoke(id, [&] {
        std::unique_lock<std::mutex> lk(m);
        if(level == 0) return;
        level++;
        if(timed)
            inner_timeout = cv.wait_for(lk, 5s) == std::cv_status::timeout;
        else
            cv.wait(lk);
        VP_ASSERT(lk.owns_lock(), "nested wait returns with the lock");
        inner_done = true;
    });
    bool go = false;
    {
        std::unique_lock<std::mutex> lk(m);
        go = level == 2;
    }
    vp_assume(go);
    cv.notify_all();
    done.wait(1); // both waits end
    vp_final();
    VP_ASSERT(outer_done && inner_done, "one notify_all ends the nested and the outer wait");
    vp_reach(!timed ? "inner untimed" : inner_timeout ? "inner timed out" : "inner notified");
    vp_stop();
}

void under_lock()
{
    vp_expect("all");
    vp_expect("one");
    tpp::init();
    bool all = vp_nondet_bool();
    std::mutex m;
    tpp::condition_variable cv;
    int waiting = 0, woken = 0;
    latch done;
    auto t = tpp::make_thread("t");
    auto u = tpp::make_thread("u");
    settle(t);
    settle(u);
    auto body = [&] {
        std::unique_lock<std::mutex> lk(m);
        waiting++;
        cv.wait(lk);
        woken++;
        done.hit();
    };
    vp_start();
    tpp::invoke(t.get_id(), body);
    tpp::invoke(u.get_id(), body);
    bool go = false;
    {
        std::unique_lock<std::mutex> lk(m);
        go = waiting == 2;
        if(go)
        {
            if(all)
                cv.notify_all();
            else
                cv.notify_one();
        }
    }
    vp_assume(go);
    done.wait(all ? 2 : 1);
    vp_final();
    VP_ASSERT(all ? woken == 2 : woken == 1, "notify_all wakes all waiters, notify_one exactly one here");
    vp_reach(all ? "all" : "one");
    vp_stop();
}

void producer_consumer()
{
    vp_expect("handed over");
    tpp::init();
    uint64_t v[2] = {vp_nondet_u64(), vp_nondet_u64()};
    std::mutex m;
    tpp::condition_variable full, empty;
    uint64_t box = 0;
    bool has = false;
    digest d;
    latch done;
    auto t = tpp::make_thread("t");
    settle(t);
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        for(int i = 0; i < 2; i++)
        {
            std::unique_lock<std::mutex> lk(m);
            while(!has) full.wait(lk);
            d.add(box);
            has = false;
            empty.notify_one();
        }
        done.hit();
    });
    for(int i = 0; i < 2; i++)
    {
        std::unique_lock<std::mutex> lk(m);
        while(has) empty.wait(lk);
        box = v[i];
        has = true;
        full.notify_one();
    }
    done.wait(1);
    vp_final();
    digest w;
    w.add(v[0]);
    w.add(v[1]);
    VP_ASSERT(d.seq == w.seq, "the items arrive once and in order");
    vp_reach("handed over");
    vp_stop();
}

void stale()
{
    vp_expect("ended properly");
    tpp::init();
    std::mutex m;
    tpp::condition_variable cv;
    bool late = false, waiting = false;
    int tasks = 0;
    vp_start();
    cv.notify_one(); // nobody waits
    cv.notify_all();
    auto t = worker([&] {
        std::unique_lock<std::mutex> lk(m);
        waiting = true;
        cv.wait(lk);
        VP_ASSERT(late, "neither a stale notification nor a processed task ends the wait");
    });
    tpp::invoke(t.get_id(), [&] { tasks++; });
    tpp::notify(t.get_id());
    bool go = false;
    {
        std::unique_lock<std::mutex> lk(m);
        go = waiting;
        late = true;
    }
    vp_assume(go);
    cv.notify_one();
    t.join();
    vp_end();
    vp_reach("ended properly");
}

void after_wake()
{
    vp_expect("both");
    tpp::init();
    unsigned all = vp_choice(2);
    std::mutex m;
    tpp::condition_variable cv;
    bool flag[2] = {};
    latch waiting, done;
    auto t = tpp::make_thread("t");
    auto u = tpp::make_thread("u");
    settle(t);
    settle(u);
    auto body = [&](int i) {
        return [&, i] {
            std::unique_lock<std::mutex> lk(m);
            waiting.hit();
            while(!flag[i]) cv.wait(lk);
            done.hit();
        };
    };
    vp_timeouts(0, 0);
    vp_start();
    tpp::invoke(t.get_id(), body(0));
    waiting.wait(1);
    {
        std::unique_lock<std::mutex> lk(m);
        flag[0] = true;
    }
    if(all)
        cv.notify_all();
    else
        cv.notify_one();
    tpp::invoke(u.get_id(), body(1));
    waiting.wait(2);
    {
        std::unique_lock<std::mutex> lk(m);
        flag[1] = true;
    }
    cv.notify_one();
    done.wait(2);
    vp_reach("both");
    vp_final();
    vp_stop();
}

void many_waiters()
{
    vp_expect("one by one");
    vp_expect("all at once");
    tpp::init();
    bool all = vp_choice(2);
    std::mutex m;
    tpp::condition_variable cv;
    latch waiting, done;
    bool go = false;
    vp_timeouts(0, 0);
    std::vector<tpp::thread> ts;
    for(int i = 0; i < 6; i++)
    {
        ts.push_back(tpp::make_thread());
        settle(ts.back());
        tpp::invoke(ts.back().get_id(), [&] {
            std::unique_lock<std::mutex> lk(m);
            waiting.hit();
            while(!go) cv.wait(lk);
            done.hit();
        });
    }
    waiting.wait(6);
    {
        std::unique_lock<std::mutex> lk(m);
        go = true;
    }
    if(all) cv.notify_all();
    for(int i = 0; i < 6 && !all; i++)
    {
        cv.notify_one();
        done.wait(i + 1);
    }
    done.wait(6);
    VP_ASSERT(done.get() == 6, "every waiter woken");
    vp_reach(all ? "all at once" : "one by one");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: one_waiter(); break;
        case 1: notify_all_two(); break;
        case 2: one_each(); break;
        case 3: timeout_race(); break;
        case 4: lock_held(); break;
        case 5: nested(); break;
        case 6: under_lock(); break;
        case 7: producer_consumer(); break;
        case 8: stale(); break;
        case 9: after_wake(); break;
        case 10: many_waiters(); break;
    }
}
