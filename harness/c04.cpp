// C04: exit notification always ends the thread; join and destruction return
//@ 0 join of a loop thread | quick | | join() from the moment of construction on, all interleavings
//@ 1 exit during any blocking call | quick | | exit notification at any moment against future, shared_future, timed future, condition, timed condition, wait, timed wait or sleep (symbolic choice), all interleavings
//@ 2 destruction and move | quick | | destructor, move assignment, swap of joinable threads (symbolic choice), all interleavings
//@ 3 queued tasks are released | quick | | 3 queued tasks, one of the first two (symbolic) asks for exit, all interleavings with join
//@ 4 thread function without unregistration | quick | | user thread function that registers or not and never unregisters (symbolic choice), all interleavings
//@ 5 exit while nested | quick | | a loop thread blocked inside 1 or 2 nested tasks (symbolic choice), all interleavings
//@ 6 concurrent notifications | quick | | 2 threads notifying for exit, main joining, all interleavings
//@ 7 exit before blocking | quick | | 8 blocking calls entered after the notification, in symbolic order of choice
//@ 8 exit while processing | quick | | process, process_for or sleep_for (symbolic) with 3 tasks queued, one of them (symbolic) or a foreign thread asks for exit, all interleavings
//@ 9 long queues | quick |  | 300 tasks queued behind a running one; exit by join, destruction or request while it runs, which then processes, sleeps or returns (symbolic), one schedule
#include "common.h"
using namespace std::chrono_literals;

namespace
{
const char* const blk_names[] = {"future", "shared future", "timed future", "condition", "timed condition", "wait", "timed wait", "sleep"};

struct blockers
{
    tpp::promise<int> p, ps;
    tpp::future<int> f = p.get_future();
    tpp::shared_future<int> sf = ps.get_future().share();
    std::mutex m;
    tpp::condition_variable cv;

    // blocks in one library call that nothing but the exit notification ends
    void block(unsigned how)
    {
        using namespace tpp;
        switch(how)
        {
            case 0: f.wait(); break;
            case 1: sf.wait(); break;
            case 2:
            {
                auto r = f.wait_for(100s);
                VP_ASSERT(r != std::future_status::ready, "no result was set");
                break;
            }
            case 3:
            {
                std::unique_lock<std::mutex> lk(m);
                cv.wait(lk);
                VP_ASSERT(lk.owns_lock(), "the lock is held after the wait");
                break;
            }
            case 4:
            {
                std::unique_lock<std::mutex> lk(m);
                cv.wait_for(lk, 100s);
                VP_ASSERT(lk.owns_lock(), "the lock is held after the wait");
                break;
            }
            case 5:
                while(!this_thread::notified_for_exit()) this_thread::wait();
                break;
            case 6:
                while(!this_thread::notified_for_exit()) this_thread::wait_for(100s);
                break;
            case 7: this_thread::sleep_for(100s); break;
        }
    }
};

void gone(tpp::thread::id id)
{
    VP_ASSERT(!contains(tpp::get_all_registered_threads(), id), "a joined thread is not registered any more");
    VP_ASSERT(!tpp::invoke(id, [] {}), "a joined thread accepts no tasks");
}

void join_loop()
{
    vp_expect("joined");
    tpp::init();
    vp_start();
    auto t = tpp::make_thread("t");
    auto id = t.get_id();
    t.join();
    gone(id);
    vp_reach("joined");
    vp_end();
    VP_ASSERT(tpp::get_all_registered_threads().size() == 1, "only the main thread is left");
    VP_ASSERT(tpp::shutdown() == 0, "nothing is left to wait for");
}

void blocked()
{
    for(auto n : blk_names) vp_expect(n);
    tpp::init();
    unsigned how = vp_choice(8);
    auto b = std::make_shared<blockers>();
    bool seen = false;
    vp_timeouts(0, 0);
    vp_start();
    {
        tpp::thread t([&] {
            tpp::this_thread::register_this_thread();
            b->block(how);
            seen = tpp::this_thread::notified_for_exit();
            tpp::this_thread::unregister_this_thread();
        });
        auto id = t.get_id();
        t.join();
        VP_ASSERT(seen, "the thread observes the exit notification");
        gone(id);
    }
    vp_reach(blk_names[how]);
    vp_end();
}

void destroy_move()
{
    vp_expect("destroyed");
    vp_expect("assigned");
    vp_expect("swapped");
    tpp::init();
    unsigned how = vp_choice(3);
    tpp::thread::id a = 0, b = 0;
    vp_start();
    {
        auto t = tpp::make_thread("a");
        a = t.get_id();
        if(how == 1)
        {
            auto u = tpp::make_thread("b");
            b = u.get_id();
            t = std::move(u);
            VP_ASSERT(t.get_id() == b && t.joinable(), "assignment transfers the thread and its id");
            VP_ASSERT(!u.joinable(), "the source is left without a thread");
            gone(a);
            VP_ASSERT(contains(tpp::get_all_registered_threads(), b), "the assigned thread keeps running");
            vp_reach("assigned");
        }
        else if(how == 2)
        {
            tpp::thread u;
            u.swap(t);
            VP_ASSERT(u.get_id() == a && !t.joinable(), "swap transfers the thread and its id");
            u.join();
            gone(a);
            vp_reach("swapped");
        }
        else
            vp_reach("destroyed");
    }
    vp_end();
    gone(a);
    if(b) gone(b);
    VP_ASSERT(tpp::get_all_registered_threads().size() == 1, "only the main thread is left");
}

void queued()
{
    vp_expect("first asks");
    vp_expect("second asks");
    vp_expect("join first");
    tpp::init();
    unsigned who = vp_choice(2);
    auto alive = std::make_shared<int>(0);
    uint32_t runs[3] = {};
    {
        auto t = tpp::make_thread("t");
        auto id = t.get_id();
        settle(t);
        latch gate;
        // hold the thread in a task until three more are queued behind it
        tpp::invoke(id, [&gate] { gate.wait(1); });
        for(unsigned i = 0; i < 3; i++)
            tpp::invoke(id, [&, i, alive] {
                runs[i]++;
                if(i == who) tpp::notify_for_exit(id);
            });
        vp_start();
        gate.hit();
        t.join();
        vp_end();
        gone(id);
    }
    VP_ASSERT(runs[0] <= 1 && runs[1] <= 1, "no task runs twice");
    VP_ASSERT(runs[2] == 0, "no task starts after the thread was asked to exit by an earlier one");
    if(who == 0) VP_ASSERT(runs[1] == 0, "no task starts after the thread was asked to exit by an earlier one");
    VP_ASSERT(alive.use_count() == 1, "queued tasks are released");
    if(!runs[0])
        vp_reach("join first");
    else
        vp_reach(who == 0 ? "first asks" : "second asks");
    VP_ASSERT(tpp::shutdown() == 0, "nothing is left to wait for");
}

void no_unregister()
{
    vp_expect("registering");
    vp_expect("plain");
    tpp::init();
    bool reg = vp_nondet_bool();
    bool seen = true;
    vp_start();
    {
        tpp::thread t([&] {
            if(reg)
            {
                tpp::this_thread::register_this_thread();
                while(!tpp::this_thread::notified_for_exit()) tpp::this_thread::wait();
            }
        });
        auto id = t.get_id();
        t.join();
        gone(id);
    }
    vp_reach(reg ? "registering" : "plain");
    vp_end();
    VP_ASSERT(seen && tpp::get_all_registered_threads().size() == 1, "only the main thread is left");
    VP_ASSERT(tpp::shutdown() == 0, "nothing is left to wait for");
}

void nested()
{
    vp_expect("one level");
    vp_expect("two levels");
    tpp::init();
    bool two = vp_nondet_bool();
    auto b = std::make_shared<blockers>();
    {
        auto t = tpp::make_thread("t");
        auto id = t.get_id();
        settle(t);
        tpp::invoke(id, [&] { b->sf.wait(); });
        vp_start();
        if(two)
            tpp::invoke(id, [&] {
                std::unique_lock<std::mutex> lk(b->m);
                b->cv.wait(lk);
            });
        t.join();
        vp_end();
        gone(id);
    }
    vp_reach(two ? "two levels" : "one level");
    VP_ASSERT(tpp::shutdown() == 0, "nothing is left to wait for");
}

void concurrent()
{
    vp_expect("joined");
    tpp::init();
    auto t = tpp::make_thread("t");
    auto id = t.get_id();
    settle(t);
    vp_start();
    std::thread a([&] { tpp::notify_for_exit(id); });
    std::thread b([&] { tpp::notify_for_exit(id); });
    t.join();
    a.join();
    b.join();
    vp_end();
    gone(id);
    vp_reach("joined");
    VP_ASSERT(tpp::shutdown() == 0, "nothing is left to wait for");
}

void notified_before()
{
    for(auto n : blk_names) vp_expect(n);
    tpp::init();
    unsigned first = vp_choice(8), second = vp_choice(8);
    auto b = std::make_shared<blockers>();
    vp_timeouts(0, 0);
    vp_start();
    {
        latch l;
        tpp::thread t([&] {
            tpp::this_thread::register_this_thread();
            l.wait(1);
            b->block(first);
            b->block(second);
            tpp::this_thread::unregister_this_thread();
        });
        tpp::notify_for_exit(t.get_id());
        l.hit();
        t.join();
    }
    vp_reach(blk_names[first]);
    vp_end();
    VP_ASSERT(tpp::shutdown() == 0, "nothing is left to wait for");
}

void while_processing()
{
    vp_expect("by a task");
    vp_expect("by another thread");
    vp_expect("too late");
    tpp::init();
    unsigned how = vp_choice(3), who = vp_choice(4);
    auto alive = std::make_shared<int>(0);
    uint32_t runs[3] = {}, later = 0;
    bool posted = true;
    tpp::thread::id id{};
    latch ready;
    vp_timeouts(0, 0);
    vp_start();
    {
        tpp::thread t([&, alive]() {
            tpp::this_thread::register_this_thread();
            auto me = tpp::this_thread::get_id();
            for(unsigned i = 0; i < 3; i++)
                posted &= tpp::invoke(me, [&, i, alive] {
                    runs[i]++;
                    if(i == who) tpp::notify_for_exit(id);
                });
            id = me;
            ready.hit();
            for(int k = 0; k < 2; k++)
            {
                if(how == 0) tpp::this_thread::process();
                if(how == 1) tpp::this_thread::process_for(1h);
                if(how == 2) tpp::this_thread::sleep_for(1000h);
                if(k == 0) later = runs[0] + runs[1] + runs[2];
            }
            tpp::this_thread::unregister_this_thread();
        });
        ready.wait(1);
        if(who == 3) tpp::notify_for_exit(id);
        t.join();
    }
    if(who < 3 && runs[who]) vp_reach("by a task");
    if(who == 3) vp_reach(runs[2] ? "too late" : "by another thread");
    vp_final();
    VP_ASSERT(posted, "the tasks are accepted");
    for(unsigned i = 0; i < 3; i++) VP_ASSERT(runs[i] <= 1, "no task runs twice");
    if(who < 3)
        for(unsigned i = who + 1; i < 3; i++)
            VP_ASSERT(runs[i] == 0, "no task starts after the thread was asked to exit by an earlier one");
    if(who == 3 && how == 2) VP_ASSERT(runs[0] + runs[1] + runs[2] == later, "nothing starts in a later call");
    VP_ASSERT(alive.use_count() == 1, "queued tasks are released");
    vp_stop();
}

void long_queue()
{
    vp_expect("done");
    vp_timeouts(0, 0);
    tpp::init();
    unsigned how = vp_choice(3), then = vp_choice(3);
    auto t = std::make_unique<tpp::thread>(tpp::make_thread());
    settle(*t);
    auto id = t->get_id();
    latch running, told;
    int ran = 0, released = 0;
    tpp::invoke(id, [&] {
        running.hit();
        told.wait(1);
        while(!tpp::this_thread::notified_for_exit()) std::this_thread::yield();
        if(then == 0) tpp::this_thread::process();
        if(then == 1) tpp::this_thread::sleep_for(100s);
    });
    struct token
    {
        int* n;
        explicit token(int* k) : n(k) {}
        token(const token&) = delete;
        ~token() { ++*n; }
    };
    running.wait(1);
    for(int i = 0; i < 300; i++) tpp::invoke(id, [&ran, k = std::make_shared<token>(&released)] { ran++; });
    VP_ASSERT(released == 0, "none released yet");
    if(how == 0) tpp::notify_for_exit(id);
    told.hit();
    if(how == 1) t->join();
    t.reset();
    gone(id);
    VP_ASSERT(ran == 0, "no task started after the exit was observed");
    VP_ASSERT(released == 300, "all released");
    vp_reach("done");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: join_loop(); break;
        case 1: blocked(); break;
        case 2: destroy_move(); break;
        case 3: queued(); break;
        case 4: no_unregister(); break;
        case 5: nested(); break;
        case 6: concurrent(); break;
        case 7: notified_before(); break;
        case 8: while_processing(); break;
        case 9: long_queue(); break;
    }
}
