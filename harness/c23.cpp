// C23: user code never runs under a library lock
//@ 0 task bodies | quick | | process, process_for, wait, wait_for, sleep_for, condition variable, future and mutex waits (symbolic) execute a task that calls into the library (symbolic call)
//@ 1 captured objects of executed tasks | quick | | destructor after execution calls into the library (symbolic call), in process, wait, future wait (symbolic)
//@ 2 loop thread against another thread | quick | | tasks of a loop thread and their captured objects call into the library (symbolic call) while main uses it too, all interleavings
//@ 3 tasks dropped by unregistration | quick | | 1..2 pending tasks (symbolic) are destroyed when their thread unregisters; their captured objects call into the library (symbolic call)
//@ 4 tasks dropped by an exiting thread | quick | | a task posted at any moment of the exit of a loop thread is executed or dropped; the captured object calls into the library, all interleavings
//@ 5 tasks refused | quick | | task for an unknown, invalid or exited thread (symbolic) is destroyed by the caller; the captured object calls into the library
//@ 6 continuations | quick | | set_value, set_exception, abandoned promise, already ready (symbolic) run a continuation that calls into the library, captured object included
//@ 7 continuations on another thread | quick | | attach and completion race; the continuation and its captured object call into the library, all interleavings
//@ 8 values of shared states | quick | | destructor of a stored value or exception object (symbolic) calls into the library when the last handle goes
//@ 9 results of when_all and when_any | quick | | continuation of the combined result calls into the library (symbolic call)
//@ 10 pool jobs | quick | | job body, captured object, dropped job and continuation (symbolic) call into the library and the pool (symbolic call)
//@ 11 thread functions | quick | | functions of tpp::thread and async (symbolic policy) call into the library (symbolic call)
//@ 12 this_thread calls of dropped tasks | quick | | captured object of a task dropped by unregistration calls this_thread functions, also registers anew (symbolic call), other dropped tasks before and after it
//@ 13 notification callbacks | quick | | set_value with waiters and continuations together, waiter's tasks and continuation call into the library, all interleavings
#include "common.h"
using namespace std::chrono_literals;

namespace
{
constexpr unsigned CALLS = 8;
unsigned call_;
int done_;
uint32_t held_; // locks of the harness itself held at the call
tpp::thread::id target_;

struct world
{
    tpp::promise<int> p;
    tpp::shared_future<int> f = p.get_future().share();
    tpp::condition_variable cv;
    tpp::mutex m;
    int then = 0;
};
world* w_;

// user code: no library lock is held and every call returns
void user()
{
    VP_ASSERT(vp_held() == held_, "no library lock is held");
    switch(call_)
    {
        case 0: tpp::invoke(target_, [] {}); break;
        case 1: tpp::dispatch(target_, [] {}); break;
        case 2: tpp::get_pending_task_count(target_); break;
        case 3: VP_ASSERT(tpp::get_all_registered_threads().size() < 9, "threads"); break;
        case 4:
            tpp::notify(target_);
            w_->cv.notify_all();
            break;
        case 5:
            w_->f.then(target_, [](auto f) { w_->then++; });
            break;
        case 6:
            if(!w_->f.is_ready()) w_->p.set_value(1);
            break;
        case 7:
            if(w_->m.try_lock()) w_->m.unlock();
            tpp::async(target_, [] {});
            break;
    }
    VP_ASSERT(vp_held() == held_, "nor left behind");
    done_++;
}

template<class F>
struct on_destroy
{
    F f;
    bool armed = true;
    explicit on_destroy(F x) : f(std::move(x)) {}
    on_destroy(on_destroy&& o) noexcept : f(std::move(o.f)), armed(o.armed) { o.armed = false; }
    ~on_destroy()
    {
        if(armed) f();
    }
};
template<class F>
std::shared_ptr<on_destroy<F>> at_end(F f)
{
    return std::make_shared<on_destroy<F>>(std::move(f));
}

void setup(world& w)
{
    w_ = &w;
    tpp::init();
    target_ = tpp::this_thread::get_id();
    call_ = vp_choice(CALLS);
    vp_timeouts(2, 0);
}

void block(unsigned k, world& w)
{
    std::mutex m;
    switch(k)
    {
        case 0: tpp::this_thread::process(); break;
        case 1: tpp::this_thread::process_for(1ms); break;
        case 2: tpp::this_thread::wait(); break;
        case 3: tpp::this_thread::wait_for(1ms); break;
        case 4: tpp::this_thread::sleep_for(1ms); break;
        case 5:
        {
            std::unique_lock<std::mutex> l(m);
            w.cv.wait_for(l, 1ms);
            break;
        }
        case 6: w.f.wait_for(1ms); break;
        case 7:
        {
            tpp::promise<int> p;
            auto f = p.get_future();
            tpp::invoke(tpp::this_thread::get_id(), [&p] { p.set_value(1); });
            f.wait();
            break;
        }
    }
}

void bodies()
{
    vp_expect("done");
    static world w;
    setup(w);
    unsigned k = vp_choice(9);
    tpp::invoke(target_, [] { user(); });
    if(k < 8)
        block(k, w);
    else
    {
        // another thread holds the mutex; released by the second task
        tpp::mutex m;
        latch l, u;
        std::thread o([&] {
            tpp::this_thread::register_this_thread();
            m.lock();
            l.hit();
            u.wait(1);
            m.unlock();
            tpp::this_thread::unregister_this_thread();
        });
        l.wait(1);
        tpp::invoke(target_, [&] { u.hit(); });
        m.lock();
        m.unlock();
        o.join();
    }
    VP_ASSERT(done_ == 1, "the task ran");
    VP_ASSERT(vp_held() == 0, "nothing is held afterwards");
    vp_reach("done");
    vp_stop();
}

void captured()
{
    vp_expect("done");
    static world w;
    setup(w);
    unsigned k = vp_choice(8);
    tpp::invoke(target_, [c = at_end([] { user(); })] { user(); });
    block(k, w);
    VP_ASSERT(done_ == 2, "task and captured object");
    VP_ASSERT(vp_held() == 0, "nothing is held afterwards");
    vp_reach("done");
    vp_stop();
}

void loop_thread()
{
    vp_expect("done");
    static world w;
    setup(w);
    bool own = vp_choice(2);
    tpp::thread t = tpp::make_thread("t");
    settle(t);
    if(own) target_ = t.get_id();
    latch l;
    vp_timeouts(0, 0);
    vp_start();
    tpp::invoke(t.get_id(), [c = at_end([&l] {
                                 user();
                                 l.hit();
                             })] { user(); });
    tpp::get_pending_task_count(t.get_id());
    tpp::invoke(t.get_id(), [] {});
    w.cv.notify_all();
    l.wait(1);
    vp_reach("done");
    vp_final();
    VP_ASSERT(done_ == 2, "task and captured object");
    vp_stop();
}

void dropped()
{
    vp_expect("done");
    static world w;
    setup(w);
    bool two = vp_choice(2), self = vp_choice(2), partly = vp_choice(2);
    std::thread o([&] {
        tpp::this_thread::register_this_thread();
        auto me = tpp::this_thread::get_id();
        if(self) target_ = me;
        if(partly) tpp::invoke(me, [] {});
        tpp::invoke(me, [c = at_end([] { user(); })] {});
        if(two) tpp::invoke(me, [c = at_end([] { user(); })] {});
        // the rest stays in the list being processed
        if(partly) tpp::this_thread::wait();
        tpp::this_thread::unregister_this_thread();
        VP_ASSERT(vp_held() == 0, "nothing is held afterwards");
    });
    o.join();
    VP_ASSERT(done_ == (two ? 2 : 1), "dropped tasks are destroyed");
    vp_reach("done");
    vp_stop();
}

void exiting()
{
    vp_expect("run");
    vp_expect("dropped");
    static world w;
    setup(w);
    tpp::thread t = tpp::make_thread("t");
    settle(t);
    auto id = t.get_id();
    bool ran = false;
    vp_timeouts(0, 0);
    vp_start();
    std::thread o([&] { tpp::notify_for_exit(id); });
    tpp::invoke(id, [&ran, c = at_end([] { user(); })] { ran = true; });
    o.join();
    t.join();
    vp_reach(ran ? "run" : "dropped");
    vp_final();
    VP_ASSERT(done_ == 1, "destroyed exactly once");
    vp_stop();
}

void refused()
{
    vp_expect("done");
    static world w;
    setup(w);
    unsigned who = vp_choice(3), how = vp_choice(3);
    tpp::thread::id id = tpp::invalid_id();
    if(who == 1) id = 77;
    if(who == 2)
    {
        tpp::thread t = tpp::make_thread("t");
        id = t.get_id();
    }
    {
        auto c = at_end([] { user(); });
        if(how == 0) tpp::invoke(id, [c = std::move(c)] {});
        if(how == 1) tpp::dispatch(id, [c = std::move(c)] {});
        if(how == 2)
        {
            auto f = tpp::async(id, [c = std::move(c)] {});
            VP_ASSERT(f.is_ready(), "abandoned");
        }
    }
    VP_ASSERT(done_ == 1, "destroyed");
    vp_reach("done");
    vp_stop();
}

struct payload
{
    int v;
};

void continuations()
{
    vp_expect("done");
    static world w;
    setup(w);
    unsigned how = vp_choice(4);
    auto policy = vp_choice(2) ? std::launch::async : std::launch::deferred;
    int seen = 0;
    {
        tpp::promise<int> p;
        auto f = p.get_future();
        if(how == 3) p.set_value(1);
        auto g = f.then(target_, policy, [&seen, c = at_end([] { user(); })](auto x) {
            seen++;
            user();
        });
        VP_ASSERT(!f.valid(), "consumed");
        if(how == 0) p.set_value(1);
        if(how == 1) p.set_exception(std::make_exception_ptr(payload{1}));
        if(how == 2) p = {};
        tpp::this_thread::process();
        VP_ASSERT(seen == 1, "continuation ran");
    }
    VP_ASSERT(done_ == 2, "continuation and captured object");
    VP_ASSERT(vp_held() == 0, "nothing is held afterwards");
    vp_reach("done");
    vp_stop();
}

void racing_continuation()
{
    vp_expect("done");
    static world w;
    setup(w);
    int seen = 0;
    tpp::promise<int> p;
    auto f = p.get_future();
    vp_timeouts(0, 0);
    vp_start();
    std::thread o([&] { p.set_value(3); });
    auto g = f.then(target_, std::launch::deferred, [&seen, c = at_end([] { user(); })](auto x) {
        seen += x.get();
        user();
    });
    o.join();
    g.wait();
    vp_reach("done");
    vp_final();
    VP_ASSERT(seen == 3 && done_ >= 1, "continuation ran");
    vp_stop();
}

struct noisy
{
    bool armed = true;
    noisy() = default;
    noisy(noisy&& o) noexcept : armed(o.armed) { o.armed = false; }
    noisy(const noisy& o) = default;
    noisy& operator=(noisy&& o) noexcept
    {
        std::swap(armed, o.armed);
        return *this;
    }
    ~noisy()
    {
        if(armed) user();
    }
};
struct boom
{
    std::shared_ptr<noisy> n;
};

void values()
{
    vp_expect("done");
    static world w;
    setup(w);
    unsigned how = vp_choice(5);
    if(how == 0)
    {
        tpp::promise<noisy> p;
        auto f = p.get_future();
        p.set_value(noisy{});
    }
    if(how == 1)
    {
        tpp::promise<noisy> p;
        auto f = p.get_future().share();
        p.set_value(noisy{});
        auto g = f;
        f = {};
        VP_ASSERT(done_ == 0, "kept by the other handle");
    }
    if(how == 2)
    {
        tpp::promise<int> p;
        auto f = p.get_future();
        p.set_exception(std::make_exception_ptr(boom{std::make_shared<noisy>()}));
    }
    if(how == 3)
    {
        tpp::promise<noisy> p;
        auto f = p.get_future();
        p.set_value(noisy{});
        auto v = f.get();
        VP_ASSERT(done_ == 0, "moved out");
    }
    if(how == 4)
    {
        auto f = tpp::async(target_, [] { return noisy{}; });
        tpp::this_thread::process();
        VP_ASSERT(f.is_ready(), "ran");
    }
    VP_ASSERT(done_ == 1, "destroyed once");
    vp_reach("done");
    vp_stop();
}

void combined()
{
    vp_expect("done");
    static world w;
    setup(w);
    bool all = vp_choice(2), ready = vp_choice(2), last = vp_choice(2);
    int seen = 0;
    auto body = [&seen, c = at_end([] { user(); })](auto x) {
        seen++;
        user();
    };
    {
        tpp::promise<int> p, q;
        auto f = p.get_future(), g = q.get_future();
        if(ready) p.set_value(1);
        tpp::future<void> r;
        if(all)
            r = tpp::when_all(std::move(f), std::move(g)).then(target_, std::launch::deferred, std::move(body));
        else
            r = tpp::when_any(std::move(f), std::move(g)).then(target_, std::launch::deferred, std::move(body));
        tpp::this_thread::process();
        if(!ready) p.set_value(1);
        tpp::this_thread::process();
        if(last)
            q.set_value(2);
        else
            q = {};
        tpp::this_thread::process();
        r.get();
    }
    VP_ASSERT(seen == 1, "continuation ran");
    tpp::this_thread::process();
    vp_reach("done");
    vp_stop();
}

using tpp::priority::category;

void pool_jobs()
{
    vp_expect("done");
    static world w;
    setup(w);
    unsigned what = vp_choice(4), how = vp_choice(3);
    tpp::thread_pool pool({{category::normal, 1}});
    tpp::thread_pool* pp = &pool;
    latch gate, started;
    auto code = [pp] {
        user();
        pp->get_jobs_count();
        pp->stop(1234);
        pp->change_priority(4321, tpp::priority::high(1));
    };
    vp_timeouts(0, 0);
    if(what == 0)
    {
        auto f = pool.schedule(code);
        f.get();
    }
    if(what == 1)
    {
        auto f = pool.schedule([c = at_end(code)] {});
        f.wait();
        pool.wait_all();
    }
    if(what == 2 || what == 3)
    {
        auto hold = pool.schedule([&] {
            started.hit();
            gate.wait(1);
        });
        started.wait(1);
        tpp::job_future<void> f;
        tpp::future<void> g;
        tpp::job_id id;
        if(what == 2)
        {
            f = pool.schedule([c = at_end(code)] {});
            id = f.id;
        }
        else
        {
            auto h = pool.schedule([] {});
            id = h.id;
            g = static_cast<tpp::future<void>&>(h).then(target_, std::launch::deferred, [code](auto x) { code(); });
        }
        if(how == 0) pool.stop(id);
        if(how == 1) pool.stop_all();
        gate.hit();
        pool.wait_all();
        hold.get();
        if(what == 3) g.wait();
    }
    pool.wait_all();
    VP_ASSERT(what == 1 || what == 2 || done_ == 1, "ran");
    vp_reach("done");
    vp_stop();
}

void functions()
{
    vp_expect("done");
    static world w;
    setup(w);
    unsigned how = vp_choice(3);
    if(how == 0)
    {
        tpp::thread t([] { user(); });
        t.join();
    }
    if(how == 1)
    {
        auto f = tpp::async(target_, std::launch::deferred, [] { user(); });
        f.get();
    }
    if(how == 2)
    {
        auto f = tpp::async(target_, std::launch::async, [] { user(); });
        f.get();
    }
    VP_ASSERT(done_ == 1, "ran");
    vp_reach("done");
    vp_stop();
}

void this_thread_calls()
{
    vp_expect("done");
    static world w;
    setup(w);
    unsigned call = vp_choice(8), before = vp_choice(2), after = vp_choice(2);
    static int ran, gone;
    std::thread o([&] {
        tpp::this_thread::register_this_thread();
        auto me = tpp::this_thread::get_id();
        auto code = [call, me] {
            gone++;
            VP_ASSERT(vp_held() == 0, "no library lock is held");
            VP_ASSERT(!tpp::this_thread::is_registered() && tpp::this_thread::get_id() == tpp::invalid_id(), "no longer registered");
            if(call == 0) tpp::this_thread::process();
            if(call == 1) tpp::this_thread::wait();
            if(call == 2) tpp::this_thread::sleep_for(1ms);
            if(call == 3) tpp::this_thread::process_for(1ms);
            if(call == 4) VP_ASSERT(!tpp::invoke(me, [] { ran++; }), "no longer a target");
            if(call == 5) VP_ASSERT(tpp::this_thread::get_depth() == 0, "depth");
            if(call == 6) tpp::this_thread::unregister_this_thread();
            if(call == 7)
            {
                // may even register anew
                tpp::this_thread::register_this_thread();
                auto id = tpp::this_thread::get_id();
                VP_ASSERT(id != me && tpp::invoke(id, [] {}), "a new registration");
                tpp::this_thread::process();
                tpp::this_thread::unregister_this_thread();
            }
        };
        if(before) tpp::invoke(me, [] { ran++; });
        tpp::invoke(me, [c = at_end(code)] { ran++; });
        if(after) tpp::invoke(me, [] { ran++; });
        tpp::this_thread::unregister_this_thread();
        VP_ASSERT(!tpp::this_thread::is_registered(), "unregistered");
    });
    o.join();
    VP_ASSERT(gone == 1, "destroyed once");
    VP_ASSERT(ran == 0, "dropped tasks are not executed");
    VP_ASSERT(tpp::get_all_registered_threads().size() == 1, "only main is left");
    vp_reach("done");
    vp_stop();
}

void together()
{
    vp_expect("done");
    static world w;
    setup(w);
    vp_assume(call_ != 6);
    tpp::promise<int> p;
    auto f = p.get_future().share();
    int seen = 0;
    auto g = f.then(target_, [&seen](auto x) {
        seen++;
        user();
    });
    vp_timeouts(0, 0);
    tpp::invoke(target_, [] { user(); });
    vp_start();
    std::thread o([&] { p.set_value(1); });
    f.wait();
    g.wait();
    o.join();
    vp_reach("done");
    vp_final();
    VP_ASSERT(seen == 1 && done_ == 2, "both ran");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: bodies(); break;
        case 1: captured(); break;
        case 2: loop_thread(); break;
        case 3: dropped(); break;
        case 4: exiting(); break;
        case 5: refused(); break;
        case 6: continuations(); break;
        case 7: racing_continuation(); break;
        case 8: values(); break;
        case 9: combined(); break;
        case 10: pool_jobs(); break;
        case 11: functions(); break;
        case 12: this_thread_calls(); break;
        case 13: together(); break;
    }
}
