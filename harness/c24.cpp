// C24: no data races and no access to released memory
//@ 0 result handed over | quick | --race --safety | value, void, reference or shared result; set, failed or abandoned by another thread; get, wait_for or a dropped future (symbolic); both sides gone at once, all interleavings
//@ 1 registry under concurrent use | quick | --race --safety | one thread registers and leaves, another one enumerates, counts, notifies or invokes (symbolic), all interleavings
//@ 2 posting to a thread that is joined | quick | --race --safety | loop thread joined while another thread invokes, counts its tasks, configures or notifies it (symbolic), all interleavings
//@ 3 mutex and condition variable dropped after use | quick | --race --safety | the waiter destroys mutex and condition variable as soon as it has seen the flag set under the mutex, all interleavings
//@ 4 mutex dropped after the last unlock | quick | --race --safety | two registered users of a shared tpp::mutex, the last one destroys it, all interleavings
//@ 5 shared result | quick | --race --safety | set by one thread while another one copies, waits, attaches a continuation or drops its copy (symbolic), all interleavings
//@ 6 exception seen by two threads | quick | --race --safety | shared_future with an exception, caught and released by both, all interleavings
//@ 7 task life time | quick | --race --safety | the callable of an invoked task is released while its poster still runs, and by a leaving thread, all interleavings
//@ 8 pool used by two threads | quick | --merge 2 --race --safety | schedule, stop, change_priority, get_jobs_count or wait (symbolic) next to schedule and destruction, all interleavings
//@ 9 continuation target leaves | quick | --race --safety | continuation on a loop thread that is joined while the result is set, all interleavings
//@ 10 when_all and when_any dropped early | quick | --race --safety | combined result of 2 inputs dropped while both are completed by another thread, all interleavings
//@ 11 result of a job dropped or kept | quick | --merge 2 --race --safety | job result taken or dropped while the pool is destroyed by its owner, all interleavings
//@ 12 thread object moved and swapped | quick | --race --safety | loop threads exchanged between thread objects while being posted to, all interleavings
//@ 13 wake-ups of a waiting thread | quick | --race --safety | thread in this_thread::wait or wait_for (symbolic) notified, told to exit and invoked by another one, all interleavings
//@ 14 init and shutdown | quick | --race --safety | 2 threads call init or shutdown (symbolic) of an initialised library, all interleavings
//@ 15 waiter that is told to exit | quick | --race --safety | get of a value or void result, plain or shared, by a registered thread told to exit or an unregistered one (symbolic), while the result is set or fails, all interleavings
//@ 16 polling | quick | --race --safety | is_ready, has_error, wait_for without time or a copy (symbolic) of a value or void result while it is set or fails, then get, all interleavings
//@ 17 try_lock against lock | quick | --race --safety | a tpp::mutex used by try_lock and lock of two threads, all interleavings
//@use c01 0 2 3 4 5 6 7 8 9 10 | quick | --race --safety
//@use c02 0 1 2 3 5 | quick | --race --safety
//@use c03 0 1 2 3 4 5 6 7 8 | quick | --race --safety
//@use c04 0 1 2 3 4 5 6 7 8 9 | quick | --race --safety
//@use c05 0 1 2 3 4 5 6 7 8 9 | quick | --race --safety
//@use c06 0 1 3 6 7 | quick | --race --safety
//@use c07 0 2 3 4 5 6 7 8 9 11 12 | quick | --race --safety
//@use c08 0 1 3 4 5 6 7 9 10 11 | quick | --race --safety
//@use c09 0 1 3 4 6 7 8 9 11 | quick | --race --safety
//@use c10 0 1 2 4 5 6 8 10 11 | quick | --race --safety
//@use c11 0 3 5 6 7 8 9 10 11 | quick | --race --safety
//@use c12 3 5 6 7 8 10 12 | quick | --race --safety
//@use c13 0 1 2 3 5 6 7 8 9 10 | quick | --race --safety
//@use c14 0 1 3 5 6 7 8 9 11 | quick | --race --safety
//@use c15 0 1 2 3 8 9 10 13 14 15 | quick | --race --safety
//@use c16 6 7 14 | quick | --race --safety
//@use c17 0 1 2 5 6 8 | quick | --race --safety
//@use c18 0 1 2 6 7 8 9 14 | quick | --race --safety
//@use c19 0 1 5 8 10 | quick | --race --safety
//@use c20 1 2 3 5 6 7 9 10 | quick | --race --safety
//@use c21 1 6 8 | quick | --race --safety
//@use c23 2 4 13 | quick | --race --safety
//@use c25 2 3 4 6 8 10 | quick | --race --safety
//@use c26 0 1 10 | quick | --race --safety
//@use c27 1 3 4 6 8 9 11 12 13 15 16 17 | quick | --race --safety
//@use c09 2 10 | thorough | --race --safety
//@use c12 1 2 | thorough | --race --safety
//@use c14 2 4 10 | thorough | --race --safety
//@use c16 4 | thorough | --race --safety
//@use c18 12 13 | thorough | --race --safety
//@use c22 1 2 3 | thorough | --race --safety
#include "common.h"
using namespace std::chrono_literals;

namespace
{
template<class F>
tpp::thread worker(F f)
{
    return tpp::thread([f]() mutable {
        tpp::this_thread::register_this_thread();
        f();
        tpp::this_thread::unregister_this_thread();
    });
}

const std::map<tpp::priority::category, size_t> one{{tpp::priority::category::normal, 1}};

template<class P, class S>
void finish(P p, unsigned how, S set)
{
    if(how == 0)
        set(p);
    else if(how == 1)
        p.set_exception(std::make_exception_ptr(std::runtime_error("x")));
}

template<class F>
void consume(F f, unsigned how)
{
    if(how == 1 && f.wait_for(1s) == std::future_status::timeout) return;
    if(how == 2) return;
    try
    {
        f.get();
        vp_reach("value");
    }
    catch(const std::runtime_error& e)
    {
        VP_ASSERT(e.what()[0] == 'x', "message");
        vp_reach("error");
    }
    catch(const std::future_error&)
    {
        vp_reach("abandoned");
    }
}

template<class T, class S>
void exchange(bool shared, unsigned set, unsigned get, S how)
{
    tpp::promise<T> p;
    auto f = p.get_future();
    vp_start();
    auto t = worker([p = std::make_shared<tpp::promise<T>>(std::move(p)), set, how]() mutable {
        tpp::promise<T> q = std::move(*p);
        p.reset();
        finish(std::move(q), set, how);
    });
    if(shared)
        consume(f.share(), get);
    else
        consume(std::move(f), get);
    t.join();
}

void handed_over()
{
    vp_expect("value");
    vp_expect("error");
    vp_expect("abandoned");
    static int target = 0;
    tpp::init();
    vp_timeouts(1, 1);
    unsigned kind = vp_choice(4), set = vp_choice(3), get = vp_choice(3);
    if(kind == 0)
        exchange<uint64_t>(false, set, get, [](auto& p) { p.set_value(7); });
    else if(kind == 1)
        exchange<void>(false, set, get, [](auto& p) { p.set_value(); });
    else if(kind == 2)
        exchange<int*>(false, set, get, [](auto& p) { p.set_value(&target); });
    else
        exchange<std::vector<int>>(true, set, get, [](auto& p) { p.set_value(std::vector<int>(3, 4)); });
    tpp::shutdown();
    vp_final();
    vp_stop();
}

void registry()
{
    vp_expect("seen");
    tpp::init();
    unsigned what = vp_choice(4);
    std::atomic<tpp::thread::id> id{0};
    latch ran;
    vp_start();
    std::thread t([&] {
        tpp::this_thread::register_this_thread("named");
        id = tpp::this_thread::get_id();
        tpp::this_thread::process();
        tpp::this_thread::unregister_this_thread();
    });
    if(what == 0)
    {
        if(tpp::get_all_registered_threads().size() == 2) vp_reach("seen");
    }
    else if(auto i = id.load())
    {
        if(what == 1)
            tpp::get_pending_task_count_detailed(i);
        else if(what == 2)
            tpp::notify(i);
        else
            tpp::invoke(i, [s = std::make_shared<int>(1)] { ++*s; });
    }
    t.join();
    tpp::shutdown();
    vp_final();
    vp_stop();
}

void joined_target()
{
    vp_expect("accepted");
    tpp::init();
    unsigned what = vp_choice(4);
    vp_start();
    auto l = tpp::make_thread();
    auto id = l.get_id();
    auto t = worker([&] {
        bool ok = true;
        if(what == 0)
            ok = tpp::invoke(id, [v = std::vector<int>(2, 1)]() mutable { v.clear(); });
        else if(what == 1)
            tpp::get_pending_task_count(id);
        else if(what == 2)
            ok = tpp::set_thread_config(id, {2, 4});
        else
            tpp::notify_for_exit(id);
        if(ok) vp_reach("accepted");
    });
    l.join();
    t.join();
    tpp::shutdown();
    vp_final();
    vp_stop();
}

struct shared_cv
{
    std::mutex m;
    tpp::condition_variable cv;
    bool flag = false;
};

void dropped_cv()
{
    vp_expect("dropped");
    tpp::init();
    bool all = vp_nondet_bool();
    auto* s = new shared_cv;
    vp_start();
    auto t = worker([s, all] {
        std::unique_lock<std::mutex> l(s->m);
        s->flag = true;
        if(all)
            s->cv.notify_all();
        else
            s->cv.notify_one();
    });
    {
        std::unique_lock<std::mutex> l(s->m);
        while(!s->flag) s->cv.wait(l);
    }
    delete s;
    vp_reach("dropped");
    t.join();
    tpp::shutdown();
    vp_final();
    vp_stop();
}

void dropped_mutex()
{
    vp_expect("last");
    tpp::init();
    struct box
    {
        tpp::mutex m;
        int users = 2;
    };
    auto* b = new box;
    vp_start();
    auto body = [b] {
        bool last;
        {
            std::lock_guard<tpp::mutex> l(b->m);
            last = --b->users == 0;
        }
        if(last)
        {
            delete b;
            vp_reach("last");
        }
    };
    auto t = worker(body);
    body();
    t.join();
    tpp::shutdown();
    vp_final();
    vp_stop();
}

void shared_result()
{
    vp_expect("copy");
    vp_expect("then");
    tpp::init();
    vp_timeouts(0, 0);
    unsigned what = vp_choice(4);
    tpp::promise<std::vector<int>> p;
    auto f = p.get_future().share();
    vp_start();
    auto t = worker([f, what]() mutable {
        auto mine = std::move(f);
        if(what == 0)
        {
            auto c = mine;
            mine = {};
            if(c.get().size() == 3) vp_reach("copy");
        }
        else if(what == 1)
        {
            auto r = mine.then(tpp::this_thread::get_id(), std::launch::async, [](auto g) { return (int)g.get()[0]; });
            mine = {};
            if(r.get() == 4) vp_reach("then");
        }
        else if(what == 2)
            mine.wait();
    });
    p.set_value(std::vector<int>(3, 4));
    if(what != 3) VP_ASSERT(f.get()[2] == 4, "value");
    f = {};
    t.join();
    tpp::shutdown();
    vp_final();
    vp_stop();
}

void two_catch()
{
    vp_expect("both");
    tpp::init();
    vp_timeouts(0, 0);
    tpp::promise<int> p;
    auto f = p.get_future().share();
    std::atomic<int> n{0};
    vp_start();
    auto look = [&n](tpp::shared_future<int> g) {
        try
        {
            g.get();
        }
        catch(const std::runtime_error& e)
        {
            g = {};
            if(e.what()[0] == 'x' && ++n == 2) vp_reach("both");
        }
    };
    auto t = worker([f, look]() mutable { look(std::move(f)); });
    p.set_exception(std::make_exception_ptr(std::runtime_error("x")));
    look(std::move(f));
    t.join();
    tpp::shutdown();
    vp_final();
    vp_stop();
}

void task_life()
{
    vp_expect("ran");
    vp_expect("refused");
    tpp::init();
    std::atomic<tpp::thread::id> id{0};
    vp_start();
    auto t = worker([&] {
        id = tpp::this_thread::get_id();
        tpp::this_thread::process();
    });
    auto s = std::make_shared<std::vector<int>>(1, 5);
    std::weak_ptr<std::vector<int>> w = s;
    auto i = id.load();
    if(i && !tpp::invoke(i, [s]() mutable {
           s->push_back(1);
           s.reset();
           vp_reach("ran");
       }))
        vp_reach("refused");
    s.reset();
    if(auto k = w.lock()) VP_ASSERT(k.use_count() >= 1, "kept");
    t.join();
    tpp::shutdown();
    vp_final();
    vp_stop();
}

void pool_two_users()
{
    vp_expect("other");
    tpp::init();
    vp_timeouts(0, 0);
    unsigned what = vp_choice(5);
    {
        tpp::thread_pool pool(one);
        pool.schedule([] {}).wait();
        vp_start();
        auto f = pool.schedule([] { return 1; });
        auto t = worker([&] {
            if(what == 0)
                pool.schedule([] { return std::vector<int>(1); });
            else if(what == 1)
                pool.stop(f.id);
            else if(what == 2)
                pool.change_priority(f.id, tpp::priority::high());
            else if(what == 3)
                pool.get_jobs_count();
            else
                pool.wait(f.id);
            vp_reach("other");
        });
        t.join();
    }
    vp_final();
    vp_stop();
}

void leaving_target()
{
    vp_expect("value");
    vp_expect("abandoned");
    tpp::init();
    vp_timeouts(0, 0);
    auto l = tpp::make_thread();
    settle(l);
    tpp::promise<int> p;
    auto r = p.get_future().then(l.get_id(), std::launch::async, [](auto g) { return g.get() + 1; });
    vp_start();
    auto t = worker([p = std::make_shared<tpp::promise<int>>(std::move(p))]() mutable { p->set_value(1); });
    l.join();
    consume(std::move(r), 0);
    t.join();
    vp_reach("error");
    tpp::shutdown();
    vp_final();
    vp_stop();
}

void dropped_when()
{
    vp_expect("all");
    vp_expect("any");
    tpp::init();
    vp_timeouts(0, 0);
    bool any = vp_nondet_bool();
    auto p = std::make_shared<tpp::promise<int>>(), q = std::make_shared<tpp::promise<int>>();
    auto f = p->get_future(), g = q->get_future();
    vp_start();
    auto t = worker([p, q]() mutable {
        p->set_value(1);
        p.reset();
        q->set_value(2);
        q.reset();
    });
    p.reset();
    q.reset();
    if(any)
    {
        auto r = tpp::when_any(std::move(f), std::move(g));
        vp_reach("any");
    }
    else
    {
        auto r = tpp::when_all(std::move(f), std::move(g));
        vp_reach("all");
    }
    tpp::this_thread::process();
    t.join();
    tpp::shutdown();
    vp_final();
    vp_stop();
}

void job_result()
{
    vp_expect("value");
    vp_expect("abandoned");
    tpp::init();
    vp_timeouts(0, 0);
    bool take = vp_nondet_bool();
    auto pool = std::make_unique<tpp::thread_pool>(one);
    pool->schedule([] {}).wait();
    vp_start();
    auto f = pool->schedule([] { return 3; });
    auto t = worker([f = std::make_shared<tpp::job_future<int>>(std::move(f)), take]() mutable {
        auto mine = std::move(*f);
        f.reset();
        if(take) consume(std::move(mine), 0);
    });
    pool.reset();
    t.join();
    vp_final();
    vp_stop();
}

void moved_threads()
{
    vp_expect("posted");
    tpp::init();
    auto a = tpp::make_thread();
    auto b = tpp::make_thread();
    settle(a);
    settle(b);
    auto id = a.get_id();
    vp_start();
    auto t = worker([id] {
        if(tpp::invoke(id, [s = std::make_shared<int>(0)] { ++*s; })) vp_reach("posted");
    });
    a.swap(b);
    b = std::move(a);
    t.join();
    b.join();
    tpp::shutdown();
    vp_final();
    vp_stop();
}

void waiting_thread()
{
    vp_expect("task");
    tpp::init();
    vp_timeouts(1, 1);
    bool timed = vp_nondet_bool();
    std::atomic<tpp::thread::id> id{0};
    latch up;
    vp_start();
    auto t = worker([&] {
        id = tpp::this_thread::get_id();
        up.hit();
        if(timed)
            tpp::this_thread::wait_for(1s);
        else
            tpp::this_thread::wait();
    });
    up.wait(1);
    tpp::invoke(id, [] { vp_reach("task"); });
    tpp::notify(id);
    tpp::notify_for_exit(id);
    t.join();
    tpp::shutdown();
    vp_final();
    vp_stop();
}

void init_shutdown()
{
    vp_expect("end");
    vp_timeouts(2, 1);
    bool first = vp_nondet_bool(), second = vp_nondet_bool();
    tpp::init();
    if(first != second) tpp::init(); // a first init next to the last shutdown would be misuse
    vp_start();
    auto step = [](bool down) {
        if(down)
            tpp::shutdown(0s);
        else
            tpp::init();
    };
    std::thread t([&] { step(first); });
    step(second);
    t.join();
    vp_reach("end");
    vp_final();
    vp_stop();
}
template<class T, class S>
void told(bool shared, bool reg, bool fail, S set)
{
    tpp::promise<T> p;
    auto f = p.get_future();
    auto body = [f = std::make_shared<tpp::future<T>>(std::move(f)), shared] {
        if(shared)
            consume(f->share(), 0);
        else
            consume(std::move(*f), 0);
    };
    vp_start();
    if(reg)
    {
        auto t = worker(body);
        tpp::notify_for_exit(t.get_id());
        finish(std::move(p), fail, set);
    }
    else
    {
        std::thread t(body);
        finish(std::move(p), fail, set);
        t.join();
    }
}

void told_to_exit()
{
    vp_expect("value");
    vp_expect("error");
    vp_expect("abandoned");
    tpp::init();
    vp_timeouts(0, 0);
    bool shared = vp_nondet_bool(), reg = vp_nondet_bool(), fail = vp_nondet_bool();
    if(vp_nondet_bool())
        told<uint64_t>(shared, reg, fail, [](auto& p) { p.set_value(7); });
    else
        told<void>(shared, reg, fail, [](auto& p) { p.set_value(); });
    tpp::shutdown();
    vp_final();
    vp_stop();
}

template<class T, class S>
void poll(unsigned how, bool fail, S set)
{
    tpp::promise<T> p;
    auto f = p.get_future().share();
    vp_start();
    auto t = worker([p = std::make_shared<tpp::promise<T>>(std::move(p)), fail, set] { finish(std::move(*p), fail, set); });
    bool ready;
    if(how == 0)
        ready = f.is_ready();
    else if(how == 1)
        ready = f.has_error();
    else if(how == 2)
        ready = f.wait_for(0s) == std::future_status::ready;
    else
    {
        auto g = f;
        ready = g.is_ready() && g.valid();
    }
    if(ready) vp_reach("ready");
    consume(f, 0);
    t.join();
}

void polling()
{
    vp_expect("ready");
    vp_expect("value");
    vp_expect("error");
    tpp::init();
    vp_timeouts(0, 0);
    unsigned how = vp_choice(4);
    bool fail = vp_nondet_bool();
    if(vp_nondet_bool())
        poll<uint64_t>(how, fail, [](auto& p) { p.set_value(7); });
    else
        poll<void>(how, fail, [](auto& p) { p.set_value(); });
    vp_reach("abandoned");
    tpp::shutdown();
    vp_final();
    vp_stop();
}

void try_against_lock()
{
    vp_expect("got");
    vp_expect("missed");
    tpp::init();
    vp_timeouts(0, 0);
    tpp::mutex m;
    int n = 0;
    vp_start();
    auto t = worker([&] {
        std::lock_guard<tpp::mutex> l(m);
        ++n;
    });
    if(m.try_lock())
    {
        ++n;
        m.unlock();
        vp_reach("got");
    }
    else
        vp_reach("missed");
    t.join();
    tpp::shutdown();
    vp_final();
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: handed_over(); break;
        case 1: registry(); break;
        case 2: joined_target(); break;
        case 3: dropped_cv(); break;
        case 4: dropped_mutex(); break;
        case 5: shared_result(); break;
        case 6: two_catch(); break;
        case 7: task_life(); break;
        case 8: pool_two_users(); break;
        case 9: leaving_target(); break;
        case 10: dropped_when(); break;
        case 11: job_result(); break;
        case 12: moved_threads(); break;
        case 13: waiting_thread(); break;
        case 14: init_shutdown(); break;
        case 15: told_to_exit(); break;
        case 16: polling(); break;
        case 17: try_against_lock(); break;
    }
}
