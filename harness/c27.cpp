// C27: Callables, arguments and results are released exactly once and in time
//@ 0 tasks that ran | quick | | 3 tasks sent by invoke/dispatch, drained in 5 symbolic ways: each released before the next one starts and on the thread that ran it
//@ 1 tasks of another thread | quick | | 2 tasks with captures and arguments for a loop thread, all interleavings
//@ 2 refused work | quick | | invoke, dispatch, async, then (4 kinds of future, symbolic) for an unknown, joined or invalid id: released when the call returns
//@ 3 tasks dropped at exit | quick | | 2 tasks against join(), all interleavings: released when join returns
//@ 4 tasks dropped by unregistration | quick | | 0..3 tasks left (symbolic), some executed, the thread unregisters itself
//@ 5 results | quick | | value taken by get, left in a future, in shared copies or set after the future is gone (symbolic)
//@ 6 results between threads | quick | | promise and 2 shared_future copies released on 3 threads, all interleavings
//@ 7 exceptions | quick | | exception objects set, thrown by tasks, taken or left (symbolic)
//@ 8 continuations | quick | | 4 kinds of future, 4 targets and 3 policies (symbolic), attached before or after the result: released after they ran
//@ 9 continuation against the result | quick | | attached while another thread sets the result, all interleavings
//@ 10 abandoned work | quick | | continuations and values of promises that are destroyed, overwritten or abandoned (symbolic)
//@ 11 finished and stopped jobs | quick | | jobs finished, stopped by 3 ways or left at destruction (symbolic), 1 worker
//@ 12 stop against the worker | quick | | a job stopped while the worker takes it, all interleavings
//@ 13 combined futures | quick | | when_all and when_any of 2 inputs, in either order, result used or dropped (symbolic)
//@ 14 throwing tasks | quick | | task that throws out of process, wait or a blocking future wait (symbolic): released before the exception arrives
//@ 15 detached async | quick | | async and then without a thread id: released before the thread unregisters, all interleavings
//@ 16 moved and overwritten handles | quick | | futures, shared_futures, promises and tasks moved, copied, assigned and swapped (symbolic)
//@ 17 long queues | quick |  | 300 tasks, run or released by unregistering (symbolic)
#include "common.h"
#include <future>
using namespace std::chrono_literals;

namespace
{
std::atomic<int> live{0};
// an object of which every copy counts, but not what a move leaves behind
struct obj
{
    uint64_t v;
    bool counted = true;
    explicit obj(uint64_t x = 0) : v(x) { live++; }
    obj(const obj& o) : v(o.v), counted(o.counted)
    {
        if(counted) live++;
    }
    obj(obj&& o) noexcept : v(o.v), counted(o.counted) { o.counted = false; }
    obj& operator=(const obj&) = delete;
    ~obj()
    {
        if(counted) live--;
    }
};
// a single object: the last owner ends it, and says where
struct one
{
    std::atomic<int>* n;
    uint32_t* by;
    explicit one(std::atomic<int>& k, uint32_t* b = nullptr) : n(&k), by(b) {}
    one(one&& o) noexcept : n(o.n), by(o.by) { o.n = nullptr; }
    one& operator=(one&& o) noexcept
    {
        std::swap(n, o.n);
        std::swap(by, o.by);
        return *this;
    }
    ~one()
    {
        if(!n) return;
        if(by) *by = vp_tid();
        ++*n;
    }
};

void ran()
{
    vp_expect("done");
    tpp::init();
    unsigned how = vp_choice(5);
    uint64_t v = vp_nondet_u64();
    auto self = tpp::this_thread::get_id();
    std::atomic<int> gone[4] = {};
    uint32_t by[4] = {9, 9, 9, 9};
    bool ok = true;
    tpp::invoke(self, [&, a = one(gone[0], &by[0]), o = obj(v)] {
        if(gone[0] || o.v != v) ok = false;
    });
    tpp::invoke(self, [&](one x, const obj& o) {
        if(gone[0] != 1 || gone[1] || o.v != v) ok = false;
        (void)x;
    }, one(gone[1], &by[1]), obj(v));
    tpp::invoke(self, [&, a = one(gone[2], &by[2])] {
        if(gone[0] != 1 || gone[1] != 1) ok = false;
        tpp::invoke(self, [&, a = one(gone[3], &by[3])] {
            if(gone[2] != (how == 3 ? 0 : 1)) ok = false;
        });
        if(how == 3) tpp::this_thread::process();
    });
    switch(how)
    {
    case 0: tpp::this_thread::process(); break;
    case 1:
        for(int i = 0; i < 4; i++) tpp::this_thread::wait();
        break;
    case 2:
        for(int i = 0; i < 4; i++) tpp::this_thread::wait_for(1s);
        break;
    case 3: tpp::this_thread::process(); break;
    case 4: tpp::this_thread::process_for(1000s); break;
    }
    vp_reach("done");
    int inl = 0;
    std::atomic<int> last{0};
    tpp::dispatch(self, [&, a = one(last)] { inl = last + 1; });
    VP_ASSERT(ok, "released right after it ran");
    VP_ASSERT(gone[0] == 1 && gone[1] == 1 && gone[2] == 1 && gone[3] == 1, "released once");
    VP_ASSERT(by[0] == vp_tid() && by[1] == vp_tid() && by[2] == vp_tid(), "where it ran");
    VP_ASSERT(inl == 1 && last == 1, "dispatched in place");
    VP_ASSERT(live == 0, "no copy left");
    vp_stop();
}

void remote()
{
    vp_expect("done");
    tpp::init();
    vp_timeouts(0, 0);
    uint64_t v = vp_nondet_u64();
    auto t = tpp::make_thread();
    settle(t);
    std::atomic<int> a{0}, b{0};
    uint32_t bya = 9, byb = 9, on = 8;
    bool ok = true;
    vp_start();
    tpp::invoke(t.get_id(), [&, x = one(a, &bya)](const obj& o) {
        on = vp_tid();
        if(a || o.v != v) ok = false;
    }, obj(v));
    tpp::invoke(t.get_id(), [&, o = obj(v)](const one&) {
        if(a != 1 || o.v != v) ok = false;
    }, one(b, &byb));
    tpp::async(t.get_id(), [&] {
        if(b != 1) ok = false;
    }).wait();
    t.join();
    vp_reach("done");
    vp_final();
    VP_ASSERT(ok, "released before the next task");
    VP_ASSERT(a == 1 && b == 1 && live == 0, "released once");
    VP_ASSERT(bya == on && byb == on, "on the thread that ran it");
    vp_stop();
}

template<typename F>
tpp::thread::id dead(F choose)
{
    switch(choose)
    {
    case 0: return 123456;
    case 1: return tpp::invalid_id();
    default:
    {
        auto t = tpp::make_thread();
        auto id = t.get_id();
        t.join();
        return id;
    }
    }
}

void refused()
{
    vp_expect("done");
    tpp::init();
    vp_timeouts(0, 0);
    unsigned which = vp_choice(3), what = vp_choice(8);
    auto id = dead(which);
    std::atomic<int> n{0};
    bool ok = true;
    if(id == 0 && what >= 2) id = 54321;
    switch(what)
    {
    case 0: ok = !tpp::invoke(id, [a = one(n), o = obj()](const obj&) {}, obj()); break;
    case 1: ok = !tpp::dispatch(id, [a = one(n), o = obj()](const obj&) {}, obj()); break;
    case 2:
    {
        auto f = tpp::async(id, [a = one(n), o = obj()](const obj&) { return obj(); }, obj());
        ok = n == 1 && live == 0 && f.is_ready();
        break;
    }
    case 3:
    {
        tpp::async(id, std::launch::async, [a = one(n), o = obj()] {});
        break;
    }
    case 4:
    {
        auto f = tpp::make_ready_future(obj()).then(id, [a = one(n), o = obj()](tpp::future<obj>) {});
        ok = n == 1 && live == 0;
        break;
    }
    case 5:
    {
        tpp::promise<obj> p;
        auto f = p.get_future().then(id, [a = one(n), o = obj()](auto) { return 1; });
        ok = n == 0;
        p.set_value(obj());
        ok = ok && n == 1 && f.is_ready();
        break;
    }
    case 6:
    {
        tpp::promise<void> p;
        auto s = p.get_future().share();
        auto f = s.then(id, std::launch::async, [a = one(n), o = obj()](auto) {});
        p.set_value();
        ok = n == 1 && live == 0;
        break;
    }
    case 7:
    {
        tpp::promise<obj> p;
        auto s = p.get_future().share();
        auto f = s.then(id, [a = one(n)](auto) { return 2; });
        p.set_value(obj());
        ok = n == 1 && live == 1;
        break;
    }
    }
    vp_reach("done");
    VP_ASSERT(ok, "released at once");
    VP_ASSERT(n == 1 && live == 0, "released once");
    vp_stop();
}

void dropped()
{
    vp_expect("ran");
    vp_expect("dropped");
    tpp::init();
    vp_timeouts(0, 0);
    auto t = tpp::make_thread();
    settle(t);
    std::atomic<int> a{0}, b{0}, ran{0};
    auto id = t.get_id();
    int at = -1;
    vp_start();
    std::thread p([&] {
        tpp::invoke(id, [&, x = one(a), o = obj()] { ran++; });
        auto f = tpp::async(id, [&, x = one(b), o = obj()] {
            ran++;
            return obj();
        });
    });
    t.join();
    p.join();
    at = (a == 1) + (b == 1) * 2 + (live == 0) * 4;
    vp_reach(ran == 2 ? "ran" : "dropped");
    vp_final();
    VP_ASSERT(at == 7, "released when join and the calls have returned");
    vp_stop();
}

void unregistered()
{
    vp_expect("none");
    vp_expect("some");
    tpp::init();
    unsigned n = vp_choice(4), done = vp_choice(3);
    std::atomic<int> gone{0};
    int ran = 0;
    int at = -1;
    std::thread t([&] {
        tpp::this_thread::register_this_thread();
        auto id = tpp::this_thread::get_id();
        std::vector<tpp::future<obj>> fs;
        for(unsigned i = 0; i < n; i++)
        {
            if(i == 1)
                fs.push_back(tpp::async(id, std::launch::async, [&, a = one(gone), o = obj()] {
                    ran++;
                    return obj();
                }));
            else
                tpp::invoke(id, [&, a = one(gone), o = obj()] { ran++; });
        }
        for(unsigned i = 0; i < done && i < n; i++) tpp::this_thread::wait();
        tpp::this_thread::unregister_this_thread();
        // a result may still be there
        at = (gone == (int)n) + ((n > 1 && done > 1) ? live == 1 : live == 0) * 2;
    });
    t.join();
    vp_reach(ran ? "some" : "none");
    VP_ASSERT(ran == (int)(done < n ? done : n), "executed");
    VP_ASSERT(at == 3, "the rest is released by the unregistration");
    VP_ASSERT(live == 0 && gone == (int)n, "no copy left");
    vp_stop();
}

void results()
{
    vp_expect("done");
    tpp::init();
    unsigned how = vp_choice(7);
    uint64_t v = vp_nondet_u64();
    std::atomic<int> n{0};
    bool ok = true;
    switch(how)
    {
    case 0:
    {
        tpp::promise<one> p;
        auto f = p.get_future();
        p.set_value(one(n));
        {
            auto r = f.get();
            ok = n == 0;
        }
        ok = ok && n == 1;
        break;
    }
    case 1:
    {
        tpp::future<one> f;
        {
            tpp::promise<one> p;
            f = p.get_future();
            p.set_value(one(n));
        }
        ok = n == 0;
        f = {};
        ok = ok && n == 1;
        break;
    }
    case 2:
    {
        tpp::promise<one> p;
        {
            auto f = p.get_future();
        }
        p.set_value(one(n));
        ok = n == 0;
        p = {};
        ok = ok && n == 1;
        break;
    }
    case 3:
    {
        tpp::shared_future<one> s;
        {
            tpp::promise<one> p;
            auto q = p.get_future().share();
            p.set_value(one(n));
            s = q;
            q.get();
        }
        s.get();
        ok = n == 0;
        auto s2 = std::move(s);
        s2.get();
        ok = ok && n == 0;
        s2 = s;
        ok = ok && n == 1;
        break;
    }
    case 4:
    {
        tpp::promise<obj> p;
        auto f = p.get_future();
        obj mine(v);
        p.set_value(mine);
        {
            auto r = f.get();
            ok = r.v == v && mine.v == v;
        }
        p = {};
        ok = ok && live == 1;
        n = 1;
        break;
    }
    case 5:
    {
        tpp::promise<obj> p;
        auto f = p.get_future();
        p.set_value(obj(v));
        bool thrown = false;
        try
        {
            p.set_value(obj(v + 1));
        }
        catch(const std::future_error&)
        {
            thrown = true;
        }
        ok = thrown && live == 1 && f.get().v == v;
        p = {};
        ok = ok && live == 0;
        n = 1;
        break;
    }
    case 6:
    {
        auto self = tpp::this_thread::get_id();
        auto f = tpp::async(self, [&n] { return one(n); });
        auto g = f.then(self, [](auto h) { return h.get(); });
        ok = n == 0 && g.is_ready();
        g = {};
        ok = ok && n == 1;
        break;
    }
    }
    vp_reach("done");
    VP_ASSERT(ok, "kept as long as somebody may ask");
    VP_ASSERT(n == 1 && live == 0, "released once");
    vp_stop();
}

void between()
{
    vp_expect("done");
    tpp::init();
    vp_timeouts(0, 0);
    uint64_t v = vp_nondet_u64();
    std::atomic<int> n{0};
    bool ok = true;
    struct both
    {
        one a;
        obj b;
    };
    vp_start();
    {
        auto p = std::make_unique<tpp::promise<both>>();
        auto s = p->get_future().share();
        std::thread t([p = std::move(p), v, &n]() mutable {
            p->set_value(both{one(n), obj(v)});
            p.reset();
        });
        std::thread u([s, v, &ok]() mutable {
            tpp::this_thread::register_this_thread();
            if(s.get().b.v != v) ok = false;
            s = {};
            tpp::this_thread::unregister_this_thread();
        });
        if(s.get().b.v != v || n) ok = false;
        s = {};
        u.join();
        t.join();
    }
    vp_reach("done");
    vp_final();
    VP_ASSERT(ok, "there while somebody holds it");
    VP_ASSERT(n == 1 && live == 0, "released once");
    vp_stop();
}

struct error : std::exception
{
    obj o;
    explicit error(uint64_t v) : o(v) {}
};

void exceptions()
{
    vp_expect("done");
    tpp::init();
    unsigned how = vp_choice(5);
    uint64_t v = vp_nondet_u64();
    auto self = tpp::this_thread::get_id();
    bool ok = true;
    auto take = [&](auto& f) {
        try
        {
            f.get();
            ok = false;
        }
        catch(const error& e)
        {
            if(e.o.v != v || live < 1) ok = false;
        }
    };
    switch(how)
    {
    case 0:
    {
        tpp::promise<int> p;
        auto f = p.get_future();
        p.set_exception(std::make_exception_ptr(error(v)));
        ok = live == 1;
        take(f);
        p = {};
        break;
    }
    case 1:
    {
        auto f = tpp::async(self, std::launch::async, [v]() -> obj { throw error(v); });
        tpp::this_thread::process();
        ok = live == 1;
        take(f);
        break;
    }
    case 2:
    {
        auto s = tpp::async(self, [v] { throw error(v); }).share();
        auto s2 = s;
        take(s);
        s = {};
        ok = ok && live == 1;
        take(s2);
        break;
    }
    case 3:
    {
        auto f = tpp::make_exceptional_future<int>(error(v)).then(self, [](auto g) { return g.get() + 1; });
        ok = live == 1;
        take(f);
        break;
    }
    case 4:
    {
        tpp::promise<obj> p;
        p.set_exception(std::make_exception_ptr(error(v)));
        ok = live == 1;
        bool thrown = false;
        try
        {
            p.set_exception(std::make_exception_ptr(error(v + 1)));
        }
        catch(const std::future_error&)
        {
            thrown = true;
        }
        auto f = p.get_future();
        ok = ok && thrown && live == 1;
        take(f);
        break;
    }
    }
    vp_reach("done");
    VP_ASSERT(ok, "the exception object");
    VP_ASSERT(live == 0, "no copy left");
    vp_stop();
}

void continuations()
{
    vp_expect("here");
    vp_expect("there");
    tpp::init();
    vp_timeouts(0, 0);
    unsigned kind = vp_choice(4), target = vp_choice(3), pol = vp_choice(3);
    bool late = vp_choice(2);
    auto t = tpp::make_thread();
    auto id = target == 0 ? tpp::caller_id() : target == 1 ? tpp::this_thread::get_id() : t.get_id();
    auto policy = pol == 0 ? std::launch::async : pol == 1 ? std::launch::deferred : std::launch::async | std::launch::deferred;
    std::atomic<int> n{0}, res{0};
    int runs = 0;
    tpp::future<int> f;
    tpp::future<void> g;
    auto with = [&](auto& p, auto set) {
        auto body = [&] {
            return [&, a = one(n), o = obj()](auto) {
                if(n) runs += 100;
                runs++;
                return 5;
            };
        };
        auto vbody = [&] {
            return [&, a = one(n), o = obj()](auto) {
                if(n) runs += 100;
                runs++;
            };
        };
        if(late) set(p);
        if(kind == 0)
            f = p.get_future().then(id, policy, body());
        else if(kind == 1)
            f = p.get_future().share().then(id, policy, body());
        else if(kind == 2)
            g = p.get_future().then(id, policy, vbody());
        else
            g = p.get_future().share().then(id, policy, vbody());
        if(!late) set(p);
    };
    if(kind < 2)
    {
        tpp::promise<one> p;
        with(p, [&](auto& q) { q.set_value(one(res)); });
    }
    else
    {
        // results of the same kind but without a value to release
        tpp::promise<obj> p;
        with(p, [&](auto& q) { q.set_value(obj()); });
        res = 1;
    }
    tpp::this_thread::process();
    if(kind < 2)
        f.wait();
    else
        g.wait();
    t.join();
    f = {};
    g = {};
    vp_reach(target == 2 ? "there" : "here");
    VP_ASSERT(runs == 1, "ran once");
    VP_ASSERT(n == 1 && live == 0, "continuation released");
    VP_ASSERT(res == 1, "result released");
    vp_stop();
}

void attach()
{
    vp_expect("before");
    vp_expect("after");
    tpp::init();
    vp_timeouts(0, 0);
    unsigned kind = vp_choice(2);
    std::atomic<int> n{0}, res{0}, runs{0};
    bool early = false;
    vp_start();
    {
        tpp::promise<one> p;
        auto f = p.get_future();
        std::thread t([&res, p = std::move(p)]() mutable {
            tpp::this_thread::register_this_thread();
            p.set_value(one(res));
            tpp::this_thread::unregister_this_thread();
        });
        early = f.is_ready();
        auto body = [&, a = one(n), o = obj()](auto) { runs++; };
        auto g = kind ? f.then(tpp::caller_id(), std::move(body)) : f.share().then(tpp::caller_id(), std::move(body));
        g.wait();
        t.join();
    }
    vp_reach(early ? "after" : "before");
    vp_final();
    VP_ASSERT(runs == 1, "ran once");
    VP_ASSERT(n == 1 && live == 0 && res == 1, "released once");
    vp_stop();
}

void abandoned()
{
    vp_expect("done");
    tpp::init();
    unsigned how = vp_choice(4), kind = vp_choice(3);
    std::atomic<int> n{0};
    auto self = tpp::this_thread::get_id();
    bool ran = false;
    {
        auto p = std::make_unique<tpp::promise<obj>>();
        tpp::future<void> g;
        tpp::shared_future<obj> s;
        auto body = [&] { return [&, a = one(n), o = obj()](auto) { ran = true; }; };
        if(kind == 0)
            g = p->get_future().then(self, body());
        else if(kind == 1)
            g = p->get_future().share().then(self, body());
        else
        {
            s = p->get_future().share();
            g = s.then(999999, body());
        }
        VP_ASSERT(n == 0, "kept until the result is known");
        if(how == 0)
            p.reset();
        else if(how == 1)
            *p = tpp::promise<obj>();
        else if(how == 2)
            p->abandon();
        else
        {
            auto q = std::move(*p);
            p.reset();
            VP_ASSERT(n == 0, "kept until the result is known");
        }
        VP_ASSERT(n == 1 && live == 0, "released once the result cannot come any more");
        VP_ASSERT(ran == (kind < 2), "told");
    }
    vp_reach("done");
    VP_ASSERT(n == 1 && live == 0, "released once");
    vp_stop();
}

void jobs()
{
    vp_expect("done");
    tpp::init();
    vp_timeouts(0, 0);
    unsigned how = vp_choice(5);
    std::atomic<int> first{0}, second{0};
    latch in, go;
    int ran = 0;
    bool ok = true;
    {
        tpp::thread_pool pool({{tpp::priority::category::normal, 1}});
        auto f = pool.schedule([&, a = one(first), o = obj()] {
            in.hit();
            go.wait(1);
            return obj();
        });
        in.wait(1);
        auto g = pool.schedule([&, a = one(second), o = obj()](const obj&) {
            ran++;
            return obj();
        }, obj());
        switch(how)
        {
        case 0: break;
        case 1: pool.stop(g.id); break;
        case 2: g.stop(); break;
        case 3: pool.stop_all(); break;
        case 4: break;
        }
        if(how >= 1 && how <= 3 && (second != 1 || first)) ok = false;
        go.hit();
        if(how == 0)
        {
            g.wait();
            f.get();
            // the worker is done with the first one
            if(first != 1) ok = false;
        }
    }
    vp_reach("done");
    VP_ASSERT(ok, "released by the stop");
    VP_ASSERT(ran == (how == 0) || (how == 4 && ran <= 1), "executed or not");
    VP_ASSERT(first == 1 && second == 1 && live == 0, "released once");
    vp_stop();
}

void stop_race()
{
    vp_expect("ran");
    vp_expect("stopped");
    tpp::init();
    vp_timeouts(0, 0);
    unsigned how = vp_choice(3);
    std::atomic<int> n{0};
    std::atomic<int> ran{0};
    bool ok = true;
    {
        tpp::thread_pool pool({{tpp::priority::category::normal, 1}});
        pool.schedule([] {}).wait();
        vp_start();
        auto f = pool.schedule([&, a = one(n), o = obj()] { ran++; });
        if(how == 0)
            pool.stop(f.id);
        else if(how == 1)
            f.stop();
        else
            pool.stop_all();
        if(n > 1) ok = false;
        f.wait();
    }
    vp_reach(ran ? "ran" : "stopped");
    vp_final();
    VP_ASSERT(ok && n == 1 && live == 0, "released once");
    vp_stop();
}

void combined()
{
    vp_expect("all");
    vp_expect("any");
    tpp::init();
    bool all = vp_choice(2), order = vp_choice(2), keep = vp_choice(2), range = vp_choice(2);
    std::atomic<int> a{0}, b{0};
    {
        tpp::promise<one> p, q;
        auto f = p.get_future();
        auto g = q.get_future().share();
        auto drop = [&](auto r) {
            if(!keep) r = {};
            if(order)
                q.set_value(one(b));
            else
                p.set_value(one(a));
            tpp::this_thread::process();
            VP_ASSERT(a == 0 || !keep, "kept");
            if(order)
                p.set_value(one(a));
            else
                q.set_value(one(b));
            tpp::this_thread::process();
            if(keep) VP_ASSERT(r.is_ready(), "complete");
            if(keep) VP_ASSERT(a == 0 && b == 0, "kept in the result");
        };
        if(range)
        {
            std::vector<tpp::shared_future<one>> v;
            v.push_back(f.share());
            v.push_back(g);
            if(all)
                drop(tpp::when_all(v.begin(), v.end()));
            else
                drop(tpp::when_any(v.begin(), v.end()));
        }
        else
        {
            if(all)
                drop(tpp::when_all(std::move(f), g));
            else
                drop(tpp::when_any(std::move(f), g));
        }
    }
    vp_reach(all ? "all" : "any");
    VP_ASSERT(a == 1 && b == 1, "released once");
    vp_stop();
}

void throwing()
{
    vp_expect("done");
    tpp::init();
    vp_timeouts(0, 0);
    unsigned how = vp_choice(4);
    std::atomic<int> n{0}, rest{0};
    int at = -1;
    auto self = tpp::this_thread::get_id();
    tpp::invoke(self, [a = one(n), o = obj()] { throw 1; });
    tpp::invoke(self, [a = one(rest), o = obj()] {});
    tpp::promise<int> p;
    auto f = p.get_future();
    tpp::condition_variable cv;
    std::mutex m;
    try
    {
        if(how == 0)
            tpp::this_thread::process();
        else if(how == 1)
            tpp::this_thread::wait();
        else if(how == 2)
            f.wait();
        else
        {
            std::unique_lock<std::mutex> l(m);
            cv.wait(l);
        }
    }
    catch(int)
    {
        at = n + 10 * rest;
    }
    tpp::this_thread::process();
    vp_reach("done");
    VP_ASSERT(at == 1, "released before the exception arrives");
    VP_ASSERT(n == 1 && rest == 1 && live == 0, "released once");
    vp_stop();
}

void detached()
{
    vp_expect("done");
    tpp::init();
    vp_timeouts(0, 0);
    unsigned how = vp_choice(3);
    std::atomic<int> n{0}, arg{0};
    bool ok = true;
    vp_start();
    {
        auto body = [&, a = one(n), o = obj()](const one&) { return obj(7); };
        tpp::future<obj> f;
        if(how == 0)
            f = tpp::async(std::move(body), one(arg));
        else if(how == 1)
            f = tpp::async(std::launch::async, std::move(body), one(arg));
        else
        {
            tpp::promise<one> p;
            f = p.get_future().then([b = std::move(body)](auto g) mutable {
                auto x = g.get();
                return b(x);
            });
            p.set_value(one(arg));
        }
        if(f.get().v != 7) ok = false;
    }
    int r = tpp::shutdown(1s);
    int at = n + 10 * arg + 100 * live;
    vp_reach("done");
    vp_final();
    VP_ASSERT(ok && r == 0, "completed");
    VP_ASSERT(at == 11, "released before the thread unregisters");
    vp_stop();
}

void handles()
{
    vp_expect("done");
    tpp::init();
    unsigned how = vp_choice(6);
    std::atomic<int> n{0}, m{0};
    bool ok = true;
    switch(how)
    {
    case 0:
    {
        tpp::promise<one> p, q;
        auto f = p.get_future(), g = q.get_future();
        p.set_value(one(n));
        q.set_value(one(m));
        f = std::move(g);
        p = {};
        ok = n == 1 && m == 0 && !g.valid() && f.is_ready();
        break;
    }
    case 1:
    {
        tpp::promise<one> p;
        auto s = p.get_future().share();
        auto t = s, u = std::move(s);
        p.set_value(one(n));
        p = {};
        t = u;
        t = std::move(u);
        ok = n == 0 && t.valid() && !u.valid() && !s.valid();
        t = {};
        ok = ok && n == 1;
        m = 1;
        break;
    }
    case 2:
    {
        tpp::promise<one> p, q;
        p.set_value(one(n));
        q.set_value(one(m));
        std::swap(p, q);
        {
            auto r = std::move(p);
            ok = n == 0 && m == 0;
        }
        ok = ok && n == 0 && m == 1;
        break;
    }
    case 3:
    {
        // a future put inside its own continuation's result
        auto self = tpp::this_thread::get_id();
        tpp::promise<one> p;
        auto f = p.get_future().then(self, [](auto g) { return g; });
        p.set_value(one(n));
        p = {};
        auto inner = f.get();
        ok = n == 0 && inner.is_ready();
        m = 1;
        break;
    }
    case 4:
    {
        // a promise owned by its own continuation
        auto p = std::make_shared<tpp::promise<one>>();
        auto self = tpp::this_thread::get_id();
        auto f = p->get_future().then(self, [p](auto g) { return g.get(); });
        auto raw = p.get();
        p.reset();
        raw->set_value(one(n));
        ok = n == 0 && f.is_ready();
        m = 1;
        break;
    }
    case 5:
    {
        tpp::thread_pool pool({{tpp::priority::category::normal, 1}});
        auto f = pool.schedule([&] { return one(n); });
        auto s = f.share();
        auto t = s;
        t.wait();
        s = {};
        pool = tpp::thread_pool(std::map<tpp::priority::category, size_t>{});
        ok = n == 0 && t.is_ready();
        m = 1;
        break;
    }
    }
    vp_reach("done");
    VP_ASSERT(ok, "as long as a handle refers to it");
    VP_ASSERT(n == 1 && m == 1, "released once");
    vp_stop();
}

void long_queue()
{
    vp_expect("run");
    vp_expect("released");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    bool run = vp_choice(2);
    std::vector<std::atomic<int>> gone(300);
    live = 0;
    int during = 0;
    for(int i = 0; i < 300; i++)
        tpp::invoke(
            me,
            [&, i, k = std::make_shared<one>(gone[i])](const obj&) {
                for(int j = 0; j < i; j += 37)
                    if(gone[j] != 1) during++;
                if(gone[i]) during++;
            },
            obj(i));
    if(run) tpp::this_thread::process();
    else tpp::this_thread::unregister_this_thread();
    VP_ASSERT(during == 0, "each released before the next starts");
    VP_ASSERT(live == 0, "arguments released");
    for(auto& g : gone) VP_ASSERT(g == 1, "captures released once");
    vp_reach(run ? "run" : "released");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
    case 0: ran(); break;
    case 1: remote(); break;
    case 2: refused(); break;
    case 3: dropped(); break;
    case 4: unregistered(); break;
    case 5: results(); break;
    case 6: between(); break;
    case 7: exceptions(); break;
    case 8: continuations(); break;
    case 9: attach(); break;
    case 10: abandoned(); break;
    case 11: jobs(); break;
    case 12: stop_race(); break;
    case 13: combined(); break;
    case 14: throwing(); break;
    case 15: detached(); break;
    case 16: handles(); break;
    case 17: long_queue(); break;
    }
}
