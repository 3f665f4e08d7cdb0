// C09: each continuation runs exactly once with a ready parent
//@ 0 attach against completion | quick | --merge 2 | value or exception (symbolic 64-bit payload), continuation on the attaching or a loop thread, symbolic launch policy, all interleavings
//@ 1 void parent | quick | | void future, void shared_future, set or failed, attach concurrent with completion, all interleavings
//@ 2 shared parent, attach from two threads | quick | | 3 continuations of one shared_future attached by 2 threads while a third completes it
//@ 3 attach from a continuation | quick | | continuation of a shared_future attaches another one to the same future and to its own, all interleavings
//@ 4 errors along a chain | quick | --merge 2 | chain of 3, each stage may throw or pass on (symbolic), symbolic payload, completion concurrent
//@ 5 already complete | quick | | value, void, exception; future and shared_future; any policy value; symbolic payload
//@ 6 move-only values | quick | | unique_ptr result through two continuations, completion concurrent
//@ 7 continuation on a fresh thread | quick | | then without id on value and shared futures, completion concurrent with attach
//@ 8 many continuations in order | quick | | 3 continuations attached before completion on one loop thread, one throws
//@ 9 completion inside the queue of the target | quick | | parent produced by async on the same thread that continues it, then from inside a task
//@ 10 values from void parents | quick | | continuations of void futures and shared_futures that return a symbolic 64-bit value or throw it, continued again, completion concurrent with attach
//@ 11 many continuations | quick |  | 70 continuations of one shared_future and a chain of 18, some attached after completion (symbolic), symbolic value
#include "common.h"
using namespace std::chrono_literals;

namespace
{
struct payload
{
    uint64_t v;
};

template<class F>
tpp::thread worker(F f)
{
    return tpp::thread([f]() mutable {
        tpp::this_thread::register_this_thread();
        f();
        tpp::this_thread::unregister_this_thread();
    });
}

void attach()
{
    vp_expect("value");
    vp_expect("error");
    tpp::init();
    uint64_t v = vp_nondet_u64();
    bool err = vp_choice(2), other = vp_choice(2);
    uint32_t policy = vp_nondet_u32();
    auto t = tpp::make_thread("t");
    settle(t);
    auto id = other ? t.get_id() : tpp::this_thread::get_id();
    tpp::promise<uint64_t> p;
    auto f = p.get_future();
    int ran = 0;
    bool ready = false, valid = false;
    uint64_t seen = 0, got = 0;
    vp_timeouts(0, 0);
    vp_start();
    auto u = worker([&] {
        if(err)
            p.set_exception(std::make_exception_ptr(payload{v}));
        else
            p.set_value(v);
    });
    auto g = f.then(id, static_cast<std::launch>(policy), [&](tpp::future<uint64_t> x) {
        ran++;
        valid = x.valid();
        ready = x.is_ready();
        try
        {
            seen = x.get();
        }
        catch(const payload& q)
        {
            seen = ~q.v;
        }
        return seen ^ 5;
    });
    bool gone = !f.valid();
    got = g.get();
    vp_reach(err ? "error" : "value");
    vp_final();
    VP_ASSERT(gone, "then consumes the future");
    VP_ASSERT(ran == 1, "runs exactly once");
    VP_ASSERT(valid && ready, "with a valid ready parent");
    VP_ASSERT(seen == (err ? ~v : v), "carrying the outcome");
    VP_ASSERT(got == (seen ^ 5), "its result is delivered");
    vp_stop();
}

void void_parent()
{
    vp_expect("plain");
    vp_expect("shared");
    tpp::init();
    bool err = vp_choice(2), shared = vp_choice(2);
    tpp::promise<void> p;
    auto f = p.get_future();
    int ran = 0, failed = 0;
    bool ready = false, done = false;
    vp_timeouts(0, 0);
    auto t = tpp::make_thread("t");
    settle(t);
    vp_start();
    auto u = worker([&] {
        if(err)
            p.set_exception(std::make_exception_ptr(payload{1}));
        else
            p.set_value();
    });
    auto body = [&](auto x) {
        ran++;
        ready = x.is_ready();
        try
        {
            x.get();
        }
        catch(const payload&)
        {
            failed++;
            throw;
        }
    };
    tpp::future<void> g;
    if(shared)
        g = f.share().then(t.get_id(), [&](tpp::shared_future<void> x) { body(x); });
    else
        g = f.then(t.get_id(), [&](tpp::future<void> x) { body(std::move(x)); });
    try
    {
        g.get();
        done = true;
    }
    catch(const payload&)
    {
    }
    vp_reach(shared ? "shared" : "plain");
    vp_final();
    VP_ASSERT(ran == 1 && ready, "runs exactly once with a ready parent");
    VP_ASSERT(failed == (err ? 1 : 0), "parent outcome");
    VP_ASSERT(done == !err, "exception propagates");
    vp_stop();
}

void shared_three()
{
    vp_expect("all");
    tpp::init();
    tpp::promise<int> p;
    auto f = p.get_future().share();
    int ran[3] = {}, bad = 0;
    latch done;
    vp_timeouts(0, 0);
    auto cont = [&](int i) {
        return [&, i](tpp::shared_future<int> x) {
            ran[i]++;
            if(!x.is_ready() || x.get() != 7) bad++;
            done.hit();
        };
    };
    vp_start();
    auto t = worker([&, f] { f.then(tpp::caller_id(), cont(0)); });
    auto u = worker([&] { p.set_value(7); });
    f.then(tpp::caller_id(), cont(1));
    f.then(tpp::caller_id(), cont(2));
    done.wait(3);
    vp_reach("all");
    vp_final();
    VP_ASSERT(ran[0] == 1 && ran[1] == 1 && ran[2] == 1, "every continuation exactly once");
    VP_ASSERT(!bad, "parent ready with its value");
    vp_stop();
}

void reattach()
{
    vp_expect("inner");
    tpp::init();
    uint64_t v = vp_nondet_u64();
    tpp::promise<uint64_t> p;
    auto f = p.get_future().share();
    int ran = 0, inner = 0;
    uint64_t got = 0, seen = 0;
    auto t = tpp::make_thread("t");
    settle(t);
    vp_timeouts(0, 0);
    latch done;
    vp_start();
    auto u = worker([&] { p.set_value(v); });
    auto g = f.then(t.get_id(), [&](tpp::shared_future<uint64_t> x) {
        ran++;
        x.then(tpp::caller_id(), [&](tpp::shared_future<uint64_t> y) {
            inner++;
            seen = y.get();
            done.hit();
        });
        return x.get() + 1;
    });
    got = g.get();
    done.wait(1);
    vp_reach("inner");
    vp_final();
    VP_ASSERT(ran == 1 && inner == 1, "each exactly once");
    VP_ASSERT(seen == v && got == v + 1, "values");
    vp_stop();
}

void chain()
{
    vp_expect("ok");
    vp_expect("failed");
    tpp::init();
    uint64_t v = vp_nondet_u64();
    // which stage throws: 0 parent, 1, 2, 3 continuations, 4 none
    unsigned at = vp_choice(5);
    auto t = tpp::make_thread("t");
    settle(t);
    tpp::promise<uint64_t> p;
    auto f = p.get_future();
    int ran[3] = {};
    int caught = 0;
    uint64_t got = 0;
    vp_timeouts(0, 0);
    auto stage = [&](int i) {
        return [&, i](tpp::future<uint64_t> x) -> uint64_t {
            ran[i]++;
            uint64_t y = x.get();
            if(at == unsigned(i + 1)) throw payload{y};
            return y + 1;
        };
    };
    vp_start();
    auto u = worker([&] {
        if(at == 0)
            p.set_exception(std::make_exception_ptr(payload{v}));
        else
            p.set_value(v);
    });
    auto me = tpp::this_thread::get_id();
    auto g = f.then(me, stage(0)).then(t.get_id(), stage(1)).then(me, stage(2));
    try
    {
        got = g.get();
    }
    catch(const payload& q)
    {
        caught = 1;
        got = q.v;
    }
    vp_reach(caught ? "failed" : "ok");
    vp_final();
    VP_ASSERT(ran[0] == 1 && ran[1] == 1 && ran[2] == 1, "every stage exactly once");
    VP_ASSERT(caught == (at < 4), "errors propagate");
    VP_ASSERT(got == v + (at == 0 ? 0 : at - 1), "value or payload of the stage that failed");
    vp_stop();
}

template<class Fut>
void complete_with(Fut f, uint64_t v, bool err, uint32_t policy)
{
    int ran = 0;
    uint64_t seen = 0;
    bool ready = false;
    auto g = f.then(tpp::this_thread::get_id(), static_cast<std::launch>(policy), [&](Fut x) {
        ran++;
        ready = x.is_ready();
        try
        {
            seen = x.get();
        }
        catch(const payload& q)
        {
            seen = ~q.v;
            throw;
        }
        return seen + 1;
    });
    VP_ASSERT(ran == (policy == 1 ? 0 : 1), "run at once unless it must be queued");
    if(policy == 1) tpp::this_thread::process();
    VP_ASSERT(ran == 1 && ready, "exactly once, ready parent");
    VP_ASSERT(seen == (err ? ~v : v), "outcome");
    bool caught = false;
    uint64_t got = 0;
    try
    {
        got = g.get();
    }
    catch(const payload& q)
    {
        caught = q.v == v;
    }
    VP_ASSERT(caught == err, "exception delivered");
    VP_ASSERT(err || got == v + 1, "value delivered");
    tpp::this_thread::process();
    VP_ASSERT(ran == 1, "still once");
}

void complete()
{
    vp_expect("done");
    tpp::init();
    uint64_t v = vp_nondet_u64();
    uint32_t policy = vp_nondet_u32();
    bool err = vp_choice(2), shared = vp_choice(2);
    tpp::future<uint64_t> f;
    if(err)
        f = tpp::make_exceptional_future<uint64_t>(payload{v});
    else
    {
        uint64_t c = v;
        f = tpp::make_ready_future(std::move(c));
    }
    if(shared)
        complete_with(f.share(), v, err, policy);
    else
        complete_with(std::move(f), v, err, policy);
    vp_reach("done");
    vp_stop();
}

void move_only()
{
    vp_expect("done");
    tpp::init();
    uint64_t v = vp_nondet_u64();
    using ptr = std::unique_ptr<uint64_t>;
    tpp::promise<ptr> p;
    auto f = p.get_future();
    auto t = tpp::make_thread("t");
    settle(t);
    bool null = false;
    uint64_t got = 0;
    vp_timeouts(0, 0);
    vp_start();
    auto u = worker([&] { p.set_value(std::make_unique<uint64_t>(v)); });
    auto g = f.then(t.get_id(), [&](tpp::future<ptr> x) {
                  auto q = x.get();
                  null = null || !q;
                  ++*q;
                  return q;
              })
                 .then(tpp::this_thread::get_id(), [&](tpp::future<ptr> x) {
                     auto q = x.get();
                     null = null || !q;
                     return q;
                 });
    auto q = g.get();
    null = null || !q;
    if(q) got = *q;
    vp_reach("done");
    vp_final();
    VP_ASSERT(!null, "never moved from");
    VP_ASSERT(got == v + 1, "the object itself travels");
    vp_stop();
}

void fresh_thread()
{
    vp_expect("plain");
    vp_expect("shared");
    tpp::init();
    bool shared = vp_choice(2);
    tpp::promise<int> p;
    auto f = p.get_future();
    int ran = 0, got = 0;
    tpp::thread::id where = 0;
    auto me = tpp::this_thread::get_id();
    vp_timeouts(0, 0);
    vp_start();
    auto u = worker([&] { p.set_value(4); });
    auto body = [&](auto x) {
        ran++;
        where = tpp::this_thread::get_id();
        return x.get() + 1;
    };
    tpp::future<int> g;
    if(shared)
        g = f.share().then([&](tpp::shared_future<int> x) { return body(x); });
    else
        g = f.then([&](tpp::future<int> x) { return body(std::move(x)); });
    got = g.get();
    vp_reach(shared ? "shared" : "plain");
    vp_final();
    VP_ASSERT(ran == 1 && got == 5, "exactly once");
    VP_ASSERT(where != me && where != 0 && where != u.get_id(), "on a thread of its own");
    vp_stop();
}

void several()
{
    vp_expect("all");
    tpp::init();
    tpp::promise<int> p;
    auto f = p.get_future().share();
    auto t = tpp::make_thread("t");
    settle(t);
    unsigned thrower = vp_choice(4);
    int ran[3] = {}, ok = 0, failed = 0;
    vp_timeouts(0, 0);
    std::vector<tpp::future<int>> gs;
    for(unsigned i = 0; i < 3; ++i)
        gs.push_back(f.then(i == 1 ? tpp::caller_id() : t.get_id(), [&ran, i, thrower](tpp::shared_future<int> x) {
            ran[i]++;
            if(i == thrower) throw payload{i};
            return x.get() + int(i);
        }));
    vp_start();
    p.set_value(3);
    for(unsigned i = 0; i < 3; ++i)
    {
        try
        {
            if(gs[i].get() == int(3 + i)) ok++;
        }
        catch(const payload& q)
        {
            if(q.v == i && i == thrower) failed++;
        }
    }
    vp_reach("all");
    vp_final();
    VP_ASSERT(ran[0] == 1 && ran[1] == 1 && ran[2] == 1, "each exactly once, whatever the others do");
    VP_ASSERT(failed == (thrower < 3 ? 1 : 0) && ok == 3 - failed, "own results");
    vp_stop();
}

void own_queue()
{
    vp_expect("done");
    tpp::init();
    uint64_t v = vp_nondet_u64();
    auto t = tpp::make_thread("t");
    settle(t);
    auto id = t.get_id();
    int ran = 0, nested = 0;
    uint64_t got = 0, in = 0;
    vp_timeouts(0, 0);
    vp_start();
    auto g = tpp::async(id, std::launch::async, [](uint64_t x) { return x + 1; }, v).then(id, [&](tpp::future<uint64_t> x) {
        ran++;
        uint64_t y = x.get();
        // attach and wait from inside a continuation
        in = tpp::async(tpp::caller_id(), std::launch::async, [y] { return y * 2; })
                 .then(tpp::caller_id(), [&](tpp::future<uint64_t> z) {
                     nested++;
                     return z.get() + 1;
                 })
                 .get();
        return y + 1;
    });
    got = g.get();
    vp_reach("done");
    vp_final();
    VP_ASSERT(ran == 1 && nested == 1, "each exactly once");
    VP_ASSERT(got == v + 2, "value");
    VP_ASSERT(in == (v + 1) * 2 + 1, "nested value");
    vp_stop();
}

void void_to_value()
{
    vp_expect("plain");
    vp_expect("shared");
    tpp::init();
    bool err = vp_choice(2), shared = vp_choice(2), other = vp_choice(2);
    uint64_t v = vp_nondet_u64(), got = 0, thrown = 0;
    tpp::promise<void> p;
    auto f = p.get_future();
    int ran = 0, second = 0;
    auto t = tpp::make_thread("t");
    settle(t);
    auto id = other ? t.get_id() : tpp::this_thread::get_id();
    vp_timeouts(0, 0);
    vp_start();
    auto u = worker([&] { p.set_value(); });
    auto body = [&] {
        ran++;
        if(err) throw payload{v};
        return v;
    };
    tpp::future<uint64_t> g;
    if(shared)
        g = f.share().then(id, [&](tpp::shared_future<void> x) {
            x.get();
            return body();
        });
    else
        g = f.then(id, [&](tpp::future<void> x) {
            x.get();
            return body();
        });
    auto h = g.then(t.get_id(), [&](tpp::future<uint64_t> x) {
        second++;
        return std::make_unique<uint64_t>(x.get() + 1);
    });
    try
    {
        got = *h.get();
    }
    catch(const payload& e)
    {
        thrown = e.v;
    }
    vp_reach(shared ? "shared" : "plain");
    vp_final();
    VP_ASSERT(ran == 1 && second == 1, "each runs exactly once");
    VP_ASSERT(err ? thrown == v : got == v + 1, "result or exception of the continuation");
    vp_stop();
}

void many()
{
    vp_expect("all");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    uint64_t v = vp_nondet_u64();
    unsigned late = vp_choice(2) ? 70 : vp_choice(2) ? 36 : 0;
    tpp::promise<uint64_t> p, q;
    auto f = p.get_future().share();
    uint64_t seen[70] = {};
    int runs[70] = {}, steps = 0;
    std::vector<tpp::future<void>> gs;
    auto attach = [&](int i) {
        gs.push_back(f.then(me, [&, i](tpp::shared_future<uint64_t> x) {
            runs[i]++;
            seen[i] = x.get() + i;
        }));
    };
    auto chain = q.get_future();
    for(unsigned i = 0; i < 70; i++)
    {
        if(i == late)
        {
            p.set_value(v);
            q.set_value(v);
        }
        attach(i);
        if(i % 4) continue;
        chain = chain.then(me, [&](tpp::future<uint64_t> x) {
            steps++;
            return x.get() + 1;
        });
    }
    if(late == 70)
    {
        p.set_value(v);
        q.set_value(v);
    }
    for(auto& g : gs) g.get();
    VP_ASSERT(chain.get() == v + 18 && steps == 18, "along the chain");
    for(int i = 0; i < 70; i++) VP_ASSERT(runs[i] == 1 && seen[i] == v + i, "each exactly once");
    vp_reach("all");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: attach(); break;
        case 1: void_parent(); break;
        case 2: shared_three(); break;
        case 3: reattach(); break;
        case 4: chain(); break;
        case 5: complete(); break;
        case 6: move_only(); break;
        case 7: fresh_thread(); break;
        case 8: several(); break;
        case 9: own_queue(); break;
        case 10: void_to_value(); break;
        case 11: many(); break;
    }
}
