// C11: when_all completes exactly when all inputs are ready, in order
//@ 0 two futures, two completing threads | quick | | variadic form, symbolic 64-bit values, completion concurrent with the call and with each other, all interleavings
//@ 1 mixed inputs | quick | --merge 2 | variadic form of future, shared_future and void future; any subset already ready; values or exceptions; completion order symbolic
//@ 2 range of three | quick | --merge 2 | iterator form, any subset already ready, remaining ones completed by another thread in any order, symbolic values
//@ 3 shared inputs | quick | | iterator and variadic form of shared_futures, the same one twice, inputs stay usable
//@ 4 no inputs | quick | | both forms, and a range of one
//@ 5 errors and abandoned inputs | quick | | each of 2 inputs gets a value, an exception or is abandoned (symbolic), concurrent completion
//@ 6 never early | quick | | an observer thread and a continuation see the result ready only after both inputs, all interleavings
//@ 7 unregistered caller | quick | --merge 2 | caller without registration, inputs completed by 2 threads, all interleavings
//@ 8 nested | quick | | when_all of two when_all results, completion by a loop thread
//@ 9 calling thread exits | quick | | the calling thread leaves before the inputs complete: the result is abandoned, the inputs are released
//@ 10 several results over the same inputs | quick | | two when_all calls on different threads over one shared_future and own futures
//@ 11 many inputs | quick |  | range of 70 futures or shared_futures, the first k ready at the call, completed in either direction (symbolic), symbolic value
#include "common.h"
using namespace std::chrono_literals;

namespace
{
struct payload
{
    uint64_t v;
};

template<class F>
tpp::thread worker(F f)
{
    return tpp::thread([f]() mutable {
        tpp::this_thread::register_this_thread();
        f();
        tpp::this_thread::unregister_this_thread();
    });
}

template<class F>
uint64_t value_of(F&& f)
{
    try
    {
        return f.get();
    }
    catch(const payload& q)
    {
        return ~q.v;
    }
    catch(const std::future_error& e)
    {
        return e.code() == std::future_errc::broken_promise ? 0xb0 : 0xee;
    }
}

void two()
{
    vp_expect("done");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    tpp::promise<uint64_t> p, q;
    auto f = p.get_future(), g = q.get_future();
    uint64_t x = 0, y = 0;
    bool valid = false, ready = false;
    vp_timeouts(0, 0);
    vp_start();
    auto t = worker([&] { p.set_value(a); });
    auto u = worker([&] { q.set_value(b); });
    auto all = tpp::when_all(std::move(f), std::move(g));
    auto r = all.get();
    valid = std::get<0>(r).valid() && std::get<1>(r).valid();
    if(valid)
    {
        ready = std::get<0>(r).is_ready() && std::get<1>(r).is_ready();
        x = std::get<0>(r).get();
        y = std::get<1>(r).get();
    }
    vp_reach("done");
    vp_final();
    VP_ASSERT(valid && ready, "all inputs valid and ready");
    VP_ASSERT(x == a && y == b, "in argument order");
    vp_stop();
}

void mixed()
{
    vp_expect("allready");
    vp_expect("noneready");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    unsigned mask = vp_choice(8), order = vp_choice(3);
    bool err = vp_choice(2);
    tpp::promise<uint64_t> p, q;
    tpp::promise<void> r;
    auto f = p.get_future();
    auto g = q.get_future().share();
    auto h = r.get_future();
    auto set = [&](unsigned i) {
        if(i == 0) p.set_value(a);
        if(i == 1)
        {
            if(err)
                q.set_exception(std::make_exception_ptr(payload{b}));
            else
                q.set_value(b);
        }
        if(i == 2) r.set_value();
    };
    for(unsigned i = 0; i < 3; ++i)
        if(mask & (1 << i)) set(i);
    auto t = tpp::make_thread("t");
    settle(t);
    vp_timeouts(0, 0);
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        for(unsigned i = 0; i < 3; ++i)
        {
            unsigned k = (i + order) % 3;
            if(!(mask & (1 << k))) set(k);
        }
    });
    auto all = tpp::when_all(f, g, std::move(h));
    bool moved = !f.valid() && g.valid();
    auto res = all.get();
    bool ready = std::get<0>(res).is_ready() && std::get<1>(res).is_ready() && std::get<2>(res).is_ready();
    uint64_t x = std::get<0>(res).get(), y = value_of(std::get<1>(res)), z = value_of(g);
    std::get<2>(res).get();
    vp_reach(mask == 7 ? "allready" : mask == 0 ? "noneready" : "some");
    vp_final();
    VP_ASSERT(ready && moved, "all ready");
    VP_ASSERT(x == a, "first input");
    VP_ASSERT(y == (err ? ~b : b) && z == y, "second input and its other copy");
    vp_stop();
}

void range()
{
    vp_expect("allready");
    vp_expect("noneready");
    tpp::init();
    uint64_t v[3] = {vp_nondet_u64(), vp_nondet_u64(), vp_nondet_u64()};
    unsigned mask = vp_choice(8), order = vp_choice(3);
    bool back = vp_choice(2);
    tpp::promise<uint64_t> p[3];
    std::vector<tpp::future<uint64_t>> fs;
    for(auto& x : p) fs.push_back(x.get_future());
    for(unsigned i = 0; i < 3; ++i)
        if(mask & (1 << i)) p[i].set_value(v[i]);
    auto t = tpp::make_thread("t");
    settle(t);
    vp_timeouts(0, 0);
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        for(unsigned i = 0; i < 3; ++i)
        {
            unsigned k = back ? (order + 3 - i) % 3 : (i + order) % 3;
            if(!(mask & (1 << k))) p[k].set_value(v[k]);
        }
    });
    auto all = tpp::when_all(fs.begin(), fs.end());
    auto res = all.get();
    bool size = res.size() == 3, ready = false;
    uint64_t x[3] = {};
    if(size)
    {
        ready = res[0].is_ready() && res[1].is_ready() && res[2].is_ready();
        for(int i = 0; i < 3; ++i) x[i] = res[i].get();
    }
    vp_reach(mask == 7 ? "allready" : mask == 0 ? "noneready" : "some");
    vp_final();
    VP_ASSERT(size && ready, "all inputs, ready");
    VP_ASSERT(x[0] == v[0] && x[1] == v[1] && x[2] == v[2], "in order");
    vp_stop();
}

void shared()
{
    vp_expect("range");
    vp_expect("pack");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    bool pack = vp_choice(2), swap = vp_choice(2);
    tpp::promise<uint64_t> p, q;
    auto f = p.get_future().share();
    auto g = q.get_future().share();
    auto t = tpp::make_thread("t");
    settle(t);
    vp_timeouts(0, 0);
    uint64_t x[3] = {};
    bool ready = false;
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        if(swap) q.set_value(b);
        p.set_value(a);
        if(!swap) q.set_value(b);
    });
    if(pack)
    {
        auto r = tpp::when_all(f, g, f).get();
        ready = std::get<0>(r).is_ready() && std::get<1>(r).is_ready() && std::get<2>(r).is_ready();
        x[0] = std::get<0>(r).get();
        x[1] = std::get<1>(r).get();
        x[2] = std::get<2>(r).get();
    }
    else
    {
        std::vector<tpp::shared_future<uint64_t>> fs{f, g, f};
        auto r = tpp::when_all(fs.begin(), fs.end()).get();
        if(r.size() == 3)
        {
            ready = r[0].is_ready() && r[1].is_ready() && r[2].is_ready() && fs[0].valid() && fs[1].valid();
            for(int i = 0; i < 3; ++i) x[i] = r[i].get();
        }
    }
    bool keep = f.valid() && g.valid() && f.get() == a && g.get() == b;
    vp_reach(pack ? "pack" : "range");
    vp_final();
    VP_ASSERT(ready, "all ready");
    VP_ASSERT(x[0] == a && x[1] == b && x[2] == a, "in order");
    VP_ASSERT(keep, "shared inputs stay usable");
    vp_stop();
}

void none()
{
    vp_expect("done");
    tpp::init();
    auto a = tpp::when_all();
    VP_ASSERT(a.valid() && a.is_ready(), "ready at once");
    a.get();
    std::vector<tpp::future<int>> v;
    auto b = tpp::when_all(v.begin(), v.end());
    VP_ASSERT(b.valid() && b.is_ready() && !b.has_error(), "ready at once");
    VP_ASSERT(b.get().empty(), "empty");
    tpp::promise<int> p;
    v.push_back(p.get_future());
    auto c = tpp::when_all(v.begin(), v.end());
    VP_ASSERT(!c.is_ready(), "not before its input");
    p.set_value(9);
    auto r = c.get();
    VP_ASSERT(r.size() == 1 && r[0].is_ready() && r[0].get() == 9, "one input");
    tpp::promise<int> q;
    auto d = tpp::when_all(q.get_future());
    VP_ASSERT(!d.is_ready(), "not before its input");
    q.set_value(8);
    VP_ASSERT(std::get<0>(d.get()).get() == 8, "one input");
    vp_reach("done");
    vp_stop();
}

void errors()
{
    vp_expect("done");
    tpp::init();
    uint64_t v = vp_nondet_u64();
    unsigned how[2] = {vp_choice(3), vp_choice(3)};
    bool rng = vp_choice(2);
    tpp::promise<uint64_t> p[2];
    std::vector<tpp::future<uint64_t>> fs;
    for(auto& x : p) fs.push_back(x.get_future());
    auto finish = [&](int i) {
        if(how[i] == 0) p[i].set_value(v + i);
        if(how[i] == 1) p[i].set_exception(std::make_exception_ptr(payload{v + i}));
        if(how[i] == 2) p[i] = tpp::promise<uint64_t>();
    };
    vp_timeouts(0, 0);
    uint64_t x[2] = {};
    bool err = true, flags = true;
    vp_start();
    auto t = worker([&] { finish(0); });
    if(rng)
    {
        auto all = tpp::when_all(fs.begin(), fs.end());
        finish(1);
        all.wait();
        err = all.has_error();
        auto r = all.get();
        flags = r[0].has_error() == (how[0] != 0) && r[1].has_error() == (how[1] != 0);
        x[0] = value_of(r[0]);
        x[1] = value_of(r[1]);
    }
    else
    {
        auto all = tpp::when_all(fs[0], fs[1]);
        finish(1);
        all.wait();
        err = all.has_error();
        auto r = all.get();
        flags = std::get<0>(r).has_error() == (how[0] != 0) && std::get<1>(r).has_error() == (how[1] != 0);
        x[0] = value_of(std::get<0>(r));
        x[1] = value_of(std::get<1>(r));
    }
    vp_reach("done");
    vp_final();
    VP_ASSERT(!err, "the combined future itself succeeds");
    VP_ASSERT(flags, "input states");
    for(uint64_t i = 0; i < 2; ++i)
        VP_ASSERT(x[i] == (how[i] == 0 ? v + i : how[i] == 1 ? ~(v + i) : 0xb0), "own outcome");
    vp_stop();
}

void never_early()
{
    vp_expect("notyet");
    vp_expect("ready");
    tpp::init();
    tpp::promise<int> p, q;
    auto f = p.get_future(), g = q.get_future();
    bool setp = false, setq = false, bad = false, seen = false;
    int ran = 0;
    latch done;
    vp_timeouts(0, 0);
    auto t = tpp::make_thread("t");
    settle(t);
    bool rng = vp_choice(2);
    tpp::shared_future<void> sf;
    vp_start();
    std::thread s([&] {
        setp = true;
        p.set_value(1);
    });
    tpp::invoke(t.get_id(), [&] {
        setq = true;
        q.set_value(2);
    });
    auto check = [&](auto) {
        ran++;
        if(!setp || !setq) bad = true;
    };
    if(rng)
    {
        std::vector<tpp::future<int>> fs;
        fs.push_back(std::move(f));
        fs.push_back(std::move(g));
        sf = tpp::when_all(fs.begin(), fs.end())
                 .then(tpp::caller_id(), [&](tpp::future<std::vector<tpp::future<int>>> x) { check(std::move(x)); })
                 .share();
    }
    else
        sf = tpp::when_all(f, g)
                 .then(tpp::caller_id(),
                       [&](tpp::future<std::tuple<tpp::future<int>, tpp::future<int>>> x) { check(std::move(x)); })
                 .share();
    seen = sf.is_ready();
    if(seen && !(setp && setq)) bad = true;
    vp_reach(seen ? "ready" : "notyet");
    sf.wait();
    vp_final();
    VP_ASSERT(!bad, "ready only after every input");
    VP_ASSERT(ran == 1, "once");
    VP_ASSERT(sf.is_ready(), "and then it is ready");
    vp_stop();
}

void unregistered()
{
    vp_expect("done");
    tpp::promise<int> p, q;
    auto f = p.get_future(), g = q.get_future();
    bool rng = vp_choice(2);
    int x = 0, y = 0;
    bool ready = false, bad = false;
    latch done;
    vp_timeouts(0, 0);
    vp_start();
    std::thread s([&] {
        p.set_value(1);
        done.hit();
    });
    std::thread u([&] {
        q.set_value(2);
        done.hit();
    });
    if(rng)
    {
        std::vector<tpp::future<int>> fs;
        fs.push_back(std::move(f));
        fs.push_back(std::move(g));
        auto all = tpp::when_all(fs.begin(), fs.end());
        done.wait(2);
        ready = all.is_ready();
        if(ready)
        {
            auto r = all.get();
            x = r[0].get();
            y = r[1].get();
        }
    }
    else
    {
        auto all = tpp::when_all(f, g);
        done.wait(2);
        ready = all.is_ready();
        if(ready)
        {
            auto r = all.get();
            x = std::get<0>(r).get();
            y = std::get<1>(r).get();
        }
    }
    vp_reach("done");
    vp_final();
    VP_ASSERT(ready && !bad, "ready without any registered thread");
    VP_ASSERT(x == 1 && y == 2, "values");
    vp_stop();
}

void nested()
{
    vp_expect("done");
    tpp::init();
    uint64_t v[3] = {vp_nondet_u64(), vp_nondet_u64(), vp_nondet_u64()};
    unsigned order = vp_choice(3);
    tpp::promise<uint64_t> p[3];
    auto t = tpp::make_thread("t");
    settle(t);
    vp_timeouts(0, 0);
    uint64_t x[3] = {};
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        for(unsigned i = 0; i < 3; ++i) p[(i + order) % 3].set_value(v[(i + order) % 3]);
    });
    std::vector<tpp::future<uint64_t>> fs;
    fs.push_back(p[1].get_future());
    fs.push_back(p[2].get_future());
    auto all = tpp::when_all(tpp::when_all(p[0].get_future()), tpp::when_all(fs.begin(), fs.end()));
    auto r = all.get();
    auto r0 = std::get<0>(r).get();
    auto r1 = std::get<1>(r).get();
    x[0] = std::get<0>(r0).get();
    x[1] = r1[0].get();
    x[2] = r1[1].get();
    vp_reach("done");
    vp_final();
    VP_ASSERT(x[0] == v[0] && x[1] == v[1] && x[2] == v[2], "values in order");
    vp_stop();
}

void caller_exits()
{
    vp_expect("done");
    tpp::init();
    auto p = std::make_shared<tpp::promise<int>>();
    auto q = std::make_shared<tpp::promise<int>>();
    bool rng = vp_choice(2);
    int o = -1;
    vp_timeouts(0, 0);
    tpp::promise<void> started;
    tpp::shared_future<void> sf;
    latch done;
    vp_start();
    auto t = worker([&] {
        auto f = p->get_future(), g = q->get_future();
        if(rng)
        {
            std::vector<tpp::future<int>> fs;
            fs.push_back(std::move(f));
            fs.push_back(std::move(g));
            sf = tpp::when_all(fs.begin(), fs.end())
                     .then(tpp::caller_id(), [](tpp::future<std::vector<tpp::future<int>>> x) { x.get(); })
                     .share();
        }
        else
            sf = tpp::when_all(f, g)
                     .then(tpp::caller_id(), [](tpp::future<std::tuple<tpp::future<int>, tpp::future<int>>> x) { x.get(); })
                     .share();
        done.hit();
    });
    done.wait(1);
    p->set_value(1);
    t.join();
    q->set_value(2);
    try
    {
        sf.get();
        o = 0;
    }
    catch(const std::future_error& e)
    {
        o = e.code() == std::future_errc::broken_promise ? 1 : 2;
    }
    vp_reach("done");
    vp_final();
    VP_ASSERT(o == 1, "abandoned with its calling thread");
    vp_stop();
}

void two_calls()
{
    vp_expect("done");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    tpp::promise<uint64_t> p, q;
    auto f = p.get_future().share();
    auto g = q.get_future();
    uint64_t x[2] = {}, y[2] = {};
    latch done;
    vp_timeouts(0, 0);
    auto t = tpp::make_thread("t");
    settle(t);
    vp_start();
    tpp::invoke(t.get_id(), [&, f] {
        uint64_t c = 5;
        auto r = tpp::when_all(f, tpp::make_ready_future(std::move(c))).get();
        x[0] = std::get<0>(r).get();
        x[1] = std::get<1>(r).get();
        q.set_value(b);
        done.hit();
    });
    auto all = tpp::when_all(g, f);
    p.set_value(a);
    auto r = all.get();
    y[0] = std::get<0>(r).get();
    y[1] = std::get<1>(r).get();
    done.wait(1);
    vp_reach("done");
    vp_final();
    VP_ASSERT(x[0] == a && x[1] == 5, "first result");
    VP_ASSERT(y[0] == b && y[1] == a, "second result");
    vp_stop();
}

template<class Future>
void many_of()
{
    auto me = tpp::this_thread::get_id();
    uint64_t v = vp_nondet_u64();
    unsigned ready = vp_choice(2) ? 0 : 13;
    bool back = vp_choice(2);
    std::vector<tpp::promise<uint64_t>> p(70);
    std::vector<Future> fs;
    for(auto& x : p) fs.push_back(x.get_future());
    for(unsigned i = 0; i < ready; i++) p[i].set_value(v + i);
    auto all = tpp::when_all(fs.begin(), fs.end());
    int ran = 0;
    auto g = all.then(me, [&](auto x) {
        ran++;
        return x.get();
    });
    for(unsigned k = ready; k < 70; k++)
    {
        VP_ASSERT(ran == 0, "not before all are ready");
        unsigned i = back ? 69 + ready - k : k;
        p[i].set_value(v + i);
        tpp::this_thread::process();
    }
    auto r = g.get();
    VP_ASSERT(ran == 1 && r.size() == 70, "once, with all inputs");
    for(unsigned i = 0; i < r.size(); i++) VP_ASSERT(r[i].valid() && r[i].is_ready() && r[i].get() == v + i, "in order");
}

void many()
{
    vp_expect("futures");
    vp_expect("shared");
    tpp::init();
    if(vp_choice(2))
    {
        many_of<tpp::future<uint64_t>>();
        vp_reach("futures");
    }
    else
    {
        many_of<tpp::shared_future<uint64_t>>();
        vp_reach("shared");
    }
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: two(); break;
        case 1: mixed(); break;
        case 2: range(); break;
        case 3: shared(); break;
        case 4: none(); break;
        case 5: errors(); break;
        case 6: never_early(); break;
        case 7: unregistered(); break;
        case 8: nested(); break;
        case 9: caller_exits(); break;
        case 10: two_calls(); break;
        case 11: many(); break;
    }
}
