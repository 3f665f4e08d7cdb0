// C12: when_any names an input that is ready and keeps all inputs valid
//@ 0 two futures, two completing threads | quick | | variadic form, symbolic 64-bit values, completion concurrent with the call and with each other, all interleavings
//@ 1 mixed inputs | quick | --merge 2 | variadic form of future, shared_future and void future; any subset already ready; completion order symbolic
//@ 2 range of three | quick | --merge 2 | iterator form, any subset already ready, the rest completed by another thread in any order, symbolic values
//@ 3 shared inputs | quick | | iterator and variadic form of shared_futures, the same one twice, inputs stay usable
//@ 4 no inputs | quick | | both forms, and one input
//@ 5 errors and abandoned inputs | quick | | the first to complete gets a value, an exception or is abandoned (symbolic)
//@ 6 one input never completes | quick | | the other one gets a value, an exception or is abandoned (symbolic) at any moment; the pending one is completed or abandoned later
//@ 7 waiting for the others in a continuation | quick | | the continuation of the result waits for the remaining input and processes tasks, all interleavings
//@ 8 unregistered caller | quick | --merge 2 | caller without registration, inputs completed by 2 threads, all interleavings
//@ 9 visit_at | quick | | tuples of 1 to 4 elements, every 64-bit index, exceptions of the visitor
//@ 10 calling thread exits | quick | | the calling thread leaves before any input completes: the result is abandoned
//@ 11 never early | quick | | an observer sees the result ready only after an input is, all interleavings
//@ 12 many inputs | quick |  | range of 300 futures, a symbolic one of 4 completes first, the others later, symbolic value
#include "common.h"
using namespace std::chrono_literals;

namespace
{
struct payload
{
    uint64_t v;
};

template<class F>
tpp::thread worker(F f)
{
    return tpp::thread([f]() mutable {
        tpp::this_thread::register_this_thread();
        f();
        tpp::this_thread::unregister_this_thread();
    });
}

template<class F>
uint64_t value_of(F&& f)
{
    try
    {
        return f.get();
    }
    catch(const payload& q)
    {
        return ~q.v;
    }
    catch(const std::future_error& e)
    {
        return e.code() == std::future_errc::broken_promise ? 0xb0 : 0xee;
    }
}

using any2 = tpp::when_any_result<std::tuple<tpp::future<uint64_t>, tpp::future<uint64_t>>>;
using anyv = tpp::when_any_result<std::vector<tpp::future<uint64_t>>>;

void two()
{
    vp_expect("first");
    vp_expect("second");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    tpp::promise<uint64_t> p, q;
    auto f = p.get_future(), g = q.get_future();
    uint64_t x = 0, y = 0;
    bool ready = false;
    vp_timeouts(0, 0);
    vp_start();
    auto t = worker([&] { p.set_value(a); });
    auto u = worker([&] { q.set_value(b); });
    auto any = tpp::when_any(std::move(f), std::move(g));
    auto r = any.get();
    size_t index = r.index;
    bool valid = std::get<0>(r.futures).valid() && std::get<1>(r.futures).valid();
    if(valid)
    {
        ready = index == 0 ? std::get<0>(r.futures).is_ready() : std::get<1>(r.futures).is_ready();
        x = std::get<0>(r.futures).get();
        y = std::get<1>(r.futures).get();
    }
    vp_reach(index == 0 ? "first" : "second");
    vp_final();
    VP_ASSERT(index < 2, "index in range");
    VP_ASSERT(valid && ready, "all inputs valid, the named one ready");
    VP_ASSERT(x == a && y == b, "in argument order, all deliver");
    vp_stop();
}

void mixed()
{
    vp_expect("i0");
    vp_expect("i1");
    vp_expect("i2");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    unsigned mask = vp_choice(8), order = vp_choice(3);
    tpp::promise<uint64_t> p, q;
    tpp::promise<void> r;
    auto f = p.get_future();
    auto g = q.get_future().share();
    auto h = r.get_future();
    auto set = [&](unsigned i) {
        if(i == 0) p.set_value(a);
        if(i == 1) q.set_value(b);
        if(i == 2) r.set_value();
    };
    for(unsigned i = 0; i < 3; ++i)
        if(mask & (1 << i)) set(i);
    auto t = tpp::make_thread("t");
    settle(t);
    vp_timeouts(0, 0);
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        for(unsigned i = 0; i < 3; ++i)
        {
            unsigned k = (i + order) % 3;
            if(!(mask & (1 << k))) set(k);
        }
    });
    auto any = tpp::when_any(f, g, std::move(h));
    if(mask) VP_ASSERT(any.is_ready(), "ready at once with a ready input");
    auto res = any.get();
    auto& fs = res.futures;
    bool valid = std::get<0>(fs).valid() && std::get<1>(fs).valid() && std::get<2>(fs).valid();
    bool ready = false;
    uint64_t x = 0, y = 0, z = 0;
    if(valid)
    {
        ready = res.index == 0   ? std::get<0>(fs).is_ready()
                : res.index == 1 ? std::get<1>(fs).is_ready()
                                 : std::get<2>(fs).is_ready();
        x = std::get<0>(fs).get();
        y = std::get<1>(fs).get();
        z = g.get();
        std::get<2>(fs).get();
    }
    vp_reach(res.index == 0 ? "i0" : res.index == 1 ? "i1" : "i2");
    vp_final();
    VP_ASSERT(res.index < 3 && valid && ready, "names a ready input, all valid");
    VP_ASSERT(x == a && y == b && z == b, "all deliver their results");
    vp_stop();
}

void range()
{
    vp_expect("i0");
    vp_expect("i1");
    vp_expect("i2");
    tpp::init();
    uint64_t v[3] = {vp_nondet_u64(), vp_nondet_u64(), vp_nondet_u64()};
    unsigned mask = vp_choice(8), order = vp_choice(3);
    tpp::promise<uint64_t> p[3];
    std::vector<tpp::future<uint64_t>> fs;
    for(auto& x : p) fs.push_back(x.get_future());
    for(unsigned i = 0; i < 3; ++i)
        if(mask & (1 << i)) p[i].set_value(v[i]);
    auto t = tpp::make_thread("t");
    settle(t);
    vp_timeouts(0, 0);
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        for(unsigned i = 0; i < 3; ++i)
        {
            unsigned k = (i + order) % 3;
            if(!(mask & (1 << k))) p[k].set_value(v[k]);
        }
    });
    auto any = tpp::when_any(fs.begin(), fs.end());
    if(mask) VP_ASSERT(any.is_ready(), "ready at once with a ready input");
    auto res = any.get();
    bool ok = res.futures.size() == 3 && res.index < 3, ready = false, valid = false;
    uint64_t x[3] = {};
    if(ok)
    {
        valid = res.futures[0].valid() && res.futures[1].valid() && res.futures[2].valid();
        if(valid)
        {
            ready = res.futures[res.index].is_ready();
            for(int i = 0; i < 3; ++i) x[i] = res.futures[i].get();
        }
    }
    vp_reach(res.index == 0 ? "i0" : res.index == 1 ? "i1" : "i2");
    vp_final();
    VP_ASSERT(ok && valid && ready, "names a ready input, all valid");
    VP_ASSERT(x[0] == v[0] && x[1] == v[1] && x[2] == v[2], "in order, all deliver");
    vp_stop();
}

void shared()
{
    vp_expect("range");
    vp_expect("pack");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    bool pack = vp_choice(2), swap = vp_choice(2);
    tpp::promise<uint64_t> p, q;
    auto f = p.get_future().share();
    auto g = q.get_future().share();
    auto t = tpp::make_thread("t");
    settle(t);
    vp_timeouts(0, 0);
    uint64_t x[3] = {};
    bool ready = false, valid = false;
    size_t index = 9;
    vp_start();
    tpp::invoke(t.get_id(), [&] {
        if(swap) q.set_value(b);
        p.set_value(a);
        if(!swap) q.set_value(b);
    });
    if(pack)
    {
        auto r = tpp::when_any(f, g, f).get();
        index = r.index;
        valid = std::get<0>(r.futures).valid() && std::get<1>(r.futures).valid() && std::get<2>(r.futures).valid();
        ready = index == 1 ? std::get<1>(r.futures).is_ready() : std::get<0>(r.futures).is_ready();
        x[0] = std::get<0>(r.futures).get();
        x[1] = std::get<1>(r.futures).get();
        x[2] = std::get<2>(r.futures).get();
    }
    else
    {
        std::vector<tpp::shared_future<uint64_t>> fs{f, g, f};
        auto r = tpp::when_any(fs.begin(), fs.end()).get();
        index = r.index;
        if(r.futures.size() == 3 && index < 3)
        {
            valid = fs[0].valid() && fs[1].valid();
            ready = r.futures[index].is_ready();
            for(int i = 0; i < 3; ++i) x[i] = r.futures[i].get();
        }
    }
    bool keep = f.valid() && g.valid() && f.get() == a && g.get() == b;
    vp_reach(pack ? "pack" : "range");
    vp_final();
    VP_ASSERT(index < 3 && ready && valid, "names a ready input");
    VP_ASSERT(x[0] == a && x[1] == b && x[2] == a, "in order");
    VP_ASSERT(keep, "shared inputs stay usable");
    vp_stop();
}

void none()
{
    vp_expect("done");
    tpp::init();
    auto a = tpp::when_any();
    VP_ASSERT(a.valid() && a.is_ready(), "ready at once");
    VP_ASSERT(a.get().index == size_t(-1), "no index");
    std::vector<tpp::future<int>> v;
    auto b = tpp::when_any(v.begin(), v.end());
    VP_ASSERT(b.valid() && b.is_ready() && !b.has_error(), "ready at once");
    auto rb = b.get();
    VP_ASSERT(rb.futures.empty() && rb.index == size_t(-1), "empty");
    tpp::promise<int> p;
    v.push_back(p.get_future());
    auto c = tpp::when_any(v.begin(), v.end());
    VP_ASSERT(!c.is_ready(), "not before its input");
    p.set_value(9);
    auto r = c.get();
    VP_ASSERT(r.futures.size() == 1 && r.index == 0 && r.futures[0].get() == 9, "one input");
    tpp::promise<int> q;
    auto d = tpp::when_any(q.get_future());
    VP_ASSERT(!d.is_ready(), "not before its input");
    q.set_value(8);
    auto rd = d.get();
    VP_ASSERT(rd.index == 0 && std::get<0>(rd.futures).get() == 8, "one input");
    vp_reach("done");
    vp_stop();
}

void errors()
{
    vp_expect("done");
    tpp::init();
    uint64_t v = vp_nondet_u64();
    unsigned how[2] = {vp_choice(3), vp_choice(3)};
    bool rng = vp_choice(2);
    tpp::promise<uint64_t> p[2];
    std::vector<tpp::future<uint64_t>> fs;
    for(auto& x : p) fs.push_back(x.get_future());
    auto finish = [&](int i) {
        if(how[i] == 0) p[i].set_value(v + i);
        if(how[i] == 1) p[i].set_exception(std::make_exception_ptr(payload{v + i}));
        if(how[i] == 2) p[i] = tpp::promise<uint64_t>();
    };
    vp_timeouts(0, 0);
    uint64_t x[2] = {};
    size_t index = 9;
    bool err = true, ready = false;
    vp_start();
    auto t = worker([&] { finish(0); });
    if(rng)
    {
        auto any = tpp::when_any(fs.begin(), fs.end());
        finish(1);
        any.wait();
        err = any.has_error();
        auto r = any.get();
        index = r.index;
        ready = r.futures[index == 0 ? 0 : 1].is_ready();
        x[0] = value_of(r.futures[0]);
        x[1] = value_of(r.futures[1]);
    }
    else
    {
        auto any = tpp::when_any(fs[0], fs[1]);
        finish(1);
        any.wait();
        err = any.has_error();
        auto r = any.get();
        index = r.index;
        ready = index == 0 ? std::get<0>(r.futures).is_ready() : std::get<1>(r.futures).is_ready();
        x[0] = value_of(std::get<0>(r.futures));
        x[1] = value_of(std::get<1>(r.futures));
    }
    vp_reach("done");
    vp_final();
    VP_ASSERT(!err && index < 2 && ready, "names a ready input");
    for(uint64_t i = 0; i < 2; ++i)
        VP_ASSERT(x[i] == (how[i] == 0 ? v + i : how[i] == 1 ? ~(v + i) : 0xb0), "own outcome");
    vp_stop();
}

void pending()
{
    vp_expect("later");
    vp_expect("abandoned");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    unsigned which = vp_choice(2), how = vp_choice(3);
    bool abandon = vp_choice(2), rng = vp_choice(2);
    tpp::promise<uint64_t> p[2];
    std::vector<tpp::future<uint64_t>> fs;
    for(auto& x : p) fs.push_back(x.get_future());
    vp_timeouts(0, 0);
    size_t index = 9;
    bool valid = false, open = false;
    uint64_t x = 0, y = 0;
    vp_start();
    auto t = worker([&] {
        if(how == 0) p[which].set_value(a);
        if(how == 1) p[which].set_exception(std::make_exception_ptr(payload{a}));
        if(how == 2) p[which] = tpp::promise<uint64_t>();
    });
    std::vector<tpp::future<uint64_t>> out;
    if(rng)
    {
        auto r = tpp::when_any(fs.begin(), fs.end()).get();
        index = r.index;
        out = std::move(r.futures);
    }
    else
    {
        auto r = tpp::when_any(fs[0], fs[1]).get();
        index = r.index;
        out.push_back(std::move(std::get<0>(r.futures)));
        out.push_back(std::move(std::get<1>(r.futures)));
    }
    valid = out.size() == 2 && out[0].valid() && out[1].valid();
    if(valid)
    {
        open = !out[1 - which].is_ready();
        x = value_of(out[which]);
        if(abandon)
            p[1 - which] = tpp::promise<uint64_t>();
        else
            p[1 - which].set_value(b);
        y = value_of(out[1 - which]);
    }
    vp_reach(abandon ? "abandoned" : "later");
    vp_final();
    VP_ASSERT(index == which, "names the ready one");
    VP_ASSERT(valid && open, "the other stays valid and pending");
    VP_ASSERT(x == (how == 0 ? a : how == 1 ? ~a : 0xb0), "outcome of the first");
    VP_ASSERT(y == (abandon ? 0xb0 : b), "and still delivers later");
    vp_stop();
}

void in_continuation()
{
    vp_expect("pack");
    vp_expect("range");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    bool rng = vp_choice(2);
    tpp::promise<uint64_t> p, q;
    auto f = p.get_future(), g = q.get_future();
    uint64_t x = 0, y = 0;
    vp_timeouts(0, 0);
    vp_start();
    auto t = worker([&] {
        p.set_value(a);
        q.set_value(b);
    });
    tpp::future<void> done;
    if(rng)
    {
        std::vector<tpp::future<uint64_t>> fs;
        fs.push_back(std::move(f));
        fs.push_back(std::move(g));
        done = tpp::when_any(fs.begin(), fs.end()).then(tpp::this_thread::get_id(), [&](tpp::future<anyv> r) {
            auto v = r.get();
            x = v.futures[0].get();
            y = v.futures[1].get();
            tpp::this_thread::process();
        });
    }
    else
        done = tpp::when_any(f, g).then(tpp::this_thread::get_id(), [&](tpp::future<any2> r) {
            auto v = r.get();
            x = std::get<0>(v.futures).get();
            y = std::get<1>(v.futures).get();
            tpp::this_thread::process();
        });
    done.get();
    vp_reach(rng ? "range" : "pack");
    vp_final();
    VP_ASSERT(x == a && y == b, "the continuation can wait for the remaining inputs");
    vp_stop();
}

void unregistered()
{
    vp_expect("done");
    tpp::promise<uint64_t> p, q;
    auto f = p.get_future(), g = q.get_future();
    bool rng = vp_choice(2);
    uint64_t x = 0, y = 0;
    size_t index = 9;
    bool ready = false, named = false;
    latch done;
    vp_timeouts(0, 0);
    vp_start();
    std::thread s([&] {
        p.set_value(1);
        done.hit();
    });
    std::thread u([&] {
        q.set_value(2);
        done.hit();
    });
    if(rng)
    {
        std::vector<tpp::future<uint64_t>> fs;
        fs.push_back(std::move(f));
        fs.push_back(std::move(g));
        auto any = tpp::when_any(fs.begin(), fs.end());
        done.wait(2);
        ready = any.is_ready();
        if(ready)
        {
            auto r = any.get();
            index = r.index;
            named = r.futures[index == 0 ? 0 : 1].is_ready();
            x = r.futures[0].get();
            y = r.futures[1].get();
        }
    }
    else
    {
        auto any = tpp::when_any(f, g);
        done.wait(2);
        ready = any.is_ready();
        if(ready)
        {
            auto r = any.get();
            index = r.index;
            named = index == 0 ? std::get<0>(r.futures).is_ready() : std::get<1>(r.futures).is_ready();
            x = std::get<0>(r.futures).get();
            y = std::get<1>(r.futures).get();
        }
    }
    vp_reach("done");
    vp_final();
    VP_ASSERT(ready, "ready without any registered thread");
    VP_ASSERT(index < 2 && named, "names a ready input");
    VP_ASSERT(x == 1 && y == 2, "values");
    vp_stop();
}

template<class Tuple>
void visit(Tuple t, size_t n)
{
    uint64_t idx = vp_nondet_u64();
    int calls = 0;
    uint64_t seen = 0;
    bool threw = false, mine = false;
    bool boom = vp_nondet_bool();
    try
    {
        tpp::visit_at(t, idx, [&](auto& e) {
            calls++;
            seen = uint64_t(e);
            e = 77;
            if(boom) throw payload{5};
        });
    }
    catch(const payload&)
    {
        mine = true;
    }
    catch(const std::exception&)
    {
        threw = true;
    }
    if(idx < n)
    {
        VP_ASSERT(calls == 1 && seen == 10 + idx && !threw && mine == boom, "visits exactly the element");
        uint64_t sum = 0;
        size_t changed = 0;
        for(size_t i = 0; i < n; ++i)
            tpp::visit_at(t, i, [&](auto& e) {
                sum += 1;
                if(e == 77) changed += i + 1;
            });
        VP_ASSERT(sum == n && changed == idx + 1, "the element itself, by reference");
        vp_reach("in");
    }
    else
    {
        VP_ASSERT(threw && calls == 0, "throws for any other index");
        vp_reach("out");
    }
    vp_stop();
}

void visiting()
{
    vp_expect("in");
    vp_expect("out");
    unsigned k = vp_choice(4);
    if(k == 0) visit(std::make_tuple(10), 1);
    if(k == 1) visit(std::make_tuple(10, 11L), 2);
    if(k == 2) visit(std::make_tuple(10, 11ul, short(12)), 3);
    if(k == 3) visit(std::make_tuple(10, 11L, 12u, 13), 4);
}

void caller_exits()
{
    vp_expect("done");
    tpp::init();
    auto p = std::make_shared<tpp::promise<uint64_t>>();
    auto q = std::make_shared<tpp::promise<uint64_t>>();
    bool rng = vp_choice(2);
    int o = -1;
    vp_timeouts(0, 0);
    tpp::shared_future<void> sf;
    latch done;
    vp_start();
    auto t = worker([&] {
        auto f = p->get_future(), g = q->get_future();
        if(rng)
        {
            std::vector<tpp::future<uint64_t>> fs;
            fs.push_back(std::move(f));
            fs.push_back(std::move(g));
            sf = tpp::when_any(fs.begin(), fs.end()).then(tpp::caller_id(), [](tpp::future<anyv> x) { x.get(); }).share();
        }
        else
            sf = tpp::when_any(f, g).then(tpp::caller_id(), [](tpp::future<any2> x) { x.get(); }).share();
        done.hit();
    });
    done.wait(1);
    t.join();
    p->set_value(1);
    q->set_value(2);
    try
    {
        sf.get();
        o = 0;
    }
    catch(const std::future_error& e)
    {
        o = e.code() == std::future_errc::broken_promise ? 1 : 2;
    }
    vp_reach("done");
    vp_final();
    VP_ASSERT(o == 1, "abandoned with its calling thread");
    vp_stop();
}

void never_early()
{
    vp_expect("notyet");
    vp_expect("ready");
    tpp::init();
    tpp::promise<uint64_t> p, q;
    auto f = p.get_future(), g = q.get_future();
    bool setp = false, setq = false, bad = false, seen = false;
    vp_timeouts(0, 0);
    auto t = tpp::make_thread("t");
    settle(t);
    bool rng = vp_choice(2);
    int ran = 0;
    tpp::shared_future<void> sf;
    vp_start();
    std::thread s([&] {
        setp = true;
        p.set_value(1);
    });
    tpp::invoke(t.get_id(), [&] {
        setq = true;
        q.set_value(2);
    });
    auto check = [&] {
        ran++;
        if(!setp && !setq) bad = true;
    };
    if(rng)
    {
        std::vector<tpp::future<uint64_t>> fs;
        fs.push_back(std::move(f));
        fs.push_back(std::move(g));
        sf = tpp::when_any(fs.begin(), fs.end()).then(tpp::caller_id(), [&](tpp::future<anyv>) { check(); }).share();
    }
    else
        sf = tpp::when_any(f, g).then(tpp::caller_id(), [&](tpp::future<any2>) { check(); }).share();
    seen = sf.is_ready();
    vp_reach(seen ? "ready" : "notyet");
    sf.wait();
    vp_final();
    VP_ASSERT(!bad, "ready only after an input");
    VP_ASSERT(ran == 1, "once");
    vp_stop();
}

void many()
{
    vp_expect("ready");
    vp_expect("pending");
    tpp::init();
    static const unsigned places[] = {0, 31, 64, 299};
    unsigned at = places[vp_choice(4)];
    bool before = vp_choice(2);
    uint64_t v = vp_nondet_u64();
    std::vector<tpp::promise<uint64_t>> p(300);
    std::vector<tpp::future<uint64_t>> fs;
    for(auto& x : p) fs.push_back(x.get_future());
    if(before) p[at].set_value(v + at);
    auto any = tpp::when_any(fs.begin(), fs.end());
    if(!before)
    {
        tpp::this_thread::process();
        VP_ASSERT(!any.is_ready(), "not before an input is ready");
        p[at].set_value(v + at);
    }
    auto r = any.get();
    VP_ASSERT(r.index == at && r.futures.size() == 300, "names the ready one");
    for(unsigned i = 0; i < 300; i++)
    {
        VP_ASSERT(r.futures[i].valid() && r.futures[i].is_ready() == (i == at), "all inputs valid");
        if(i != at) p[i].set_value(v + i);
        VP_ASSERT(r.futures[i].get() == v + i, "own value");
    }
    vp_reach(before ? "ready" : "pending");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: two(); break;
        case 1: mixed(); break;
        case 2: range(); break;
        case 3: shared(); break;
        case 4: none(); break;
        case 5: errors(); break;
        case 6: pending(); break;
        case 7: in_continuation(); break;
        case 8: unregistered(); break;
        case 9: visiting(); break;
        case 10: caller_exits(); break;
        case 11: never_early(); break;
        case 12: many(); break;
    }
}
