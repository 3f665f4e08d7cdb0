// C05: arguments and results pass between threads unchanged
//@ 0 invoke and dispatch arguments | quick | | 64/32/16/8-bit, struct, vector and pointer arguments of every value, caller overwrites its copies at once, all interleavings
//@ 1 async results | quick | | 64-bit arguments and struct results of every value over 3 launch forms (symbolic choice), all interleavings
//@ 2 exceptions | quick | | thrown payloads of every 32-bit value, derived/base/non-class types (symbolic choice), all interleavings
//@ 3 move-only payloads | quick | | move-only callable, argument and result through invoke, dispatch, async, then, schedule (symbolic choice)
//@ 4 values along continuations | quick | | chains of 2 continuations on future/shared_future, 64-bit values, all interleavings with the setter
//@ 5 pool jobs | quick | | 2 jobs with 64-bit arguments and results, all interleavings
//@ 6 never moved-from | quick | | instrumented argument and callable types through every entry point (symbolic choice)
//@ 7 ready and exceptional futures | quick | | make_ready_future / make_exceptional_future / promise with every 64-bit value
//@ 8 values from void parents | quick | | continuations of void futures and shared_futures returning 64-bit values or move-only results of every value, attached before or after completion (symbolic)
//@ 9 outcomes of every entry point | quick |  | async, then on future or shared_future of value or void, schedule; result void or 64 bit; returning or throwing (all symbolic), every value
#include "common.h"

namespace
{
struct rec
{
    uint64_t a;
    uint32_t b;
    uint16_t c;
    uint8_t d;
    bool operator==(const rec& o) const { return a == o.a && b == o.b && c == o.c && d == o.d; }
};

void arguments()
{
    vp_expect("received");
    tpp::init();
    auto t = tpp::make_thread("t");
    auto id = t.get_id();
    settle(t);
    uint64_t a = vp_nondet_u64();
    uint32_t b = vp_nondet_u32();
    uint16_t c = vp_nondet_u16();
    uint8_t d = vp_nondet_u8();
    const uint64_t a0 = a;
    const uint32_t b0 = b;
    const uint16_t c0 = c;
    const uint8_t d0 = d;
    rec r{a, b, c, d};
    std::vector<uint64_t> v{a, b, c};
    rec got1{}, got2{};
    uint64_t sum = 0;
    rec* target = &got2;
    latch l;
    vp_start();
    tpp::invoke(
        id,
        [&](uint64_t x, uint32_t y, uint16_t z, const uint8_t& w) {
            got1 = {x, y, z, w};
            l.hit();
        },
        a, b, c, d);
    tpp::dispatch(
        id,
        [&](rec x, const std::vector<uint64_t>& y, rec* p) {
            *p = x;
            for(auto e : y) sum ^= e;
            l.hit();
        },
        r, v, target);
    // the callables own copies: what the caller does now is not seen by them
    a = b = c = d = 0;
    r = {};
    v.assign(3, 7);
    target = nullptr;
    l.wait(2);
    vp_final();
    VP_ASSERT((got1 == rec{a0, b0, c0, d0}), "scalar arguments arrive as given at the call");
    VP_ASSERT((got2 == rec{a0, b0, c0, d0}), "a struct argument arrives as given at the call");
    VP_ASSERT(sum == (a0 ^ b0 ^ c0), "a container argument arrives as given at the call");
    vp_reach("received");
    vp_stop();
}

void results()
{
    vp_expect("async");
    vp_expect("any");
    vp_expect("own thread");
    tpp::init();
    auto t = tpp::make_thread("t");
    auto id = t.get_id();
    settle(t);
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    unsigned how = vp_choice(3);
    auto f = [](uint64_t x, uint64_t y) { return rec{x ^ (y << 1), (uint32_t)y, (uint16_t)(x >> 5), (uint8_t)(y >> 9)}; };
    vp_start();
    tpp::future<rec> r;
    if(how == 0)
        r = tpp::async(id, std::launch::async, f, a, b);
    else if(how == 1)
        r = tpp::async(id, f, a, b);
    else
        r = tpp::async(tpp::caller_id(), f, a, b);
    const uint64_t a0 = a, b0 = b;
    a = b = 0;
    rec got = r.get();
    VP_ASSERT(!r.valid(), "get consumes the future");
    vp_end();
    VP_ASSERT(got.a == (a0 ^ (b0 << 1)), "get yields what the callable returned");
    VP_ASSERT(got.b == (uint32_t)b0 && got.c == (uint16_t)(a0 >> 5) && got.d == (uint8_t)(b0 >> 9), "every member intact");
    vp_reach(how == 0 ? "async" : how == 1 ? "any" : "own thread");
}

struct base_error : std::exception
{
    uint32_t code;
    base_error(uint32_t c) : code(c) {}
};
struct derived_error : base_error
{
    uint32_t more;
    derived_error(uint32_t c, uint32_t m) : base_error(c), more(m) {}
};

void exceptions()
{
    vp_expect("derived");
    vp_expect("base");
    vp_expect("value");
    tpp::init();
    auto t = tpp::make_thread("t");
    auto id = t.get_id();
    settle(t);
    uint32_t a = vp_nondet_u32(), b = vp_nondet_u32();
    unsigned how = vp_choice(3);
    vp_start();
    auto r = tpp::async(id, [=]() -> int {
        if(how == 0) throw derived_error(a, b);
        if(how == 1) throw base_error(a);
        throw a;
    });
    unsigned seen = 9;
    uint32_t x = 0, y = 0;
    try
    {
        r.get();
    }
    catch(derived_error& e)
    {
        seen = 0;
        x = e.code;
        y = e.more;
    }
    catch(base_error& e)
    {
        seen = 1;
        x = e.code;
    }
    catch(uint32_t e)
    {
        seen = 2;
        x = e;
    }
    vp_end();
    VP_ASSERT(seen == how, "get throws the very exception type the callable threw");
    VP_ASSERT(x == a, "with its payload");
    if(how == 0) VP_ASSERT(y == b, "with its derived payload");
    vp_reach(how == 0 ? "derived" : how == 1 ? "base" : "value");
}

void move_only()
{
    static const char* names[] = {"invoke", "dispatch", "async", "then", "schedule", "promise"};
    for(auto n : names) vp_expect(n);
    tpp::init();
    auto id = tpp::this_thread::get_id();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    unsigned how = vp_choice(6);
    auto arg = std::make_unique<uint64_t>(a);
    auto cap = std::make_unique<uint64_t>(b);
    uint64_t got = 0;
    vp_start();
    if(how < 2)
    {
        auto f = [cap = std::move(cap), &got](std::unique_ptr<uint64_t> p) { got = *p ^ (*cap << 1); };
        if(how == 0)
            tpp::invoke(id, std::move(f), std::move(arg));
        else
            tpp::dispatch(id, std::move(f), std::move(arg));
        tpp::this_thread::process();
    }
    else
    {
        auto f = [cap = std::move(cap)](std::unique_ptr<uint64_t> p) { return std::make_unique<uint64_t>(*p ^ (*cap << 1)); };
        std::unique_ptr<uint64_t> r;
        if(how == 2)
        {
            auto fu = tpp::async(id, std::launch::async, std::move(f), std::move(arg));
            r = fu.get();
        }
        else if(how == 3)
        {
            auto fu = tpp::make_ready_future(std::move(arg));
            auto g = fu.then(id, [f = std::move(f)](tpp::future<std::unique_ptr<uint64_t>> p) { return f(p.get()); });
            r = g.get();
        }
        else if(how == 4)
        {
            tpp::thread_pool pool({{tpp::priority::category::normal, 1}});
            auto fu = pool.schedule(std::move(f), std::move(arg));
            r = fu.get();
        }
        else
        {
            tpp::promise<std::unique_ptr<uint64_t>> p;
            auto fu = p.get_future();
            tpp::invoke(id, [&] { p.set_value(f(std::move(arg))); });
            r = fu.get();
        }
        VP_ASSERT(r != nullptr, "a move-only result is not moved-from");
        got = *r;
    }
    vp_end();
    VP_ASSERT(got == (a ^ (b << 1)), "move-only callables, arguments and results keep their values");
    vp_reach(names[how]);
}

void chains()
{
    vp_expect("future");
    vp_expect("shared");
    tpp::init();
    auto t = tpp::make_thread("t");
    auto id = t.get_id();
    settle(t);
    auto self = tpp::this_thread::get_id();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    bool shared = vp_nondet_bool();
    tpp::promise<uint64_t> p;
    auto f = p.get_future();
    uint64_t r1 = 0, r2 = 0;
    vp_start();
    std::thread setter([&] { p.set_value(a); });
    if(shared)
    {
        auto s = f.share();
        auto g = s.then(id, [b](tpp::shared_future<uint64_t> x) { return x.get() ^ b; });
        auto h = s.then(self, [b](tpp::shared_future<uint64_t> x) { return x.get() ^ (b << 1); });
        r1 = g.get();
        r2 = h.get();
        VP_ASSERT(s.get() == a, "a shared_future keeps its value for every observer");
        VP_ASSERT(r1 == (a ^ b), "first continuation");
        VP_ASSERT(r2 == (a ^ (b << 1)), "second continuation");
        vp_reach("shared");
    }
    else
    {
        auto g = f.then(id, [b](tpp::future<uint64_t> x) { return x.get() ^ b; })
                     .then(self, [b](tpp::future<uint64_t> x) { return x.get() ^ (b << 1); });
        r1 = g.get();
        VP_ASSERT(r1 == (a ^ b ^ (b << 1)), "values travel along the chain");
        vp_reach("future");
    }
    setter.join();
    vp_final();
    vp_stop();
}

void pool_jobs()
{
    vp_expect("done");
    tpp::init();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    vp_start();
    tpp::thread_pool pool({{tpp::priority::category::normal, 1}});
    auto f = pool.schedule([](uint64_t x, uint64_t y) { return x ^ (y << 3); }, a, b);
    auto g = pool.schedule(tpp::priority::high(1), [](rec x) { return x; }, rec{b, (uint32_t)a, 3, 4}).share();
    uint64_t r1 = f.get();
    rec r2 = g.get();
    vp_final();
    VP_ASSERT(r1 == (a ^ (b << 3)), "the job's result");
    VP_ASSERT((r2 == rec{b, (uint32_t)a, 3, 4}), "the job's result");
    vp_reach("done");
    vp_stop();
}

// knows whether it was moved from
struct probe
{
    uint64_t v;
    bool hollow = false;
    probe(uint64_t x) : v(x) {}
    probe(const probe& o) : v(o.v), hollow(o.hollow) {}
    probe(probe&& o) noexcept : v(o.v), hollow(o.hollow)
    {
        o.hollow = true;
        o.v = ~o.v;
    }
    probe& operator=(const probe&) = default;
    probe& operator=(probe&& o) noexcept
    {
        v = o.v;
        hollow = o.hollow;
        if(&o != this)
        {
            o.hollow = true;
            o.v = ~o.v;
        }
        return *this;
    }
};

void not_hollow()
{
    static const char* names[] = {"invoke", "dispatch", "async queued", "async inline", "then", "schedule", "shared then"};
    for(auto n : names) vp_expect(n);
    tpp::init();
    auto id = tpp::this_thread::get_id();
    unsigned how = vp_choice(7);
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    probe lv(a), in(b);
    probe got1(0), got2(0), got3(0);
    auto f = [&, in](probe x, const probe& y) {
        got1 = in;
        got2 = x;
        got3 = y;
        return x;
    };
    vp_start();
    switch(how)
    {
        case 0: tpp::invoke(id, f, lv, lv); break;
        case 1: tpp::dispatch(id, f, lv, probe(a)); break;
        case 2:
        {
            auto r = tpp::async(id, std::launch::async, f, lv, lv);
            probe p = r.get();
            VP_ASSERT(!p.hollow && p.v == a, "result");
            break;
        }
        case 3:
        {
            auto r = tpp::async(id, f, lv, probe(a));
            probe p = r.get();
            VP_ASSERT(!p.hollow && p.v == a, "result");
            break;
        }
        case 4:
        {
            auto r = tpp::make_ready_future(probe(a)).then(id, [f](tpp::future<probe> q) mutable {
                probe x = q.get();
                return f(x, x);
            });
            probe p = r.get();
            VP_ASSERT(!p.hollow && p.v == a, "result");
            break;
        }
        case 5:
        {
            tpp::thread_pool pool({{tpp::priority::category::normal, 1}});
            auto r = pool.schedule(f, lv, lv);
            probe p = r.get();
            VP_ASSERT(!p.hollow && p.v == a, "result");
            break;
        }
        case 6:
        {
            auto s = tpp::make_ready_future(probe(a)).share();
            auto r1 = s.then(id, std::launch::async, [f](tpp::shared_future<probe> q) mutable { return f(q.get(), q.get()); });
            auto r2 = s.then(id, std::launch::async, [f](tpp::shared_future<probe> q) mutable { return f(q.get(), q.get()); });
            probe p = r1.get(), q = r2.get();
            VP_ASSERT(!p.hollow && p.v == a, "result of the first continuation");
            VP_ASSERT(!q.hollow && q.v == a, "result of the second continuation");
            VP_ASSERT(!s.get().hollow && s.get().v == a, "shared value");
            break;
        }
    }
    tpp::this_thread::process();
    vp_end();
    VP_ASSERT(!lv.hollow && lv.v == a, "an argument passed as an lvalue is left alone");
    VP_ASSERT(!got1.hollow && got1.v == b, "the callable itself is never seen in a moved-from state");
    VP_ASSERT(!got2.hollow && got2.v == a, "an argument is never seen in a moved-from state");
    VP_ASSERT(!got3.hollow && got3.v == a, "an argument is never seen in a moved-from state");
    vp_reach(names[how]);
}

void direct()
{
    vp_expect("done");
    tpp::init();
    uint64_t a = vp_nondet_u64();
    const uint64_t ca = a;
    auto f = tpp::make_ready_future(uint64_t(a));
    VP_ASSERT(f.is_ready() && !f.has_error(), "ready");
    VP_ASSERT(f.get() == a, "value");
    auto e = tpp::make_exceptional_future<uint64_t>(base_error((uint32_t)a));
    VP_ASSERT(e.is_ready() && e.has_error(), "ready with an error");
    bool threw = false;
    try
    {
        e.get();
    }
    catch(base_error& x)
    {
        threw = x.code == (uint32_t)a;
    }
    VP_ASSERT(threw, "exceptional future throws its exception");
    auto e2 = tpp::make_exceptional_future<void>(std::make_exception_ptr(base_error((uint32_t)a)));
    threw = false;
    try
    {
        e2.get();
    }
    catch(base_error& x)
    {
        threw = x.code == (uint32_t)a;
    }
    VP_ASSERT(threw, "exceptional future throws its exception");
    tpp::promise<uint64_t> p;
    auto s = p.get_future().share();
    auto s2 = s;
    p.set_value(ca);
    VP_ASSERT(s.get() == a && s2.get() == a && s.get() == a, "every copy, every time");
    auto v = tpp::make_ready_future();
    v.get();
    vp_reach("done");
    tpp::shutdown();
}

void from_void()
{
    vp_expect("before");
    vp_expect("after");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    uint64_t a = vp_nondet_u64(), b = vp_nondet_u64();
    bool shared = vp_choice(2), after = vp_choice(2), queued = vp_choice(2);
    auto policy = queued ? std::launch::async : std::launch::deferred;
    tpp::promise<void> p;
    auto f = p.get_future();
    if(after) p.set_value();
    tpp::future<rec> g;
    tpp::future<std::unique_ptr<uint64_t>> h;
    if(shared)
    {
        auto s = f.share();
        g = s.then(me, policy, [a, b](tpp::shared_future<void>) { return rec{a, uint32_t(b), uint16_t(a), uint8_t(b)}; });
        h = s.then(me, policy, [b](tpp::shared_future<void>) { return std::make_unique<uint64_t>(b); });
    }
    else
    {
        g = f.then(me, policy, [a, b](tpp::future<void>) { return rec{a, uint32_t(b), uint16_t(a), uint8_t(b)}; });
        h = tpp::make_ready_future().then(me, policy, [b](tpp::future<void>) { return std::make_unique<uint64_t>(b); });
    }
    if(!after) p.set_value();
    VP_ASSERT(g.get() == (rec{a, uint32_t(b), uint16_t(a), uint8_t(b)}), "struct result");
    auto r = h.get();
    VP_ASSERT(r && *r == b, "move-only result");
    vp_reach(after ? "after" : "before");
    vp_stop();
}

struct coded
{
    uint64_t v;
};

template<class T>
struct out_of
{
    // 1: the value, 2: the exception
    static int of(tpp::future<T>& f, uint64_t& x)
    {
        try
        {
            x = f.get();
            return 1;
        }
        catch(coded& e)
        {
            x = e.v;
            return 2;
        }
    }
};
template<>
struct out_of<void>
{
    static int of(tpp::future<void>& f, uint64_t& x)
    {
        try
        {
            f.get();
            return 1;
        }
        catch(coded& e)
        {
            x = e.v;
            return 2;
        }
    }
};

template<class T>
struct body
{
    uint64_t v;
    bool throws;
    uint64_t* effect;
    T operator()() const
    {
        if(throws) throw coded{v};
        *effect = v;
        return T(v);
    }
};

template<class T>
void outcome_of(unsigned how)
{
    auto t = tpp::make_thread();
    settle(t);
    auto id = t.get_id();
    uint64_t v = vp_nondet_u64(), effect = ~v, x = effect;
    bool throws = vp_choice(2), late = vp_choice(2);
    body<T> b{v, throws, &effect};
    tpp::promise<uint64_t> p;
    tpp::promise<void> q;
    auto f = p.get_future();
    auto e = q.get_future();
    auto set = [&] {
        p.set_value(v);
        q.set_value();
    };
    if(!late) set();
    tpp::future<T> r;
    tpp::thread_pool pool({{tpp::priority::category::normal, 1}});
    switch(how)
    {
    case 0: r = tpp::async(id, b); break;
    case 1: r = tpp::async(tpp::this_thread::get_id(), std::launch::deferred, b); break;
    case 2: r = f.then(id, [b](tpp::future<uint64_t>) { return b(); }); break;
    case 3: r = e.then(id, [b](tpp::future<void>) { return b(); }); break;
    case 4: r = f.share().then(id, [b](tpp::shared_future<uint64_t>) { return b(); }); break;
    case 5: r = e.share().then(id, [b](tpp::shared_future<void>) { return b(); }); break;
    case 6: r = std::move(static_cast<tpp::future<T>&>(*std::make_unique<tpp::job_future<T>>(pool.schedule(b)))); break;
    case 7: r = e.then(tpp::this_thread::get_id(), std::launch::deferred, [b](tpp::future<void>) { return b(); }); break;
    }
    if(late) set();
    int got = out_of<T>::of(r, x);
    VP_ASSERT(got == (throws ? 2 : 1), "what the callable did");
    VP_ASSERT(effect == (throws ? ~v : v), "it has run when get returns");
    VP_ASSERT(x == (throws || !std::is_void<T>::value ? v : ~v), "its value or exception");
    vp_reach(throws ? "thrown" : "returned");
}

void outcomes()
{
    vp_expect("thrown");
    vp_expect("returned");
    vp_timeouts(0, 0);
    tpp::init();
    unsigned how = vp_choice(8);
    if(vp_choice(2)) outcome_of<void>(how);
    else outcome_of<uint64_t>(how);
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: arguments(); break;
        case 1: results(); break;
        case 2: exceptions(); break;
        case 3: move_only(); break;
        case 4: chains(); break;
        case 5: pool_jobs(); break;
        case 6: not_hollow(); break;
        case 7: direct(); break;
        case 8: from_void(); break;
        case 9: outcomes(); break;
    }
}
