// C26: Names and configured callbacks reach the right thread
//@ 0 start of a named thread | quick | | make_thread or make_shared_thread with or without a name, callbacks set or not (symbolic), a task sent at once, all interleavings
//@ 1 two named threads | quick | | 2 loop threads started together, all interleavings
//@ 2 plain threads | quick | | tpp::thread with and without a name, std::thread registering itself, register_thread (symbolic): no start callbacks
//@ 3 reported names | quick | | symbolic kind of registration, name reported from other threads during start and use, all interleavings
//@ 4 who names first | quick | | a thread registered under one name by itself and under another by a second thread, all interleavings
//@ 5 nested init | quick | | 1..3 init calls with different callbacks and limits (symbolic): the first one counts until the matching shutdown
//@ 6 main thread | quick | | init from main or from another thread (symbolic), again after shutdown
//@ 7 errors of unregistered threads | quick | | 11 calls (symbolic) of an unregistered thread: reported, harmless, nothing executed
//@ 8 invalid operations | quick | | invalid id, empty task, unknown id, with and without error callback (symbolic)
//@ 9 quiet use | quick | | symbolic valid operations of registered threads report no error, all interleavings
//@ 10 pool workers | quick | | 1..2 workers in 2 categories (symbolic): names, callbacks on the worker before its first job
//@ 11 shutdown without init | quick | | shutdown before init, after the last shutdown, concurrent shutdowns with callbacks, all interleavings
//@ 12 long names and many workers | quick |  | thread name of 1, 15, 16, 32 or 40 characters (symbolic), pool of 12 workers, one schedule
#include "common.h"
using namespace std::chrono_literals;

namespace
{
struct calls
{
    std::atomic<int> n{0}, bad{0}, order{0};
};

void start()
{
    vp_expect("named");
    vp_expect("unnamed");
    vp_expect("bare");
    bool named = vp_choice(2), shared = vp_choice(2);
    unsigned set = vp_choice(4);
    calls nm, st;
    std::atomic<int> ran{0};
    tpp::thread::id seen = 0;
    uint32_t on = 0, onn = 0, ont = 0;
    tpp::init_data d;
    if(set & 1)
        d.set_thread_name = [&](const std::string& s) {
            if(s != "worker" || ran || st.n) nm.bad++;
            onn = vp_tid();
            nm.n++;
        };
    if(set & 2)
        d.on_thread_start = [&](const std::string& s) {
            if(s != "worker" || ran || ((set & 1) && nm.n != 1)) st.bad++;
            seen = tpp::this_thread::get_id();
            on = vp_tid();
            st.n++;
        };
    tpp::init(d);
    vp_timeouts(0, 0);
    vp_start();
    {
        tpp::thread t;
        tpp::shared_thread s;
        if(shared)
            s = named ? tpp::make_shared_thread("worker") : tpp::make_shared_thread();
        else
            t = named ? tpp::make_thread("worker") : tpp::make_thread();
        auto id = shared ? s->get_id() : t.get_id();
        bool ok = tpp::async(id, [&] {
                      ont = vp_tid();
                      ran = 1;
                      return tpp::this_thread::get_id();
                  }).get() == id;
        VP_ASSERT(ok, "the loop thread");
        VP_ASSERT(!named || !(set & 2) || seen == id, "start callback on the registered thread");
    }
    vp_reach(!set ? "bare" : named ? "named" : "unnamed");
    vp_final();
    VP_ASSERT(nm.n == (named && (set & 1) ? 1 : 0) && !nm.bad, "named once");
    VP_ASSERT(st.n == (named && (set & 2) ? 1 : 0) && !st.bad, "started once");
    VP_ASSERT(!nm.n || onn == ont, "named by itself");
    VP_ASSERT(!st.n || on == ont, "started by itself");
    vp_stop();
}

void two()
{
    vp_expect("done");
    struct one
    {
        std::atomic<int> nm{0}, st{0};
        std::atomic<uint32_t> by{99}, in{98};
    } a, b;
    std::atomic<int> other{0};
    tpp::init_data d;
    auto pick = [&](const std::string& s) -> one* { return s == "a" ? &a : s == "b" ? &b : nullptr; };
    d.set_thread_name = [&](const std::string& s) {
        if(auto* o = pick(s))
        {
            o->nm++;
            o->by = vp_tid();
        }
        else
            other++;
    };
    d.on_thread_start = [&](const std::string& s) {
        auto* o = pick(s);
        if(o && o->by == vp_tid())
            o->st++;
        else
            other++;
    };
    tpp::init(d);
    vp_timeouts(0, 0);
    vp_start();
    {
        auto x = tpp::make_thread("a");
        auto y = tpp::make_thread("b");
        tpp::invoke(x.get_id(), [&] { a.in = vp_tid(); });
        tpp::invoke(y.get_id(), [&] { b.in = vp_tid(); });
    }
    vp_reach("done");
    vp_final();
    VP_ASSERT(a.nm == 1 && b.nm == 1 && a.st == 1 && b.st == 1 && other == 0, "each under its own name");
    VP_ASSERT((a.in == 98 || a.in == a.by) && (b.in == 98 || b.in == b.by), "on the thread itself");
    vp_stop();
}

void plain()
{
    vp_expect("done");
    std::atomic<int> n{0};
    tpp::init_data d;
    d.set_thread_name = [&](const std::string&) { n++; };
    d.on_thread_start = [&](const std::string&) { n++; };
    tpp::init(d);
    unsigned kind = vp_choice(4);
    vp_timeouts(0, 0);
    vp_start();
    auto body = [] {
        tpp::this_thread::register_this_thread("x");
        tpp::this_thread::wait();
        tpp::this_thread::unregister_this_thread();
    };
    if(kind == 0)
    {
        const std::string name = "x";
        tpp::thread t(name, body);
    }
    else if(kind == 1)
    {
        tpp::thread t(body);
    }
    else if(kind == 2)
    {
        std::thread t([] {
            tpp::this_thread::register_this_thread("x");
            tpp::this_thread::unregister_this_thread();
        });
        t.join();
    }
    else
    {
        latch go;
        std::thread t([&] { go.wait(1); });
        tpp::register_thread(t.get_id(), "x");
        go.hit();
        t.join();
    }
    tpp::async([] {}).wait();
    vp_reach("done");
    vp_final();
    VP_ASSERT(n == 0, "only loop threads report their start");
    vp_stop();
}

void names()
{
    vp_expect("named");
    vp_expect("unnamed");
    tpp::init();
    unsigned kind = vp_choice(5);
    vp_timeouts(0, 0);
    bool ok = true;
    auto is = [](tpp::thread::id id, const char* s) { return tpp::get_pending_task_count_detailed(id).thread_name == s; };
    auto num = [](tpp::thread::id id) { return tpp::get_pending_task_count_detailed(id).thread_name == std::to_string(id); };
    if(!is(tpp::this_thread::get_id(), "Main Thread")) ok = false;
    if(!is(0, "") || !is(77777, "")) ok = false;
    vp_start();
    if(kind < 2)
    {
        auto t = kind ? tpp::make_thread("worker") : tpp::make_thread();
        auto id = t.get_id();
        std::thread o([&] {
            if(!(kind ? is(id, "worker") : num(id))) ok = false;
        });
        tpp::invoke(id, [&, id] {
            if(!(kind ? is(id, "worker") : num(id))) ok = false;
        });
        if(!(kind ? is(id, "worker") : num(id))) ok = false;
        o.join();
        t.join();
        if(!is(id, "")) ok = false;
    }
    else if(kind == 2)
    {
        const std::string name = "mine";
        tpp::thread t(name, [] {
            tpp::this_thread::register_this_thread("mine");
            tpp::this_thread::wait();
            tpp::this_thread::unregister_this_thread();
        });
        if(!is(t.get_id(), "mine")) ok = false;
        auto id = t.get_id();
        t.join();
        if(!is(id, "")) ok = false;
    }
    else
    {
        latch go, in;
        std::atomic<tpp::thread::id> self{0};
        std::thread t([&] {
            if(kind == 4)
            {
                tpp::this_thread::register_this_thread();
                self = tpp::this_thread::get_id();
            }
            in.hit();
            go.wait(1);
            if(kind == 4) tpp::this_thread::unregister_this_thread();
        });
        in.wait(1);
        auto id = tpp::register_thread(t.get_id(), "given");
        if(kind == 4 && id != self) ok = false;
        if(!(kind == 3 ? is(id, "given") : num(id))) ok = false;
        go.hit();
        t.join();
    }
    vp_reach(kind % 2 ? "named" : "unnamed");
    vp_final();
    VP_ASSERT(ok, "reported under its name, or its id");
    vp_stop();
}

void first_name()
{
    vp_expect("self");
    vp_expect("other");
    tpp::init();
    vp_timeouts(0, 0);
    latch known, done;
    std::string got;
    tpp::thread::id mine = 0, his = 0;
    bool stable = true;
    vp_start();
    std::thread t([&] {
        tpp::this_thread::register_this_thread("self");
        mine = tpp::this_thread::get_id();
        auto a = tpp::get_pending_task_count_detailed(mine).thread_name;
        known.hit();
        done.wait(1);
        auto b = tpp::get_pending_task_count_detailed(mine).thread_name;
        if(a != b) stable = false;
        got = b;
        tpp::this_thread::unregister_this_thread();
    });
    his = tpp::register_thread(t.get_id(), "other");
    known.wait(1);
    done.hit();
    t.join();
    vp_reach(got == "self" ? "self" : "other");
    vp_final();
    VP_ASSERT(mine == his, "one registration");
    VP_ASSERT(stable && (got == "self" || got == "other"), "the first name stays");
    vp_stop();
}

void nested_init()
{
    vp_expect("one");
    vp_expect("more");
    unsigned n = 1 + vp_choice(3);
    bool ok = true;
    for(int round = 0; round < 2; round++)
    {
        int info[3] = {}, err[3] = {}, name[3] = {}, st[3] = {};
        for(unsigned i = 0; i < n; i++)
        {
            tpp::init_data d;
            d.log_info = [&info, i](const std::string&) { info[i]++; };
            d.log_error = [&err, i](const std::string&) { err[i]++; };
            d.set_thread_name = [&name, i](const std::string& s) { name[i] += s == "w"; };
            d.on_thread_start = [&st, i](const std::string& s) { st[i] += s == "w"; };
            tpp::init(d);
        }
        {
            auto t = tpp::make_thread("w");
            settle(t);
        }
        tpp::invoke(0, [] {});
        for(unsigned i = 0; i + 1 < n; i++) tpp::shutdown(0s);
        tpp::invoke(0, [] {});
        {
            auto t = tpp::make_thread("w");
            settle(t);
        }
        if(info[0] < 1 || err[0] != 2 || name[0] != 2 || st[0] != 2) ok = false;
        int before = info[0];
        if(tpp::shutdown(0s) != 0) ok = false;
        if(info[0] <= before) ok = false;
        before = info[0];
        // nothing is configured any more
        tpp::invoke(0, [] {});
        {
            auto t = tpp::make_thread("w");
            settle(t);
        }
        if(tpp::shutdown(0s) != -1) ok = false;
        if(info[0] != before || err[0] != 2 || name[0] != 2 || st[0] != 2) ok = false;
        for(unsigned i = 1; i < 3; i++)
            if(info[i] || err[i] || name[i] || st[i]) ok = false;
    }
    vp_reach(n == 1 ? "one" : "more");
    VP_ASSERT(ok, "the first init's callbacks are in force until the matching shutdown");
    vp_stop();
}

void main_id()
{
    vp_expect("main");
    vp_expect("other");
    bool other = vp_choice(2);
    bool ok = true;
    tpp::thread::id last = 0;
    for(int round = 0; round < 2; round++)
    {
        tpp::thread::id id = 0;
        auto go = [&] {
            tpp::init();
            id = tpp::this_thread::get_id();
            if(!id || id == last || tpp::main_thread::get_id() != id) ok = false;
            tpp::init();
            if(tpp::main_thread::get_id() != id || tpp::this_thread::get_id() != id) ok = false;
            auto t = tpp::make_thread("w");
            auto f = tpp::async(t.get_id(), [] { return tpp::main_thread::get_id(); });
            if(f.get() != id) ok = false;
            // an init on another thread
            if(tpp::async(t.get_id(), [] {
                   tpp::init();
                   return tpp::main_thread::get_id();
               }).get() != id)
                ok = false;
            tpp::shutdown(0s);
            int ran = 0;
            if(!tpp::async(t.get_id(), [&] { return tpp::invoke(tpp::main_thread::get_id(), [&ran] { ran++; }); }).get()) ok = false;
            tpp::this_thread::process();
            if(ran != 1) ok = false;
            t.join();
            tpp::shutdown(0s);
            if(tpp::main_thread::get_id() != id || tpp::this_thread::get_id() != id) ok = false;
            tpp::shutdown(0s);
            if(tpp::this_thread::is_registered()) ok = false;
        };
        if(other && round == 0)
        {
            std::thread t(go);
            t.join();
        }
        else
            go();
        last = id;
    }
    vp_reach(other ? "other" : "main");
    VP_ASSERT(ok, "the thread of the first init is the main thread");
    vp_stop();
}

void unregistered()
{
    vp_expect("done");
    std::atomic<int> errs{0};
    tpp::init_data d;
    bool with = vp_choice(2);
    if(with) d.log_error = [&](const std::string& s) { errs += !s.empty(); };
    tpp::init(d);
    unsigned what = vp_choice(11);
    bool ok = true;
    vp_timeouts(0, 0);
    std::thread t([&] {
        namespace tt = tpp::this_thread;
        switch(what)
        {
        case 0: ok = tt::get_id() == tpp::invalid_id(); break;
        case 1: tt::process(); break;
        case 2: tt::process_for(1s); break;
        case 3: tt::wait(); break;
        case 4: ok = tt::wait_for(1s) == std::cv_status::no_timeout; break;
        case 5: ok = tt::wait_until(tpp::clock::now() + 1s) == std::cv_status::no_timeout; break;
        case 6: tt::sleep_for(1s); break;
        case 7: tt::sleep_until(tpp::clock::now() + 1s); break;
        case 8: ok = tt::get_depth() == 0; break;
        case 9: ok = tt::notified_for_exit(); break;
        case 10: tt::unregister_this_thread(); break;
        }
        if(tt::is_registered()) ok = false;
    });
    t.join();
    vp_reach("done");
    VP_ASSERT(ok, "harmless");
    VP_ASSERT(with ? errs >= 1 : errs == 0, "reported");
    VP_ASSERT(tpp::get_all_registered_threads().size() == 1, "nothing registered");
    vp_stop();
}

void invalid()
{
    vp_expect("done");
    int errs = 0, ran = 0;
    tpp::init_data d;
    bool with = vp_choice(2);
    if(with) d.log_error = [&](const std::string& s) { errs += !s.empty(); };
    tpp::init(d);
    unsigned what = vp_choice(6);
    uint64_t id = vp_nondet_u64();
    vp_assume(id > 5);
    bool refused = true;
    auto self = tpp::this_thread::get_id();
    tpp::task none;
    int want = 1;
    switch(what)
    {
    case 0: refused = !tpp::invoke(0, [&] { ran++; }); break;
    case 1: refused = !tpp::dispatch(0, [&] { ran++; }); break;
    case 2: refused = !tpp::detail::invoke_packaged_task(self, none); break;
    case 3: refused = tpp::get_pending_task_count(0) == 0; break;
    case 4:
        refused = !tpp::invoke(id, [&] { ran++; }) && !tpp::dispatch(id, [&] { ran++; }) && tpp::get_pending_task_count(id) == 0 &&
                  !tpp::set_thread_config(id, {});
        want = 0;
        break;
    case 5:
        tpp::notify(id);
        tpp::notify_for_exit(id);
        tpp::notify_for_exit(0);
        want = 0;
        break;
    }
    tpp::this_thread::process();
    vp_reach("done");
    VP_ASSERT(refused && ran == 0, "refused");
    VP_ASSERT(errs == (with ? want : 0), "reported");
    vp_stop();
}

void quiet()
{
    vp_expect("done");
    std::atomic<int> errs{0};
    tpp::init_data d;
    d.log_error = [&](const std::string&) { errs++; };
    tpp::init(d);
    unsigned what = vp_choice(6);
    vp_timeouts(0, 0);
    vp_start();
    {
        auto t = tpp::make_thread("w");
        auto id = t.get_id();
        if(what == 0)
            tpp::async(id, [] { return tpp::this_thread::get_id(); }).get();
        else if(what == 1)
        {
            tpp::promise<int> p;
            auto f = p.get_future().then(id, [](auto g) { return g.get(); });
            p.set_value(1);
            f.get();
        }
        else if(what == 2)
        {
            tpp::mutex m;
            tpp::invoke(id, [&] { std::lock_guard<tpp::mutex> l(m); });
            m.lock();
            m.unlock();
            t.join();
        }
        else if(what == 3)
        {
            tpp::condition_variable cv;
            std::mutex m;
            bool set = false;
            tpp::invoke(id, [&] {
                std::lock_guard<std::mutex> l(m);
                set = true;
                cv.notify_one();
            });
            std::unique_lock<std::mutex> l(m);
            while(!set) cv.wait(l);
            l.unlock();
            t.join();
        }
        else if(what == 4)
            tpp::notify(id);
        else
        {
            tpp::get_pending_task_count(id);
            tpp::set_thread_config(id, {1, 1});
        }
    }
    vp_reach("done");
    vp_final();
    VP_ASSERT(errs == 0, "nothing to complain about");
    vp_stop();
}

void pool()
{
    vp_expect("one");
    vp_expect("three");
    unsigned a = 1 + vp_choice(2);
    bool b = vp_choice(2);
    std::mutex m;
    std::vector<std::string> named, started;
    bool ok = true;
    thread_local static int nm = 0, st = 0;
    tpp::init_data d;
    d.set_thread_name = [&](const std::string& s) {
        std::lock_guard<std::mutex> l(m);
        nm++;
        named.push_back(s);
    };
    d.on_thread_start = [&](const std::string& s) {
        std::lock_guard<std::mutex> l(m);
        if(nm != 1 || named.empty()) ok = false;
        st++;
        started.push_back(s);
    };
    tpp::init(d);
    vp_timeouts(0, 0);
    std::map<tpp::priority::category, size_t> w{{tpp::priority::category::normal, a}};
    if(b) w[tpp::priority::category::critical] = 1;
    {
        tpp::thread_pool p(w);
        auto f = p.schedule(b ? tpp::priority::critical() : tpp::priority::normal(), [&] {
            if(nm != 1 || st != 1) ok = false;
            return tpp::get_pending_task_count_detailed(tpp::this_thread::get_id()).thread_name;
        });
        auto s = f.get();
        if(s != "pool_w:0:0" && s != "pool_w:0:1" && s != "pool_w:2:0") ok = false;
        if(a == 1 && s == "pool_w:0:1") ok = false;
        if(!b && s == "pool_w:2:0") ok = false;
    }
    vp_final();
    auto count = [](const std::vector<std::string>& v, const char* s) {
        int n = 0;
        for(auto& x : v) n += x == s;
        return n;
    };
    for(auto* v : {&named, &started})
    {
        if(v->size() != a + b) ok = false;
        if(count(*v, "pool_w:0:0") != 1 || count(*v, "pool_w:0:1") != (int)a - 1 || count(*v, "pool_w:2:0") != (int)b) ok = false;
    }
    vp_reach(a + b == 1 ? "one" : a + b == 3 ? "three" : "two");
    VP_ASSERT(ok, "each worker under its own name");
    vp_stop();
}

void shutdown_log()
{
    vp_expect("first");
    vp_expect("second");
    std::atomic<int> errs{0}, infos{0};
    if(tpp::shutdown(0s) != -1) errs += 100;
    tpp::init_data d;
    d.log_error = [&](const std::string&) { errs++; };
    d.log_info = [&](const std::string&) { infos++; };
    tpp::init(d);
    int i0 = infos;
    vp_timeouts(0, 0);
    vp_start();
    int r1 = 7, r2 = 7;
    std::thread t([&] { r2 = tpp::shutdown(0s); });
    r1 = tpp::shutdown(0s);
    t.join();
    int r3 = tpp::shutdown(0s);
    vp_reach(r1 == 0 ? "first" : "second");
    vp_final();
    VP_ASSERT(i0 >= 1, "init reported");
    VP_ASSERT(r3 == -1, "not initialised");
    VP_ASSERT((r1 == -1) != (r2 == -1), "one of them acts");
    VP_ASSERT(errs <= 3, "nothing else is an error");
    vp_stop();
}

void long_names()
{
    vp_expect("done");
    static const unsigned lengths[] = {1, 15, 16, 32, 40};
    static const auto name = std::string("a name that is longer than fifteen chars").substr(0, lengths[vp_choice(5)]);
    static std::vector<std::string> named, started;
    static std::mutex m;
    tpp::init_data d;
    d.set_thread_name = [](const std::string& s) {
        std::lock_guard<std::mutex> l(m);
        named.push_back(s);
    };
    d.on_thread_start = [](const std::string& s) {
        std::lock_guard<std::mutex> l(m);
        started.push_back(s);
    };
    tpp::init(d);
    auto t = tpp::make_thread(name);
    settle(t);
    VP_ASSERT(named.size() == 1 && named[0] == name && started.size() == 1 && started[0] == name, "whole name");
    VP_ASSERT(tpp::get_pending_task_count_detailed(t.get_id()).thread_name == name, "whole name reported");
    named.clear();
    tpp::thread_pool pool(std::map<tpp::priority::category, size_t>{{tpp::priority::category::high, 12}});
    auto me = tpp::this_thread::get_id();
    for(auto id : tpp::get_all_registered_threads())
    {
        if(id == me) continue;
        latch l;
        tpp::invoke(id, [&l] { l.hit(); });
        l.wait(1);
    }
    std::lock_guard<std::mutex> l(m);
    VP_ASSERT(named.size() == 12, "all workers named");
    for(int i = 0; i < 12; i++)
    {
        auto want = "pool_w:1:" + std::to_string(i);
        int n = 0;
        for(auto& s : named) n += s == want;
        VP_ASSERT(n == 1, "each under its own name");
    }
    vp_reach("done");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
    case 0: start(); break;
    case 1: two(); break;
    case 2: plain(); break;
    case 3: names(); break;
    case 4: first_name(); break;
    case 5: nested_init(); break;
    case 6: main_id(); break;
    case 7: unregistered(); break;
    case 8: invalid(); break;
    case 9: quiet(); break;
    case 10: pool(); break;
    case 11: shutdown_log(); break;
    case 12: long_names(); break;
    }
}
