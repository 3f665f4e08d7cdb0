// C19: thread ids are unique, stable and retired for good
//@ 0 constructor against self-registration | quick | | thread object and thread function register concurrently, all interleavings
//@ 1 registration from three threads | quick | | a thread registers itself while two others register it by its native id, all interleavings
//@ 2 any sequence of registrations | quick | | 4 steps of a symbolic kind: start a loop thread, join one, register and unregister a plain thread, re-register the caller
//@ 3 operations on a dead id | quick | | symbolic operation on the id of a joined or unregistered (symbolic) thread, then a new thread with the same native id
//@ 4 the caller's own id | quick | | unregister and register again, repeatedly, up to 3 times (symbolic)
//@ 5 concurrent registration of different threads | quick | | 2 plain threads and 1 loop thread, all interleavings
//@ 6 task to a dying thread against the reuse of its native id | quick | | old thread exits, new one starts while a third thread invokes on the old id, all interleavings
//@ 7 moved, swapped and assigned thread objects | quick | | symbolic choice of move construction, assignment over a running thread, swap, self-contained
//@ 8 exit flag of a thread registered early | quick | | exit requested or tasks posted (symbolic) between the registration by another thread and the thread's own
//@ 9 set of registered threads against a leaving thread | quick | | queries while a thread registers and unregisters, all interleavings
//@ 10 threads that were told to exit | quick | | 2 loop threads and a plain one, each told to exit or not (symbolic), still running or blocked in a task
//@ 11 many registrations | quick |  | 300 registrations of the calling thread while 1 loop thread stays registered, one of 6 retired ones (symbolic) addressed, one schedule
#include "common.h"
using namespace std::chrono_literals;

namespace
{
using id_t_ = tpp::thread::id;

bool same_set(std::vector<id_t_> a, std::vector<id_t_> b)
{
    if(a.size() != b.size()) return false;
    for(auto x : a)
        if(!contains(b, x)) return false;
    for(auto x : b)
        if(!contains(a, x)) return false;
    return true;
}

void constructor()
{
    vp_expect("done");
    tpp::init();
    id_t_ own = 0, later = 0, outside = 0;
    latch in, go;
    bool listed = false;
    vp_timeouts(0, 0);
    vp_start();
    {
        tpp::thread t([&] {
            tpp::this_thread::register_this_thread();
            own = tpp::this_thread::get_id();
            in.hit();
            go.wait(1);
            later = tpp::this_thread::get_id();
            tpp::this_thread::unregister_this_thread();
        });
        in.wait(1);
        outside = t.get_id();
        auto all = tpp::get_all_registered_threads();
        listed = all.size() == 2 && contains(all, own) && contains(all, tpp::this_thread::get_id());
        go.hit();
    }
    auto all = tpp::get_all_registered_threads();
    bool last = all.size() == 1 && all[0] == tpp::this_thread::get_id();
    vp_reach("done");
    vp_final();
    VP_ASSERT(own != 0 && own == outside && own == later, "one id, the same inside and outside");
    VP_ASSERT(listed, "listed while registered");
    VP_ASSERT(last, "not listed afterwards");
    vp_stop();
}

void three()
{
    vp_expect("done");
    tpp::init();
    id_t_ own = 0, a = 0, b = 0;
    latch go, reg;
    size_t n = 0;
    std::thread t([&] {
        go.wait(1);
        tpp::this_thread::register_this_thread();
        own = tpp::this_thread::get_id();
        reg.hit();
        go.wait(2);
        tpp::this_thread::unregister_this_thread();
    });
    auto native = t.get_id();
    vp_timeouts(0, 0);
    vp_start();
    go.hit();
    std::thread u([&] {
        a = tpp::register_thread(native);
        reg.hit();
    });
    b = tpp::register_thread(native);
    reg.wait(2);
    n = tpp::get_all_registered_threads().size();
    go.hit();
    t.join();
    u.join();
    size_t m = tpp::get_all_registered_threads().size();
    vp_reach("done");
    vp_final();
    VP_ASSERT(own != 0 && own == a && own == b, "one id for all registrations");
    VP_ASSERT(n == 2 && m == 1, "registered once");
    vp_stop();
}

void sequence()
{
    vp_expect("done");
    tpp::init();
    std::vector<id_t_> ever, live;
    std::vector<tpp::thread> threads;
    id_t_ me = tpp::this_thread::get_id();
    ever.push_back(me);
    bool unique = true, exact = true;
    auto fresh = [&](id_t_ id) {
        if(id == 0 || contains(ever, id)) unique = false;
        ever.push_back(id);
    };
    for(int i = 0; i < 4; i++)
    {
        unsigned what = vp_choice(5);
        if(what == 0)
        {
            threads.push_back(tpp::make_thread("w"));
            settle(threads.back());
            fresh(threads.back().get_id());
            live.push_back(threads.back().get_id());
        }
        if(what == 1 && !threads.empty())
        {
            threads.front().join();
            threads.erase(threads.begin());
            live.erase(live.begin());
        }
        if(what == 2)
        {
            id_t_ id = 0;
            std::thread t([&] {
                tpp::this_thread::register_this_thread();
                id = tpp::this_thread::get_id();
                tpp::this_thread::unregister_this_thread();
            });
            t.join();
            fresh(id);
        }
        if(what == 3)
        {
            tpp::this_thread::unregister_this_thread();
            tpp::this_thread::register_this_thread();
            me = tpp::this_thread::get_id();
            fresh(me);
        }
        if(what == 4)
        {
            // never registers itself: the thread object does
            tpp::thread t([] {});
            fresh(t.get_id());
        }
        auto want = live;
        want.push_back(me);
        if(!same_set(tpp::get_all_registered_threads(), want)) exact = false;
        if(tpp::this_thread::get_id() != me) unique = false;
        for(auto& t : threads)
            if(!contains(live, t.get_id())) unique = false;
    }
    vp_reach("done");
    VP_ASSERT(unique, "ids are never handed out twice");
    VP_ASSERT(exact, "the listed threads are the registered ones");
    vp_stop();
}

void dead_id()
{
    vp_expect("done");
    tpp::init();
    bool plain = vp_choice(2);
    unsigned what = vp_choice(6);
    id_t_ old = 0;
    std::thread::id native, native2;
    if(plain)
    {
        std::thread t([&] {
            tpp::this_thread::register_this_thread();
            old = tpp::this_thread::get_id();
            native = std::this_thread::get_id();
            tpp::this_thread::unregister_this_thread();
        });
        t.join();
    }
    else
    {
        auto t = tpp::make_thread("w");
        settle(t);
        tpp::invoke(t.get_id(), [&] { native = std::this_thread::get_id(); });
        settle(t);
        old = t.get_id();
        t.join();
    }
    int ran = 0;
    bool accepted = false, exited = true;
    if(what == 0) accepted = tpp::invoke(old, [&] { ran++; });
    if(what == 1) accepted = tpp::dispatch(old, [&] { ran++; });
    if(what == 2) tpp::notify_for_exit(old);
    if(what == 3) tpp::notify(old);
    if(what == 4) accepted = tpp::get_pending_task_count(old) != 0;
    if(what == 5) accepted = tpp::set_thread_config(old, {});
    id_t_ fresh = 0;
    size_t pending = 9;
    std::thread t([&] {
        tpp::this_thread::register_this_thread();
        native2 = std::this_thread::get_id();
        fresh = tpp::this_thread::get_id();
        exited = tpp::this_thread::notified_for_exit();
        pending = tpp::get_pending_task_count(fresh);
        tpp::this_thread::process();
        tpp::this_thread::unregister_this_thread();
    });
    t.join();
    if(native == native2) vp_reach("done");
    VP_ASSERT(!accepted && ran == 0, "refused");
    VP_ASSERT(fresh != 0 && fresh != old, "a new id");
    VP_ASSERT(!exited && pending == 0, "nothing is inherited");
    vp_stop();
}

void own()
{
    vp_expect("done");
    bool before = tpp::this_thread::is_registered();
    id_t_ none = tpp::this_thread::get_id();
    tpp::init();
    unsigned n = 1 + vp_choice(3);
    id_t_ last = tpp::this_thread::get_id(), seen = last;
    bool ok = last != 0 && tpp::main_thread::get_id() == last;
    for(unsigned i = 0; i < n; i++)
    {
        bool accepted = tpp::invoke(last, [] {});
        tpp::notify_for_exit(last);
        tpp::this_thread::unregister_this_thread();
        if(tpp::this_thread::is_registered() || tpp::this_thread::get_id() != 0) ok = false;
        if(tpp::invoke(last, [] {})) ok = false;
        tpp::this_thread::unregister_this_thread();
        tpp::this_thread::register_this_thread("again");
        tpp::this_thread::register_this_thread();
        last = tpp::this_thread::get_id();
        if(!accepted || last == 0 || last <= 0 || last == seen) ok = false;
        if(tpp::register_thread(std::this_thread::get_id()) != last) ok = false;
        if(tpp::this_thread::notified_for_exit() || tpp::get_pending_task_count(last) != 0) ok = false;
        auto all = tpp::get_all_registered_threads();
        if(all.size() != 1 || all[0] != last) ok = false;
        seen = last;
    }
    vp_reach("done");
    VP_ASSERT(!before && none == 0, "no id before registration");
    VP_ASSERT(ok, "a new one each time");
    vp_stop();
}

void concurrent()
{
    vp_expect("done");
    tpp::init();
    id_t_ id[2] = {0, 0};
    latch in, go;
    std::vector<id_t_> all;
    vp_timeouts(0, 0);
    vp_start();
    auto run = [&](int i) {
        tpp::this_thread::register_this_thread();
        id[i] = tpp::this_thread::get_id();
        in.hit();
        go.wait(1);
        tpp::this_thread::unregister_this_thread();
    };
    std::thread a(run, 0);
    std::thread b(run, 1);
    auto c = tpp::make_thread("c");
    in.wait(2);
    all = tpp::get_all_registered_threads();
    auto cid = c.get_id();
    go.hit();
    a.join();
    b.join();
    auto rest = tpp::get_all_registered_threads();
    vp_reach("done");
    vp_final();
    auto me = tpp::this_thread::get_id();
    VP_ASSERT(id[0] && id[1] && cid && id[0] != id[1] && id[0] != cid && id[1] != cid, "different ids");
    VP_ASSERT(me != id[0] && me != id[1] && me != cid, "different from the main thread's");
    VP_ASSERT(all.size() == 4 && contains(all, id[0]) && contains(all, id[1]) && contains(all, cid), "all listed");
    VP_ASSERT(rest.size() == 2 && contains(rest, me) && contains(rest, cid), "the rest listed");
    vp_stop();
}

void dying()
{
    vp_expect("accepted");
    vp_expect("refused");
    tpp::init();
    int by = 0;
    bool accepted = false, inherited = false;
    id_t_ old = 0, fresh = 0;
    latch reg, go;
    std::thread t([&] {
        tpp::this_thread::register_this_thread();
        old = tpp::this_thread::get_id();
        reg.hit();
        go.wait(1);
        tpp::this_thread::unregister_this_thread();
    });
    reg.wait(1);
    vp_timeouts(0, 0);
    vp_start();
    go.hit();
    std::thread u([&] { accepted = tpp::invoke(old, [&] { by++; }); });
    t.join();
    std::thread n([&] {
        tpp::this_thread::register_this_thread();
        fresh = tpp::this_thread::get_id();
        inherited = tpp::get_pending_task_count(fresh) != 0;
        tpp::this_thread::process();
        tpp::this_thread::unregister_this_thread();
    });
    n.join();
    u.join();
    vp_reach(accepted ? "accepted" : "refused");
    vp_final();
    VP_ASSERT(by == 0 && !inherited, "the new thread gets nothing of the old one");
    VP_ASSERT(fresh != old && fresh != 0, "a new id");
    vp_stop();
}

void objects()
{
    vp_expect("done");
    tpp::init();
    unsigned what = vp_choice(4);
    tpp::thread none;
    id_t_ zero = none.get_id();
    auto a = tpp::make_thread("a");
    auto b = tpp::make_thread("b");
    settle(a);
    settle(b);
    id_t_ ia = a.get_id(), ib = b.get_id(), ran = 0;
    bool ok = ia != ib && ia && ib;
    if(what == 0)
    {
        tpp::thread c(std::move(a));
        ok = ok && c.get_id() == ia && c.joinable() && !a.joinable();
        settle(c);
        tpp::invoke(c.get_id(), [&] { ran = tpp::this_thread::get_id(); });
        settle(c);
        ok = ok && ran == ia && tpp::get_all_registered_threads().size() == 3;
    }
    if(what == 1)
    {
        a = std::move(b);
        ok = ok && a.get_id() == ib && a.joinable() && !b.joinable();
        auto all = tpp::get_all_registered_threads();
        ok = ok && all.size() == 2 && contains(all, ib) && !tpp::invoke(ia, [] {});
        settle(a);
    }
    if(what == 2)
    {
        a.swap(b);
        ok = ok && a.get_id() == ib && b.get_id() == ia;
        tpp::invoke(a.get_id(), [&] { ran = tpp::this_thread::get_id(); });
        settle(a);
        ok = ok && ran == ib;
        a.join();
        auto all = tpp::get_all_registered_threads();
        ok = ok && all.size() == 2 && contains(all, ia) && !contains(all, ib);
    }
    if(what == 3)
    {
        none = std::move(a);
        ok = ok && none.get_id() == ia && none.joinable() && !a.joinable() && tpp::get_all_registered_threads().size() == 3;
        a = tpp::make_thread("c");
        settle(a);
        ok = ok && a.get_id() != ia && a.get_id() != ib && a.get_id() != 0;
    }
    vp_reach("done");
    VP_ASSERT(zero == 0, "no thread, no id");
    VP_ASSERT(ok, "the id moves with the thread");
    vp_stop();
}

void early()
{
    vp_expect("exit");
    vp_expect("task");
    tpp::init();
    bool leave = vp_choice(2);
    latch go;
    int ran = 0;
    bool exited = false;
    id_t_ own = 0;
    tpp::thread t([&] {
        go.wait(1);
        tpp::this_thread::register_this_thread("self");
        own = tpp::this_thread::get_id();
        exited = tpp::this_thread::notified_for_exit();
        tpp::this_thread::wait();
        tpp::this_thread::unregister_this_thread();
    });
    auto id = t.get_id();
    bool accepted = true;
    vp_timeouts(0, 0);
    vp_start();
    if(leave)
        tpp::notify_for_exit(id);
    else
        accepted = tpp::invoke(id, [&] { ran++; });
    go.hit();
    static_cast<std::thread&>(t).join();
    vp_reach(leave ? "exit" : "task");
    vp_final();
    VP_ASSERT(accepted && own == id, "one registration");
    VP_ASSERT(exited == leave && ran == !leave, "what was sent before the thread registered reaches it");
    vp_stop();
}

void listing()
{
    vp_expect("in");
    vp_expect("out");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    id_t_ own = 0;
    latch go;
    vp_timeouts(0, 0);
    vp_start();
    std::thread t([&] {
        go.hit();
        tpp::this_thread::register_this_thread();
        own = tpp::this_thread::get_id();
        tpp::this_thread::unregister_this_thread();
    });
    go.wait(1);
    auto all = tpp::get_all_registered_threads();
    t.join();
    vp_reach(all.size() == 2 ? "in" : "out");
    vp_final();
    VP_ASSERT(contains(all, me), "the caller is listed");
    VP_ASSERT(all.size() == 1 || (all.size() == 2 && contains(all, own)), "and the other one at most");
    vp_stop();
}

void told_to_exit()
{
    vp_expect("done");
    tpp::init();
    latch gate, in;
    auto me = tpp::this_thread::get_id();
    id_t_ plain = 0, plain_id = 0, inside = 0;
    auto a = tpp::make_thread("a"), b = tpp::make_thread("b");
    tpp::invoke(a.get_id(), [&] {
        in.hit();
        gate.wait(1);
        inside = tpp::this_thread::get_id();
    });
    tpp::invoke(b.get_id(), [&] {
        in.hit();
        gate.wait(1);
    });
    std::thread p([&] {
        tpp::this_thread::register_this_thread();
        plain = tpp::this_thread::get_id();
        in.hit();
        gate.wait(1);
        plain_id = tpp::this_thread::get_id();
        tpp::this_thread::unregister_this_thread();
    });
    in.wait(3);
    id_t_ ida = a.get_id(), idb = b.get_id();
    bool ea = vp_choice(2), eb = vp_choice(2), ep = vp_choice(2);
    vp_timeouts(0, 0);
    vp_start();
    if(ea) tpp::notify_for_exit(ida);
    if(eb) tpp::notify_for_exit(idb);
    if(ep) tpp::notify_for_exit(plain);
    auto all = tpp::get_all_registered_threads();
    bool again = tpp::register_thread(p.get_id()) == plain;
    gate.hit();
    p.join();
    a.join();
    b.join();
    auto rest = tpp::get_all_registered_threads();
    vp_reach("done");
    vp_final();
    VP_ASSERT(same_set(all, {me, ida, idb, plain}), "a thread told to exit is registered until it leaves");
    VP_ASSERT(again && plain_id == plain && inside == ida, "it keeps its id");
    VP_ASSERT(same_set(rest, {me}), "and is gone afterwards");
    vp_stop();
}

void many()
{
    vp_expect("done");
    tpp::init();
    auto t = tpp::make_thread();
    std::vector<tpp::thread::id> ids{t.get_id(), tpp::this_thread::get_id()};
    for(int i = 0; i < 300; i++)
    {
        tpp::this_thread::unregister_this_thread();
        tpp::this_thread::register_this_thread();
        auto id = tpp::this_thread::get_id();
        bool fresh = id != 0;
        for(auto x : ids) fresh &= x != id;
        VP_ASSERT(fresh, "never handed out before");
        ids.push_back(id);
    }
    auto all = tpp::get_all_registered_threads();
    VP_ASSERT(all.size() == 2, "two registered");
    VP_ASSERT(!tpp::invoke(ids[1 + 59 * vp_choice(6)], [] {}), "retired");
    settle(t);
    vp_reach("done");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: constructor(); break;
        case 1: three(); break;
        case 2: sequence(); break;
        case 3: dead_id(); break;
        case 4: own(); break;
        case 5: concurrent(); break;
        case 6: dying(); break;
        case 7: objects(); break;
        case 8: early(); break;
        case 9: listing(); break;
        case 10: told_to_exit(); break;
        case 11: many(); break;
    }
}
