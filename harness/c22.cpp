// C22: timed waits neither time out early nor overstay their deadline
//@ 0 this_thread::wait_for and wait_until | quick | --logic QF_BV | any duration of up to +-2^58 ns, steady and system clock (symbolic), nothing to process
//@ 1 sleep_for and sleep_until with tasks | quick | --merge 2 --logic QF_BV --fresh | any duration of up to +-2^31 ns, 0..2 tasks (symbolic) each taking any time of up to 2^32 ns
//@ 2 condition variable waits with tasks | quick | --merge 2 --logic QF_BV --fresh | wait_for/wait_until (symbolic), any duration of up to +-2^31 ns, 0..2 tasks each taking any time of up to 2^32 ns, no notification
//@ 3 future waits with tasks | quick | --merge 2 --logic QF_BV --fresh | wait_for of a future and wait_until of a shared future (symbolic), any duration of up to +-2^31 ns, 0..2 tasks taking any time of up to 2^32 ns
//@ 4 process_for | quick | --logic QF_BV | any duration of up to +-2^58 ns, 3 tasks each taking any time of up to 2^58 ns
//@ 5 spurious wake-ups | quick | --logic QF_BV | up to 2 spurious wake-ups at any moment of wait_for, sleep_for, condition variable or future wait (symbolic), durations of up to 2^58 ns
//@ 6 clock advancing at every reading | quick | --merge 2 --logic QF_BV --fresh | every clock reading advances by any amount from 1 us to 2^50 ns; each kind of wait (symbolic), durations of up to 2^31 ns
//@ 7 task from another thread | quick | | another thread posts a task taking any time at any moment of the wait; each kind of wait (symbolic), all interleavings
//@ 8 timeout against notification | quick | | notify or set_value by another thread races with the timeout; result timeout only once the time has elapsed, all interleavings
//@ 9 exit request | quick | | exit requested by another thread at any moment of a timed wait, all interleavings
//@ 10 units | quick | --merge 2 --logic QF_BV --fresh | hours, minutes, seconds, milliseconds, microseconds, centiseconds, unsigned seconds (symbolic), counts below 1000: the deadline is the requested one
//@ 11 no blocking without time | quick | | zero and negative durations of every unit and every timed call (symbolic)
//@ 12 fixed durations | quick | --merge 2 | every timed call (symbolic) for 2.5 ms, 1 us or 3 s (symbolic), with 0..1 task of 1 ms, with up to 1 spurious wake-up: it ends, in time
#include "common.h"
using namespace std::chrono_literals;
using ns = std::chrono::nanoseconds;

namespace
{
constexpr uint64_t LIMIT = 1ull << 58;
// the clock advances by this much at every reading where a wait spins for less than a microsecond
constexpr uint64_t TICK = 1000;
constexpr uint64_t SLACK = 40 * TICK;

int64_t any_duration()
{
    uint64_t v = vp_nondet_u64();
    int64_t d = (int64_t)v;
    vp_assume(d < (int64_t)LIMIT && d > -(int64_t)LIMIT);
    return d;
}
int64_t short_duration()
{
    return (int64_t)vp_nondet_u32() - (1ll << 31);
}
uint64_t any_time()
{
    return vp_nondet_u32();
}

// a timed wait ended after `elapsed`, having been asked for d, with `spent` in tasks
void in_time(int64_t d, uint64_t elapsed, uint64_t spent)
{
    VP_ASSERT(d <= 0 || elapsed + 1000 > (uint64_t)d, "not before the time has elapsed");
    VP_ASSERT(elapsed <= spent || (d > 0 && elapsed <= (uint64_t)d + spent + SLACK), "not longer than asked for");
}

enum kind
{
    WAIT,
    SLEEP,
    CV,
    FUT
};

bool timed_out;

// blocks in one kind of timed wait, nothing happening that would satisfy it
void block(unsigned k, ns d)
{
    static std::mutex m;
    static tpp::condition_variable cv;
    static tpp::promise<int> p;
    static tpp::shared_future<int> f = p.get_future().share();
    if(k == WAIT) timed_out = tpp::this_thread::wait_for(d) == std::cv_status::timeout;
    if(k == SLEEP)
    {
        tpp::this_thread::sleep_for(d);
        timed_out = true;
    }
    if(k == CV)
    {
        std::unique_lock<std::mutex> l(m);
        timed_out = cv.wait_for(l, d) == std::cv_status::timeout;
        VP_ASSERT(l.owns_lock(), "lock held");
    }
    if(k == FUT) timed_out = f.wait_for(d) == std::future_status::timeout;
}

void plain()
{
    vp_expect("waited");
    vp_expect("none");
    tpp::init();
    int64_t d = any_duration();
    unsigned how = vp_choice(3);
    vp_timeouts(2, 0);
    uint64_t t0 = vp_time(), w0 = vp_timed_waits();
    std::cv_status st;
    if(how == 0) st = tpp::this_thread::wait_for(ns(d));
    if(how == 1) st = tpp::this_thread::wait_until(std::chrono::steady_clock::now() + ns(d));
    if(how == 2) st = tpp::this_thread::wait_until(std::chrono::system_clock::now() + ns(d));
    uint64_t elapsed = vp_time() - t0;
    in_time(d, elapsed, 0);
    if(d > 0)
    {
        VP_ASSERT(st == std::cv_status::timeout, "timeout");
        VP_ASSERT(vp_timed_waits() <= w0 + 1, "one wait");
        vp_reach("waited");
    }
    else
    {
        VP_ASSERT(vp_timed_waits() == w0 && elapsed == 0, "no blocking");
        vp_reach("none");
    }
    vp_stop();
}

// posts up to two tasks that take some time; returns how many
unsigned post_tasks(uint64_t* took, int* ran)
{
    unsigned n = vp_choice(3);
    auto me = tpp::this_thread::get_id();
    for(unsigned i = 0; i < n; i++)
    {
        took[i] = any_time();
        uint64_t t = took[i];
        tpp::invoke(me, [ran, t] {
            vp_advance(t);
            ++*ran;
        });
    }
    return n;
}

void with_tasks(unsigned k)
{
    vp_expect("waited");
    vp_expect("late");
    tpp::init();
    int64_t d = short_duration();
    uint64_t took[2] = {0, 0};
    int ran = 0;
    unsigned n = post_tasks(took, &ran);
    bool until = vp_choice(2);
    vp_timeouts(2, 0);
    std::mutex m;
    tpp::condition_variable cv;
    tpp::promise<int> p, q;
    auto f = p.get_future();
    auto sf = q.get_future().share();
    bool shared = until;
    bool out = true;
    auto end = std::chrono::steady_clock::now() + ns(d);
    uint64_t t0 = vp_time();
    vp_clock(TICK);
    if(k == SLEEP)
    {
        if(until)
            tpp::this_thread::sleep_until(end);
        else
            tpp::this_thread::sleep_for(ns(d));
    }
    if(k == CV)
    {
        std::unique_lock<std::mutex> l(m);
        out = (until ? cv.wait_until(l, end) : cv.wait_for(l, ns(d))) == std::cv_status::timeout;
        VP_ASSERT(l.owns_lock(), "lock held");
    }
    if(k == FUT)
    {
        std::future_status st;
        if(shared)
            st = until ? sf.wait_until(end) : sf.wait_for(ns(d));
        else
            st = until ? f.wait_until(end) : f.wait_for(ns(d));
        out = st == std::future_status::timeout;
    }
    uint64_t elapsed = vp_time() - t0;
    uint64_t spent = (ran > 0 ? took[0] : 0) + (ran > 1 ? took[1] : 0);
    VP_ASSERT(out, "timeout");
    VP_ASSERT(d <= 0 || elapsed + 1000 > (uint64_t)d, "not before the time has elapsed");
    // processed tasks neither extend nor shorten the wait
    VP_ASSERT(elapsed <= spent + SLACK || (d > 0 && elapsed <= (uint64_t)d + SLACK), "not longer than asked for or than the tasks took");
    if(d > 0)
    {
        // as long as there was time left, tasks were executed
        uint64_t u = (uint64_t)d;
        bool second = n == 2 && took[0] + SLACK < u;
        VP_ASSERT(n == 0 || u <= SLACK || ran >= 1, "a task is processed meanwhile");
        VP_ASSERT(!second || ran == 2, "and another one");
        VP_ASSERT(ran < 2 || took[0] < u, "none is started after the deadline");
        vp_reach(spent > u ? "late" : "waited");
    }
    else
        VP_ASSERT(ran == 0, "nothing is started without time");
    vp_stop();
}

void processing()
{
    vp_expect("all");
    vp_expect("some");
    vp_expect("none");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    int64_t d = any_duration();
    uint64_t took[3];
    int ran = 0;
    for(int i = 0; i < 3; i++)
    {
        took[i] = vp_nondet_u64();
        vp_assume(took[i] < LIMIT);
        uint64_t t = took[i];
        tpp::invoke(me, [&ran, t] {
            vp_advance(t);
            ++ran;
        });
    }
    vp_timeouts(0, 0);
    uint64_t t0 = vp_time(), w0 = vp_timed_waits();
    tpp::this_thread::process_for(ns(d));
    uint64_t elapsed = vp_time() - t0;
    VP_ASSERT(vp_timed_waits() == w0, "never blocks");
    if(d < 1000)
    {
        VP_ASSERT(ran == 0, "no time, no task");
        vp_reach("none");
        vp_stop();
    }
    uint64_t sum = 0, u = (uint64_t)d;
    for(int i = 0; i < 3; i++)
    {
        // a task is started as long as time is left (to the microsecond)
        if(i < ran)
            VP_ASSERT(sum < u, "not started after the deadline");
        else
            VP_ASSERT(sum + 1000 > u, "started while time is left");
        if(i < ran) sum += took[i];
    }
    VP_ASSERT(elapsed == sum, "time spent in the tasks");
    vp_reach(ran == 3 ? "all" : "some");
    tpp::this_thread::process();
    VP_ASSERT(ran == 3, "the rest later");
    vp_stop();
}

void spurious()
{
    vp_expect("done");
    tpp::init();
    unsigned k = vp_choice(4);
    int64_t d = any_duration();
    vp_assume(d > 0);
    vp_timeouts(2, 0);
    uint64_t t0 = vp_time();
    vp_clock(TICK);
    vp_start();
    vp_spurious(2);
    block(k, ns(d));
    uint64_t elapsed = vp_time() - t0;
    vp_reach("done");
    vp_final();
    VP_ASSERT(timed_out, "timeout");
    in_time(d, elapsed, 0);
    vp_stop();
}

void running_clock()
{
    vp_expect("done");
    tpp::init();
    unsigned k = vp_choice(3);
    static const unsigned kinds[3] = {WAIT, SLEEP, CV};
    int64_t d = short_duration();
    vp_assume(d > 0);
    vp_timeouts(2, 0);
    uint64_t t0 = vp_time();
    vp_clock(1);
    block(kinds[k], ns(d));
    vp_clock(0);
    uint64_t elapsed = vp_time() - t0;
    vp_reach("done");
    VP_ASSERT(timed_out, "timeout");
    VP_ASSERT(elapsed + 1000 > (uint64_t)d, "not before the time has elapsed");
    vp_stop();
}

void other_thread()
{
    vp_expect("ran");
    vp_expect("late");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    unsigned k = vp_choice(3);
    static const unsigned kinds[3] = {SLEEP, CV, FUT};
    uint64_t d = 5000000, t = vp_choice(2) ? 2000000 : 9000000;
    bool ran = false;
    vp_timeouts(1, 2);
    uint64_t t0 = vp_time();
    vp_start();
    std::thread o([&] {
        tpp::invoke(me, [&] {
            vp_advance(t);
            ran = true;
        });
    });
    block(kinds[k], ns(d));
    uint64_t elapsed = vp_time() - t0;
    bool r = ran;
    o.join();
    vp_reach(r ? "ran" : "late");
    vp_final();
    VP_ASSERT(timed_out, "timeout");
    VP_ASSERT(elapsed >= d, "not before the time has elapsed");
    VP_ASSERT(elapsed <= d || (r && elapsed <= d + t), "not longer than asked for or than the task took");
    vp_stop();
}

void notified()
{
    vp_expect("timeout");
    vp_expect("notified");
    tpp::init();
    unsigned k = vp_choice(2);
    uint64_t d = 5000000, t = vp_choice(2) ? 2000000 : 9000000;
    std::mutex m;
    tpp::condition_variable cv;
    tpp::promise<int> p;
    auto f = p.get_future();
    bool out = false, set = false;
    vp_timeouts(1, 2);
    uint64_t t0 = vp_time();
    vp_start();
    std::thread o([&] {
        vp_advance(t);
        if(k == 0)
        {
            {
                std::unique_lock<std::mutex> l(m);
                set = true;
            }
            cv.notify_one();
        }
        else
            p.set_value(1);
    });
    if(k == 0)
    {
        std::unique_lock<std::mutex> l(m);
        if(!set) out = cv.wait_for(l, ns(d)) == std::cv_status::timeout;
    }
    else
        out = f.wait_for(ns(d)) == std::future_status::timeout;
    uint64_t elapsed = vp_time() - t0;
    o.join();
    vp_reach(out ? "timeout" : "notified");
    vp_final();
    VP_ASSERT(!out || elapsed >= d, "timeout only once the time has elapsed");
    vp_stop();
}

void leaving()
{
    vp_expect("early");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    unsigned k = vp_choice(4);
    uint64_t d = 5000000;
    vp_timeouts(2, 0);
    uint64_t t0 = vp_time();
    vp_start();
    std::thread o([&] { tpp::notify_for_exit(me); });
    block(k, ns(d));
    uint64_t elapsed = vp_time() - t0;
    o.join();
    vp_reach("early");
    vp_final();
    VP_ASSERT(elapsed == 0, "an exit request ends the wait at once");
    vp_stop();
}

void units()
{
    vp_expect("done");
    tpp::init();
    unsigned unit = vp_choice(7), k = vp_choice(4);
    uint64_t n = vp_nondet_u16();
    vp_assume(n > 0 && n < 1000);
    uint64_t d = 0;
    std::mutex m;
    tpp::condition_variable cv;
    tpp::promise<int> p;
    auto f = p.get_future();
    vp_timeouts(2, 0);
    uint64_t t0 = vp_time();
    auto run = [&](auto dur) {
        if(k == WAIT) tpp::this_thread::wait_for(dur);
        if(k == SLEEP) tpp::this_thread::sleep_for(dur);
        if(k == CV)
        {
            std::unique_lock<std::mutex> l(m);
            cv.wait_for(l, dur);
        }
        if(k == FUT) f.wait_for(dur);
    };
    if(unit == 0) d = n * 3600000000000ull, run(std::chrono::hours(n));
    if(unit == 1) d = n * 60000000000ull, run(std::chrono::minutes(n));
    if(unit == 2) d = n * 1000000000ull, run(std::chrono::seconds(n));
    if(unit == 3) d = n * 1000000ull, run(std::chrono::milliseconds(n));
    if(unit == 4) d = n * 1000ull, run(std::chrono::microseconds(n));
    if(unit == 5) d = n * 1000000000ull, run(std::chrono::duration<uint32_t>(n));
    if(unit == 6) d = n * 10000000ull, run(std::chrono::duration<int, std::centi>(n));
    uint64_t elapsed = vp_time() - t0;
    vp_reach("done");
    VP_ASSERT(elapsed == d, "the requested time");
    vp_stop();
}

void no_time()
{
    vp_expect("done");
    tpp::init();
    auto me = tpp::this_thread::get_id();
    unsigned call = vp_choice(8), unit = vp_choice(3);
    bool zero = vp_choice(2);
    int ran = 0;
    bool task = vp_choice(2);
    if(task) tpp::invoke(me, [&] { ran++; });
    std::mutex m;
    tpp::condition_variable cv;
    tpp::promise<int> p;
    auto f = p.get_future();
    // any block would be a deadlock or count as a timed wait
    vp_timeouts(0, 0);
    uint64_t w0 = vp_timed_waits(), t0 = vp_time();
    auto now = std::chrono::steady_clock::now();
    bool ready = false, out = true;
    auto run = [&](auto dur) {
        if(call == 0) tpp::this_thread::wait_for(dur);
        if(call == 1) tpp::this_thread::sleep_for(dur);
        if(call == 2) tpp::this_thread::process_for(dur);
        if(call == 3) tpp::this_thread::wait_until(now + dur);
        if(call == 4) tpp::this_thread::sleep_until(now + dur);
        if(call == 5)
        {
            std::unique_lock<std::mutex> l(m);
            out = cv.wait_for(l, dur) == std::cv_status::timeout;
        }
        if(call == 6)
        {
            std::unique_lock<std::mutex> l(m);
            out = cv.wait_until(l, now + dur) == std::cv_status::timeout;
        }
        if(call == 7)
        {
            out = f.wait_for(dur) == std::future_status::timeout;
            ready = f.is_ready();
        }
    };
    if(unit == 0) run(ns(zero ? 0 : -1));
    if(unit == 1) run(std::chrono::milliseconds(zero ? 0 : -7));
    if(unit == 2) run(std::chrono::hours(zero ? 0 : -3));
    vp_reach("done");
    VP_ASSERT(vp_timed_waits() == w0 && vp_time() == t0, "no blocking");
    VP_ASSERT(out && !ready && vp_held() == 0, "reported as timeout");
    VP_ASSERT(ran == 0, "no task is started");
    vp_stop();
}

// concrete times, so that also a wait that never ends is found quickly
void fixed()
{
    vp_expect("done");
    tpp::init();
    unsigned k = vp_choice(5), len = vp_choice(3);
    bool until = vp_choice(2), task = vp_choice(2), spurious = vp_choice(2);
    const uint64_t d = len == 0 ? 2500000 : len == 1 ? 1000 : 3000000000ull;
    const uint64_t spent = task ? 1000000 : 0;
    if(task) tpp::invoke(tpp::this_thread::get_id(), [] { vp_advance(1000000); });
    std::mutex m;
    tpp::condition_variable cv;
    tpp::promise<int> p;
    tpp::promise<void> q;
    auto f = p.get_future();
    auto sf = q.get_future().share();
    bool out = true;
    auto end = std::chrono::steady_clock::now() + ns(d);
    uint64_t t0 = vp_time();
    vp_timeouts(2, 0);
    vp_spurious(spurious);
    vp_clock(TICK);
    if(k == 0)
    {
        if(until)
            tpp::this_thread::sleep_until(end);
        else
            tpp::this_thread::sleep_for(ns(d));
    }
    if(k == 1)
    {
        std::unique_lock<std::mutex> l(m);
        out = (until ? cv.wait_until(l, end) : cv.wait_for(l, ns(d))) == std::cv_status::timeout;
    }
    if(k == 2) out = (until ? tpp::this_thread::wait_until(end) : tpp::this_thread::wait_for(ns(d))) == std::cv_status::timeout || task || spurious || len == 1;
    if(k == 3) out = (until ? f.wait_until(end) : f.wait_for(ns(d))) == std::future_status::timeout;
    if(k == 4) out = (until ? sf.wait_until(end) : sf.wait_for(ns(d))) == std::future_status::timeout;
    uint64_t elapsed = vp_time() - t0;
    vp_reach("done");
    VP_ASSERT(out, "timeout");
    // a plain wait ends with the first task or wake-up
    if(k != 2 || !(task || spurious)) in_time(d, elapsed, spent);
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: plain(); break;
        case 1: with_tasks(SLEEP); break;
        case 2: with_tasks(CV); break;
        case 3: with_tasks(FUT); break;
        case 4: processing(); break;
        case 5: spurious(); break;
        case 6: running_clock(); break;
        case 7: other_thread(); break;
        case 8: notified(); break;
        case 9: leaving(); break;
        case 10: units(); break;
        case 11: no_time(); break;
        case 12: fixed(); break;
    }
}
