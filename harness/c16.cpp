// C16: pool workers take the best eligible job first
//@ 0 order over categories and priorities | quick | | 3 pending jobs, each with a symbolic category (3) and priority (all 64-bit values), 1 worker of symbolic category
//@ 1 order within a category | quick | | 4 pending jobs with symbolic priorities (all 64-bit values), 1 worker
//@ 2 raising a pending job | quick | | 3 pending jobs with symbolic groups (priorities 0..3), one of them (symbolic) raised to a symbolic group
//@ 3 arbitrary reprioritisation | quick | | 2 pending jobs, 2 changes to symbolic groups (raise or lower), 1 normal worker: nothing lost or duplicated, raised ones first
//@ 4 workers never start jobs below their category | quick | --merge 2 | 1 normal worker (busy) and 1 high or critical worker (symbolic), 2 pending jobs (one of symbolic category, one high), both workers become free, all interleavings
//@ 5 lowering the category | quick | --merge 2 | a pending high job is lowered to normal while the high and the normal worker are busy, all interleavings
//@ 6 reprioritisation against the pick | quick | --merge 2 | change_priority (symbolic group) from main while the worker becomes free, 2 jobs, all interleavings
//@ 7 scheduling against the pick | quick | --merge 2 | a third job is scheduled while the worker becomes free, symbolic priorities, all interleavings
//@ 8 change through handles, repeated and useless changes | quick | | handle, shared handle or pool call (symbolic); unknown id, running job, unchanged group, two raises in a row
//@ 9 order after cancelling | quick | | 3 pending jobs with symbolic groups (priorities 0..3), one of them (symbolic) stopped
//@ 10 order of four jobs | thorough | | 4 pending jobs with symbolic category and priority (all 64-bit values), 1 worker
//@ 11 two changes among three jobs | thorough | | 3 pending jobs, 2 changes to symbolic groups, 1 worker
//@ 12 job for an idle worker | quick | --merge 2 | 2 workers of the same or of two categories (symbolic), one of them (symbolic) blocked by its job, the other one idle or about to be, all interleavings
//@ 13 jobs without a group | quick | | 1 normal or high worker, a job without a group among 2 jobs with symbolic groups (all 64-bit priorities): treated as normal with priority 0
//@ 14 many jobs | quick |  | 24 pending jobs over 3 categories and 8 priorities, one of them (symbolic) raised, 1 worker, one schedule
#include "common.h"
using namespace std::chrono_literals;
using tpp::priority::category;
using tpp::priority::group;

namespace
{
using levels = std::map<category, size_t>;

std::vector<tpp::thread::id> workers;

void settle_all()
{
    auto me = tpp::this_thread::get_id();
    if(workers.empty()) workers = tpp::get_all_registered_threads();
    for(auto id : workers)
    {
        if(id == me) continue;
        latch l;
        tpp::invoke(id, [&l] { l.hit(); });
        l.wait(1);
    }
}

category cat(unsigned c)
{
    return c == 0 ? category::normal : c == 1 ? category::high : category::critical;
}

bool better(const group& a, const group& b)
{
    return a.level > b.level || (a.level == b.level && a.priority > b.priority);
}

group any_group(uint64_t limit)
{
    unsigned c = vp_choice(3);
    uint64_t p = vp_nondet_u64();
    if(limit) vp_assume(p < limit);
    return group(cat(c), p);
}

struct record
{
    int order[8];
    int n = 0;
    void add(int i)
    {
        if(n < 8) order[n] = i;
        n++;
    }
    int count(int i) const
    {
        int k = 0;
        for(int j = 0; j < n && j < 8; j++)
            if(order[j] == i) k++;
        return k;
    }
    int position(int i) const
    {
        for(int j = 0; j < n && j < 8; j++)
            if(order[j] == i) return j;
        return -1;
    }
};

// the pool's worker(s) are held by the first job until `gate` is hit
struct held
{
    tpp::thread_pool pool;
    latch gate, started;
    tpp::job_future<void> holder;
    explicit held(category l) : pool(levels{{l, 1}})
    {
        settle_all();
        holder = pool.schedule(group(category::critical, 0), [this] {
            started.hit();
            gate.wait(1);
        });
        started.wait(1);
    }
    void release()
    {
        gate.hit();
        holder.wait();
        settle_all();
    }
};

void order(int n, uint64_t limit, bool cats)
{
    vp_expect("some");
    if(cats) vp_expect("ineligible");
    tpp::init();
    category level = cats ? cat(vp_choice(3)) : category::normal;
    held h(level);
    record r;
    group g[4];
    tpp::job_future<void> f[4];
    for(int i = 0; i < n; i++)
    {
        g[i] = cats ? any_group(limit) : group(category::normal, vp_nondet_u64());
        f[i] = h.pool.schedule(g[i], [&r, i] { r.add(i); });
    }
    h.release();
    int eligible = 0;
    for(int i = 0; i < n; i++) eligible += g[i].level >= level;
    VP_ASSERT(r.n == eligible, "exactly the eligible jobs are executed");
    for(int i = 0; i < n; i++)
    {
        VP_ASSERT(r.count(i) == (g[i].level >= level ? 1 : 0), "each eligible one once, the others never");
        VP_ASSERT(f[i].is_ready() == (g[i].level >= level), "their futures");
    }
    for(int k = 0; k + 1 < r.n; k++)
        VP_ASSERT(!better(g[r.order[k + 1]], g[r.order[k]]), "the best pending job is started first");
    vp_reach(eligible < n ? "ineligible" : "some");
    vp_stop();
}

void raise()
{
    vp_expect("raised");
    tpp::init();
    held h(category::normal);
    record r;
    group g[3];
    tpp::job_future<void> f[3];
    for(int i = 0; i < 3; i++)
    {
        g[i] = any_group(4);
        f[i] = h.pool.schedule(g[i], [&r, i] { r.add(i); });
    }
    unsigned which = vp_choice(3);
    group to = any_group(4);
    vp_assume(better(to, g[which]));
    h.pool.change_priority(f[which].id, to);
    g[which] = to;
    h.release();
    vp_reach("raised");
    VP_ASSERT(r.n == 3 && r.count(0) == 1 && r.count(1) == 1, "each job once");
    for(int k = 0; k < 2; k++)
        VP_ASSERT(!better(g[r.order[k + 1]], g[r.order[k]]), "the best pending job is started first, counting the change");
    vp_stop();
}

void arbitrary(int n)
{
    vp_expect("done");
    tpp::init();
    held h(category::normal);
    record r;
    group g[3], top[3];
    tpp::job_future<void> f[3];
    for(int i = 0; i < n; i++)
    {
        g[i] = top[i] = any_group(3);
        f[i] = h.pool.schedule(g[i], [&r, i] { r.add(i); });
    }
    for(int k = 0; k < 2; k++)
    {
        unsigned which = vp_choice(n);
        g[which] = any_group(3);
        if(better(g[which], top[which])) top[which] = g[which];
        h.pool.change_priority(f[which].id, g[which]);
    }
    VP_ASSERT(h.pool.get_jobs_count() == size_t(n + 1), "no job more or less");
    h.release();
    vp_reach("done");
    VP_ASSERT(r.n == n && r.count(0) == 1 && r.count(1) == 1, "each job exactly once");
    VP_ASSERT(h.pool.get_jobs_count() == 0, "nothing left");
    // a job that never had a group as good as another one's present group comes later
    for(int k = 0; k + 1 < n; k++)
        for(int j = k + 1; j < n; j++)
            VP_ASSERT(!better(g[r.order[j]], top[r.order[k]]), "raised jobs are started before");
    vp_stop();
}

// of two workers, the one that does not run a normal job
tpp::thread::id upper_worker(tpp::thread_pool& pool)
{
    tpp::thread::id lower = pool.schedule([] { return tpp::this_thread::get_id(); }).get();
    settle_all();
    for(auto id : workers)
        if(id != lower && id != tpp::this_thread::get_id()) return id;
    return 0;
}

void never_below()
{
    vp_expect("taken");
    vp_expect("left");
    tpp::init();
    category up = vp_choice(2) ? category::critical : category::high;
    tpp::thread_pool pool(levels{{category::normal, 1}, {up, 1}});
    settle_all();
    auto upper = upper_worker(pool);
    latch gate, started, gate2, started2;
    // hold both workers, then let the upper one go
    auto a = pool.schedule(group(category::critical, 9), [&] {
        started.hit();
        gate.wait(1);
    });
    started.wait(1);
    auto b = pool.schedule(group(category::critical, 9), [&] {
        started2.hit();
        gate2.wait(1);
    });
    started2.wait(1);
    category c[2] = {cat(vp_choice(3)), category::high};
    tpp::thread::id by[2] = {0, 0};
    int ran[2] = {0, 0};
    tpp::job_future<void> f[2];
    for(int i = 0; i < 2; i++)
        f[i] = pool.schedule(group(c[i], 0), [&, i] {
            by[i] = tpp::this_thread::get_id();
            ran[i]++;
        });
    vp_timeouts(0, 0);
    vp_start();
    gate.hit();
    gate2.hit();
    f[0].wait();
    f[1].wait();
    bool taken = by[0] == upper || by[1] == upper;
    vp_reach(taken ? "taken" : "left");
    vp_final();
    VP_ASSERT(ran[0] == 1 && ran[1] == 1, "both ran");
    for(int i = 0; i < 2; i++) VP_ASSERT(by[i] != upper || c[i] >= up, "not on a worker above the job's category");
    vp_stop();
}

void lowered()
{
    vp_expect("done");
    tpp::init();
    tpp::thread_pool pool(levels{{category::normal, 1}, {category::high, 1}});
    settle_all();
    auto upper = upper_worker(pool);
    latch gate, started, gate2, started2;
    tpp::thread::id first = 0;
    auto a = pool.schedule(group(category::critical, 9), [&] {
        first = tpp::this_thread::get_id();
        started.hit();
        gate.wait(1);
    });
    started.wait(1);
    auto b = pool.schedule(group(category::critical, 9), [&] {
        started2.hit();
        gate2.wait(1);
    });
    started2.wait(1);
    tpp::thread::id by = 0;
    int ran = 0;
    auto f = pool.schedule(tpp::priority::high(3), [&] {
        by = tpp::this_thread::get_id();
        ran++;
    });
    pool.change_priority(f.id, tpp::priority::normal(1));
    vp_timeouts(0, 0);
    vp_start();
    gate.hit();
    gate2.hit();
    f.wait();
    vp_reach("done");
    vp_final();
    VP_ASSERT(ran == 1, "not lost or duplicated");
    VP_ASSERT(by != upper, "a worker above the new category does not take it");
    vp_stop();
}

void change_pick()
{
    vp_expect("first");
    vp_expect("second");
    tpp::init();
    held h(category::normal);
    record r;
    auto f = h.pool.schedule(tpp::priority::normal(1), [&] { r.add(0); });
    auto g = h.pool.schedule(tpp::priority::normal(2), [&] { r.add(1); });
    group to = vp_choice(2) ? tpp::priority::high(0) : tpp::priority::normal(5);
    vp_timeouts(0, 0);
    vp_start();
    h.gate.hit();
    h.pool.change_priority(f.id, to);
    f.wait();
    g.wait();
    vp_reach(r.order[0] == 0 ? "first" : "second");
    vp_final();
    VP_ASSERT(r.n == 2 && r.count(0) == 1 && r.count(1) == 1, "each job exactly once");
    vp_stop();
}

void schedule_pick()
{
    vp_expect("before");
    vp_expect("after");
    tpp::init();
    held h(category::normal);
    record r;
    group g[3] = {group(category::normal, vp_choice(2)), group(category::normal, 2), group(category::normal, vp_choice(4))};
    tpp::job_future<void> f[3];
    for(int i = 0; i < 2; i++) f[i] = h.pool.schedule(g[i], [&r, i] { r.add(i); });
    vp_timeouts(0, 0);
    vp_start();
    h.gate.hit();
    f[2] = h.pool.schedule(g[2], [&r] { r.add(2); });
    for(auto& x : f) x.wait();
    vp_reach(r.order[2] == 2 ? "after" : "before");
    vp_final();
    VP_ASSERT(r.n == 3 && r.count(0) == 1 && r.count(1) == 1 && r.count(2) == 1, "each job exactly once");
    VP_ASSERT(r.position(1) < r.position(0), "the better one of those pending all along is started first");
    // job 2 does not overtake a job that is as good, unless that one was not pending any more
    for(int i = 0; i < 2; i++) VP_ASSERT(!(g[i].priority > g[2].priority) || r.position(i) < r.position(2), "worse jobs later");
    vp_stop();
}

void handles()
{
    vp_expect("done");
    tpp::init();
    held h(category::normal);
    record r;
    auto f = h.pool.schedule(tpp::priority::normal(1), [&] { r.add(0); });
    auto g = h.pool.schedule(tpp::priority::normal(4), [&] { r.add(1); });
    auto k = h.pool.schedule(tpp::priority::normal(6), [&] { r.add(2); });
    unsigned how = vp_choice(3);
    auto id = f.id;
    auto change = [&](group to) {
        if(how == 0) h.pool.change_priority(id, to);
        if(how == 1) f.change_priority(to);
        if(how == 2)
        {
            auto s = f.share();
            s.change_priority(to);
            f = tpp::job_future<void>();
        }
    };
    h.pool.change_priority(123456, tpp::priority::critical(1));
    h.holder.change_priority(tpp::priority::critical(7));
    g.change_priority(tpp::priority::normal(4));
    change(tpp::priority::normal(5));
    bool second = vp_choice(2);
    if(second) h.pool.change_priority(id, tpp::priority::high(0));
    VP_ASSERT(h.pool.get_jobs_count() == 4, "count");
    h.release();
    vp_reach("done");
    VP_ASSERT(r.n == 3, "each job once");
    VP_ASSERT(r.order[0] == (second ? 0 : 2) && r.order[1] == (second ? 2 : 0) && r.order[2] == 1, "in the order of the changed priorities");
    VP_ASSERT(h.pool.get_jobs_count() == 0, "nothing left");
    vp_stop();
}

void cancelled()
{
    vp_expect("done");
    tpp::init();
    held h(category::normal);
    record r;
    group g[3];
    tpp::job_future<void> f[3];
    for(int i = 0; i < 3; i++)
    {
        g[i] = any_group(4);
        f[i] = h.pool.schedule(g[i], [&r, i] { r.add(i); });
    }
    unsigned which = vp_choice(3);
    h.pool.stop(f[which].id);
    h.release();
    vp_reach("done");
    VP_ASSERT(r.n == 2 && r.count(which) == 0, "the other two run");
    VP_ASSERT(r.order[0] != r.order[1], "once");
    VP_ASSERT(!better(g[r.order[1]], g[r.order[0]]), "the better one first");
    vp_stop();
}

// a busy worker does not keep the others from taking jobs
void idle_worker()
{
    vp_expect("one category");
    vp_expect("two categories");
    vp_timeouts(0, 0);
    tpp::init();
    unsigned two = vp_choice(2);
    tpp::thread_pool pool(two ? levels{{category::normal, 1}, {category::high, 1}} : levels{{category::normal, 2}});
    auto g = two ? tpp::priority::high(1) : tpp::priority::normal(1);
    unsigned k = vp_choice(2);
    latch started, gate[2], ran;
    bool after = vp_choice(2) != 0;
    settle_all();
    tpp::job_future<void> busy[2];
    for(int i = 0; i < 2; i++)
        busy[i] = pool.schedule(g, [&started, &gate, i] {
            started.hit();
            gate[i].wait(1); // blocks the worker outside the library
        });
    started.wait(2);
    if(!after) vp_start();
    gate[k].hit();
    if(after)
    {
        busy[k].wait();
        vp_start();
    }
    auto b = pool.schedule(g, [&ran] { ran.hit(); });
    ran.wait(1);
    vp_reach(two ? "two categories" : "one category");
    vp_final();
    VP_ASSERT(ran.n == 1, "once");
    vp_stop();
}

void no_group()
{
    vp_expect("normal worker");
    vp_expect("high worker");
    tpp::init();
    bool high = vp_choice(2);
    held h(high ? category::high : category::normal);
    record r;
    group g[3] = {any_group(0), group(category::normal, 0), any_group(0)};
    tpp::job_future<void> f[3];
    for(int i = 0; i < 3; i++)
    {
        if(i == 1)
            f[i] = h.pool.schedule([&r] { r.add(1); });
        else
            f[i] = h.pool.schedule(g[i], [&r, i] { r.add(i); });
    }
    h.release();
    vp_reach(high ? "high worker" : "normal worker");
    VP_ASSERT(r.count(1) == (high ? 0 : 1), "the job counts as normal");
    for(int i = 0; i < r.n; i++)
        for(int j = i + 1; j < r.n; j++) VP_ASSERT(!better(g[r.order[j]], g[r.order[i]]), "the better one first");
    vp_stop();
}

void many_jobs()
{
    vp_expect("done");
    tpp::init();
    held h(category::normal);
    int last = -1, n = 0;
    bool ok = true;
    int rank[24];
    std::vector<tpp::job_future<void>> fs;
    for(int i = 0; i < 24; i++)
    {
        int k = i * 7 % 24;
        rank[i] = k;
        fs.push_back(h.pool.schedule(group(cat(k / 8), k % 8), [&, i] {
            if(last >= 0 && rank[i] > last) ok = false;
            last = rank[i];
            n++;
        }));
    }
    int at = vp_choice(24);
    rank[at] = 24;
    fs[at].change_priority(group(category::critical, 100));
    h.release();
    vp_reach("done");
    VP_ASSERT(n == 24, "each job once");
    VP_ASSERT(ok, "best first");
    vp_stop();
}
} // namespace

void harness()
{
    switch(vp_scenario)
    {
        case 0: order(3, 0, true); break;
        case 1: order(4, 0, false); break;
        case 2: raise(); break;
        case 3: arbitrary(2); break;
        case 4: never_below(); break;
        case 5: lowered(); break;
        case 6: change_pick(); break;
        case 7: schedule_pick(); break;
        case 8: handles(); break;
        case 9: cancelled(); break;
        case 10: order(4, 0, true); break;
        case 11: arbitrary(3); break;
        case 12: idle_worker(); break;
        case 13: no_group(); break;
        case 14: many_jobs(); break;
    }
}
