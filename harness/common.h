// Shared helpers for the harnesses.
#pragma once
#include <system_error>
#include <threadpp/condition_variable.hpp>
#include <threadpp/future.hpp>
#include <threadpp/mutex.hpp>
#include <threadpp/thread.h>
#include <threadpp/thread_pool.h>
#include <threadpp/when_all_any.hpp>

#include "vp.h"

#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <thread>
#include <vector>

// counts up; wait(n) blocks (outside the library) until the count reaches n
struct latch
{
    std::mutex m;
    std::condition_variable c;
    int n = 0;
    void hit()
    {
        std::lock_guard<std::mutex> l(m);
        ++n;
        c.notify_all();
    }
    void wait(int k)
    {
        std::unique_lock<std::mutex> l(m);
        while(n < k) c.wait(l);
    }
    int get()
    {
        std::lock_guard<std::mutex> l(m);
        return n;
    }
};

// a loop thread that is already registered and idle (or about to be)
inline void settle(tpp::thread& t)
{
    latch l;
    tpp::invoke(t.get_id(), [&l] { l.hit(); });
    l.wait(1);
}

// counts live copies so that released / destroyed callables can be observed
struct tracker
{
    static int& live()
    {
        static int n = 0;
        return n;
    }
    tracker() { ++live(); }
    tracker(const tracker&) { ++live(); }
    tracker(tracker&&) noexcept { ++live(); }
    ~tracker() { --live(); }
    tracker& operator=(const tracker&) = default;
    tracker& operator=(tracker&&) = default;
};

// fingerprints of the payloads seen: which ones (set) and in which order (seq)
struct digest
{
    uint64_t set = 0, seq = 0;
    void add(uint64_t v)
    {
        set ^= v;
        seq = ((seq << 9) | (seq >> 55)) ^ v;
    }
};

inline bool contains(const std::vector<tpp::thread::id>& v, tpp::thread::id id)
{
    for(auto x : v)
        if(x == id) return true;
    return false;
}
