// Blocking functions of libstdc++ and libc that come down to a mutex: one-time initialisation, atomic access to shared_ptr,
// std::future.
// Part of the model and of every replay, so that both go through the same steps.
#include <cstdint>
#include <future>
#include <memory>
#include <pthread.h>

namespace
{
pthread_mutex_t once_guard = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
pthread_mutex_t ptr_guard = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t futex_guard = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t futex_changed = PTHREAD_COND_INITIALIZER;

struct hold
{
    hold() { pthread_mutex_lock(&once_guard); }
    ~hold() { pthread_mutex_unlock(&once_guard); }
};
} // namespace

extern "C"
{
int pthread_once(pthread_once_t* o, void (*f)())
{
    if(__atomic_load_n(o, __ATOMIC_ACQUIRE) == 2) return 0;
    hold h;
    if(__atomic_load_n(o, __ATOMIC_ACQUIRE) == 2) return 0;
    f();
    __atomic_store_n(o, 2, __ATOMIC_RELEASE);
    return 0;
}
int __cxa_guard_acquire(uint64_t* g)
{
    char* done = reinterpret_cast<char*>(g);
    if(__atomic_load_n(done, __ATOMIC_ACQUIRE)) return 0;
    pthread_mutex_lock(&once_guard);
    if(__atomic_load_n(done, __ATOMIC_ACQUIRE))
    {
        pthread_mutex_unlock(&once_guard);
        return 0;
    }
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    __atomic_store_n(reinterpret_cast<char*>(g), 1, __ATOMIC_RELEASE);
    pthread_mutex_unlock(&once_guard);
}
void __cxa_guard_abort(uint64_t*)
{
    pthread_mutex_unlock(&once_guard);
}
}

namespace std
{
_Sp_locker::_Sp_locker(const void*) noexcept
{
    pthread_mutex_lock(&ptr_guard);
}
_Sp_locker::_Sp_locker(const void*, const void*) noexcept
{
    pthread_mutex_lock(&ptr_guard);
}
_Sp_locker::~_Sp_locker()
{
    pthread_mutex_unlock(&ptr_guard);
}

// std::future
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns)
{
    timespec at{s.count(), ns.count()};
    int r = 0;
    pthread_mutex_lock(&futex_guard);
    if(__atomic_load_n(addr, __ATOMIC_SEQ_CST) == val)
        r = has_timeout ? pthread_cond_timedwait(&futex_changed, &futex_guard, &at) : pthread_cond_wait(&futex_changed, &futex_guard);
    pthread_mutex_unlock(&futex_guard);
    return r == 0;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s,
                                                             chrono::nanoseconds ns)
{
    timespec at{s.count(), ns.count()};
    int r = 0;
    pthread_mutex_lock(&futex_guard);
    if(__atomic_load_n(addr, __ATOMIC_SEQ_CST) == val)
        r = has_timeout ? pthread_cond_clockwait(&futex_changed, &futex_guard, CLOCK_MONOTONIC, &at)
                        : pthread_cond_wait(&futex_changed, &futex_guard);
    pthread_mutex_unlock(&futex_guard);
    return r == 0;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*)
{
    pthread_mutex_lock(&futex_guard);
    pthread_cond_broadcast(&futex_changed);
    pthread_mutex_unlock(&futex_guard);
}
} // namespace std
