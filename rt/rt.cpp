// Model of the parts of libstdc++ / libc++abi that live in shared libraries and are called by the code under check.
// Written against the public headers; executed by the symbolic engine only (native replay uses the real library).
#include <cerrno>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>

extern "C"
{
uint64_t vp_thread_create(void* (*fn)(void*), void* arg);
int vp_thread_join(uint64_t h);
int vp_thread_detach(uint64_t h);
[[noreturn]] void vp_unwind(void* obj, const void* ti);
uint64_t vp_concretize(uint64_t v);
void* __cxa_allocate_raw(size_t n);
char __libc_single_threaded = 0;
int vp_scenario = 0;
}

// ------------------------------------------------------------------ exceptions
namespace
{
struct hdr
{
    void* primary;            // dependent exception: the primary object
    const std::type_info* ti; // must stay at offset 8
    void (*dtor)(void*);
    hdr* next;
    long refs;
    long handlers;
    long pad[2];
};
static_assert(sizeof(hdr) == 64, "header layout is known to the engine");

thread_local hdr* caught = nullptr;
thread_local int uncaught = 0;

[[noreturn]] void unwind(void* o, const void* ti)
{
    uncaught++;
    vp_unwind(o, ti);
}

hdr* H(void* obj)
{
    return reinterpret_cast<hdr*>(static_cast<char*>(obj) - 64);
}
void* O(hdr* h)
{
    return reinterpret_cast<char*>(h) + 64;
}
hdr* fresh(size_t n)
{
    hdr* h = static_cast<hdr*>(__cxa_allocate_raw(n + 64));
    h->primary = nullptr;
    h->ti = nullptr;
    h->dtor = nullptr;
    h->next = nullptr;
    h->refs = 0;
    h->handlers = 0;
    return h;
}
void drop(hdr* h)
{
    if(__atomic_sub_fetch(&h->refs, 1, __ATOMIC_ACQ_REL) == 0)
    {
        if(h->dtor) h->dtor(O(h));
        ::operator delete(static_cast<void*>(h));
    }
}
void release(hdr* h)
{
    if(h->primary)
    {
        void* p = h->primary;
        ::operator delete(static_cast<void*>(h));
        drop(H(p));
    }
    else
        drop(h);
}
} // namespace

extern "C"
{
void* __cxa_allocate_exception(size_t n) noexcept
{
    return O(fresh(n));
}
void __cxa_free_exception(void* o) noexcept
{
    ::operator delete(static_cast<void*>(H(o)));
}
void* vp_init_primary(void* o, std::type_info* ti, void (*dtor)(void*)) noexcept __asm__("__cxa_init_primary_exception");
void* vp_init_primary(void* o, std::type_info* ti, void (*dtor)(void*)) noexcept
{
    H(o)->ti = ti;
    H(o)->dtor = dtor;
    return H(o);
}
[[noreturn]] void __cxa_throw(void* o, std::type_info* ti, void (*dtor)(void*))
{
    H(o)->ti = ti;
    H(o)->dtor = dtor;
    H(o)->refs = 1;
    unwind(o, ti);
}
void* __cxa_begin_catch(void* o) noexcept
{
    hdr* h = H(o);
    uncaught--;
    h->handlers = h->handlers < 0 ? -h->handlers + 1 : h->handlers + 1;
    if(caught != h)
    {
        h->next = caught;
        caught = h;
    }
    return h->primary ? h->primary : o;
}
void __cxa_end_catch()
{
    hdr* h = caught;
    if(!h) return;
    if(h->handlers < 0)
    {
        if(++h->handlers == 0) caught = h->next;
    }
    else if(--h->handlers == 0)
    {
        caught = h->next;
        release(h);
    }
}
[[noreturn]] void __cxa_rethrow()
{
    hdr* h = caught;
    if(!h) std::terminate();
    h->handlers = -h->handlers;
    unwind(O(h), h->ti);
}
void* __cxa_get_exception_ptr(void* o) noexcept
{
    return H(o)->primary ? H(o)->primary : o;
}
void* memchr(const void* p, int c, size_t n)
{
    const unsigned char* s = static_cast<const unsigned char*>(p);
    for(size_t i = 0; i < n; i++)
        if(s[i] == (unsigned char)c) return const_cast<unsigned char*>(s + i);
    return nullptr;
}
int strcmp(const char* a, const char* b)
{
    while(*a && *a == *b)
    {
        ++a;
        ++b;
    }
    return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
}

namespace std
{
namespace __exception_ptr
{
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o)
{
    _M_addref();
}
void exception_ptr::_M_addref() noexcept
{
    if(_M_exception_object) __atomic_add_fetch(&H(_M_exception_object)->refs, 1, __ATOMIC_ACQ_REL);
}
void exception_ptr::_M_release() noexcept
{
    if(_M_exception_object)
    {
        drop(H(_M_exception_object));
        _M_exception_object = nullptr;
    }
}
void* exception_ptr::_M_get() const noexcept
{
    return _M_exception_object;
}
const std::type_info* exception_ptr::__cxa_exception_type() const noexcept
{
    return H(_M_exception_object)->ti;
}
} // namespace __exception_ptr

exception_ptr current_exception() noexcept
{
    hdr* h = caught;
    if(!h) return exception_ptr();
    void* o = h->primary ? h->primary : O(h);
    return *reinterpret_cast<exception_ptr*>(&o);
}
void rethrow_exception(exception_ptr p)
{
    void* o = *reinterpret_cast<void**>(&p);
    __atomic_add_fetch(&H(o)->refs, 1, __ATOMIC_ACQ_REL);
    hdr* d = fresh(8);
    d->primary = o;
    d->ti = H(o)->ti;
    d->refs = 1;
    unwind(O(d), d->ti);
}

// ------------------------------------------------------------------ exception classes
exception::~exception() noexcept {}
const char* exception::what() const noexcept
{
    return "std::exception";
}
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept
{
    return "std::bad_exception";
}
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept
{
    return "std::bad_alloc";
}
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept
{
    return "std::bad_array_new_length";
}
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept
{
    return "bad_function_call";
}
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept
{
    return "std::bad_cast";
}

bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept
{
    return "bad_weak_ptr";
}
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept
{
    return "std::bad_typeid";
}
nested_exception::~nested_exception() noexcept {}
bool uncaught_exception() noexcept
{
    return uncaught != 0;
}
int uncaught_exceptions() noexcept
{
    return uncaught;
}

// messages: an owned, nul-terminated copy
static const char* dup(const char* s)
{
    size_t n = __builtin_strlen(s);
    char* r = static_cast<char*>(::operator new(n + 1));
    __builtin_memcpy(r, s, n);
    r[n] = 0;
    return r;
}
__cow_string::__cow_string() : _M_p(dup("")) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dup(s.c_str())) {}
__cow_string::__cow_string(const char* s, size_t) : _M_p(dup(s)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dup(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept
{
    const char* n = dup(o._M_p);
    ::operator delete(const_cast<char*>(_M_p));
    _M_p = n;
    return *this;
}
__cow_string::~__cow_string()
{
    ::operator delete(const_cast<char*>(_M_p));
}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(dup(o._M_p)) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept
{
    const char* n = dup(o._M_p);
    ::operator delete(const_cast<char*>(_M_p));
    _M_p = n;
    return *this;
}

logic_error::logic_error(const std::string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, 0) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept
{
    _M_msg = o._M_msg;
    return *this;
}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept
{
    return *reinterpret_cast<const char* const*>(&_M_msg);
}
runtime_error::runtime_error(const std::string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept
{
    _M_msg = o._M_msg;
    return *this;
}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept
{
    return *reinterpret_cast<const char* const*>(&_M_msg);
}
length_error::length_error(const char* s) : logic_error(s) {}
length_error::~length_error() noexcept {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::out_of_range(const std::string& s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::invalid_argument(const std::string& s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
domain_error::domain_error(const char* s) : logic_error(s) {}
domain_error::domain_error(const std::string& s) : logic_error(s) {}
domain_error::~domain_error() noexcept {}
range_error::range_error(const char* s) : runtime_error(s) {}
range_error::range_error(const std::string& s) : runtime_error(s) {}
range_error::~range_error() noexcept {}
overflow_error::overflow_error(const char* s) : runtime_error(s) {}
overflow_error::overflow_error(const std::string& s) : runtime_error(s) {}
overflow_error::~overflow_error() noexcept {}

inline namespace _V2
{
error_category::~error_category() {}
__cow_string error_category::_M_message(int) const
{
    return __cow_string();
}
error_condition error_category::default_error_condition(int i) const noexcept
{
    return error_condition(i, *this);
}
bool error_category::equivalent(int i, const error_condition& c) const noexcept
{
    return default_error_condition(i) == c;
}
bool error_category::equivalent(const error_code& c, int i) const noexcept
{
    return *this == c.category() && c.value() == i;
}
} // namespace _V2

namespace
{
struct simple_category : error_category
{
    const char* name() const noexcept override { return "category"; }
    std::string message(int) const override { return std::string("error"); }
};
simple_category gen_cat, sys_cat, fut_cat;
} // namespace
inline namespace _V2
{
const error_category& generic_category() noexcept
{
    return gen_cat;
}
const error_category& system_category() noexcept
{
    return sys_cat;
}
} // namespace _V2
const error_category& future_category() noexcept
{
    return fut_cat;
}
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept
{
    return logic_error::what();
}

void __throw_bad_alloc()
{
    throw bad_alloc();
}
void __throw_bad_array_new_length()
{
    throw bad_array_new_length();
}
void __throw_bad_function_call()
{
    throw bad_function_call();
}
void __throw_bad_cast()
{
    throw bad_cast();
}
void __throw_length_error(const char* s)
{
    throw length_error(s);
}
void __throw_logic_error(const char* s)
{
    throw logic_error(s);
}
void __throw_runtime_error(const char* s)
{
    throw runtime_error(s);
}
void __throw_out_of_range(const char* s)
{
    throw out_of_range(s);
}
void __throw_out_of_range_fmt(const char* s, ...)
{
    throw out_of_range(s);
}
void __throw_invalid_argument(const char* s)
{
    throw invalid_argument(s);
}
void __throw_system_error(int e)
{
    throw system_error(error_code(e, generic_category()));
}
void __throw_future_error(int e)
{
    throw future_error(static_cast<future_errc>(e));
}

// ------------------------------------------------------------------ threads
__thread void* __once_callable = nullptr;
__thread void (*__once_call)() = nullptr;
extern "C" void __once_proxy(void)
{
    __once_call();
}
thread::_State::~_State() = default;

namespace
{
struct tls_end
{
    tls_end* next;
    void (*f)(void*);
    void* p;
};
thread_local tls_end* tls_ends = nullptr;
} // namespace
extern "C" int __cxa_thread_atexit(void (*f)(void*), void* p, void*) noexcept
{
    tls_ends = new tls_end{tls_ends, f, p};
    return 0;
}

void thread::_M_start_thread(_State_ptr s, void (*)())
{
    auto entry = [](void* p) -> void*
    {
        {
            _State_ptr st(static_cast<_State*>(p));
            st->_M_run();
        }
        while(auto* e = tls_ends)
        {
            tls_ends = e->next;
            e->f(e->p);
            delete e;
        }
        return nullptr;
    };
    _M_id = id(vp_thread_create(entry, s.release()));
}
void thread::join()
{
    if(_M_id == id()) __throw_system_error(EINVAL);
    vp_thread_join(native_handle());
    _M_id = id();
}
void thread::detach()
{
    if(_M_id == id()) __throw_system_error(EINVAL);
    vp_thread_detach(native_handle());
    _M_id = id();
}
unsigned int thread::hardware_concurrency() noexcept
{
    return 2;
}

condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept = default;
void condition_variable::wait(unique_lock<mutex>& l)
{
    _M_cond.wait(*l.mutex());
}
void condition_variable::notify_one() noexcept
{
    _M_cond.notify_one();
}
void condition_variable::notify_all() noexcept
{
    _M_cond.notify_all();
}

namespace __detail
{
static const unsigned long primes[] = {2,  3,  5,  7,   11,  13,  17,  19,  23,  29,  31,  37,  41,  43,  47,  53,  59,  61,  67, 71,
                                       73, 79, 83, 89,  97,  103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241,
                                       257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031};
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const
{
    n = vp_concretize(n);
    static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
    if(n < sizeof(fast))
    {
        if(n == 0) return 1;
        _M_next_resize = fast[n];
        return fast[n];
    }
    int i = 5;
    while(primes[i] < n) ++i;
    _M_next_resize = primes[i];
    return primes[i];
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const
{
    if(ne + ni > _M_next_resize)
    {
        std::size_t want = ne + ni;
        if(!_M_next_resize && want < 11) want = 11;
        if(want >= nb)
        {
            std::size_t g = want + 1 > nb * 2 ? want + 1 : nb * 2;
            return {true, _M_next_bkt(g)};
        }
        _M_next_resize = nb;
        return {false, 0};
    }
    return {false, 0};
}
} // namespace __detail

size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    size_t h = seed;
    for(size_t i = 0; i < n; i++) h = h * 131 + c[i];
    return h;
}

__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
} // namespace std

void harness();
extern "C" void vp_main()
{
    harness();
}
