// Runtime model: what libstdc++/libsupc++ provide out of line, in a form the executor can run.
#define private public
#define protected public
#include <thread>
#include <condition_variable>
#include <mutex>
#undef private
#undef protected
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <memory>
#include <new>
#include <stdexcept>
#include <chrono>
#include <typeinfo>

extern "C" {
void __sym_unwind(void*);
void* __sym_last_adjusted(void*);
void __sym_terminate();
void __sym_fail(const char*);
int __sym_atomic_add(int*, int);
uint64_t __sym_thread_create(void (*)(void*), void*);
void __sym_thread_join(uint64_t);
int __sym_hw();
uint64_t __sym_now();
void __sym_leak_ok(void*);
char __libc_single_threaded = 0;
void* __dso_handle = nullptr;
}

// ---------------------------------------------------------------- exceptions
namespace {
struct Hdr { // ends right before the thrown object
    int refs;
    int pad;
    size_t size;
    void* pad2[2];
    const std::type_info* ti; // object - 32
    void (*dtor)(void*);
    void* pad3[2];
};
static_assert(sizeof(Hdr) == 64);
inline Hdr* hdr(void* o) { return reinterpret_cast<Hdr*>(static_cast<char*>(o) - sizeof(Hdr)); }
struct Caught { void* obj; int count; };
// the exceptions being handled, innermost last; the first 24 in place
constexpr int INPLACE = 24, MORE = 1000;
thread_local Caught in_place[INPLACE];
thread_local Caught* more;
thread_local int ncaught;
Caught& at(int i) { return i < INPLACE ? in_place[i] : more[i - INPLACE]; }
void pop_caught() {
    if (--ncaught == INPLACE && more) {
        free(more);
        more = nullptr;
    }
}
thread_local int uncaught;
void addref(void* o) { __sym_atomic_add(&hdr(o)->refs, 1); }
void release(void* o) {
    if (__sym_atomic_add(&hdr(o)->refs, -1) == 0) {
        if (hdr(o)->dtor) hdr(o)->dtor(o);
        free(hdr(o));
    }
}
} // namespace

extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept {
    char* p = static_cast<char*>(malloc(n + sizeof(Hdr)));
    memset(p, 0, sizeof(Hdr));
    return p + sizeof(Hdr);
}
void __cxa_free_exception(void* o) noexcept { free(hdr(o)); }
void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) {
    hdr(o)->ti = ti;
    hdr(o)->dtor = d;
    hdr(o)->refs = 1;
    ++uncaught;
    __sym_unwind(o);
    __builtin_unreachable();
}
void* __cxa_get_exception_ptr(void* o) noexcept { return __sym_last_adjusted(o); }
void* __cxa_begin_catch(void* o) noexcept {
    --uncaught;
    if (ncaught > 0 && at(ncaught - 1).obj == o && at(ncaught - 1).count < 0)
        at(ncaught - 1).count = -at(ncaught - 1).count + 1;
    else {
        if (ncaught == INPLACE && !more) more = static_cast<Caught*>(malloc(MORE * sizeof(Caught)));
        if (ncaught >= INPLACE + MORE) __sym_fail("too many nested exceptions");
        at(ncaught).obj = o;
        at(ncaught).count = 1;
        ++ncaught;
    }
    return __sym_last_adjusted(o);
}
void __cxa_end_catch() {
    if (ncaught == 0) return;
    Caught& c = at(ncaught - 1);
    if (c.count < 0) {
        if (++c.count == 0) pop_caught();
    } else if (--c.count == 0) {
        void* o = c.obj;
        pop_caught();
        release(o);
    }
}
void __cxa_rethrow() {
    if (ncaught == 0) __sym_terminate();
    Caught& c = at(ncaught - 1);
    c.count = -c.count;
    ++uncaught;
    __sym_unwind(c.obj);
    __builtin_unreachable();
}
[[noreturn]] void __cxa_bad_cast() { throw std::bad_cast(); }
[[noreturn]] void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { __sym_fail("bad_array_new_length"); }
void __cxa_call_unexpected(void*) { __sym_terminate(); }
}

namespace __cxxabiv1 {
extern "C" __cxa_refcounted_exception* __cxa_init_primary_exception(void* o, std::type_info* ti, void (*d)(void*)) noexcept {
    hdr(o)->ti = ti;
    hdr(o)->dtor = d;
    hdr(o)->refs = 0;
    return static_cast<__cxa_refcounted_exception*>(o);
}
} // namespace __cxxabiv1

namespace std {
int uncaught_exceptions() noexcept { return uncaught; }
bool uncaught_exception() noexcept { return uncaught > 0; }
exception_ptr current_exception() noexcept {
    if (ncaught == 0) return exception_ptr();
    return __exception_ptr::exception_ptr(at(ncaught - 1).obj);
}
void rethrow_exception(exception_ptr p) {
    void* o = p._M_exception_object;
    if (!o) __sym_terminate();
    addref(o);
    ++uncaught;
    // the parameter is destroyed by the caller
    __sym_unwind(o);
    __builtin_unreachable();
}
namespace __exception_ptr {
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) addref(_M_exception_object); }
void exception_ptr::_M_release() noexcept {
    if (_M_exception_object) {
        release(_M_exception_object);
        _M_exception_object = nullptr;
    }
}
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { _M_addref(); }
} // namespace __exception_ptr

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "bad_typeid"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

static char* dupstr(const char* s) {
    size_t n = strlen(s) + 1;
    char* p = static_cast<char*>(malloc(n));
    memcpy(p, s, n);
    return p;
}
__cow_string::__cow_string() : _M_p(dupstr("")) {}
__cow_string::__cow_string(const char* s, size_t n) {
    char* p = static_cast<char*>(malloc(n + 1));
    memcpy(p, s, n);
    p[n] = 0;
    _M_p = p;
}
__cow_string::__cow_string(const std::string& s) : __cow_string(s.data(), s.size()) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupstr(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept {
    if (this != &o) {
        free(const_cast<char*>(_M_p));
        _M_p = dupstr(o._M_p);
    }
    return *this;
}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(dupstr(o._M_p)) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = o; }
__cow_string::~__cow_string() { free(const_cast<char*>(_M_p)); }

#define TWO(B)                                                                                                         \
    B::B(const char* s) : _M_msg(s, strlen(s)) {}                                                                      \
    B::B(const std::string& s) : _M_msg(s) {}                                                                          \
    B::B(const B& o) noexcept = default;                                                                               \
    B& B::operator=(const B& o) noexcept = default;                                                                    \
    B::B(B&& o) noexcept = default;                                                                                    \
    B& B::operator=(B&& o) noexcept = default;                                                                         \
    B::~B() noexcept {}                                                                                                \
    const char* B::what() const noexcept { return _M_msg._M_p; }
TWO(logic_error)
TWO(runtime_error)
#define SUB(C, B)                                                                                                      \
    C::C(const char* s) : B(s) {}                                                                                      \
    C::C(const std::string& s) : B(s) {}                                                                               \
    C::~C() noexcept {}
SUB(domain_error, logic_error)
SUB(invalid_argument, logic_error)
SUB(length_error, logic_error)
SUB(out_of_range, logic_error)
SUB(range_error, runtime_error)
SUB(overflow_error, runtime_error)
SUB(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void lib_throw_system_error(int);
void __throw_system_error(int e) { lib_throw_system_error(e); __builtin_unreachable(); }

namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t)__sym_now())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((int64_t)__sym_now())); }
}} // namespace chrono::_V2

namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept {
    _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
        _List_node_base* t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
    }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    auto move = [](_List_node_base& to, _List_node_base& from) { // the nodes of from to the empty head to
        if (from._M_next == &from) { to._M_next = to._M_prev = &to; return; }
        to = from;
        to._M_next->_M_prev = to._M_prev->_M_next = &to;
    };
    _List_node_base t;
    move(t, x);
    move(x, y);
    move(y, t);
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base* n = this;
    do {
        _List_node_base* t = n->_M_next; n->_M_next = n->_M_prev; n->_M_prev = t;
        n = n->_M_prev;
    } while (n != this);
}
}
} // namespace std

// ---------------------------------------------------------------- threads
extern "C" {
struct TExit { void (*f)(void*); void* a; };
static thread_local TExit texit_[16];
static thread_local int ntexit;
int __cxa_thread_atexit(void (*f)(void*), void* a, void*) noexcept {
    if (ntexit >= 16) __sym_fail("too many thread_local destructors");
    texit_[ntexit].f = f;
    texit_[ntexit].a = a;
    ++ntexit;
    return 0;
}
static void runTexit() { while (ntexit > 0) { --ntexit; texit_[ntexit].f(texit_[ntexit].a); } }
static void threadEntry(void* p) {
    {
        std::unique_ptr<std::thread::_State> st(static_cast<std::thread::_State*>(p));
        st->_M_run();
    }
    runTexit();
}
struct AExit { void (*f)(void*); void* a; };
static AExit aexit_[64];
static int naexit;
int __cxa_atexit(void (*f)(void*), void* a, void*) noexcept {
    if (naexit >= 64) __sym_fail("too many exit handlers");
    aexit_[naexit].f = f;
    aexit_[naexit].a = a;
    ++naexit;
    return 0;
}
static void callVoid(void* p) { reinterpret_cast<void (*)()>(p)(); }
int atexit(void (*f)()) noexcept { return __cxa_atexit(callVoid, reinterpret_cast<void*>(f), nullptr); }
void __sym_run_atexit() {
    runTexit();
    while (naexit > 0) { --naexit; aexit_[naexit].f(aexit_[naexit].a); }
}
static pthread_mutex_t gmtx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t gcnd = PTHREAD_COND_INITIALIZER;
int __cxa_guard_acquire(int64_t* g) {
    char* b = reinterpret_cast<char*>(g);
    pthread_mutex_lock(&gmtx);
    while (b[1]) pthread_cond_wait(&gcnd, &gmtx);
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) {
        pthread_mutex_unlock(&gmtx);
        return 0;
    }
    b[1] = 1;
    pthread_mutex_unlock(&gmtx);
    return 1;
}
static void guardDone(int64_t* g, char v) {
    char* b = reinterpret_cast<char*>(g);
    pthread_mutex_lock(&gmtx);
    __atomic_store_n(b, v, __ATOMIC_RELEASE);
    b[1] = 0;
    pthread_cond_broadcast(&gcnd);
    pthread_mutex_unlock(&gmtx);
}
void __cxa_guard_release(int64_t* g) noexcept { guardDone(g, 1); }
void __cxa_guard_abort(int64_t* g) noexcept { guardDone(g, 0); }
}
namespace std {
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr st, void (*)()) {
    _M_id = id(__sym_thread_create(threadEntry, st.release()) + 1);
}
void thread::join() {
    if (!joinable()) __sym_fail("join of a thread that is not joinable");
    __sym_thread_join(_M_id._M_thread - 1);
    _M_id = id();
}
void thread::detach() {
    if (!joinable()) __sym_fail("detach of a thread that is not joinable");
    _M_id = id();
}
unsigned thread::hardware_concurrency() noexcept { return (unsigned)__sym_hw(); }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& lk) { _M_cond.wait(*lk.mutex()); }
void condition_variable::notify_one() noexcept { _M_cond.notify_one(); }
void condition_variable::notify_all() noexcept { _M_cond.notify_all(); }
} // namespace std

// ---------------------------------------------------------------- C library
extern "C" {
int memcmp(const void* a, const void* b, size_t n) noexcept {
    auto *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void* a, const void* b, size_t n) noexcept { return memcmp(a, b, n); }
int strcmp(const char* a, const char* b) noexcept {
    for (;; a++, b++) {
        if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
        if (!*a) return 0;
    }
}
size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
}
