// More of the environment below the code under test: what libstdc++, libc and pthreads keep out of line and the code may come to
// use. Written over what the executor offers (mutexes and conditions are identified by address).
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <future>
#include <memory>
#include <mutex>
#include <new>
#include <pthread.h>
#include <string>
#include <system_error>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <time.h>
#include <unordered_map>
#include <bits/stl_tree.h>

extern "C" {
void __sym_fail(const char*);
void __sym_advance(uint64_t);
unsigned __sym_choose(const char*, unsigned);

// ---- reader-writer locks: an address for the mutex, one for the condition, two counters
namespace {
struct rw {
    char mutex[40];
    int cond, readers, writers, pad;
};
static_assert(sizeof(rw) <= sizeof(pthread_rwlock_t));
struct hold {
    pthread_mutex_t* m;
    explicit hold(void* p) : m((pthread_mutex_t*)p) { pthread_mutex_lock(m); }
    ~hold() { pthread_mutex_unlock(m); }
};
int take(void* l, bool write, bool wait) {
    rw* r = (rw*)l;
    hold h(r);
    while (r->writers || (write && r->readers)) {
        if (!wait) return EBUSY;
        pthread_cond_wait((pthread_cond_t*)&r->cond, (pthread_mutex_t*)r);
    }
    ++(write ? r->writers : r->readers);
    return 0;
}
} // namespace
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { ::memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return take(l, false, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return take(l, true, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { return take(l, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return take(l, true, false); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
    rw* r = (rw*)l;
    hold h(r);
    if (r->writers) --r->writers;
    else if (r->readers) --r->readers;
    else __sym_fail("a reader-writer lock is unlocked that nobody holds");
    pthread_cond_broadcast((pthread_cond_t*)&r->cond);
    return 0;
}

// ---- once
int pthread_once(pthread_once_t* o, void (*f)()) {
    hold h(o);
    if (!__atomic_load_n(o, __ATOMIC_ACQUIRE)) {
        f(); // may throw, then it was not run
        __atomic_store_n(o, 1, __ATOMIC_RELEASE);
    }
    return 0;
}

// ---- waiting on an address; whoever notifies does not touch it, it may be gone by then
static int futex_place[1024][2];
long lib_syscall(long, int*, int, int, const struct timespec*) noexcept __asm__("syscall");
long lib_syscall(long n, int* p, int op, int v, const struct timespec* t) noexcept {
    if (n != SYS_futex) __sym_fail("unknown system call");
    op &= 127;
    const uint64_t a = (uint64_t)p;
    int* at = futex_place[((a >> 32) * 37 + ((a & 0xffffffff) >> 2)) % 1024];
    hold h(at);
    if (op == FUTEX_WAIT_BITSET) { // with a time limit
        if (__atomic_load_n(p, __ATOMIC_SEQ_CST) != v) { errno = EAGAIN; return -1; }
        if (!pthread_cond_timedwait((pthread_cond_t*)(at + 1), (pthread_mutex_t*)at, t)) return 0;
        errno = ETIMEDOUT;
        return -1;
    }
    if (op == 0) {
        if (__atomic_load_n(p, __ATOMIC_SEQ_CST) == v) {
            pthread_cond_wait((pthread_cond_t*)(at + 1), (pthread_mutex_t*)at);
            return 0;
        }
        errno = EAGAIN;
        return -1;
    }
    if (op != 1) __sym_fail("unknown futex operation");
    pthread_cond_broadcast((pthread_cond_t*)(at + 1));
    return 1;
}
// A timed lock: it may get the mutex, or the time runs out first.
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) noexcept {
    if (!pthread_mutex_trylock(m)) return 0;
    if (__sym_choose("lock times out", 2)) {
        __sym_advance(1000000);
        return ETIMEDOUT;
    }
    return pthread_mutex_lock(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) noexcept { return pthread_mutex_clocklock(m, 0, t); }
int nanosleep(const struct timespec* t, struct timespec*) {
    __sym_advance((uint64_t)t->tv_sec * 1000000000u + (uint64_t)t->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) { return nanosleep(t, nullptr); }
static int errno_ = 0;
int* __errno_location() noexcept { return &errno_; }

// ---- strings
void* lib_memchr(const void*, int, size_t) noexcept __asm__("memchr");
void* lib_memchr(const void* s, int c, size_t n) noexcept {
    auto p = (const unsigned char*)s;
    for (; n; --n, ++p) if (*p == (unsigned char)c) return (void*)p;
    return nullptr;
}
char* lib_strchr(const char*, int) noexcept __asm__("strchr");
char* lib_strchr(const char* s, int c) noexcept {
    for (;; ++s) {
        if (*s == (char)c) return (char*)s;
        if (!*s) return nullptr;
    }
}
int strncmp(const char* a, const char* b, size_t n) noexcept {
    for (; n; --n, ++a, ++b) {
        if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
        if (!*a) break;
    }
    return 0;
}
} // extern "C"

namespace std {
nested_exception::~nested_exception() noexcept = default;
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;

bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* p, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) {
    if (timed && __sym_choose("wait times out", 2)) {
        __sym_advance(1000000);
        return false;
    }
    lib_syscall(SYS_futex, (int*)p, 0, (int)v, nullptr);
    return true;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* p) { lib_syscall(SYS_futex, (int*)p, 1, INT_MAX, nullptr); }

// ---- call_once
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }

// ---- ordered containers: a search tree that is not rebalanced; the header is red, all nodes are black
namespace {
using nd = _Rb_tree_node_base;
nd* next(nd* x) {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    nd* y = x->_M_parent;
    while (x == y->_M_right) {
        x = y;
        y = y->_M_parent;
    }
    return x->_M_right != y ? y : x;
}
nd* prev(nd* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    nd* y = x->_M_parent;
    while (x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
void put(nd* old, nd* x, nd& h) { // x in the place of old
    if (h._M_parent == old) h._M_parent = x;
    else if (old->_M_parent->_M_left == old) old->_M_parent->_M_left = x;
    else old->_M_parent->_M_right = x;
    if (x) x->_M_parent = old->_M_parent;
}
} // namespace
nd* _Rb_tree_increment(nd* x) noexcept { return next(x); }
const nd* _Rb_tree_increment(const nd* x) noexcept { return next(const_cast<nd*>(x)); }
nd* _Rb_tree_decrement(nd* x) noexcept { return prev(x); }
const nd* _Rb_tree_decrement(const nd* x) noexcept { return prev(const_cast<nd*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, nd* x, nd* p, nd& h) noexcept {
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x; // the leftmost, when p is the header
        if (p == &h) {
            h._M_parent = x;
            h._M_right = x;
        } else if (p == h._M_left)
            h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
nd* _Rb_tree_rebalance_for_erase(nd* const z, nd& h) noexcept {
    if (h._M_left == z) h._M_left = h._M_right == z ? &h : next(z);
    if (h._M_right == z) h._M_right = h._M_left == &h ? &h : prev(z);
    if (!z->_M_left) put(z, z->_M_right, h);
    else if (!z->_M_right) put(z, z->_M_left, h);
    else {
        nd* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            put(y, y->_M_right, h);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        put(z, y, h);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    return z;
}

// ---- hashed containers
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
    auto s = (const unsigned char*)p;
    size_t h = seed ^ 14695981039346656037u;
    for (; n; --n) h = (h ^ *s++) * 1099511628211u;
    return h;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const unsigned short primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557};
    for (auto p : primes)
        if (p >= n) {
            const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = p;
            return p;
        }
    __sym_fail("a hashed container is larger than the model allows");
    return 0;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const {
    if (e + i <= _M_next_resize && _M_next_resize) return {false, 0};
    size_t want = e + i + 1 > b * 2 ? e + i + 1 : b * 2;
    if (e + i < b) {
        const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = b;
        return {false, 0};
    }
    return {true, _M_next_bkt(want)};
}
} // namespace __detail
} // namespace std

// ---- error codes
namespace std {
_V2::error_category::~error_category() noexcept {}
error_condition _V2::error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool _V2::error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool _V2::error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
namespace {
struct category final : error_category {
    const char* n;
    constexpr explicit category(const char* x) : n(x) {}
    const char* name() const noexcept override { return n; }
    string message(int) const override { return n; }
};
constinit const category generic_c("generic"), system_c("system"), future_c("future");
} // namespace
__cow_string error_category::_M_message(int) const { __sym_fail("an error message is asked for"); __builtin_unreachable(); }
const error_category& _V2::generic_category() noexcept { return generic_c; }
const error_category& _V2::system_category() noexcept { return system_c; }
const error_category& future_category() noexcept { return future_c; }
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return "future_error"; }
system_error::~system_error() noexcept {}
void lib_throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
} // namespace std

// ---- dynamic_cast
extern "C" {
extern void* _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern void* _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
}
namespace {
using ti = const std::type_info*;
struct si { void* vt; const char* name; ti base; };
struct vmi { void* vt; const char* name; unsigned flags, n; struct { ti base; long off; } b[1]; };
struct cast_state {
    const char* src;
    ti from, to;
    const char *holds = nullptr, *any = nullptr; // a target with the source inside; any target
    bool several = false;
};
// visits the object of type t at p; in: the target it is a part of
void visit(cast_state& c, const char* p, ti t, const char* in) {
    if (t == c.to) {
        in = p;
        if (c.any && c.any != p) c.several = true;
        c.any = p;
    }
    if (t == c.from && p == c.src && in) c.holds = in;
    void* k = *(void* const*)t;
    if (k == &_ZTVN10__cxxabiv120__si_class_type_infoE[2]) visit(c, p, ((const si*)t)->base, in);
    else if (k == &_ZTVN10__cxxabiv121__vmi_class_type_infoE[2]) {
        auto* v = (const vmi*)t;
        for (unsigned i = 0; i < v->n; ++i) {
            long o = v->b[i].off;
            if (!(o & 2)) continue; // not public
            long at = o >> 8;
            if (o & 1) at = *(const long*)(*(const char* const*)p + at);
            visit(c, p + at, v->b[i].base, in);
        }
    }
}
} // namespace
extern "C" void* __dynamic_cast(const void* src, const void* from, const void* to, ptrdiff_t) {
    auto vt = *(const long* const*)src;
    cast_state c{(const char*)src, (ti)from, (ti)to};
    visit(c, c.src + vt[-2], (ti)vt[-1], nullptr);
    return (void*)(c.holds ? c.holds : c.several ? nullptr : c.any);
}

// ---- atomic functions on shared_ptr
namespace std {
static int sp_mutex[16];
_Sp_locker::_Sp_locker(const void*) noexcept : _M_key1(0), _M_key2(0) { pthread_mutex_lock((pthread_mutex_t*)sp_mutex); }
_Sp_locker::_Sp_locker(const void*, const void*) noexcept : _M_key1(0), _M_key2(0) { pthread_mutex_lock((pthread_mutex_t*)sp_mutex); }
_Sp_locker::~_Sp_locker() { pthread_mutex_unlock((pthread_mutex_t*)sp_mutex); }
} // namespace std
