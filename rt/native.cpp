// Native replay runtime: runs an entry as ordinary machine code on real threads, one at a time, switching exactly
// where the executor's schedule says. The harness and the repository's code are the same bitcode that the executor
// ran, with a call of __nat_point put before every visible operation and the pthread calls renamed (see
// engine/instrument.hpp). Everything else is the real libstdc++, allocator and unwinder; AddressSanitizer or
// ThreadSanitizer watches. Compiled without a sanitizer, so that the scheduler adds no ordering of its own.
#define private public
#define protected public
#include <thread>
#include <condition_variable>
#include <mutex>
#undef private
#undef protected
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
void __tsan_acquire(void*) __attribute__((weak));
void __tsan_release(void*) __attribute__((weak));
void __tsan_read1(void*) __attribute__((weak));
void __asan_load1(void*) __attribute__((weak));
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
char __libc_single_threaded = 0;
}
namespace {
void acq(void* p) { if (__tsan_acquire) __tsan_acquire(p); }
void touch(void* p) { if (__tsan_read1) __tsan_read1(p); if (__asan_load1) __asan_load1(p); }
void rel(void* p) { if (__tsan_release) __tsan_release(p); }

// ---------------------------------------------------------------- output
void out(const char* f, ...) {
    char b[1024];
    va_list a;
    va_start(a, f);
    int n = vsnprintf(b, sizeof b, f, a);
    va_end(a);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    if (write(1, b, n) < 0) {}
}
long usedScript, nAssert;
void stats();
[[noreturn]] void result(const char* kind, const char* msg) {
    out("RESULT %s: %s\n", kind, msg);
    stats();
    _exit(1);
}

// ---------------------------------------------------------------- script
int script[2000000];
int nScript;
struct Input { char name[64]; uint64_t v; };
Input inputs[20000];
int nInput, usedInput;
int unlockSched;

// ---------------------------------------------------------------- threads
enum St { RUN, MUTEX, COND, JOIN, QUIESCE, DONE };
constexpr int MAXT = 16, SPURIOUS = 256;
struct Thr {
    St st = RUN;
    bool schedDone = false, started = false, timed = false, timedOut = false;
    void* waitAddr = nullptr;
    void* waitMutex = nullptr;
    uint64_t deadline = 0;
    int joinTid = 0, quiesceMode = 0;
    unsigned varCtr = 0;
    int go = 0; // futex
    pthread_t h{};
    void (*f)(void*) = nullptr;
    void* a = nullptr;
};
Thr th[MAXT];
int nth = 1;
int cur;
thread_local int self_;
thread_local int inRt;
struct Mx { void* a; int owner; int depth; };
Mx mx[4096];
int nmx;
struct Cv { void* a; int w[MAXT]; int n; };
Cv cv[4096];
int ncv;
uint64_t now_ = 1000000000ull;
int spurious, clockMode, hw = 2;
char q1, q2; // quiesce edges

Mx& mutexAt(void* a) {
    for (int i = 0; i < nmx; i++) if (mx[i].a == a) return mx[i];
    mx[nmx] = {a, -1};
    return mx[nmx++];
}
Cv& condAt(void* a) {
    for (int i = 0; i < ncv; i++) if (cv[i].a == a) return cv[i];
    cv[ncv].a = a;
    cv[ncv].n = 0;
    return cv[ncv++];
}
void dropWaiter(Cv& c, int k) {
    int j = 0;
    for (int i = 0; i < c.n; i++) if (c.w[i] != k) c.w[j++] = c.w[i];
    c.n = j;
}
bool enabled(int k, bool timers, bool quiesceOk) {
    Thr& t = th[k];
    switch (t.st) {
        case RUN: return true;
        case MUTEX: return mutexAt(t.waitAddr).owner < 0;
        case COND: return timers && (t.timed || spurious > 0) && mutexAt(t.waitMutex).owner < 0;
        case JOIN: return th[t.joinTid].st == DONE;
        case QUIESCE:
            if (!quiesceOk) return false;
            for (int j = 0; j < nth; j++)
                if (j != k && enabled(j, t.quiesceMode & 1, false)) return false;
            return true;
        case DONE: return false;
    }
    return false;
}
void fwait(int* p) {
    while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT, 0, nullptr, nullptr, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
void fpost(int* p) {
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, p, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
// run thread k next; the caller is parked until it is chosen again (unless it is finished)
void switchTo(int k, bool park) {
    int me = self_;
    cur = k;
    if (k == me) return;
    fpost(&th[k].go);
    if (!park) return;
    fwait(&th[me].go);
    acq(&q2);
}
void activate(int k, bool park = true) {
    bool early = k >= SPURIOUS;
    k %= SPURIOUS;
    if (k < 0 || k >= nth || !enabled(k, true, true)) {
        char b[80];
        snprintf(b, sizeof b, "script element %ld wants thread %d, which cannot run (state %d)", usedScript, k, k < nth ? th[k].st : -1);
        result("diverged", b);
    }
    Thr& t = th[k];
    t.schedDone = t.started;
    t.started = true;
    if (t.st == COND) {
        dropWaiter(condAt(t.waitAddr), k);
        if (t.timed && !early) {
            t.timedOut = true;
            if ((int64_t)now_ < (int64_t)t.deadline) now_ = t.deadline;
        } else
            spurious--;
    }
    t.st = RUN;
    switchTo(k, park);
}
int options(int except, int* v) {
    int n = 0;
    for (int k = 0; k < nth; k++)
        if (k != except && enabled(k, true, true) && !(clockMode == 2 && th[k].st == COND && th[k].timed)) v[n++] = k;
    if (!n && clockMode == 2)
        for (int k = 0; k < nth; k++)
            if (k != except && enabled(k, true, true)) v[n++] = k;
    return n;
}
void reschedule(bool park = true) {
    rel(&q1);
    if (usedScript < nScript) { activate(script[usedScript++], park); return; }
    int v[MAXT];
    if (!options(-1, v)) result("deadlock", "no thread can make progress");
    activate(v[0], park);
}
long points;
bool traceOn;
void point(void* ra = nullptr) {
    if (inRt) return;
    Thr& t = th[self_];
    points++;
    if (traceOn) out("POINT T%d script=%ld %p %s\n", self_, usedScript, ra, t.schedDone ? "(done)" : "");
    // a thread that has not been scheduled before decides once more when it comes back
    while (!t.schedDone && nth > 1 && usedScript < nScript) {
        int k = script[usedScript++];
        if (k == cur) return;
        activate(k);
    }
}
void done() { th[self_].schedDone = false; }

uint64_t fresh(const char* base, unsigned w) {
    char n[96];
    snprintf(n, sizeof n, "%s#%d.%u", base, self_, th[self_].varCtr++);
    uint64_t x = 0;
    for (int i = 0; i < nInput; i++)
        if (!strcmp(inputs[i].name, n)) { x = inputs[i].v; usedInput++; break; }
    if (w < 64) x &= (1ull << w) - 1;
    return x;
}

// ---------------------------------------------------------------- model of the blocking primitives
bool recursive(void* m) { return (((pthread_mutex_t*)m)->__data.__kind & 3) == 1; }
void lockMx(void* m) {
    if (mutexAt(m).owner == self_) {
        if (!recursive(m)) result("deadlock", "a thread locks a mutex it already holds");
        ++mutexAt(m).depth;
        return;
    }
    while (mutexAt(m).owner >= 0) {
        th[self_].st = MUTEX;
        th[self_].waitAddr = m;
        reschedule();
        point();
    }
    mutexAt(m).owner = self_;
    acq(m);
}
void unlockMx(void* m) {
    if (mutexAt(m).owner != self_) result("lock", "unlock of a mutex the thread does not hold");
    if (mutexAt(m).depth) {
        --mutexAt(m).depth;
        return;
    }
    rel(m);
    mutexAt(m).owner = -1;
}
void wake(Cv& c, int k) {
    int w = c.w[k];
    dropWaiter(c, w);
    th[w].st = MUTEX;
    th[w].waitAddr = th[w].waitMutex;
}
int condWait(void* c, void* m, const timespec* ts) {
    Thr& t = th[self_];
    if (mutexAt(m).owner != self_) result("lock", "wait without holding the mutex");
    t.timed = ts != nullptr;
    t.timedOut = false;
    if (ts) t.deadline = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
    unlockMx(m);
    Cv& k = condAt(c);
    k.w[k.n++] = self_;
    t.st = COND;
    t.waitAddr = c;
    t.waitMutex = m;
    reschedule();
    while (mutexAt(m).owner >= 0) {
        t.st = MUTEX;
        t.waitAddr = m;
        reschedule();
    }
    mutexAt(m).owner = self_;
    acq(m);
    bool to = t.timedOut;
    t.timedOut = t.timed = false;
    done();
    return to ? 110 : 0;
}

// ---------------------------------------------------------------- leaks
struct Blk { const volatile void* p; size_t n; bool ok; };
Blk blk[1 << 16];
int nblk;
int leakOn, hooks;
int blkLock;
struct Guard {
    Guard() { while (__atomic_exchange_n(&blkLock, 1, __ATOMIC_ACQUIRE)) {} }
    ~Guard() { __atomic_store_n(&blkLock, 0, __ATOMIC_RELEASE); }
};
void onMalloc(const volatile void* p, size_t n) {
    if (inRt || !p) return;
    Guard g;
    if (nblk < (1 << 16)) blk[nblk++] = {p, n, false};
}
void onFree(const volatile void* p) {
    if (!p) return;
    Guard g;
    for (int i = nblk; i-- > 0;)
        if (blk[i].p == p) { blk[i] = blk[--nblk]; return; }
}
__attribute__((constructor(101))) void init() {
    if (__sanitizer_install_malloc_and_free_hooks) hooks = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    memset(&th[0].go, 0, sizeof(int));
}
uint64_t obs = 1469598103934665603ull; // what the run observed: tags and notes in order
int nObs;
void observe(const char* s, uint64_t v) {
    nObs++;
    for (; *s; ++s) obs = (obs ^ (unsigned char)*s) * 1099511628211ull;
    for (int i = 0; i < 8; i++) obs = (obs ^ ((v >> (8 * i)) & 255)) * 1099511628211ull;
}
void stats() {
    unsigned vc = 0;
    for (int i = 0; i < nth; i++) vc += th[i].varCtr;
    out("STATS script=%ld/%d asserts=%ld vars=%u threads=%d observed=%d:%llx points=%ld\n", usedScript, nScript, nAssert, vc, nth, nObs,
        (unsigned long long)obs, points);
}

// ---------------------------------------------------------------- thread exit
struct TExit { void (*f)(void*); void* a; };
thread_local TExit texit[64];
thread_local int ntexit;
TExit aexit[256];
int naexit;
void runTexit() { while (ntexit > 0) { --ntexit; texit[ntexit].f(texit[ntexit].a); } }
void threadEntry(void* p) {
    {
        std::unique_ptr<std::thread::_State> st(static_cast<std::thread::_State*>(p));
        st->_M_run();
    }
    runTexit();
}
void* trampoline(void* p) {
    Thr* t = static_cast<Thr*>(p);
    self_ = (int)(t - th);
    fwait(&t->go);
    acq(&q2);
    threadEntry(t->a);
    t->st = DONE;
    reschedule(false);
    return nullptr;
}
pthread_mutex_t gmtx;
pthread_cond_t gcnd;
} // namespace

// ---------------------------------------------------------------- what the instrumented code calls
extern "C" {
void __nat_point() { point(__builtin_return_address(0)); }
void __nat_done() { done(); }
int __nat_mutex_lock(void* m) { point(); touch(m); lockMx(m); done(); return 0; }
int __nat_mutex_trylock(void* m) {
    point();
    if (mutexAt(m).owner == self_ && recursive(m)) {
        ++mutexAt(m).depth;
        done();
        return 0;
    }
    int r = mutexAt(m).owner >= 0 ? 16 : 0;
    if (!r) { mutexAt(m).owner = self_; acq(m); }
    done();
    return r;
}
int __nat_mutex_unlock(void* m) {
    if (unlockSched) point();
    touch(m);
    unlockMx(m);
    done();
    return 0;
}
int __nat_ret0() { return 0; }
int __nat_cond_wait(void* c, void* m) { return condWait(c, m, nullptr); }
int __nat_cond_timedwait(void* c, void* m, const timespec* t) { return condWait(c, m, t); }
int __nat_cond_clockwait(void* c, void* m, int, const timespec* t) { return condWait(c, m, t); }
int __nat_cond_signal(void* c) {
    point();
    touch(c);
    Cv& v = condAt(c);
    if (v.n == 1) wake(v, 0);
    else if (v.n > 1) {
        uint64_t k = fresh("wake", 32);
        wake(v, k < (uint64_t)v.n ? (int)k : 0);
    }
    done();
    return 0;
}
int __nat_cond_broadcast(void* c) {
    point();
    touch(c);
    Cv& v = condAt(c);
    while (v.n) wake(v, 0);
    done();
    return 0;
}
int __nat_yield() {
    int v[MAXT];
    done();
    if (!options(self_, v)) return 0;
    th[self_].started = false;
    if (usedScript < nScript) activate(script[usedScript++]);
    else activate(v[0]);
    done();
    return 0;
}
uint64_t __nat_self() { return self_ + 1; }
int __nat_guard_acquire(int64_t* g) {
    char* b = reinterpret_cast<char*>(g);
    __nat_mutex_lock(&gmtx);
    while (b[1]) __nat_cond_wait(&gcnd, &gmtx);
    point();
    char x = __atomic_load_n(b, __ATOMIC_ACQUIRE);
    done();
    if (x) {
        acq(g);
        __nat_mutex_unlock(&gmtx);
        return 0;
    }
    b[1] = 1;
    __nat_mutex_unlock(&gmtx);
    return 1;
}
static void guardDone(int64_t* g, char v) {
    char* b = reinterpret_cast<char*>(g);
    __nat_mutex_lock(&gmtx);
    point();
    rel(g);
    __atomic_store_n(b, v, __ATOMIC_RELEASE);
    done();
    b[1] = 0;
    __nat_cond_broadcast(&gcnd);
    __nat_mutex_unlock(&gmtx);
}
void __nat_guard_release(int64_t* g) { guardDone(g, 1); }
void __nat_guard_abort(int64_t* g) { guardDone(g, 0); }
int __nat_thread_atexit(void (*f)(void*), void* a, void*) {
    texit[ntexit].f = f;
    texit[ntexit++].a = a;
    return 0;
}
int __nat_cxa_atexit(void (*f)(void*), void* a, void*) {
    aexit[naexit].f = f;
    aexit[naexit++].a = a;
    return 0;
}
static void callVoid(void* p) { reinterpret_cast<void (*)()>(p)(); }
int __nat_atexit(void (*f)()) { return __nat_cxa_atexit(callVoid, reinterpret_cast<void*>(f), nullptr); }

uint64_t __sym_fresh(const char* name, unsigned bits) { return fresh(name, bits); }
void __sym_assume(int c) { if (!(c & 1)) result("diverged", "an assumption of the harness does not hold"); }
void __sym_assert(int c, const char* msg) {
    nAssert++;
    if (!(c & 1)) result("assert", msg);
}
unsigned __sym_choose(const char* name, unsigned n) {
    uint64_t k = fresh(name, 32);
    return k < n ? (unsigned)k : 0;
}
void __sym_reach(const char* t) { observe(t, 0); }
void __sym_note(const char* t, uint64_t v) { observe(t, v); }
uint64_t __sym_concretize(uint64_t v) { return v; }
void __sym_set_hw(int n) { hw = n; }
int __sym_hw() { return hw; }
void __sym_leak_check() { leakOn = 1; }
void __sym_leak_ok(void* p) {
    Guard g;
    for (int i = 0; i < nblk; i++)
        if (blk[i].p == p) blk[i].ok = true;
}
void __sym_fail(const char* msg) { result("assert", msg); }
void __sym_quiesce(int timers) {
    th[self_].st = QUIESCE;
    th[self_].quiesceMode = timers;
    reschedule();
    acq(&q1);
    rel(&q2);
    done();
}
int __sym_tid() { return self_; }
void __sym_option(const char* n, uint64_t v) {
    if (!strcmp(n, "spurious")) spurious = (int)v;
    else if (!strcmp(n, "clock")) clockMode = (int)v;
    else if (!strcmp(n, "unlock_sched")) unlockSched = (int)v;
}
void __sym_advance(uint64_t ns) { now_ += ns; }
uint64_t __sym_now() {
    if (clockMode == 1) now_ += fresh("clock", 64);
    return now_;
}
int __sym_nthreads() { return nth; }
int __sym_blocked() {
    int n = 0;
    for (int i = 0; i < nth; i++) n += th[i].st != RUN && th[i].st != DONE;
    return n;
}
int __sym_atomic_add(int* p, int d) { return *p += d; }
void __sym_sync_acquire(void* p) { acq((char*)p); }
void __sym_sync_release(void* p) { rel((char*)p); }
}
namespace std {
void thread::_M_start_thread(_State_ptr st, void (*)()) {
    int k = nth++;
    if (k >= MAXT) result("diverged", "too many threads");
    th[k].a = st.release();
    inRt++;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    if (pthread_create(&th[k].h, &at, trampoline, &th[k])) result("diverged", "pthread_create failed");
    inRt--;
    _M_id = id((unsigned long)k + 1);
    done();
}
void thread::join() {
    if (!joinable()) result("assert", "join of a thread that is not joinable");
    int k = (int)_M_id._M_thread - 1;
    if (k <= 0 || k >= nth || k == self_) result("wild", "join of an invalid thread");
    if (th[k].st != DONE) {
        th[self_].st = JOIN;
        th[self_].joinTid = k;
        reschedule();
    }
    inRt++;
    pthread_join(th[k].h, nullptr);
    inRt--;
    _M_id = id();
    done();
}
void thread::detach() {
    if (!joinable()) result("assert", "detach of a thread that is not joinable");
    _M_id = id();
}
unsigned thread::hardware_concurrency() noexcept { return (unsigned)hw; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& lk) { __nat_cond_wait(&_M_cond, lk.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { __nat_cond_signal(&_M_cond); }
void condition_variable::notify_all() noexcept { __nat_cond_broadcast(&_M_cond); }
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t)__sym_now())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((int64_t)__sym_now())); }
}} // namespace chrono::_V2
} // namespace std

static void onSignal(int s) {
    if (s == SIGALRM) result("nonterm", "still running after the time limit");
    if (s == SIGABRT) result("abort", "abort called");
    result("trap", "trap instruction reached");
}
int main(int argc, char** argv) {
    inRt++;
    if (argc < 3) return 2;
    FILE* f = fopen(argv[2], "r");
    if (!f) return 2;
    static char line[1 << 22];
    while (fgets(line, sizeof line, f)) {
        if (!strncmp(line, "input ", 6) && nInput < 20000) {
            unsigned long long v;
            if (sscanf(line + 6, "%63s %llu", inputs[nInput].name, &v) == 2) inputs[nInput++].v = v;
        } else if (!strncmp(line, "unlock_sched ", 13)) unlockSched = atoi(line + 13);
        else if (!strncmp(line, "sched", 5)) {
            char* p = line + 5;
            for (char* q; nScript < 2000000; p = q) {
                long k = strtol(p, &q, 10);
                if (q == p) break;
                script[nScript++] = (int)k;
            }
        }
    }
    fclose(f);
    auto* e = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
    if (!e) return 2;
    std::set_terminate([] { result("terminate", "std::terminate called"); });
    signal(SIGABRT, onSignal);
    signal(SIGALRM, onSignal);
    signal(SIGILL, onSignal);
    signal(SIGTRAP, onSignal);
    alarm(argc > 3 ? atoi(argv[3]) : 20);
    traceOn = argc > 4;
    inRt--;
    e();
    runTexit();
    while (naexit > 0) { --naexit; aexit[naexit].f(aexit[naexit].a); }
    if (leakOn && hooks) {
        long n = 0, b = 0;
        for (int i = 0; i < nblk; i++)
            if (!blk[i].ok) { n++; b += blk[i].n; }
        if (n) {
            char m[80];
            snprintf(m, sizeof m, "%ld allocations (%ld bytes) not released at the end", n, b);
            result("leak", m);
        }
    }
    out("RESULT ok: ended normally\n");
    stats();
    _exit(0);
}
