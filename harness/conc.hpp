// Shared helpers of the concurrency harnesses.
#pragma once
#include "sym.h"
#include <exception>
#include <memory>
#include <optional>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/ready_future.hpp>
#include <thread>
#include <utility>
#include <variant>

namespace hc {
using stlab::future;
using stlab::immediate_executor;
using stlab::package;
using ctask = stlab::task<void() noexcept>;

// a value that can only be moved and that notices being read after it was moved from
struct mo {
    int v = 0;
    bool full = false;
    mo() = default;
    explicit mo(int x) : v(x), full(true) {}
    mo(mo&& x) noexcept : v(x.v), full(x.full) { x.full = false; }
    mo& operator=(mo&& x) noexcept {
        v = x.v;
        full = x.full;
        if (this != &x) x.full = false;
        return *this;
    }
    mo(const mo&) = delete;
    mo& operator=(const mo&) = delete;
};
// a copyable value that notices the same
struct cm {
    int v = 0;
    bool full = false;
    cm() = default;
    explicit cm(int x) : v(x), full(true) {}
    cm(cm&& x) noexcept : v(x.v), full(x.full) { x.full = false; }
    cm& operator=(cm&& x) noexcept {
        v = x.v;
        full = x.full;
        if (this != &x) x.full = false;
        return *this;
    }
    cm(const cm&) = default;
    cm& operator=(const cm&) = default;
};
struct boom {
    int v;
};

// uniform access to int, mo and void results
template <class T>
struct kind;
template <>
struct kind<int> {
    static int make(int x) { return x; }
    static int get(int x) { return x; }
};
template <>
struct kind<mo> {
    static mo make(int x) { return mo(x); }
    static int get(const mo& m) {
        CHECK(m.full, "the value was taken before");
        return m.v;
    }
};

template <>
struct kind<cm> {
    static cm make(int x) { return cm(x); }
    static int get(const cm& m) {
        CHECK(m.full, "the value was emptied before");
        return m.v;
    }
};

// executor that only queues; the harness decides when queued tasks run
struct manual {
#ifdef MANUAL_MAX
    static constexpr int MAX = MANUAL_MAX;
#else
    static constexpr int MAX = 48;
#endif
    ctask q[MAX];
    int n = 0, head = 0;
    bool empty() const { return head == n; }
    bool run_one() {
        if (head == n) return false;
        ctask t = std::move(q[head % MAX]);
        q[head % MAX] = nullptr;
        ++head;
        if (t) t();
        return true;
    }
    int run_all() {
        int k = 0;
        while (run_one()) ++k;
        return k;
    }
    void drop_all() {
        while (head < n) q[head++ % MAX] = nullptr;
    }
    auto executor() {
        return [this](ctask&& t) {
            CHECK(n - head < MAX, "harness queue is large enough");
            CHECK(static_cast<bool>(t), "an executor is never given an empty task");
            if (n - head < MAX) q[n++ % MAX] = std::move(t);
        };
    }
};

inline manual Q;

// attach f to a future in one of the documented spellings; 0,1 on the future's own executor, 2..4 on the
// manual executor Q; lv: through a const lvalue (only for copyable results)
inline bool on_manual(int how) { return how >= 2; }
template <class Fut, class F>
auto then_rv(Fut&& fu, int how, F f) {
    using R = decltype(std::move(fu).then(f));
    switch (how) {
        case 0: return R(std::move(fu).then(std::move(f)));
        case 1: return R(std::move(fu) | std::move(f));
        case 2: return R(std::move(fu).then(Q.executor(), std::move(f)));
        case 3: return R(std::move(fu) | (stlab::executor{Q.executor()} & std::move(f)));
        default: return R(std::move(fu) | (std::move(f) & stlab::executor{Q.executor()}));
    }
}
template <class Fut, class F>
auto then_lv(const Fut& fu, int how, F f) {
    using R = decltype(fu.then(f));
    switch (how) {
        case 0: return R(fu.then(std::move(f)));
        case 1: return R(fu | std::move(f));
        case 2: return R(fu.then(Q.executor(), std::move(f)));
        case 3: return R(fu | (stlab::executor{Q.executor()} & std::move(f)));
        default: return R(fu | (std::move(f) & stlab::executor{Q.executor()}));
    }
}
template <class Fut, class F>
auto rec_rv(Fut&& fu, int how, F f) {
    using R = decltype(std::move(fu).recover(f));
    switch (how) {
        case 0: return R(std::move(fu).recover(std::move(f)));
        case 1: return R(std::move(fu) ^ std::move(f));
        case 2: return R(std::move(fu).recover(Q.executor(), std::move(f)));
        case 3: return R(std::move(fu) ^ (stlab::executor{Q.executor()} & std::move(f)));
        default: return R(std::move(fu) ^ (std::move(f) & stlab::executor{Q.executor()}));
    }
}
template <class Fut, class F>
auto rec_lv(const Fut& fu, int how, F f) {
    using R = decltype(fu.recover(f));
    switch (how) {
        case 0: return R(fu.recover(std::move(f)));
        case 1: return R(fu ^ std::move(f));
        case 2: return R(fu.recover(Q.executor(), std::move(f)));
        case 3: return R(fu ^ (stlab::executor{Q.executor()} & std::move(f)));
        default: return R(fu ^ (std::move(f) & stlab::executor{Q.executor()}));
    }
}
// lv if asked for and possible
template <class T, class F>
auto then_any(future<T>& fu, bool lv, int how, F f) {
    if constexpr (!std::is_same_v<T, mo>)
        if (lv) return then_lv(fu, how, std::move(f));
    return then_rv(std::move(fu), how, std::move(f));
}
template <class T, class F>
auto rec_any(future<T>& fu, bool lv, int how, F f) {
    if constexpr (!std::is_same_v<T, mo>)
        if (lv) return rec_lv(fu, how, std::move(f));
    return rec_rv(std::move(fu), how, std::move(f));
}
// make / read a value of any of the three result kinds
template <class T>
T mk(int x) {
    if constexpr (std::is_void_v<T>) (void)x;
    else return kind<T>::make(x);
}
inline bool is_val(int) { return true; } // void result: nothing to compare
inline bool is_val(int, std::monostate) { return true; }
inline bool is_val(int x, int v) { return v == x; }
inline bool is_val(int x, const cm& m) { return kind<cm>::get(m) == x; }
inline bool is_val(int x, const mo& m) { return kind<mo>::get(m) == x; }

// counts live copies of a capture
struct token {
    int* n;
    explicit token(int* p) : n(p) { ++*n; }
    token(const token& x) : n(x.n) { if (n) ++*n; }
    token(token&& x) noexcept : n(x.n) { x.n = nullptr; }
    token& operator=(const token&) = delete;
    ~token() { if (n) --*n; }
};

// the exception inside e, as one number: boom -> its value; broken promise -> sets broken
struct outcome {
    bool has = false, broken = false, other = false;
    int v = 0;
};
inline outcome what(const std::exception_ptr& e) {
    outcome r;
    if (!e) return r;
    r.has = true;
    try {
        std::rethrow_exception(e);
    } catch (const boom& b) {
        r.v = b.v;
    } catch (const stlab::future_error& x) {
        r.broken = x.code() == stlab::future_error_codes::broken_promise;
        r.other = !r.broken;
    } catch (...) {
        r.other = true;
    }
    return r;
}
#define CHECK_BOOM(e, val, msg)                                                    \
    do {                                                                           \
        auto o_ = hc::what(e);                                                     \
        CHECK(o_.has && !o_.broken && !o_.other && o_.v == (val), msg);            \
    } while (0)
#define CHECK_BROKEN(e, msg)                                                       \
    do {                                                                           \
        auto o_ = hc::what(e);                                                     \
        CHECK(o_.has && o_.broken, msg);                                           \
    } while (0)
template <class F>
inline std::exception_ptr caught(F&& f) {
    try {
        f();
    } catch (...) {
        return std::current_exception();
    }
    return nullptr;
}
} // namespace hc
