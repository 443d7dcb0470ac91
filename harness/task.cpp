#include "sym.h"
#include <array>
#include <functional>
#include <memory>
#include <stlab/concurrency/task.hpp>
#include <utility>

namespace {
int live[16];    // live instances of callable k (moved-from instances included)
int value[16];   // its captured value
int calls[16];
int held[16];    // instances that own the callable (not moved from)
int freed[16];

// K is the type of the data members: only callables with byte alignment are stored inline
template <class K, int Pad>
struct fn {
    K k;
    bool own = true;
    K pad[Pad];
    K self = 0x5a;
    explicit fn(int id) : k((K)id) { ++live[k]; ++held[k]; }
    fn(fn&& x) noexcept : k(x.k), own(x.own) {
        CHECK(x.self == 0x5a, "moved a destroyed callable");
        x.own = false;
        ++live[k];
    }
    fn(const fn&) = delete;
    ~fn() {
        CHECK(self == 0x5a, "callable destroyed twice");
        self = 0;
        --live[k];
        if (own) { --held[k]; ++freed[k]; }
    }
    int operator()(int x) {
        CHECK(self == 0x5a && own, "called a destroyed or moved-from callable");
        ++calls[k];
        if (k == 3) throw x;
        return value[k] ^ x;
    }
};
using small_fn = fn<signed char, 4>;
using large_fn = fn<int, 30>;
int plain(int x) { return x + 7; }

enum { EMPTY = -1, MOVED = -2, PLAIN = 100 };
using T = stlab::task<int(int)>;

struct world {
    T t[2];
    int m[2] = {EMPTY, EMPTY};
    bool large[2] = {};
    int next = 0;
    void check_one(int i) {
        if (m[i] == MOVED) return;
        bool full = m[i] != EMPTY;
        CHECK(static_cast<bool>(t[i]) == full, "emptiness of a task");
        CHECK((t[i] == nullptr) == !full && (nullptr == t[i]) == !full && (t[i] != nullptr) == full && (nullptr != t[i]) == full,
              "comparison with nullptr");
        const T& c = t[i];
        bool s = full && m[i] != PLAIN && !large[i], l = full && m[i] != PLAIN && large[i];
        CHECK((t[i].target<small_fn>() != nullptr) == s && (t[i].target<large_fn>() != nullptr) == l, "target");
        CHECK((c.target<small_fn>() != nullptr) == s && (c.target<large_fn>() != nullptr) == l, "const target");
        CHECK((c.target_type() == typeid(void)) == !full, "target type of an empty task");
        if (s) CHECK(t[i].target<small_fn>()->k == m[i], "target is the held callable");
        if (l) CHECK(t[i].target<large_fn>()->k == m[i], "target is the held callable");
    }
    void call(int i) {
        int x = sym::i32("arg");
        if (m[i] == MOVED) return;
        bool threw = false, bad = false;
        int r = 0, thrown = 0;
        int before = m[i] >= 0 && m[i] < 16 ? calls[m[i]] : 0;
        try {
            r = t[i](x);
        } catch (int e) {
            threw = true;
            thrown = e;
        } catch (const std::bad_function_call&) {
            bad = true;
        }
        if (m[i] == EMPTY) CHECK(bad && !threw, "calling an empty task throws bad_function_call");
        else if (m[i] == PLAIN) CHECK(!bad && !threw && r == x + 7, "result of a function");
        else {
            CHECK(calls[m[i]] == before + 1, "a call runs the held callable once");
            CHECK(!bad && threw == (m[i] == 3), "exception of the callable");
            if (threw) CHECK(thrown == x, "exception value");
            else CHECK(r == (value[m[i]] ^ x), "result of the callable");
        }
    }
    void op(int o, int i) {
        int j = 1 - i;
        switch (o) {
            case 0: { // store a callable by assignment
                int k = next++;
                value[k] = sym::i32("value");
                large[i] = sym::choose("large", 2);
                if (large[i]) t[i] = large_fn(k);
                else t[i] = small_fn(k);
                m[i] = k;
                break;
            }
            case 1: t[i] = nullptr; m[i] = EMPTY; break;
            case 2: t[i] = std::move(t[j]); m[i] = m[j]; large[i] = large[j]; if (m[j] != EMPTY) m[j] = MOVED; break;
            case 3: { // move construct out and back
                T x(std::move(t[i]));
                t[i] = std::move(x);
                break;
            }
            case 4: t[0].swap(t[1]); std::swap(m[0], m[1]); std::swap(large[0], large[1]); break;
            case 5: call(i); break;
            case 6: { // move construct away
                T x(std::move(t[i]));
                if (m[i] != EMPTY) m[i] = MOVED;
                break;
            }
            case 7: {
                switch (sym::choose("odd", 4)) {
                    case 0: t[i] = plain; m[i] = PLAIN; break;
                    case 1: t[i] = std::function<int(int)>(); m[i] = EMPTY; break;
                    case 2: t[i] = (int (*)(int)) nullptr; m[i] = EMPTY; break;
                    case 3: t[i] = T(); m[i] = EMPTY; break;
                }
                break;
            }
            case 8: t[i].swap(t[i]); break;
            case 9: {
                T& r = t[i];
                t[i] = std::move(r);
                break;
            }
            case 10: { using std::swap; swap(t[0], t[1]); std::swap(m[0], m[1]); std::swap(large[0], large[1]); break; }
        }
    }
    void check() {
        check_one(0);
        check_one(1);
        for (int k = 0; k < next; ++k) {
            int want = (m[0] == k) + (m[1] == k);
            CHECK(held[k] == want, "a callable is alive exactly while a task holds it");
            CHECK(freed[k] == 1 - want, "a callable is destroyed exactly once");
        }
    }
};
} // namespace

ENTRY(t_ops) { // @T01 reach=done parts=2 thorough.parts=4
    {
        world w;
        for (int s = 0; s < 3; ++s) {
            w.op(sym::choose("op", 11), sym::choose("slot", 2));
            w.check();
        }
        w.call(0);
        w.call(1);
        w.check();
        sym::reach("done");
        w.m[0] = w.m[1] = EMPTY;
        w.t[0] = nullptr;
        w.t[1] = nullptr;
        w.check();
        for (int k = 0; k < w.next; ++k) CHECK(live[k] == 0, "instances left behind");
    }
    sym::leaks();
}

ENTRY(t_ops4) { // @T01 reach=done tier=thorough parts=8 time=2000
    {
        world w;
        for (int s = 0; s < 4; ++s) {
            w.op(sym::choose("op", 11), sym::choose("slot", 2));
            w.check();
        }
        w.call(0);
        w.call(1);
        w.check();
        sym::reach("done");
        w.m[0] = w.m[1] = EMPTY;
        w.t[0] = nullptr;
        w.t[1] = nullptr;
        w.check();
        for (int k = 0; k < w.next; ++k) CHECK(live[k] == 0, "instances left behind");
    }
    sym::leaks();
}

namespace {
struct mover {
    std::unique_ptr<int> p;
    std::unique_ptr<int> operator()(std::unique_ptr<int> q, int& r, const int& c) {
        r += *p;
        *q += *p + c;
        return q;
    }
};
struct S {
    int v;
    int get(int x) { return v - x; }
};
} // namespace

// arguments and results are passed through with their value category; void, reference and noexcept signatures
ENTRY(t_args) { // @T01 reach=done
    {
        int a = sym::i32("a"), b = sym::i32("b"), c = sym::i32("c");
        stlab::task<std::unique_ptr<int>(std::unique_ptr<int>, int&, const int&)> t(mover{std::make_unique<int>(a)});
        int r = b;
        auto t2 = std::move(t);
        auto q = t2(std::make_unique<int>(c), r, b);
        CHECK(*q == (int)((unsigned)a + (unsigned)b + (unsigned)c) && r == (int)((unsigned)a + (unsigned)b), "arguments");
        int hits = 0;
        stlab::task<void()> v([&hits] { ++hits; });
        v();
        v();
        CHECK(hits == 2, "void task");
        stlab::task<int() noexcept> n([b]() noexcept { return b; });
        auto n2 = std::move(n);
        CHECK(n2() == b, "noexcept task");
        n2 = nullptr;
        CHECK(!n2, "noexcept task reset");
        stlab::task<int(S&, int)> mp(std::mem_fn(&S::get));
        S s{a};
        CHECK(mp(s, b) == (int)((unsigned)a - (unsigned)b), "mem_fn");
        // a task holds a task
        stlab::task<int()> inner([a] { return a; });
        stlab::task<int()> outer([i = std::move(inner)]() mutable { return i() ^ 1; });
        auto o2 = std::move(outer);
        CHECK(o2() == (a ^ 1), "nested task");
        // a shared capture is released with the task
        auto sp = std::make_shared<int>(a);
        {
            stlab::task<int()> x([sp, pad = std::array<long, 10>{}] { return *sp; });
            stlab::task<int()> y([sp] { return *sp; });
            CHECK(sp.use_count() == 3, "captures held");
            x = std::move(y);
            CHECK(sp.use_count() == 2, "captures released on assignment");
            CHECK(x() == a, "result");
            y = nullptr;
            CHECK(sp.use_count() == 2, "no double release");
        }
        CHECK(sp.use_count() == 1, "captures released");
        sym::reach("done");
    }
    sym::leaks();
}

namespace {
int copies_left, copied_alive;
// a callable whose copy fails; K decides where it is stored
template <class K, int Pad>
struct fragile {
    K v, pad[Pad];
    explicit fragile(int x) : v((K)x) { ++copied_alive; }
    fragile(fragile&& x) noexcept : v(x.v) { ++copied_alive; }
    fragile(const fragile& x) : v(x.v) {
        if (copies_left-- == 0) throw 5;
        ++copied_alive;
    }
    ~fragile() { --copied_alive; }
    int operator()(int x) const { return v ^ x; }
};
template <class F>
void fragile_task() {
    copied_alive = 0;
    {
        int x = sym::i32("x"), a = (int)sym::choose("a", 3), b = (int)sym::choose("b", 3);
        F f(a), g(b);
        copies_left = -1;
        T t;
        int full = sym::choose("full", 2);
        if (full) t = g;
        copies_left = (int)sym::choose("fail", 2);
        bool threw = false;
        int op = (int)sym::choose("op", 3);
        try {
            if (op == 0) t = f;
            else if (op == 1) {
                T u(f);
                CHECK(u(x) == (a ^ x), "a task made from a copy");
                t = std::move(u);
            } else {
                T u{std::as_const(f)};
                std::swap(u, t);
            }
        } catch (int e) {
            threw = e == 5;
        }
        copies_left = -1;
        if (threw) CHECK(static_cast<bool>(t) == (full == 1) && (!full || t(x) == (b ^ x)), "a failed assignment leaves the task as it was");
        else CHECK(static_cast<bool>(t) && t(x) == (a ^ x), "a successful assignment");
        CHECK(copied_alive == 2 + (t ? 1 : 0), "callables alive");
        sym::reach("done");
    }
    CHECK(copied_alive == 0, "a callable outlives its task");
}
} // namespace
// copying the callable into the task fails
ENTRY(t_throw_small) { // @T01 reach=done
    fragile_task<fragile<signed char, 4>>();
    sym::leaks();
}
ENTRY(t_throw_large) { // @T01 reach=done
    fragile_task<fragile<int, 30>>();
    sym::leaks();
}
