#include "conc.hpp"
using namespace hc;

namespace {
// outer: a packaged task, a continuation, a recovery or an async call whose function returns a future
template <class T>
void reduction() {
    int x = sym::i32("x");
    int in = sym::choose("in", 4);    // inner: value, thrown, broken; 3: the outer function itself throws
    int when = sym::choose("when", 2); // inner ready before it is returned, or later
    int out = sym::choose("out", 4);  // how the outer is made
    int after = 0, runs = 0, tk = 0;
    auto inner = package<T(int)>(immediate_executor, [&](int v) -> T { if (in == 1) throw boom{v}; return mk<T>(v); });
    auto fire = [&] { if (in == 2) { auto d = std::move(inner.first); } else inner.first(x); };
    if (when == 0) fire();
    auto body = [&, t = token(&tk), f = std::move(inner.second)](auto&&...) mutable -> future<T> {
        ++runs;
        if (in == 3) throw boom{x};
        return std::move(f);
    };
    future<T> o;
    auto src = package<int(int)>(immediate_executor, [](int v) { return v; });
    if (out == 0) {
        auto p = package<future<T>(int)>(immediate_executor, std::move(body));
        o = std::move(p.second);
        CHECK(!o.is_ready(), "not started");
        p.first(1);
    } else if (out == 1) {
        o = std::move(src.second).then(std::move(body));
        src.first(1);
    } else if (out == 2) {
        o = std::move(src.second).recover(std::move(body));
        src.first.set_exception(std::make_exception_ptr(boom{9}));
    } else {
        o = stlab::async(Q.executor(), std::move(body));
        Q.run_all();
    }
    CHECK(runs == 1, "the function runs once");
    CHECK(o.is_ready() == (when == 0 || in == 3), "ready exactly when the inner future is");
    CHECK(tk == 0, "the function is released after it ran");
    bool early = sym::choose("early", 2);
    future<int> c;
    auto cont = [&](auto&&... v) { ++after; CHECK(is_val(x, v...), "inner value"); return 5; };
    bool lv = false;
    if constexpr (!std::is_same_v<T, mo>) lv = sym::choose("lv", 2);
    if (early) c = then_any(o, lv, 0, cont);
    if (when == 1) fire();
    if (!early) c = then_any(o, lv, 0, cont);
    Q.run_all();
    CHECK(c.is_ready(), "dependents are ready");
    if (in == 0) CHECK(after == 1 && !c.exception() && c.get_ready() == 5, "the inner value arrives once");
    else {
        CHECK(after == 0, "no value");
        if (in == 2) CHECK_BROKEN(c.exception(), "a broken inner future breaks the outer");
        else CHECK_BOOM(c.exception(), x, "the exception arrives");
    }
    if constexpr (!std::is_same_v<T, mo>)
        if (lv) {
            CHECK(o.is_ready() && static_cast<bool>(o.exception()) == (in != 0), "the outer handle");
            if (in == 0) {
                if constexpr (std::is_void_v<T>) o.get_ready();
                else CHECK(is_val(x, o.get_ready()), "the outer handle's value");
            }
        }
    sym::reach("done");
}
} // namespace
ENTRY(d_int) { // @A06 reach=done
    reduction<cm>();
    sym::leaks();
}
ENTRY(d_mo) { // @A06 reach=done
    reduction<mo>();
    sym::leaks();
}
ENTRY(d_void) { // @A06 reach=done
    reduction<void>();
    sym::leaks();
}

// nested: a function returning a future of a function returning a future ..., each level completing in any order
ENTRY(d_nested) { // @A06 reach=done
    {
        int x = sym::i32("x"), fail = sym::choose("fail", 4);
        int level[3] = {};
        auto f = stlab::async(Q.executor(), [&] {
            ++level[0];
            if (fail == 1) throw boom{x};
            return stlab::async(Q.executor(), [&] {
                ++level[1];
                if (fail == 2) throw boom{x};
                return stlab::async(Q.executor(), [&](mo m) {
                    ++level[2];
                    if (fail == 3) throw boom{x};
                    return m;
                }, mo(x));
            });
        });
        static_assert(std::is_same_v<decltype(f), future<mo>>);
        int n = 0;
        while (!f.is_ready()) {
            CHECK(Q.run_one(), "something is left to run while the result is pending");
            if (++n > 3) break;
        }
        CHECK(level[0] == 1 && level[1] == (fail != 1) && level[2] == (fail == 0 || fail == 3), "each level runs once");
        CHECK(Q.empty(), "nothing else is scheduled");
        if (fail) CHECK_BOOM(f.exception(), x, "the failing level's exception");
        else CHECK(kind<mo>::get(std::move(f).get_ready()) == x, "the innermost value");
        sym::reach("done");
    }
    sym::leaks();
}

// the outer is dropped: the inner is cancelled unless somebody else depends on it
ENTRY(d_cancel) { // @A06,A04 reach=done
    {
        int x = sym::i32("x"), keep = sym::choose("keep", 2), drop = sym::choose("drop", 2), tk = 0, ran = 0;
        auto inner = package<int(int)>(immediate_executor, [&, t = token(&tk)](int v) { ++ran; return v; });
        future<int> side = inner.second;
        if (!keep) side.reset();
        auto p = package<future<int>(int)>(immediate_executor, [&, f = std::move(inner.second)](int) mutable { return std::move(f); });
        p.first(0);
        CHECK(!p.second.is_ready() && tk == 1, "pending");
        if (drop) p.second.reset();
        CHECK(tk == (keep || !drop), "the inner work is cancelled with the outer, unless shared");
        inner.first(x);
        CHECK(ran == (keep || !drop) && tk == 0, "runs iff depended on");
        if (!drop) CHECK(p.second.is_ready() && p.second.get_ready() == x, "outer");
        if (keep) CHECK(side.is_ready() && side.get_ready() == x, "the other holder of the inner future");
        sym::reach("done");
    }
    sym::leaks();
}

// the inner completes on another thread while the outer function returns it
ENTRY(d_race) { // @A06,S01 reach=done preempt=2 thorough.preempt=4
    {
        int x = sym::i32("x"), fail = sym::choose("fail", 3), after = 0;
        auto inner = package<int(int)>(immediate_executor, [&](int v) -> int { if (fail == 1) throw boom{v}; return v; });
        auto p = package<future<int>(int)>(immediate_executor, [&, f = std::move(inner.second)](int) mutable { return std::move(f); });
        std::thread t([&, p = std::move(inner.first)]() mutable { if (fail != 2) p(x); });
        auto c = std::move(p.second).recover([&](future<int> f) {
            ++after;
            if (fail == 0) CHECK(!f.exception() && f.get_ready() == x, "inner value");
            else if (fail == 1) CHECK_BOOM(f.exception(), x, "inner exception");
            else CHECK_BROKEN(f.exception(), "inner broken");
            return 1;
        });
        p.first(0);
        t.join();
        CHECK(after == 1 && c.is_ready() && c.get_ready() == 1, "delivered once");
        sym::reach("done");
    }
    sym::leaks();
}
// dropping the outer while the inner completes
ENTRY(d_race_drop) { // @A06,S01 reach=ran,cancelled preempt=2 thorough.preempt=4
    {
        int x = sym::i32("x"), ran = 0, after = 0;
        auto inner = package<mo(int)>(immediate_executor, [&](int v) { ++ran; return mo(v); });
        auto p = package<future<mo>(int)>(immediate_executor, [f = std::move(inner.second)](int) mutable { return std::move(f); });
        auto c = std::move(p.second).then([&](mo m) { ++after; CHECK(kind<mo>::get(m) == x, "value"); });
        p.first(0);
        std::thread t([&, p = std::move(inner.first)]() mutable { p(x); });
        c.reset();
        t.join();
        CHECK(ran <= 1 && after <= ran, "cancelled or delivered once");
        sym::reach(after ? "ran" : "cancelled");
    }
    sym::leaks();
}
