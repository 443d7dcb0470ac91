#include "conc.hpp"
using namespace hc;

namespace {
int frames[4];
future<int> c_add(future<int> f, int k, int i) {
    token t(&frames[i]);
    int v = co_await std::move(f);
    if (k == 7) throw boom{v};
    co_return v ^ k;
}
future<void> c_void(future<void> f, int& out, int x, bool thr) {
    token t(&frames[0]);
    co_await std::move(f);
    if (thr) throw boom{x};
    out = x;
}
future<int> c_mo(future<mo> f) {
    token t(&frames[1]);
    mo m = co_await std::move(f);
    co_return kind<mo>::get(m);
}
future<mo> c_ret_mo(future<int> f) {
    token t(&frames[2]);
    int v = co_await std::move(f);
    co_return mo(v);
}
future<int> c_plain(int x, int mode) {
    token t(&frames[0]);
    if (mode == 1) throw boom{x};
    co_return x;
}
future<int> c_catch(future<int> f, int other) {
    token t(&frames[3]);
    try {
        co_return co_await std::move(f);
    } catch (const boom& b) {
        co_return b.v ^ other;
    }
}
future<int> c_two(future<int> a, future<int> b, int& order) {
    token t(&frames[0]);
    int x = co_await std::move(a);
    CHECK(order >= 1, "the first await ends when its future is ready");
    int y = co_await std::move(b);
    CHECK(order == 2, "the second await ends when its future is ready");
    co_return x - y;
}
} // namespace

ENTRY(q_plain) { // @A10 reach=done
    {
        int x = sym::i32("x"), mode = sym::choose("mode", 2), runs = 0;
        auto f = c_plain(x, mode);
        CHECK(frames[0] == 0, "the frame is released when the body ends");
        CHECK(f.is_ready(), "a body without suspension completes");
        auto c = f.then([&](int v) { ++runs; return v; });
        if (mode) { CHECK_BOOM(f.exception(), x, "the exception that leaves it"); CHECK(runs == 0, "no value"); }
        else CHECK(f.get_ready() == x && runs == 1 && c.get_ready() == x, "the value returned");
        sym::reach("done");
    }
    sym::leaks();
}

// await before or after the future is ready; value, exception, broken promise; inner exception
ENTRY(q_await) { // @A10 reach=done
    {
        int x = sym::i32("x"), out = sym::choose("out", 3), when = sym::choose("when", 2), k = sym::choose("k", 2) ? 7 : 3;
        int which = sym::choose("which", 5), drop = sym::choose("drop", 2), seen = 0;
        auto pf = package<int(int)>(immediate_executor, [&](int v) -> int { if (out == 1) throw boom{v}; return v; });
        auto pm = package<mo(int)>(immediate_executor, [&](int v) -> mo { if (out == 1) throw boom{v}; return mo(v); });
        auto pv = package<void(int)>(immediate_executor, [&](int v) { if (out == 1) throw boom{v}; });
        auto one = [&](auto& p) { if (out == 2) { auto g = std::move(p); } else p(x); };
        auto fire = [&] { if (which == 2) one(pm.first); else if (which == 4) one(pv.first); else one(pf.first); };
        if (when == 0) fire();
        future<int> r;
        future<mo> rm;
        future<void> rv;
        int idx = which == 0 ? 0 : which == 1 ? 3 : which == 2 ? 1 : which == 3 ? 2 : 0;
        if (which == 0) r = c_add(std::move(pf.second), k, 0);
        else if (which == 1) r = c_catch(std::move(pf.second), 5);
        else if (which == 2) r = c_mo(std::move(pm.second));
        else if (which == 3) rm = c_ret_mo(std::move(pf.second));
        else rv = c_void(std::move(pv.second), seen, x, k == 7);
        auto settled = [&] { return which == 3 ? rm.is_ready() : which == 4 ? rv.is_ready() : r.is_ready(); };
        if (when == 1) {
            CHECK(frames[idx] == 1 && !settled(), "suspended until the awaited future is ready");
            if (drop) { r.reset(); rm.reset(); rv.reset(); }
            fire();
        }
        CHECK(frames[idx] == 0, "the frame is released exactly once when the body ends");
        if (when == 0 || !drop) {
            CHECK(settled(), "the coroutine's future is ready");
            auto ex = which == 3 ? rm.exception() : which == 4 ? rv.exception() : r.exception();
            if (which == 1 && out == 1) CHECK(!ex && r.get_ready() == (x ^ 5), "a caught exception is an ordinary outcome");
            else if (out == 1) CHECK_BOOM(ex, x, "the awaited future's exception is rethrown");
            else if (out == 2) CHECK_BROKEN(ex, "the awaited future's broken promise is rethrown");
            else if (which == 0 && k == 7) CHECK_BOOM(ex, x, "the exception leaving the body");
            else if (which == 4 && k == 7) CHECK_BOOM(ex, x, "the exception leaving the body");
            else {
                CHECK(!ex, "no exception");
                if (which == 0) CHECK(r.get_ready() == (x ^ 3), "value");
                if (which == 1 || which == 2) CHECK(r.get_ready() == x, "value");
                if (which == 3) CHECK(kind<mo>::get(std::move(rm).get_ready()) == x, "value");
                if (which == 4) CHECK(seen == x, "body ran to its end");
            }
        }
        sym::reach("done");
    }
    sym::leaks();
}

// chains of coroutines and continuations; two awaits in one body, fulfilled in either order
ENTRY(q_chain) { // @A10 reach=done
    {
        int x = sym::i32("x"), y = sym::i32("y"), first = sym::choose("first", 2), order = 0, runs = 0;
        auto a = package<int(int)>(immediate_executor, [](int v) { return v; });
        auto b = package<int(int)>(immediate_executor, [](int v) { return v; });
        auto r = c_two(std::move(a.second), std::move(b.second), order);
        auto s = c_add(r, 3, 1).then([&](int v) { ++runs; return v; });
        auto t = c_ret_mo(s);
        auto u = c_mo(std::move(t));
        if (first == 0) { order = 1; a.first(x); CHECK(!r.is_ready(), "still waiting"); order = 2; b.first(y); }
        else { b.first(y); CHECK(!r.is_ready(), "still waiting"); order = 2; a.first(x); }
        CHECK(r.is_ready() && r.get_ready() == (int)((unsigned)x - (unsigned)y), "value");
        CHECK(runs == 1 && s.is_ready() && u.is_ready() && u.get_ready() == ((int)((unsigned)x - (unsigned)y) ^ 3), "chain");
        CHECK(frames[0] + frames[1] + frames[2] == 0, "frames released");
        sym::reach("done");
    }
    sym::leaks();
}

// resumed on whichever thread completes the awaited future
ENTRY(q_race) { // @A10,S01 reach=done preempt=3 thorough.preempt=5
    {
        int x = sym::i32("x"), out = sym::choose("out", 2), runs = 0;
        auto pf = package<int(int)>(immediate_executor, [&](int v) -> int { if (out == 1) throw boom{v}; return v; });
        std::thread t([&, p = std::move(pf.first)]() mutable { p(x); });
        auto r = c_add(std::move(pf.second), 3, 0);
        auto c = std::move(r).recover([&](future<int> f) {
            ++runs;
            if (out) CHECK_BOOM(f.exception(), x, "exception");
            else CHECK(f.get_ready() == (x ^ 3), "value");
        });
        t.join();
        CHECK(runs == 1 && c.is_ready() && !c.exception() && frames[0] == 0, "completed once, frame released");
        sym::reach("done");
    }
    sym::leaks();
}
ENTRY(q_race_mo) { // @A10,S01 reach=done preempt=3 thorough.preempt=5
    {
        int x = sym::i32("x"), drop = sym::choose("drop", 2);
        auto pf = package<mo(int)>(immediate_executor, [&](int v) { return mo(v); });
        std::thread t([&, p = std::move(pf.first)]() mutable { p(x); });
        auto r = c_mo(std::move(pf.second));
        if (drop) r.reset();
        t.join();
        CHECK(frames[1] == 0, "frame released");
        if (!drop) CHECK(r.is_ready() && r.get_ready() == x, "value");
        sym::reach("done");
    }
    sym::leaks();
}
