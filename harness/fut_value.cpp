#include "conc.hpp"
using namespace hc;

// copyable: two continuations attached at any moment around fulfilment
ENTRY(a_then_int) { // @A01 reach=done
    {
        int x = sym::i32("x"), k = sym::i32("k");
        int own = sym::choose("own", 2); // the future's executor
        auto e = [own](ctask&& t) { own ? Q.executor()(std::move(t)) : immediate_executor(std::move(t)); };
        auto [pro, fut] = package<int(int)>(e, [k](int v) { return v ^ k; });
        int how1 = sym::choose("how1", 5), how2 = sym::choose("how2", 5);
        int when = sym::choose("when", 3); // before both, between, after both
        int runs1 = 0, runs2 = 0, got1 = 0, got2 = 0;
        auto c1f = [&](int v) { ++runs1; got1 = v; return (long)v + 1; };
        auto c2f = [&](int v) { ++runs2; got2 = v; };
        CHECK(!fut.is_ready() && !fut.get_try(), "a future without result is not ready");
        if (when == 0) pro(x);
        auto c1 = then_lv(fut, how1, c1f);
        if (when == 1) pro(x);
        bool last = sym::choose("last", 2); // second continuation on the handle itself
        auto keep = fut;
        auto c2 = last ? then_rv(std::move(fut), how2, c2f) : then_lv(fut, how2, c2f);
        if (when == 2) {
            CHECK(runs1 == 0 && runs2 == 0 && Q.empty(), "no continuation runs before the value");
            CHECK(!c1.is_ready() && !c2.is_ready(), "no dependent is ready before the value");
            pro(x);
        }
        bool m1 = on_manual(how1) || own, m2 = on_manual(how2) || own;
        CHECK(runs1 == (m1 ? 0 : 1) && runs2 == (m2 ? 0 : 1), "continuations run on the chosen executor");
        CHECK(Q.n == m1 + m2, "each continuation is scheduled exactly once");
        Q.run_all();
        CHECK(runs1 == 1 && runs2 == 1, "each continuation runs exactly once");
        CHECK(got1 == (x ^ k) && got2 == (x ^ k), "continuations receive the value");
        CHECK(c1.is_ready() && c2.is_ready() && keep.is_ready(), "everything is ready");
        CHECK(c1.get_try() && *c1.get_try() == (long)(x ^ k) + 1, "polling gives the continuation's result");
        CHECK(c1.get_ready() == (long)(x ^ k) + 1, "get_ready gives the same");
        CHECK(std::move(c1).get_ready() == (long)(x ^ k) + 1, "taking gives the same");
        CHECK(c2.get_try() == true, "a void future polls true when ready");
        c2.get_ready();
        CHECK(keep.get_try() && *keep.get_try() == (x ^ k), "the source keeps its value");
        CHECK(std::move(keep).get_try() == std::optional<int>(x ^ k), "taking by polling gives the value");
        CHECK(last || !fut.exception(), "no exception");
        sym::reach("done");
    }
    sym::leaks();
}

// move-only and void results
ENTRY(a_then_mo) { // @A01 reach=done
    {
        int x = sym::i32("x"), k = sym::i32("k");
        auto [pro, fut] = package<mo(int)>(immediate_executor, [k](int v) { return mo(v ^ k); });
        int how = sym::choose("how", 5), how2 = sym::choose("how2", 5), when = sym::choose("when", 3);
        int runs = 0, runs2 = 0;
        if (when == 0) pro(x);
        if (sym::choose("poll", 2)) {
            CHECK(fut.is_ready() == (when == 0), "readiness");
            if (when != 0) CHECK(!std::move(fut).get_try(), "polling before the value gives nothing and keeps the future");
        }
        auto c = then_rv(std::move(fut), how, [&](mo m) { ++runs; return mo(kind<mo>::get(m) + 0); });
        if (when == 1) pro(x);
        auto d = then_rv(std::move(c), how2, [&](mo m) { ++runs2; CHECK(kind<mo>::get(m) == (x ^ k), "second continuation's value"); });
        if (when == 2) {
            CHECK(runs == 0 && Q.empty() && !d.is_ready(), "nothing happens before the value");
            pro(x);
        }
        CHECK(runs == !on_manual(how), "runs on the executor given, and in place on the immediate one");
        CHECK(runs2 == (!on_manual(how) && !on_manual(how2)), "so does the next");
        Q.run_all();
        CHECK(runs == 1 && runs2 == 1, "each continuation runs exactly once");
        CHECK(d.is_ready() && d.get_try() == true, "the chain is ready");
        // taking directly
        auto [p2, f2] = package<mo(int)>(immediate_executor, [](int v) { return mo(v); });
        p2(x);
        if (sym::choose("take", 2)) {
            auto o = std::move(f2).get_try();
            CHECK(o && kind<mo>::get(*o) == x, "polling takes the value");
        } else {
            mo m = std::move(f2).get_ready();
            CHECK(kind<mo>::get(m) == x, "taking gives the value");
        }
        sym::reach("done");
    }
    sym::leaks();
}

ENTRY(a_then_void) { // @A01 reach=done
    {
        int x = sym::i32("x");
        int ran = 0;
        auto [pro, fut] = package<void(int)>(immediate_executor, [&](int v) { ran = v; });
        int how = sym::choose("how", 5), how2 = sym::choose("how2", 5), when = sym::choose("when", 3);
        int runs = 0, runs2 = 0;
        if (when == 0) pro(x);
        CHECK(fut.get_try() == (when == 0), "polling a void future");
        auto c = then_lv(fut, how, [&] { ++runs; return x; });
        if (when == 1) pro(x);
        auto d = then_rv(std::move(fut), how2, [&] { ++runs2; });
        if (when == 2) pro(x);
        Q.run_all();
        CHECK(ran == x && runs == 1 && runs2 == 1, "each continuation of a void future runs exactly once");
        CHECK(c.is_ready() && c.get_ready() == x && d.is_ready(), "results");
        sym::reach("done");
    }
    sym::leaks();
}

// several arguments, async, and long chains
ENTRY(a_async) { // @A01 reach=done
    {
        int x = sym::i32("x"), y = sym::i32("y");
        int calls = 0;
        auto f = stlab::async(Q.executor(), [&](int a, mo b) { ++calls; return a - kind<mo>::get(b); }, x, mo(y));
        CHECK(calls == 0 && !f.is_ready(), "not run before the executor runs it");
        auto g = f.then([](int v) { return v ^ 1; }).then(immediate_executor, [](int v) { return mo(v); });
        auto h = std::move(g).then([](mo m) { return kind<mo>::get(m) ^ 1; });
        Q.run_all();
        CHECK(calls == 1, "async runs the function exactly once");
        CHECK(f.is_ready() && f.get_ready() == (int)((unsigned)x - (unsigned)y), "async result");
        CHECK(h.is_ready() && h.get_ready() == (int)((unsigned)x - (unsigned)y), "chain result");
        auto [pro, fut] = package<int(int, int)>(immediate_executor, [](int a, int b) { return a & b; });
        pro(x, y);
        CHECK(fut.is_ready() && fut.get_ready() == (x & y), "packaged task with two arguments");
        sym::reach("done");
    }
    sym::leaks();
}

// fulfilment races with attaching, copying, polling and dropping
ENTRY(a_race_int) { // @A01,S01 reach=done,polled preempt=3 thorough.preempt=5
    {
        int x = sym::i32("x");
        int runs1 = 0, runs2 = 0;
        auto pf = package<int(int)>(immediate_executor, [](int v) { return v; });
        std::thread t([&, p = std::move(pf.first)]() mutable { p(x); });
        auto fut = std::move(pf.second);
        auto c1 = fut.then([&](int v) { ++runs1; return v ^ 1; });
        auto o = fut.get_try();
        if (o) {
            CHECK(*o == x, "a polled value is the value");
            sym::reach("polled");
        }
        auto c2 = std::move(fut).then([&](int v) { ++runs2; return v ^ 2; });
        t.join();
        CHECK(runs1 == 1 && runs2 == 1, "each continuation runs exactly once");
        CHECK(c1.is_ready() && c1.get_ready() == (x ^ 1), "first continuation's result");
        CHECK(c2.is_ready() && c2.get_ready() == (x ^ 2), "second continuation's result");
        sym::reach("done");
    }
    sym::leaks();
}

ENTRY(a_race_mo) { // @A01,S01 reach=done preempt=3 thorough.preempt=5
    {
        int x = sym::i32("x");
        int runs = 0;
        auto pf = package<mo(int)>(immediate_executor, [](int v) { return mo(v); });
        std::thread t([&, p = std::move(pf.first)]() mutable { p(x); });
        auto c = std::move(pf.second).then([&](mo m) { ++runs; return mo(kind<mo>::get(m) ^ 1); });
        auto d = std::move(c).then([&](mo m) { return kind<mo>::get(m) ^ 2; });
        t.join();
        CHECK(runs == 1 && d.is_ready() && d.get_ready() == (x ^ 3), "the chain delivers once");
        sym::reach("done");
    }
    sym::leaks();
}

// two threads attach to the same future while a third fulfils it
ENTRY(a_race_two) { // @A01,S01 reach=done preempt=2 thorough.preempt=4
    {
        int x = sym::i32("x");
        int runs1 = 0, runs2 = 0, r1 = 0, r2 = 0;
        auto pf = package<int(int)>(immediate_executor, [](int v) { return v; });
        auto fut = pf.second;
        std::thread t([&, p = std::move(pf.first)]() mutable { p(x); });
        std::thread u([&, f = std::move(pf.second)]() mutable {
            auto c = std::move(f).then([&](int v) { ++runs1; r1 = v; });
            c.detach();
        });
        auto c2 = fut.then([&](int v) { ++runs2; r2 = v; return v; });
        fut.reset();
        t.join();
        u.join();
        CHECK(runs1 == 1 && runs2 == 1, "each continuation runs exactly once");
        CHECK(r1 == x && r2 == x && c2.get_ready() == x, "each receives the value");
        sym::reach("done");
    }
    sym::leaks();
}

// readers taking the value concurrently all see it (a copy is never emptied by another handle's move)
ENTRY(a_race_take) { // @A01,S01 reach=done preempt=3
    {
        auto p = std::make_shared<int>(7);
        auto f = stlab::make_ready_future(p, immediate_executor);
        p.reset();
        auto g = f;
        std::shared_ptr<int> a, b;
        std::thread t([&, h = std::move(f)]() mutable { a = std::move(h).get_ready(); });
        b = std::move(g).get_ready();
        t.join();
        CHECK(a && b && a == b && *a == 7, "both holders get the value");
        sym::reach("done");
    }
    sym::leaks();
}

// every way to look at a future while another thread completes it: nothing yet, or the final outcome from then on
namespace {
template <class T>
void race_poll() {
    {
        int x = sym::i32("x"), fail = sym::choose("fail", 2), way = sym::choose("way", 4), again = sym::choose("again", 2);
        auto pf = package<T(int)>(immediate_executor, [&](int v) -> T { if (fail) throw boom{v}; return mk<T>(v); });
        std::thread t([&, p = std::move(pf.first)]() mutable { p(x); });
        auto fut = std::move(pf.second);
        bool taken = false, seen = false;
        auto value = [&](auto&& o) { // an optional, or for void whether it is ready
            if (!o) { CHECK(!seen, "a result that was seen does not go away"); return; }
            CHECK(!fail, "a failed future never yields a value");
            if constexpr (!std::is_void_v<T>) CHECK(is_val(x, *o), "a polled value is the value");
            seen = true;
        };
        auto look = [&](int w) {
            if (taken) return;
            if (w == 0) { bool r = fut.is_ready(); CHECK(r || !seen, "a result that was seen does not go away"); seen |= r; }
            else if (w == 1) {
                bool r = fut.is_ready();
                CHECK(r || !seen, "a result that was seen does not go away");
                seen |= r;
                if (!r) return; // only a ready future may be asked for its exception
                auto e = fut.exception();
                CHECK(!!e == !!fail, "a ready future has an exception iff it failed");
                if (e) CHECK_BOOM(e, x, "the stored exception");
            } else {
                auto e = caught([&] {
                    if (w == 2) value(std::move(fut).get_try());
                    else if constexpr (std::is_same_v<T, mo>) { if (fut.is_ready()) value(std::move(fut).get_try()); }
                    else value(fut.get_try());
                });
                if (e) { CHECK_BOOM(e, x, "polling rethrows the stored exception"); CHECK(fail, "only a failed future throws"); seen = true; }
                if (!fail && seen && w == 2) taken = true;
                if constexpr (std::is_same_v<T, mo>) if (!fail && seen && w == 3) taken = true;
            }
        };
        look(way);
        if (again) look((way + 1) % 4);
        t.join();
        CHECK(fut.is_ready(), "ready in the end");
        seen = true;
        look(2);
        sym::reach("done");
    }
    sym::leaks();
}
} // namespace
ENTRY(a_poll_int) { // @A01,A02,S01 reach=done preempt=2 thorough.preempt=4
    race_poll<cm>();
}
ENTRY(a_poll_mo) { // @A01,A02,S01 reach=done preempt=2 thorough.preempt=4
    race_poll<mo>();
}
ENTRY(a_poll_void) { // @A01,A02,S01 reach=done preempt=2 thorough.preempt=4
    race_poll<void>();
}
