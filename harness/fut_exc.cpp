#include "conc.hpp"
using namespace hc;

namespace {
// taking or polling a failed future rethrows what it holds
template <class T>
void failed(future<T>& f, int v, bool take) {
    CHECK(f.is_ready(), "a failed future is ready");
    CHECK_BOOM(f.exception(), v, "the stored exception can be inspected");
    CHECK(f.error() && hc::what(*f.error()).v == v, "error() gives the stored exception");
    if constexpr (!std::is_same_v<T, mo>) {
        CHECK_BOOM(caught([&] { (void)f.get_try(); }), v, "polling rethrows");
        CHECK_BOOM(caught([&] { (void)f.get_ready(); }), v, "get_ready rethrows");
    }
    if (take) CHECK_BOOM(caught([&] { (void)std::move(f).get_ready(); }), v, "taking rethrows");
    else CHECK_BOOM(caught([&] { (void)std::move(f).get_try(); }), v, "polling an rvalue rethrows");
}

// the result of the packaged function, or its exception, or an exception set from outside, then two value
// continuations on it (one of them followed by a chain of further kinds)
template <class T>
void source_fails() {
    int x = sym::i32("x");
    int src = sym::choose("src", 2); // thrown, set
    int runs = 0;
    auto [pro, fut] = package<T(int)>(immediate_executor, [](int v) -> T { throw boom{v}; });
    int when = sym::choose("when", 3);
    int how1 = sym::choose("how1", 5), how2 = sym::choose("how2", 3);
    bool lv = sym::choose("lv", 2), take = sym::choose("take", 2);
    auto fire = [&] {
        if (src == 0) pro(x);
        else pro.set_exception(std::make_exception_ptr(boom{x}));
    };
    if (when == 0) fire();
    CHECK(fut.is_ready() == (when == 0), "readiness");
    auto c = then_any(fut, lv, how1, [&](auto&&...) { ++runs; return 1; });
    if (when == 1) fire();
    auto d = then_rv(std::move(c), how2, [&](int) { ++runs; return mo(1); });
    auto e = then_rv(std::move(d), 0, [&](mo) { ++runs; });
    if (when == 2) {
        CHECK(!e.is_ready(), "nothing before the failure");
        fire();
    }
    Q.run_all();
    CHECK(runs == 0, "no value continuation runs after a failure");
    failed(e, x, take);
    if constexpr (!std::is_same_v<T, mo>)
        if (lv) failed(fut, x, take);
    sym::reach("done");
}
} // namespace

ENTRY(x_src_int) { // @A02 reach=done
    source_fails<int>();
    sym::leaks();
}
ENTRY(x_src_mo) { // @A02 reach=done
    source_fails<mo>();
    sym::leaks();
}
ENTRY(x_src_void) { // @A02 reach=done
    source_fails<void>();
    sym::leaks();
}

// a chain of three stages; one of them (or none) throws; siblings of the failed stage are unaffected
ENTRY(x_chain) { // @A02 reach=failed,ok
    {
        int x = sym::i32("x"), bad = sym::choose("bad", 5); // 4: none
        int ran[4] = {};
        auto [pro, fut] = package<int(int)>(Q.executor(), [&](int v) { ++ran[0]; if (bad == 0) throw boom{v}; return v; });
        auto a = fut.then([&](int v) { ++ran[1]; if (bad == 1) throw boom{v + 1}; return mo(v); });
        auto sib = fut.then(immediate_executor, [&](int v) { return v ^ 5; });
        auto b = std::move(a).then(immediate_executor, [&](mo m) { ++ran[2]; if (bad == 2) throw boom{kind<mo>::get(m) + 2}; });
        auto c = b.then(Q.executor(), [&] { ++ran[3]; if (bad == 3) throw boom{x + 3}; return x; });
        auto d = c | [&](int v) { return v ^ 7; };
        bool early = sym::choose("early", 2);
        if (!early) { pro(x); Q.run_all(); }
        else { pro(x); while (Q.run_one()) {} }
        for (int i = 0; i < 4; ++i) CHECK(ran[i] == (i <= bad ? 1 : 0), "stages up to the failing one run once, later ones never");
        if (bad < 4) {
            CHECK_BOOM(c.exception(), x + bad, "the failing stage's exception reaches the end of the chain");
            CHECK_BOOM(d.exception(), x + bad, "and every dependent of it");
            CHECK_BOOM(caught([&] { d.get_ready(); }), x + bad, "get_ready rethrows");
            CHECK_BOOM(caught([&] { (void)d.get_try(); }), x + bad, "get_try rethrows");
            sym::reach("failed");
        } else {
            CHECK(d.is_ready() && d.get_ready() == (x ^ 7) && !d.exception(), "no failure, no exception");
            sym::reach("ok");
        }
        if (bad != 0) CHECK(sib.is_ready() && !sib.exception() && sib.get_ready() == (x ^ 5), "a sibling of the failed stage is not affected");
        else CHECK_BOOM(sib.exception(), x, "siblings of a failed source all get its exception");
        CHECK(b.is_ready() && (bad > 2) == !b.exception(), "void stage");
    }
    sym::leaks();
}

// functions given to async
ENTRY(x_async) { // @A02 reach=done
    {
        int x = sym::i32("x");
        int runs = 0;
        auto f = stlab::async(Q.executor(), [&](int v) -> int { throw boom{v}; }, x);
        auto g = stlab::async(Q.executor(), [&](mo v) -> mo { throw boom{kind<mo>::get(v)}; }, mo(x));
        auto h = stlab::async(Q.executor(), [&] { throw boom{x}; });
        auto f2 = f.then([&](int) { ++runs; });
        auto g2 = std::move(g).then([&](mo) { ++runs; return 1; });
        auto h2 = h.then([&] { ++runs; return mo(); });
        CHECK(Q.n == 3, "scheduled once each");
        Q.run_all();
        CHECK(runs == 0, "no value continuation runs");
        failed(f2, x, sym::choose("take", 2));
        failed(g2, x, true);
        failed(h2, x, true);
        sym::reach("done");
    }
    sym::leaks();
}

// failure races with attaching and polling
ENTRY(x_race) { // @A02,S01 reach=done,polled preempt=3 thorough.preempt=5
    {
        int x = sym::i32("x"), runs = 0;
        bool set = sym::choose("set", 2);
        auto pf = package<int(int)>(immediate_executor, [](int v) -> int { throw boom{v}; });
        std::thread t([&, p = std::move(pf.first)]() mutable {
            if (set) p.set_exception(std::make_exception_ptr(boom{x}));
            else p(x);
        });
        auto fut = std::move(pf.second);
        auto c1 = fut.then([&](int v) { ++runs; return v; });
        auto e = caught([&] { CHECK(!fut.get_try(), "a failed future never yields a value"); });
        if (e) {
            CHECK_BOOM(e, x, "polling rethrows the stored exception");
            sym::reach("polled");
        }
        auto c2 = std::move(fut).then([&](int v) { ++runs; return mo(v); });
        t.join();
        CHECK(runs == 0, "no value continuation runs");
        CHECK(c1.is_ready() && c2.is_ready(), "every dependent becomes ready");
        CHECK_BOOM(c1.exception(), x, "first dependent");
        CHECK_BOOM(c2.exception(), x, "second dependent");
        sym::reach("done");
    }
    sym::leaks();
}
ENTRY(x_race_mo) { // @A02,S01 reach=done preempt=3 thorough.preempt=5
    {
        int x = sym::i32("x"), runs = 0;
        auto pf = package<mo(int)>(immediate_executor, [](int v) -> mo { throw boom{v}; });
        std::thread t([&, p = std::move(pf.first)]() mutable { p(x); });
        auto c = std::move(pf.second).then([&](mo m) { ++runs; return m; });
        auto d = std::move(c).then([&](mo) { ++runs; });
        t.join();
        CHECK(runs == 0 && d.is_ready(), "no value continuation runs");
        CHECK_BOOM(d.exception(), x, "the chain fails with the exception");
        sym::reach("done");
    }
    sym::leaks();
}
