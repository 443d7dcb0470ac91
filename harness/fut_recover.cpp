#include "conc.hpp"
using namespace hc;

namespace {
template <class T, class R>
void recovery() {
    int x = sym::i32("x"), y = sym::i32("y");
    int in = sym::choose("in", 4);   // value, thrown, exception set, broken
    int out = sym::choose("out", 2); // recovery returns or throws
    int how = sym::choose("how", 5), lv = sym::choose("lv", 2);
    int when = sym::choose("when", 2);
    int runs = 0, after = 0, afterv = 0;
    auto pf = package<T(int)>(immediate_executor, [&](int v) -> T { if (in == 1) throw boom{v}; return mk<T>(v); });
    auto fut = std::move(pf.second);
    auto fire = [&] {
        if (in == 3) { auto drop = std::move(pf.first); }
        else if (in == 2) pf.first.set_exception(std::make_exception_ptr(boom{x}));
        else pf.first(x);
    };
    if (when == 0) fire();
    auto rec = [&](future<T> f) -> R {
        ++runs;
        CHECK(f.valid() && f.is_ready(), "recovery receives a ready future");
        CHECK(static_cast<bool>(f.exception()) == (in != 0), "recovery sees value or exception");
        if (in == 0) {
            if constexpr (std::is_void_v<T>) std::move(f).get_ready();
            else CHECK(is_val(x, std::move(f).get_ready()), "recovery sees the value");
        } else if (in == 3) CHECK_BROKEN(f.exception(), "recovery sees the broken promise");
        else CHECK_BOOM(f.exception(), x, "recovery sees the exception");
        if (out == 1) throw boom{y};
        return mk<R>(y);
    };
    auto c = rec_any(fut, lv, how, rec);
    auto d = then_any(c, lv, 0, [&](auto&&... v) { ++after; CHECK(is_val(y, v...), "the chain restarts with the recovery's value"); return 3; });
    if (when == 1) {
        CHECK(runs == 0 && Q.empty() && !c.is_ready(), "recovery waits for its input");
        fire();
    }
    CHECK(Q.n == (on_manual(how) ? 1 : 0), "scheduled once, on the executor given");
    CHECK(runs == !on_manual(how), "runs on the executor given, and in place on the immediate one");
    Q.run_all();
    CHECK(runs == 1, "recovery runs exactly once");
    CHECK(d.is_ready(), "the continued chain is ready");
    if (out == 1) {
        CHECK(after == 0, "a value continuation does not follow a failed recovery");
        CHECK_BOOM(d.exception(), y, "the recovery's own exception is the outcome");
    } else {
        CHECK(after == 1 && !d.exception() && d.get_ready() == 3, "the recovery's result is the outcome");
    }
    sym::reach("done");
}
} // namespace

ENTRY(r_int_int) { // @A03 reach=done
    recovery<cm, cm>();
    sym::leaks();
}
ENTRY(r_mo_void) { // @A03 reach=done
    recovery<mo, void>();
    sym::leaks();
}
ENTRY(r_void_mo) { // @A03 reach=done
    recovery<void, mo>();
    sym::leaks();
}

// recover in the middle of a chain, twice, and values pass through
ENTRY(r_chain) { // @A03 reach=done
    {
        int x = sym::i32("x"), bad = sym::choose("bad", 3);
        int ran[6] = {};
        auto [pro, fut] = package<int(int)>(immediate_executor, [&](int v) { if (bad == 0) throw boom{v}; return v; });
        auto m1 = std::move(fut)
                  | [&](int v) { ++ran[0]; if (bad == 1) throw boom{v}; return mo(v); }
                  | [&](mo m) { ++ran[1]; return kind<mo>::get(m); };
        auto m2 = std::move(m1) ^ [&](future<int> f) { ++ran[2]; return f.exception() ? what(f.exception()).v ^ 1 : f.get_ready() ^ 2; };
        auto m3 = m2 | [&](int v) { ++ran[3]; return v ^ 4; };
        auto last = m3 ^ [&](future<int> f) { ++ran[4]; CHECK(!f.exception(), "already recovered"); return *f.get_try(); };
        pro(x);
        CHECK(ran[0] == (bad != 0) && ran[1] == (bad == 2), "value stages run only on values");
        CHECK(ran[2] == 1 && ran[3] == 1 && ran[4] == 1, "recovery stages and what follows run once");
        CHECK(last.is_ready() && last.get_ready() == (bad == 2 ? x ^ 2 ^ 4 : x ^ 1 ^ 4), "outcome of the chain");
        sym::reach("done");
    }
    sym::leaks();
}

// several recoveries and values on one shared source
ENTRY(r_shared) { // @A03 reach=done
    {
        int x = sym::i32("x"), fail = sym::choose("fail", 2), when = sym::choose("when", 3);
        int a = 0, b = 0, c = 0;
        auto [pro, fut] = package<int(int)>(immediate_executor, [&](int v) -> int { if (fail) throw boom{v}; return v; });
        if (when == 0) pro(x);
        auto f1 = fut.recover([&](future<int> f) { ++a; CHECK(f.is_ready(), "ready"); return 1; });
        if (when == 1) pro(x);
        auto f2 = fut ^ [&](future<int> f) { ++b; if (f.exception()) std::rethrow_exception(f.exception()); return *f.get_try(); };
        auto f3 = fut | [&](int) { ++c; };
        if (when == 2) pro(x);
        CHECK(a == 1 && b == 1 && c == !fail, "each runs once");
        CHECK(f1.get_ready() == 1, "first");
        if (fail) { CHECK_BOOM(f2.exception(), x, "rethrown by the recovery"); CHECK_BOOM(f3.exception(), x, "sibling value continuation"); }
        else CHECK(f2.get_ready() == x && f3.is_ready() && !f3.exception(), "values");
        sym::reach("done");
    }
    sym::leaks();
}

ENTRY(r_race) { // @A03,S01 reach=done preempt=3 thorough.preempt=5
    {
        int x = sym::i32("x"), runs = 0, in = sym::choose("in", 3);
        auto pf = package<mo(int)>(immediate_executor, [&](int v) -> mo { if (in == 1) throw boom{v}; return mo(v); });
        std::thread t([&, p = std::move(pf.first)]() mutable { if (in != 2) p(x); });
        auto c = std::move(pf.second).recover([&](future<mo> f) {
            ++runs;
            CHECK(f.is_ready(), "recovery receives a ready future");
            if (in == 0) return kind<mo>::get(*std::move(f).get_try());
            if (in == 2) CHECK_BROKEN(f.exception(), "broken");
            else CHECK_BOOM(f.exception(), x, "thrown");
            return x;
        });
        t.join();
        CHECK(runs == 1 && c.is_ready() && c.get_ready() == x, "recovered once");
        sym::reach("done");
    }
    sym::leaks();
}
