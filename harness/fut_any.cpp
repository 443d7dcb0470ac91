#include "plan.hpp"
using namespace hc;

namespace {
// shared by the range and the tuple form. get(i) fulfils input i.
struct expect {
    int seq[4], win, lastfail;
    expect(const plan& P, int upto) {
        int k = P.arrival(seq);
        win = -1, lastfail = -1;
        int fails = 0;
        for (int i = 0; i < k && i < upto; ++i) {
            if (P.out[seq[i]] == 0) { if (win < 0) win = i; }
            else if (++fails == P.n) lastfail = seq[i];
        }
    }
    bool done() const { return win >= 0 || lastfail >= 0; }
};
template <class A>
void verdict(const plan& P, const expect& e, int calls, A& any, int fthrow) {
    CHECK(any.is_ready(), "the combined future is ready");
    if (e.win >= 0) {
        CHECK(calls == 1, "the continuation runs exactly once");
        if (fthrow) CHECK_BOOM(any.exception(), 77, "its own exception");
        else CHECK(!any.exception() && any.get_ready() == 42, "its result");
        sym::reach("value");
    } else {
        CHECK(calls == 0, "the continuation does not run when all inputs failed");
        if (P.out[e.lastfail] == 2) CHECK_BROKEN(any.exception(), "the last failure");
        else CHECK_BOOM(any.exception(), P.x[e.lastfail], "the last failure");
        sym::reach("failed");
    }
}
template <class T>
void any_n(int n, int nout, bool range) {
    {
        plan P(n, nout);
        std::vector<stlab::packaged_task<int>> pro(n);
        std::vector<future<T>> in(n);
        int tk[4] = {}, ran[4] = {};
        for (int i = 0; i < n; ++i) {
            auto pf = package<T(int)>(immediate_executor, [&ran, &P, i, t = token(&tk[i])](int v) -> T {
                ++ran[i];
                if (P.out[i] == 1) throw boom{v};
                return mk<T>(v);
            });
            pro[i] = std::move(pf.first);
            in[i] = std::move(pf.second);
        }
        for (int i = 0; i < P.pre; ++i) P.fire(pro[P.order[i]], P.order[i]);
        int calls = 0, fthrow = sym::choose("fthrow", 2);
        auto f = [&](auto&&... v) -> int {
            ++calls;
            expect e(P, n);
            CHECK(e.win >= 0, "the continuation runs only when an input has a value");
            auto idx = [&](std::size_t i) { CHECK((int)i == e.seq[e.win], "the index of the first input to succeed"); };
            if constexpr (std::is_void_v<T>) (idx(v), ...);
            else [&](auto&& val, std::size_t i) {
                idx(i);
                CHECK(is_val(P.x[e.seq[e.win]], val), "the value of the first input to succeed");
            }(std::forward<decltype(v)>(v)...);
            if (fthrow) throw boom{77};
            return 42;
        };
        future<int> any;
        if (range) any = stlab::when_any(ex(P), decltype(f)(f), std::make_pair(in.begin(), in.end()));
        else if (n == 1) any = stlab::when_any(ex(P), decltype(f)(f), std::move(in[0]));
        else if (n == 2) any = stlab::when_any(ex(P), decltype(f)(f), std::move(in[0]), std::move(in[1]));
        else any = stlab::when_any(ex(P), decltype(f)(f), std::move(in[0]), std::move(in[1]), std::move(in[2]));
        in.clear();
        if (!P.lazy) Q.run_all();
        for (int i = P.pre; i < n; ++i) {
            if (!P.lazy) {
                expect e(P, i);
                CHECK(any.is_ready() == e.done() && calls == (e.win >= 0), "ready as soon as one succeeded or all failed");
            }
            P.fire(pro[P.order[i]], P.order[i]);
            if (!P.lazy) Q.run_all();
        }
        Q.run_all();
        expect e(P, n);
        verdict(P, e, calls, any, fthrow);
        for (int i = 0; i < n; ++i) CHECK(ran[i] <= 1, "inputs run at most once");
        any.reset();
        for (int i = 0; i < n; ++i) CHECK(tk[i] == 0, "everything is released");
    }
    sym::leaks();
}
} // namespace
ENTRY(wy_range_int) { // @A08 reach=value,failed
    any_n<cm>(1 + sym::choose("n", 2), 3, true);
}
ENTRY(wy_range_mo) { // @A08 reach=value,failed
    any_n<mo>(1 + sym::choose("n", 2), 3, true);
}
ENTRY(wy_range_void) { // @A08 reach=value,failed
    any_n<void>(1 + sym::choose("n", 2), 3, true);
}
ENTRY(wy_range_3) { // @A08 reach=value,failed weight=3 parts=2
    any_n<cm>(3, 2, true);
}
ENTRY(wy_tuple_int) { // @A08 reach=value,failed
    any_n<cm>(1 + sym::choose("n", 2), 3, false);
}
ENTRY(wy_tuple_mo) { // @A08 reach=value,failed
    any_n<mo>(1 + sym::choose("n", 2), 3, false);
}
ENTRY(wy_tuple_void) { // @A08 reach=value,failed
    any_n<void>(1 + sym::choose("n", 2), 3, false);
}
ENTRY(wy_tuple_3) { // @A08 reach=value,failed weight=3 parts=2
    any_n<mo>(3, 2, false);
}
ENTRY(wy_tuple_3v) { // @A08 reach=value,failed weight=3 parts=2
    any_n<void>(3, 2, false);
}

ENTRY(wy_empty) { // @A08 reach=done
    {
        std::vector<future<int>> a;
        std::vector<future<void>> b;
        std::vector<future<mo>> c;
        int calls = 0;
        auto x = stlab::when_any(immediate_executor, [&](int, std::size_t) { ++calls; return 1; }, std::make_pair(a.begin(), a.end()));
        auto y = stlab::when_any(Q.executor(), [&](std::size_t) { ++calls; }, std::make_pair(b.begin(), b.end()));
        auto z = stlab::when_any(Q.executor(), [&](mo m, std::size_t) { ++calls; return m; }, std::make_pair(c.begin(), c.end()));
        Q.run_all();
        CHECK(calls == 0 && x.is_ready() && y.is_ready() && z.is_ready(), "ready without a call");
        CHECK_BROKEN(x.exception(), "broken promise");
        CHECK_BROKEN(y.exception(), "broken promise");
        CHECK_BROKEN(z.exception(), "broken promise");
        auto n = x.then([&](int) { ++calls; return 1; });
        CHECK(calls == 0 && n.is_ready(), "continuations of it fail too");
        CHECK_BROKEN(n.exception(), "broken promise");
        sym::reach("done");
    }
    sym::leaks();
}

// any executor works, given as an rvalue, an lvalue, type-erased or not
ENTRY(wy_exec) { // @A08 reach=done
    {
        int x = sym::i32("x"), kind_ = sym::choose("kind", 3), win = sym::choose("win", 3), calls = 0;
        std::size_t got = 9;
        auto mkv = [&](int i) { return package<void(int)>(immediate_executor, [](int) {}); };
        auto mki = [&](int i) { return package<int(int)>(immediate_executor, [](int v) { return v; }); };
        int voids = sym::choose("void", 2);
        if (voids) {
            auto a = mkv(0), b = mkv(1), c = mkv(2);
            auto f = [&](std::size_t i) { ++calls; got = i; return 1; };
            future<int> any;
            auto e0 = caught([&] {
                stlab::executor_t e = Q.executor();
                if (kind_ == 0) any = stlab::when_any(std::move(e), decltype(f)(f), std::move(a.second), std::move(b.second), std::move(c.second));
                else if (kind_ == 1) any = stlab::when_any(e, decltype(f)(f), std::move(a.second), std::move(b.second), std::move(c.second));
                else any = stlab::when_any(Q.executor(), decltype(f)(f), std::move(a.second), std::move(b.second), std::move(c.second));
            });
            CHECK(!e0, "combining does not fail");
            (win == 0 ? a : win == 1 ? b : c).first(x);
            auto e1 = caught([&] { Q.run_all(); });
            CHECK(!e1 && calls == 1 && got == win, "the winner's index, whatever the executor");
        } else {
            auto a = mki(0), b = mki(1), c = mki(2);
            auto f = [&](int v, std::size_t i) { ++calls; got = i; CHECK(v == x, "value"); return 1; };
            future<int> any;
            auto e0 = caught([&] {
                stlab::executor_t e = Q.executor();
                if (kind_ == 0) any = stlab::when_any(std::move(e), decltype(f)(f), std::move(a.second), std::move(b.second), std::move(c.second));
                else if (kind_ == 1) any = stlab::when_any(e, decltype(f)(f), std::move(a.second), std::move(b.second), std::move(c.second));
                else any = stlab::when_any(Q.executor(), decltype(f)(f), std::move(a.second), std::move(b.second), std::move(c.second));
            });
            CHECK(!e0, "combining does not fail");
            (win == 0 ? a : win == 1 ? b : c).first(x);
            auto e1 = caught([&] { Q.run_all(); });
            CHECK(!e1 && calls == 1 && got == win, "the winner's index, whatever the executor");
        }
        Q.drop_all();
        sym::reach("done");
    }
    sym::leaks();
}

// the winner releases another input's function which holds the task of a third input
ENTRY(wy_reenter) { // @A08,S01 reach=done
    {
        int form = sym::choose("form", 3), x = sym::i32("x"), calls = 0;
        if (form < 2) {
            auto a = package<int(int)>(immediate_executor, [](int v) { return v; });
            auto c = package<int(int)>(immediate_executor, [](int v) { return v; });
            auto b = package<int(int)>(immediate_executor, [p = std::move(c.first)](int v) mutable { p(v); return v; });
            future<int> any;
            auto f = [&](int v, std::size_t i) { ++calls; CHECK(v == x && i == 0, "winner"); return 1; };
            if (form) {
                std::vector<future<int>> v{std::move(a.second), std::move(b.second), std::move(c.second)};
                any = stlab::when_any(immediate_executor, decltype(f)(f), std::make_pair(v.begin(), v.end()));
            } else
                any = stlab::when_any(immediate_executor, decltype(f)(f), std::move(a.second), std::move(b.second), std::move(c.second));
            a.first(x);
            CHECK(calls == 1 && any.is_ready() && any.get_ready() == 1, "one winner");
            b.first(x);
        } else {
            // the combined future's continuation fulfils another input
            auto a = package<void(int)>(immediate_executor, [](int) { throw boom{1}; });
            auto b = package<void(int)>(immediate_executor, [&](int v) { throw boom{v}; });
            auto any = stlab::when_any(immediate_executor, [&](std::size_t) { ++calls; }, std::move(a.second), std::move(b.second));
            int seen = 0;
            auto end = std::move(any).recover([&](future<void> f) { ++seen; CHECK_BOOM(f.exception(), x, "last failure"); a.first(3); });
            a.first(x);
            b.first(x);
            CHECK(calls == 0 && seen == 1 && end.is_ready(), "failed once");
        }
        sym::reach("done");
    }
    sym::leaks();
}

namespace {
template <class T>
void any_race(bool range) {
    {
        int x[2] = {sym::i32("x0"), sym::i32("x1")};
        int out[2] = {(int)sym::choose("out0", 2), (int)sym::choose("out1", 2)};
        int calls = 0;
        auto mkp = [&](int i) { return package<T(int)>(immediate_executor, [&out, i](int v) -> T { if (out[i]) throw boom{v}; return mk<T>(v); }); };
        auto a = mkp(0), b = mkp(1);
        std::thread t([&, p = std::move(a.first)]() mutable { p(x[0]); });
        std::thread u([&, p = std::move(b.first)]() mutable { p(x[1]); });
        future<int> any;
        auto f = [&](auto&&... v) {
            ++calls;
            if constexpr (std::is_void_v<T>) (CHECK(v < 2 && !out[v], "index of an input that succeeded"), ...);
            else [&](auto&& val, std::size_t i) { CHECK(i < 2 && !out[i] && is_val(x[i], val), "value and index of an input that succeeded"); }(std::forward<decltype(v)>(v)...);
            return 1;
        };
        if (range) {
            std::vector<future<T>> v;
            v.push_back(std::move(a.second));
            v.push_back(std::move(b.second));
            any = stlab::when_any(immediate_executor, decltype(f)(f), std::make_pair(v.begin(), v.end()));
        } else
            any = stlab::when_any(immediate_executor, decltype(f)(f), std::move(a.second), std::move(b.second));
        t.join();
        u.join();
        CHECK(any.is_ready(), "ready");
        if (out[0] && out[1]) {
            auto o = what(any.exception());
            CHECK(calls == 0 && o.has && !o.broken && (o.v == x[0] || o.v == x[1]), "a failure");
            sym::reach("failed");
        } else {
            CHECK(calls == 1 && !any.exception() && any.get_ready() == 1, "once");
            sym::reach("value");
        }
    }
    sym::leaks();
}
} // namespace
ENTRY(wy_race_tuple) { // @A08,S01 reach=value,failed preempt=1 thorough.preempt=2 parts=4
    any_race<int>(false);
}
ENTRY(wy_race_range) { // @A08,S01 reach=value,failed preempt=1 thorough.preempt=2 parts=4
    any_race<mo>(true);
}
ENTRY(wy_race_void) { // @A08,S01 reach=value,failed preempt=1 thorough.preempt=2 parts=4
    any_race<void>(false);
}
