#include "plan.hpp"
using namespace hc;

namespace {
template <class T>
void all_range(int n, int nout) {
    {
        plan P(n, nout);
        using task_t = stlab::packaged_task<int>;
        std::vector<task_t> pro(n);
        std::vector<future<T>> in(n);
        int ran[4] = {}, tk[4] = {};
        for (int i = 0; i < n; ++i) {
            auto pf = package<T(int)>(immediate_executor, [&ran, &P, i, t = token(&tk[i])](int v) -> T {
                ++ran[i];
                if (P.out[i] == 1) throw boom{v};
                return mk<T>(v);
            });
            pro[i] = std::move(pf.first);
            in[i] = std::move(pf.second);
        }
        for (int i = 0; i < P.pre; ++i) P.fire(pro[P.order[i]], P.order[i]);
        int calls = 0, fthrow = sym::choose("fthrow", 2);
        auto f = [&](auto&&... v) {
            ++calls;
            for (int i = 0; i < n; ++i) CHECK(P.out[i] == 0, "the continuation runs only when every input has a value");
            if constexpr (!std::is_void_v<T>) {
                auto one = [&](const std::vector<T>& r) {
                    CHECK((int)r.size() == n, "one element per input");
                    for (int i = 0; i < n; ++i) CHECK(is_val(P.x[i], r[i]), "each input's value in its own position");
                };
                (one(v), ...);
            }
            if (fthrow) throw boom{77};
            return 42;
        };
        auto all = stlab::when_all(ex(P), f, std::make_pair(in.begin(), in.end()));
        in.clear();
        if (!P.lazy) Q.run_all();
        int seq[4];
        P.arrival(seq);
        int first = n;
        for (int i = n - 1; i >= 0; --i) if (P.out[seq[i]]) first = i;
        for (int i = P.pre; i < n; ++i) {
            if (!P.lazy) {
                bool done = first < i;
                CHECK(all.is_ready() == done, "ready when the last value or the first failure arrived");
                CHECK(calls == 0, "not before the last value");
            }
            P.fire(pro[P.order[i]], P.order[i]);
            if (!P.lazy) Q.run_all();
        }
        Q.run_all();
        CHECK(all.is_ready(), "the combined future is ready");
        if (first == n) {
            CHECK(calls == 1, "the continuation runs exactly once");
            if (fthrow) CHECK_BOOM(all.exception(), 77, "the continuation's own exception");
            else CHECK(!all.exception() && all.get_ready() == 42, "the continuation's result");
            sym::reach("value");
        } else {
            CHECK(calls == 0, "the continuation does not run after a failure");
            if (P.out[seq[first]] == 2) CHECK_BROKEN(all.exception(), "the first failure to arrive");
            else CHECK_BOOM(all.exception(), P.x[seq[first]], "the first failure to arrive");
            sym::reach("failed");
        }
        for (int i = 0; i < n; ++i) CHECK(ran[i] <= 1, "inputs run at most once");
        all.reset();
        for (int i = 0; i < n; ++i) CHECK(tk[i] == 0, "everything is released");
    }
    sym::leaks();
}
} // namespace

ENTRY(wa_range0) { // @A07 reach=value
    all_range<cm>(0, 1);
}
ENTRY(wa_range0v) { // @A07 reach=value
    all_range<void>(0, 1);
}
ENTRY(wa_range0m) { // @A07 reach=value
    all_range<mo>(0, 1);
}
ENTRY(wa_range_int) { // @A07 reach=value,failed
    all_range<cm>(1 + sym::choose("n", 2), 3);
}
ENTRY(wa_range_mo) { // @A07 reach=value,failed
    all_range<mo>(1 + sym::choose("n", 2), 3);
}
ENTRY(wa_range_void) { // @A07 reach=value,failed
    all_range<void>(1 + sym::choose("n", 2), 3);
}
ENTRY(wa_range_3) { // @A07 reach=value,failed weight=3
    all_range<cm>(3, 2);
}

namespace {
// mixed kinds: the void inputs contribute nothing
void all_tuple(int nout) {
    {
        plan P(4, nout);
        int calls = 0, fthrow = sym::choose("fthrow", 2);
        auto a = package<int(int)>(immediate_executor, [&](int v) -> int { if (P.out[0] == 1) throw boom{v}; return v; });
        auto b = package<void(int)>(immediate_executor, [&](int v) { if (P.out[1] == 1) throw boom{v}; });
        auto c = package<mo(int)>(immediate_executor, [&](int v) -> mo { if (P.out[2] == 1) throw boom{v}; return mo(v); });
        auto d = package<long(int)>(immediate_executor, [&](int v) -> long { if (P.out[3] == 1) throw boom{v}; return v; });
        auto fire = [&](int i) {
            if (i == 0) P.fire(a.first, 0);
            else if (i == 1) P.fire(b.first, 1);
            else if (i == 2) P.fire(c.first, 2);
            else P.fire(d.first, 3);
        };
        for (int i = 0; i < P.pre; ++i) fire(P.order[i]);
        auto all = stlab::when_all(ex(P), [&](int x0, const mo& x2, long x3) {
            ++calls;
            CHECK(!P.out[0] && !P.out[1] && !P.out[2] && !P.out[3], "only when every input has a value");
            CHECK(x0 == P.x[0] && kind<mo>::get(x2) == P.x[2] && x3 == P.x[3], "each value in its own position");
            if (fthrow) throw boom{77};
            return mo(x0);
        }, std::move(a.second), std::move(b.second), std::move(c.second), std::move(d.second));
        if (!P.lazy) Q.run_all();
        int seq[4];
        P.arrival(seq);
        int first = 4;
        for (int i = 3; i >= 0; --i) if (P.out[seq[i]]) first = i;
        for (int i = P.pre; i < 4; ++i) {
            if (!P.lazy) CHECK(all.is_ready() == (first < i) && calls == 0, "ready when the last value or the first failure arrived");
            fire(P.order[i]);
            if (!P.lazy) Q.run_all();
        }
        Q.run_all();
        CHECK(all.is_ready(), "the combined future is ready");
        if (first == 4) {
            CHECK(calls == 1, "the continuation runs exactly once");
            if (fthrow) CHECK_BOOM(all.exception(), 77, "its own exception");
            else CHECK(kind<mo>::get(std::move(all).get_ready()) == P.x[0], "its result");
            sym::reach("value");
        } else {
            CHECK(calls == 0, "the continuation does not run after a failure");
            if (P.out[seq[first]] == 2) CHECK_BROKEN(all.exception(), "the first failure to arrive");
            else CHECK_BOOM(all.exception(), P.x[seq[first]], "the first failure to arrive");
            sym::reach("failed");
        }
    }
    sym::leaks();
}
} // namespace
ENTRY(wa_tuple) { // @A07 reach=value,failed parts=4
    all_tuple(2);
}
ENTRY(wa_tuple_all) { // @A07 reach=value,failed parts=8 tier=thorough
    all_tuple(3);
}

// other shapes of tuples
ENTRY(wa_shapes) { // @A07 reach=done
    {
        int x = sym::i32("x"), y = sym::i32("y"), fail = sym::choose("fail", 3);
        auto a = package<void(int)>(immediate_executor, [&](int v) { if (fail == 1) throw boom{v}; });
        auto b = package<void(int)>(immediate_executor, [&](int v) { if (fail == 2) throw boom{v}; });
        int calls = 0, calls2 = 0, calls3 = 0;
        auto both = stlab::when_all(immediate_executor, [&] { ++calls; }, a.second, b.second);
        auto one = stlab::when_all(Q.executor(), [&] { ++calls2; return x; }, a.second);
        auto m = package<mo(int)>(immediate_executor, [](int v) { return mo(v); });
        auto o = stlab::when_all(immediate_executor, [&](mo v) { ++calls3; return mo(kind<mo>::get(v)); }, std::move(m.second), b.second);
        int order = sym::choose("order", 2);
        if (order) { m.first(y); a.first(x); b.first(y); }
        else { b.first(y); a.first(x); m.first(y); }
        Q.run_all();
        CHECK(calls == (fail == 0) && both.is_ready(), "all void");
        CHECK(calls2 == (fail != 1) && one.is_ready(), "a single input");
        CHECK(calls3 == (fail != 2) && o.is_ready(), "move-only and void");
        if (fail == 0) CHECK(!both.exception(), "no failure");
        else CHECK_BOOM(both.exception(), fail == 1 ? x : y, "the failure");
        if (fail == 1) CHECK_BOOM(one.exception(), x, "the failure");
        else CHECK(one.get_ready() == x, "result");
        if (fail == 2) CHECK_BOOM(o.exception(), y, "the failure");
        else CHECK(kind<mo>::get(std::move(o).get_ready()) == y, "result");
        sym::reach("done");
    }
    sym::leaks();
}

// dropping the combined future cancels inputs nobody else depends on; a failure cancels the others
ENTRY(wa_cancel) { // @A07,A04 reach=done
    {
        int x = sym::i32("x"), range = sym::choose("range", 2), keep = sym::choose("keep", 2), how = sym::choose("how", 2);
        int tk[3] = {}, ran[3] = {}, calls = 0;
        auto mkp = [&](int i) {
            return package<int(int)>(immediate_executor, [&ran, &how, i, t = token(&tk[i])](int v) -> int { ++ran[i]; if (how && i == 0) throw boom{v}; return v; });
        };
        auto a = mkp(0), b = mkp(1), c = mkp(2);
        future<int> side = b.second;
        if (!keep) side.reset();
        future<int> all;
        if (range) {
            std::vector<future<int>> v{std::move(a.second), std::move(b.second), std::move(c.second)};
            all = stlab::when_all(immediate_executor, [&](const std::vector<int>&) { ++calls; return 1; }, std::make_pair(v.begin(), v.end()));
        } else
            all = stlab::when_all(immediate_executor, [&](int, int, int) { ++calls; return 1; }, std::move(a.second), std::move(b.second), std::move(c.second));
        CHECK(tk[0] == 1 && tk[1] == 1 && tk[2] == 1, "pending");
        if (how == 0) {
            c.first(x);
            all.reset();
            CHECK(tk[0] == 0, "inputs are cancelled with the combination");
        } else {
            a.first(x);
            CHECK_BOOM(all.exception(), x, "failed");
            all.reset();
        }
        CHECK(tk[1] == keep, "an input somebody depends on stays");
        a.first(x);
        b.first(x);
        c.first(x);
        CHECK(calls == 0 && ran[1] == keep && tk[0] + tk[1] + tk[2] == 0, "cancelled inputs do not run");
        if (keep) CHECK(side.is_ready() && side.get_ready() == x, "kept input");
        sym::reach("done");
    }
    sym::leaks();
}

// the failure of one input releases another input's function which holds the task of a third input
ENTRY(wa_reenter) { // @A07,S01 reach=done
    {
        int range = sym::choose("range", 2), x = sym::i32("x");
        auto a = package<int(int)>(immediate_executor, [](int v) -> int { throw boom{v}; });
        auto c = package<int(int)>(immediate_executor, [](int v) { return v; });
        auto b = package<int(int)>(immediate_executor, [p = std::move(c.first)](int v) mutable { p(v); return v; });
        int calls = 0;
        future<int> all;
        if (range) {
            std::vector<future<int>> v{std::move(a.second), std::move(b.second), std::move(c.second)};
            all = stlab::when_all(immediate_executor, [&](const std::vector<int>&) { ++calls; return 1; }, std::make_pair(v.begin(), v.end()));
        } else
            all = stlab::when_all(immediate_executor, [&](int, int, int) { ++calls; return 1; }, std::move(a.second), std::move(b.second), std::move(c.second));
        a.first(x);
        CHECK(calls == 0 && all.is_ready(), "failed");
        CHECK_BOOM(all.exception(), x, "with the first failure");
        b.first(x);
        sym::reach("done");
    }
    sym::leaks();
}

namespace {
template <class T>
void all_race(bool range) {
    {
        int x[2] = {sym::i32("x0"), sym::i32("x1")};
        int out[2] = {(int)sym::choose("out0", 2), (int)sym::choose("out1", 2)};
        int calls = 0;
        auto mkp = [&](int i) { return package<T(int)>(immediate_executor, [&out, i](int v) -> T { if (out[i]) throw boom{v}; return mk<T>(v); }); };
        auto a = mkp(0), b = mkp(1);
        std::thread t([&, p = std::move(a.first)]() mutable { p(x[0]); });
        std::thread u([&, p = std::move(b.first)]() mutable { p(x[1]); });
        future<int> all;
        if (range) {
            std::vector<future<T>> v;
            v.push_back(std::move(a.second));
            v.push_back(std::move(b.second));
            all = stlab::when_all(immediate_executor, [&](const std::vector<T>& r) {
                ++calls;
                CHECK(r.size() == 2 && is_val(x[0], r[0]) && is_val(x[1], r[1]), "values in position");
                return 1;
            }, std::make_pair(v.begin(), v.end()));
        } else
            all = stlab::when_all(immediate_executor, [&](const T& r0, const T& r1) {
                ++calls;
                CHECK(is_val(x[0], r0) && is_val(x[1], r1), "values in position");
                return 1;
            }, std::move(a.second), std::move(b.second));
        t.join();
        u.join();
        CHECK(all.is_ready(), "ready");
        if (out[0] || out[1]) {
            CHECK(calls == 0, "not after a failure");
            auto o = what(all.exception());
            CHECK(o.has && !o.broken && ((out[0] && o.v == x[0]) || (out[1] && o.v == x[1])), "one of the failures");
            sym::reach("failed");
        } else {
            CHECK(calls == 1 && !all.exception() && all.get_ready() == 1, "once");
            sym::reach("value");
        }
    }
    sym::leaks();
}
} // namespace
ENTRY(wa_race_tuple) { // @A07,S01 reach=value,failed preempt=1 thorough.preempt=2 parts=4
    all_race<int>(false);
}
ENTRY(wa_race_range) { // @A07,S01 reach=value,failed preempt=1 thorough.preempt=2 parts=4
    all_race<mo>(true);
}
// the combination is dropped while its inputs arrive
ENTRY(wa_race_drop) { // @A07,S01 reach=ran,cancelled preempt=1 thorough.preempt=3
    {
        int x = sym::i32("x"), calls = 0, range = sym::choose("range", 2), fail = sym::choose("fail", 2);
        auto a = package<int(int)>(immediate_executor, [&](int v) -> int { if (fail) throw boom{v}; return v; });
        auto b = package<int(int)>(immediate_executor, [](int v) { return v; });
        future<int> all;
        if (range) {
            std::vector<future<int>> v{std::move(a.second), std::move(b.second)};
            all = stlab::when_all(immediate_executor, [&](const std::vector<int>&) { ++calls; return 1; }, std::make_pair(v.begin(), v.end()));
        } else
            all = stlab::when_all(immediate_executor, [&](int, int) { ++calls; return 1; }, std::move(a.second), std::move(b.second));
        std::thread t([&, p = std::move(a.first)]() mutable { p(x); });
        std::thread u([&, p = std::move(b.first)]() mutable { p(x); });
        all.reset();
        t.join();
        u.join();
        CHECK(calls <= 1, "at most once");
        sym::reach(calls ? "ran" : "cancelled");
    }
    sym::leaks();
}
