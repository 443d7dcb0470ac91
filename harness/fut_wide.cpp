// Larger sizes of what the fut_* harnesses check in full for small ones: positions, orders and failing
// places up to 8 inputs or 10 steps.
#include "conc.hpp"
#include <array>
using namespace hc;

namespace {
// order of arrival: rotations of the input order, forward or backward
struct wide {
    static constexpr int MAX = 8;
    int n, pre, qd, order[MAX], x[MAX], seq[MAX];
    int odd, kind_; // one input that differs from the others (n: none), and how: 1 fails, 2 is abandoned
    explicit wide(int n_, bool with_pre = true) : n(n_) {
        int rot = sym::choose("rot", n), back = sym::choose("back", 2);
        for (int i = 0; i < n; ++i) {
            int k = (i + rot) % n;
            order[i] = back ? n - 1 - k : k;
            x[i] = sym::i32("x");
        }
        odd = sym::choose("odd", n + 1);
        kind_ = odd == n ? 0 : 1 + sym::choose("kind", 2);
        pre = with_pre ? sym::choose("pre", 3) : 0; // none, half, all of them before the combination is made
        pre = pre == 2 ? n : pre == 1 ? n / 2 : 0;
        qd = sym::choose("queued", 2);
        bool early[MAX] = {};
        int k = 0;
        for (int i = 0; i < pre; ++i) early[order[i]] = true;
        for (int i = 0; i < n; ++i) if (early[i]) seq[k++] = i;
        for (int i = pre; i < n; ++i) seq[k++] = order[i];
    }
    template <class P>
    void fire(P& p, int i, bool fails) const {
        if (fails && kind_ == 2) { auto gone = std::move(p); }
        else p(x[i]);
    }
};
auto ex(const wide& w) {
    return stlab::executor_t([q = w.qd](ctask&& t) { if (q) Q.executor()(std::move(t)); else stlab::immediate_executor(std::move(t)); });
}
template <class T>
struct inputs {
    std::vector<stlab::packaged_task<int>> pro;
    std::vector<future<T>> in;
    int ran[wide::MAX] = {}, tk[wide::MAX] = {};
    bool fails[wide::MAX] = {};
    explicit inputs(int n) : pro(n), in(n) {
        for (int i = 0; i < n; ++i) {
            auto pf = package<T(int)>(immediate_executor, [this, i, t = token(&tk[i])](int v) -> T {
                ++ran[i];
                if (fails[i]) throw boom{v};
                return mk<T>(v);
            });
            pro[i] = std::move(pf.first);
            in[i] = std::move(pf.second);
        }
    }
};

template <class T>
void all_wide(int n, bool tuple) {
    {
        wide W(n);
        inputs<T> I(n);
        if (W.odd < n) I.fails[W.odd] = true;
        for (int i = 0; i < W.pre; ++i) W.fire(I.pro[W.order[i]], W.order[i], W.order[i] == W.odd);
        int calls = 0;
        auto pos = [&](int i, auto&& v) { CHECK(is_val(W.x[i], v), "each input's value in its own position"); };
        future<int> all;
        if (tuple) {
            auto f = [&](auto&&... v) {
                ++calls;
                int i = 0;
                (pos(i++, v), ...);
                if constexpr (!std::is_void_v<T>) CHECK(sizeof...(v) == 7, "one argument per input");
                return 42;
            };
            auto& g = I.in;
            all = stlab::when_all(ex(W), f, std::move(g[0]), std::move(g[1]), std::move(g[2]), std::move(g[3]), std::move(g[4]), std::move(g[5]), std::move(g[6]));
        } else {
            auto f = [&](auto&&... r) {
                ++calls;
                if constexpr (!std::is_void_v<T>)
                    ([&](auto&& v) {
                        CHECK((int)v.size() == n, "one element per input");
                        for (int i = 0; i < n; ++i) pos(i, v[i]);
                    }(r), ...);
                return 42;
            };
            all = stlab::when_all(ex(W), f, std::make_pair(I.in.begin(), I.in.end()));
        }
        I.in.clear();
        Q.run_all();
        int first = n;
        for (int i = n - 1; i >= 0; --i) if (W.seq[i] == W.odd) first = i;
        for (int i = W.pre; i < n; ++i) {
            CHECK(all.is_ready() == (first < i), "ready when the last value or the first failure arrived");
            CHECK(calls == 0, "not before the last value");
            W.fire(I.pro[W.order[i]], W.order[i], W.order[i] == W.odd);
            Q.run_all();
        }
        CHECK(all.is_ready(), "the combined future is ready");
        if (first == n) {
            CHECK(calls == 1 && !all.exception() && all.get_ready() == 42, "the continuation runs once and its result is delivered");
            sym::reach("value");
        } else {
            CHECK(calls == 0, "the continuation does not run after a failure");
            if (W.kind_ == 2) CHECK_BROKEN(all.exception(), "the failure");
            else CHECK_BOOM(all.exception(), W.x[W.odd], "the failure");
            sym::reach("failed");
        }
        for (int i = 0; i < n; ++i) CHECK(I.ran[i] <= 1, "inputs run at most once");
        all.reset();
        for (int i = 0; i < n; ++i) CHECK(I.tk[i] == 0, "everything is released");
    }
    sym::leaks();
}

// all inputs but one fail, or all do
template <class T>
void any_wide(int n, bool tuple) {
    {
        wide W(n);
        inputs<T> I(n);
        for (int i = 0; i < n; ++i) I.fails[i] = i != W.odd;
        for (int i = 0; i < W.pre; ++i) W.fire(I.pro[W.order[i]], W.order[i], I.fails[W.order[i]]);
        int calls = 0;
        auto f = [&](auto&&... v) -> int {
            ++calls;
            auto idx = [&](std::size_t i) { CHECK((int)i == W.odd, "the index of the only input to succeed"); };
            if constexpr (std::is_void_v<T>) (idx(v), ...);
            else [&](auto&& val, std::size_t i) {
                idx(i);
                CHECK(is_val(W.x[W.odd], val), "the value of the only input to succeed");
            }(std::forward<decltype(v)>(v)...);
            return 42;
        };
        future<int> any;
        auto& g = I.in;
        if (tuple) any = stlab::when_any(ex(W), decltype(f)(f), std::move(g[0]), std::move(g[1]), std::move(g[2]), std::move(g[3]), std::move(g[4]), std::move(g[5]), std::move(g[6]));
        else any = stlab::when_any(ex(W), decltype(f)(f), std::make_pair(g.begin(), g.end()));
        g.clear();
        Q.run_all();
        int win = n;
        for (int i = 0; i < n; ++i) if (W.seq[i] == W.odd) win = i;
        for (int i = W.pre; i < n; ++i) {
            CHECK(any.is_ready() == (win < i) && calls == (win < i), "ready as soon as one succeeded or all failed");
            W.fire(I.pro[W.order[i]], W.order[i], I.fails[W.order[i]]);
            Q.run_all();
        }
        CHECK(any.is_ready(), "the combined future is ready");
        if (win < n) {
            CHECK(calls == 1 && !any.exception() && any.get_ready() == 42, "the continuation runs once and its result is delivered");
            sym::reach("value");
        } else {
            CHECK(calls == 0, "the continuation does not run when all inputs failed");
            CHECK_BOOM(any.exception(), W.x[W.seq[n - 1]], "the last failure");
            sym::reach("failed");
        }
        any.reset();
        for (int i = 0; i < n; ++i) CHECK(I.tk[i] == 0, "everything is released");
    }
    sym::leaks();
}
} // namespace

// when_all of 7 futures: every rotation of the arrival order, at most one failure anywhere
ENTRY(ww_all_tuple) { // @A07 reach=value,failed
    all_wide<mo>(7, true);
}
ENTRY(ww_all_tuple_void) { // @A07 reach=value,failed
    all_wide<void>(7, true);
}
// when_all of a range of 8
ENTRY(ww_all_range) { // @A07 reach=value,failed weight=2
    all_wide<cm>(8, false);
}
ENTRY(ww_all_range_void) { // @A07 reach=value,failed weight=2
    all_wide<void>(8, false);
}
// when_any of 7 or 8 futures of which at most one succeeds
ENTRY(ww_any_tuple) { // @A08 reach=value,failed
    any_wide<mo>(7, true);
}
ENTRY(ww_any_tuple_void) { // @A08 reach=value,failed
    any_wide<void>(7, true);
}
ENTRY(ww_any_range) { // @A08 reach=value,failed weight=2
    any_wide<cm>(8, false);
}
ENTRY(ww_any_range_void) { // @A08 reach=value,failed weight=2
    any_wide<void>(8, false);
}

namespace {
// a chain of 10 steps, each a then or a recover, one of which throws; the source may fail too
template <class T>
void chain_wide() {
    constexpr int N = 10;
    {
        int x = sym::i32("x"), how = sym::choose("how", 3), at = sym::choose("at", N + 2), late = sym::choose("late", 2);
        // where the recover steps are: nowhere, everywhere, every third, every fourth
        int every = sym::choose("every", 4), src = at == N + 1 ? 1 : 0;
        auto is_rec = [&](int i) { return every == 1 || (every == 2 && i % 3 == 2) || (every == 3 && i % 4 == 3); };
        int ran[N + 1] = {}, tk[N + 1] = {};
        auto pf = package<T(int)>(how >= 2 ? stlab::executor_t(Q.executor()) : stlab::executor_t(immediate_executor), [&, t = token(&tk[N])](int v) -> T {
            ++ran[N];
            if (src) throw boom{v};
            return mk<T>(v);
        });
        if (!late) { pf.first(x); Q.run_all(); }
        future<T> f = std::move(pf.second);
        for (int i = 0; i < N; ++i) {
            if (is_rec(i))
                f = rec_rv(std::move(f), how, [&, i, t = token(&tk[i])](future<T> r) -> T {
                    ++ran[i];
                    CHECK(r.is_ready(), "ready");
                    if (i == at) throw boom{i};
                    if (r.exception()) return mk<T>(x);
                    if constexpr (std::is_void_v<T>) return;
                    else return std::move(r).get_ready();
                });
            else if constexpr (std::is_void_v<T>)
                f = then_rv(std::move(f), how, [&, i, t = token(&tk[i])] {
                    ++ran[i];
                    if (i == at) throw boom{i};
                });
            else
                f = then_rv(std::move(f), how, [&, i, t = token(&tk[i])](T v) {
                    ++ran[i];
                    if (i == at) throw boom{i};
                    return v;
                });
        }
        if (late) { CHECK(!f.is_ready(), "pending"); pf.first(x); }
        Q.run_all();
        CHECK(f.is_ready() && ran[N] == 1, "the chain completes");
        int failed = src ? N : -1;
        for (int i = 0; i < N; ++i) {
            bool runs = is_rec(i) || failed < 0;
            CHECK(ran[i] == runs, "a then runs iff no failure precedes it, a recover always");
            if (runs) failed = i == at ? i : -1;
        }
        if (failed < 0) {
            CHECK(!f.exception(), "no failure left");
            if constexpr (!std::is_void_v<T>) CHECK(is_val(x, std::move(f).get_ready()), "the value went through the chain");
            sym::reach("ok");
        } else {
            CHECK_BOOM(f.exception(), failed == N ? x : failed, "the exception of the failing step");
            sym::reach("failed");
        }
        for (int i = 0; i <= N; ++i) CHECK(tk[i] == 0, "functions are released");
    }
    sym::leaks();
}
} // namespace
// a chain of 10 steps with then and recover in several patterns and one failing step
ENTRY(fw_steps_int) { // @A01,A02,A03 reach=ok,failed
    chain_wide<cm>();
}
ENTRY(fw_steps_mo) { // @A01,A02,A03 reach=ok,failed
    chain_wide<mo>();
}
ENTRY(fw_steps_void) { // @A01,A02,A03 reach=ok,failed
    chain_wide<void>();
}

// a chain of 8 of which one handle is kept, copied or detached: what lies above it stays, the rest goes
ENTRY(fw_drop) { // @A04 reach=done
    constexpr int N = 8;
    {
        int x = sym::i32("x"), keep = sym::choose("keep", N + 1), detach = sym::choose("detach", 2), back = sym::choose("back", 2);
        int second = sym::choose("second", N + 1); // another handle kept until the chain has run
        int ran[N] = {}, tk[N] = {};
        auto pf = package<int(int)>(Q.executor(), [&, t = token(&tk[0])](int v) { ++ran[0]; return v; });
        future<int> f[N];
        f[0] = std::move(pf.second);
        for (int i = 1; i < N; ++i) f[i] = f[i - 1].then(Q.executor(), [&, i, t = token(&tk[i])](int v) { ++ran[i]; return v; });
        for (int i = 0; i < N; ++i) CHECK(tk[i] == 1, "one live copy of each function");
        int top = -1;
        if (keep < N) top = keep;
        if (second < N && second > top) top = second;
        if (keep < N && detach) f[keep].detach();
        for (int j = 0; j < N; ++j) {
            int i = back ? N - 1 - j : j;
            if ((i == keep && !detach) || i == second) continue;
            f[i].reset();
        }
        for (int i = 0; i < N; ++i) CHECK(tk[i] == (i <= top), "what nobody depends on is released at once");
        pf.first(x);
        Q.run_all();
        for (int i = 0; i < N; ++i) CHECK(ran[i] == (i <= top) && tk[i] == 0, "a step runs iff somebody depends on it");
        if (keep < N && !detach) CHECK(f[keep].is_ready() && f[keep].get_ready() == x, "the kept handle");
        if (second < N) CHECK(f[second].is_ready() && f[second].get_ready() == x, "the second kept handle");
        sym::reach("done");
    }
    sym::leaks();
}

// 8 continuations on one future, any of them dropped before the value comes, some attached after it
ENTRY(fw_fan) { // @A01,A04 reach=done weight=2
    constexpr int N = 8;
    {
        int x = sym::i32("x"), late = sym::choose("late", 4) * 2, how = sym::choose("how", 2) * 2, fail = sym::choose("fail", 2);
        int mask = sym::choose("mask", 1 << (N - late > 6 ? 6 : N - late));
        int ran[N] = {}, tk[N] = {}, at[N] = {}, clock = 0;
        auto pf = package<cm(int)>(immediate_executor, [&](int v) { if (fail) throw boom{v}; return cm(v); });
        future<cm> src = std::move(pf.second);
        future<int> f[N];
        auto attach = [&](int i) {
            f[i] = then_lv(src, how, [&, i, t = token(&tk[i])](const cm& v) {
                ++ran[i];
                at[i] = ++clock;
                CHECK(is_val(x, v), "the value is intact for every continuation");
                return i;
            });
        };
        for (int i = 0; i < N - late; ++i) attach(i);
        for (int i = 0; i < N - late; ++i) if (mask >> i & 1) f[i].reset();
        for (int i = 0; i < N - late; ++i) CHECK(tk[i] == !(mask >> i & 1), "a dropped continuation is released at once");
        pf.first(x);
        for (int i = N - late; i < N; ++i) attach(i);
        Q.run_all();
        for (int i = 0; i < N; ++i) {
            bool gone = i < N - late && (mask >> i & 1);
            CHECK(ran[i] == (!gone && !fail), "each kept continuation runs exactly once");
            CHECK(tk[i] == 0, "and is released");
            if (gone) continue;
            CHECK(f[i].is_ready(), "ready");
            if (fail) CHECK_BOOM(f[i].exception(), x, "the exception reaches every one");
            else CHECK(f[i].get_ready() == i, "its result");
        }
        CHECK(src.is_ready(), "the source");
        sym::reach("done");
    }
    sym::leaks();
}

namespace {
template <int D, class T>
auto deep(int fail, int x, int* ran) {
    ++ran[D];
    if (fail == D) throw boom{D};
    if constexpr (D == 0) {
        if constexpr (std::is_void_v<T>) return;
        else return mk<T>(x);
    } else {
        return stlab::async(Q.executor(), [fail, x, ran] { return deep<D - 1, T>(fail, x, ran); });
    }
}
template <class T>
void nest_wide() {
    constexpr int D = 5;
    {
        int x = sym::i32("x"), fail = sym::choose("fail", D + 2), drop = sym::choose("drop", D + 3), ran[D + 1] = {};
        future<T> f = stlab::async(Q.executor(), [&] { return deep<D, T>(fail, x, ran); });
        int n = 0;
        while (!f.is_ready()) {
            if (n == drop) { f.reset(); break; }
            CHECK(Q.run_one(), "something is left to run while the result is pending");
            if (++n > D + 1) break;
        }
        Q.run_all();
        int last = fail > D ? 0 : fail;
        for (int i = 0; i <= D; ++i) {
            if (f.valid()) CHECK(ran[i] == (i >= last), "each level runs once, down to the failing one");
            else CHECK(ran[i] == (D - i < drop), "nothing runs after the result was dropped");
        }
        if (f.valid()) {
            CHECK(f.is_ready(), "the result is ready");
            if (fail <= D) CHECK_BOOM(f.exception(), fail, "the failing level's exception");
            else if constexpr (!std::is_void_v<T>) CHECK(is_val(x, std::move(f).get_ready()), "the innermost value");
            sym::reach("done");
        } else
            sym::reach("dropped");
    }
    sym::leaks();
}
} // namespace
// futures nested 6 deep: each level fails in turn, or the outermost handle is dropped at each point
ENTRY(fw_nest_int) { // @A06,A04 reach=done,dropped
    nest_wide<cm>();
}
ENTRY(fw_nest_mo) { // @A06,A04 reach=done,dropped
    nest_wide<mo>();
}
ENTRY(fw_nest_void) { // @A06,A04 reach=done,dropped
    nest_wide<void>();
}
