// Larger sizes for tasks, tuples, pre-exit handlers, progress trackers and coroutines.
#include "conc.hpp"
#include <array>
#include <stlab/concurrency/progress.hpp>
#include <stlab/concurrency/tuple_algorithm.hpp>
#include <stlab/pre_exit.hpp>
#include <tuple>
using namespace hc;

namespace {
int held, called;
// a callable of a given size and alignment, all of whose bytes matter
template <std::size_t Size, std::size_t Align, bool Copy>
struct alignas(Align) sized {
    unsigned char b[Size];
    bool own = true; // not moved from
    explicit sized(unsigned char s) { for (std::size_t i = 0; i < Size; ++i) b[i] = (unsigned char)(s + i); ++held; }
    sized(sized&& x) noexcept : own(x.own) { for (std::size_t i = 0; i < Size; ++i) b[i] = x.b[i]; x.own = false; }
    sized(const sized& x) noexcept requires Copy { for (std::size_t i = 0; i < Size; ++i) b[i] = x.b[i]; ++held; }
    ~sized() { if (own) --held; }
    int operator()(int x) {
        volatile std::uintptr_t here = reinterpret_cast<std::uintptr_t>(this); // (what the compiler assumes is not what we check)
        CHECK(here % Align == 0, "a callable is stored at its alignment");
        CHECK(own, "called a moved-from callable");
        for (std::size_t i = 1; i < Size; ++i) CHECK(b[i] == (unsigned char)(b[0] + i), "a callable keeps all its bytes");
        ++called;
        return x ^ b[0];
    }
};
template <std::size_t Size, std::size_t Align, bool Copy>
void one_size() {
    using F = sized<Size, Align, Copy>;
    int x = sym::i32("x"), how = (int)sym::choose("how", 4);
    unsigned char s = sym::u8("s");
    held = called = 0;
    {
        stlab::task<int(int)> t{F(s)}, u{F((unsigned char)(s + 1))};
        CHECK(held == 2, "one callable each");
        CHECK(t.template target<F>() && t.template target<F>()->b[0] == s, "target");
        if (how == 0) { auto m = std::move(t); t = std::move(m); }
        else if (how == 1) { t.swap(u); CHECK(u(x) == (x ^ s), "the other's result"); t.swap(u); }
        else if (how == 2) { u = std::move(t); t = std::move(u); CHECK(held == 1, "the assigned-over callable is gone"); }
        else {
            stlab::task<int(int)> n;
            n = std::move(u);
            n = nullptr;
            CHECK(held == 1, "the reset callable is gone");
        }
        CHECK(t(x) == (x ^ s) && t(x) == (x ^ s) && called == (how == 1 ? 3 : 2), "a call runs the callable");
    }
    CHECK(held == 0, "callables are destroyed exactly once");
}
template <std::size_t A, std::size_t... S>
void sizes(std::index_sequence<S...>, std::size_t at) {
    ((S == at ? (one_size<S + 1, A, false>(), one_size<S + 1, A, true>()) : void()), ...);
}
} // namespace
// callables of every size from 2 to 65 bytes, below and above what a task stores in place
ENTRY(mw_size1) { // @T01 reach=done
    sizes<1>(std::make_index_sequence<64>(), (std::size_t)sym::choose("size", 64));
    sym::reach("done");
    sym::leaks();
}
// callables with the alignment of short, int, pointers and beyond
ENTRY(mw_size8) { // @T01 reach=done
    auto n = (std::size_t)sym::choose("size", 40);
    switch (sym::choose("align", 3)) {
        case 0: sizes<2>(std::make_index_sequence<40>(), n); break;
        case 1: sizes<4>(std::make_index_sequence<40>(), n); break;
        default: sizes<8>(std::make_index_sequence<40>(), n); break;
    }
    sym::reach("done");
    sym::leaks();
}
ENTRY(mw_size16) { // @T01 reach=done
    auto n = (std::size_t)sym::choose("size", 3) * 15;
    if (sym::choose("align", 2)) sizes<16>(std::make_index_sequence<40>(), n);
    else sizes<32>(std::make_index_sequence<40>(), n);
    sym::reach("done");
    sym::leaks();
}

// tuples of 8 elements: every index, every first match
ENTRY(mw_tuple) { // @U01 reach=done
    constexpr int N = 8;
    int x[N];
    for (int i = 0; i < N; ++i) x[i] = sym::range("x", -1000, 1000);
    std::tuple<int, long, short, int, long, int, short, long> t(x[0], x[1], (short)x[2], x[3], x[4], x[5], (short)x[6], x[7]);
    int lim = sym::i32("limit"), want = N, seen = 0;
    for (int i = N; i-- > 0;) want = x[i] > lim ? i : want;
    std::size_t got = stlab::tuple_find(t, [&](const auto& e) { ++seen; return (long)e > lim; });
    CHECK((int)got == want && seen == (want == N ? N : want + 1), "tuple_find returns the first match and stops there");
    int n = 0;
    stlab::tuple_for_each(t, [&](auto& e) { CHECK(n < N && (long)e == x[n], "each element in order"); ++n; });
    CHECK(n == N, "tuple_for_each visits every element once");
    unsigned idx = sym::u32("index");
    int hits = 0, touched = 0;
    long g = stlab::get_i(t, idx, [&](auto& e) -> long { ++hits; return (long)e; }, 5000L), w = 5000, val = 5000;
    for (unsigned i = 0; i < N; ++i) if (idx == i) w = x[i];
    CHECK(g == w && hits == (idx < N), "get_i returns the element at the index");
    stlab::void_i(t, idx, [&](auto& e) { ++touched; val = (long)e; });
    CHECK(val == w && touched == (idx < N), "void_i touches exactly the indexed element");
    sym::reach("done");
}

namespace {
int order[40], nrun, more_at;
template <int K>
void extra() noexcept { order[nrun++] = 100 + K; }
template <int K>
void handler() noexcept {
    order[nrun++] = K;
    if (K == more_at) { stlab::at_pre_exit(extra<0>); stlab::at_pre_exit(extra<1>); }
}
template <int... K>
void reg(std::integer_sequence<int, K...>, int n) { ((K < n ? stlab::at_pre_exit(handler<K>) : void()), ...); }
} // namespace
// up to 20 handlers, one of which registers two more
ENTRY(mw_handlers) { // @U02 reach=done
    int n = 1 + (int)sym::choose("n", 20);
    more_at = (int)sym::choose("more", n + 1);
    reg(std::make_integer_sequence<int, 20>(), n);
    CHECK(nrun == 0, "no handler runs before pre_exit");
    stlab::pre_exit();
    int m = 0;
    for (int i = n; i-- > 0;) {
        CHECK(order[m++] == i, "handlers run in reverse order of registration");
        if (i == more_at) {
            CHECK(order[m++] == 101, "handlers registered by a handler run next");
            CHECK(order[m++] == 100, "and in reverse order too");
        }
    }
    CHECK(m == nrun, "every handler runs exactly once");
    sym::reach("done");
}

// 8 tasks wrapped by one tracker, as lvalues and copies, finished and dropped in patterns
ENTRY(mw_progress) { // @P01 reach=done
    constexpr int N = 8;
    {
        std::size_t s = 0, d = 0, ws = 0, wd = 0;
        int sig = 0;
        stlab::progress_tracker tr([&](std::size_t a, std::size_t b) { ++sig; s = a; d = b; });
        auto make = [&](int k) { return tr([k](int x) { return x ^ k; }); };
        using W = decltype(make(0));
        std::optional<W> f[2 * N];
        int copy = (int)sym::choose("copy", N + 1), fin = (int)sym::choose("finish", 256), x = sym::i32("x");
        for (int k = 0; k < N; ++k) {
            f[k].emplace(make(k));
            if (k < copy) f[N + k].emplace(*f[k]);
        }
        ws = N + copy;
        CHECK(tr.steps() == ws && tr.completed() == 0, "steps counts every task");
        for (int k = 0; k < N; ++k) {
            if (fin >> k & 1) {
                CHECK((*f[k])(x) == (x ^ k), "the function's result");
                ++wd;
                CHECK(sig == (int)wd && s == ws && d == wd, "a completion signals once, with the current counts");
            } else {
                f[k].reset();
                --ws;
            }
            CHECK(tr.steps() == ws && tr.completed() == wd, "a task dropped unfinished is not counted");
        }
        for (int k = 0; k < 2 * N; ++k) f[k].reset();
        CHECK(tr.steps() == wd && tr.completed() == wd, "only finished tasks remain");
        sym::reach("done");
    }
    sym::leaks();
}

namespace {
int frames;
future<int> sum(std::array<future<int>, 6>& in, int catch_at, int ret_at, int& at) {
    token t(&frames);
    int s = 0;
    for (int i = 0; i < 6; ++i) {
        at = i;
        try {
            s += co_await std::move(in[i]);
        } catch (const boom& b) {
            if (catch_at != i) throw;
            s += b.v;
        }
        if (ret_at == i) co_return s;
    }
    at = 6;
    co_return s;
}
} // namespace
// a coroutine that awaits 6 futures in a loop, completed before or after it gets there, one of which fails
ENTRY(mw_coro) { // @A10 reach=done
    constexpr int N = 6;
    {
        int x[N], fail = (int)sym::choose("fail", N + 1), caught = (int)sym::choose("catch", 2), ret = (int)sym::choose("ret", N + 1);
        int pre = (int)sym::choose("pre", 1 << 3), back = (int)sym::choose("back", 2), at = -1, ran[N] = {};
        std::array<future<int>, N> in;
        stlab::packaged_task<int> p[N];
        for (int i = 0; i < N; ++i) {
            x[i] = sym::range("x", -1000, 1000);
            auto pf = package<int(int)>(immediate_executor, [&, i](int v) { ++ran[i]; if (i == fail) throw boom{v}; return v; });
            p[i] = std::move(pf.first);
            in[i] = std::move(pf.second);
        }
        bool fired[N] = {};
        auto fire = [&](int i) { if (!fired[i]) { fired[i] = true; p[i](x[i]); } };
        for (int i = 0; i < 3; ++i) if (pre >> i & 1) fire(2 * i);
        auto r = sum(in, caught ? fail : -1, ret, at);
        int end = N, last = fail < N && !caught && fail <= ret ? fail : ret; // where the body ends
        for (int j = 0; j <= N; ++j) {
            int stop = 0;
            while (stop < N && fired[stop] && stop != last) ++stop;
            bool done = stop == N || (stop == last && fired[stop]);
            CHECK(r.is_ready() == done, "complete when the body has ended");
            CHECK(frames == (done ? 0 : 1), "the frame lives as long as the body");
            CHECK(at == stop, "suspended at the first future that is not ready");
            if (j < N) fire(back ? N - 1 - j : j);
        }
        (void)end;
        if (last == fail && !caught && fail < N) CHECK_BOOM(r.exception(), x[fail], "the failure that left the body");
        else {
            int s = 0;
            for (int i = 0; i < N && i <= ret; ++i) s += x[i];
            CHECK(!r.exception() && r.get_ready() == s, "the sum of what was awaited");
        }
        sym::reach("done");
    }
    sym::leaks();
}
