// 300 of everything: positions, counts and sequence numbers that no longer fit a byte.
#define MANUAL_MAX 400
#include "chan.hpp"
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/progress.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/concurrency/system_timer.hpp>
#include <stlab/forest.hpp>
#include <stlab/forest_algorithms.hpp>
#include <stlab/pre_exit.hpp>
#include <deque>

namespace {
constexpr int N = 300;
int tick[N], runs[N];
void once(int n = N) { for (int k = 0; k < n; ++k) CHECK(runs[k] == 1, "each one exactly once"); }
int place(const char* n) { static constexpr int at[] = {0, 1, 127, 128, 255, 256, 257, 299}; return at[sym::choose(n, 8)]; }
} // namespace

// combinations of 300 futures: all values in position, or one failure, or one winner
ENTRY(n_when_all) { // @A07 reach=done flags=max-insts=200000000
    {
        int x = sym::i32("x"), fail = sym::choose("fails", 2) ? place("at") : N, calls = 0;
        std::vector<stlab::packaged_task<int>> p(N);
        std::vector<future<int>> in(N);
        for (int i = 0; i < N; ++i) {
            auto pf = package<int(int)>(immediate_executor, [i, fail](int v) { if (i == fail) throw boom{v}; return v ^ i; });
            p[i] = std::move(pf.first);
            in[i] = std::move(pf.second);
        }
        auto all = stlab::when_all(immediate_executor, [&](const std::vector<int>& v) {
            ++calls;
            CHECK((int)v.size() == N, "one element per input");
            for (int i = 0; i < (int)v.size(); ++i) CHECK(v[i] == (x ^ i), "each input's value in its own position");
        }, std::make_pair(in.begin(), in.end()));
        in.clear();
        for (int i = 0; i < N; ++i) {
            CHECK(all.is_ready() == (i > fail), "ready with the last value or the first failure");
            p[i](x);
        }
        CHECK(all.is_ready() && calls == (fail == N), "runs once iff there is no failure");
        if (fail < N) CHECK_BOOM(all.exception(), x, "the failure");
        sym::reach("done");
    }
    sym::leaks();
}
ENTRY(n_when_any) { // @A08 reach=done flags=max-insts=200000000
    {
        int x = sym::i32("x"), win = sym::choose("wins", 2) ? place("at") : N, calls = 0;
        std::vector<stlab::packaged_task<int>> p(N);
        std::vector<future<int>> in(N);
        for (int i = 0; i < N; ++i) {
            auto pf = package<int(int)>(immediate_executor, [i, win](int v) { if (i != win) throw boom{v ^ i}; return v; });
            p[i] = std::move(pf.first);
            in[i] = std::move(pf.second);
        }
        auto any = stlab::when_any(immediate_executor, [&](int v, std::size_t i) {
            ++calls;
            CHECK(v == x && (int)i == win, "value and index of the winner");
        }, std::make_pair(in.begin(), in.end()));
        in.clear();
        for (int i = 0; i < N; ++i) {
            CHECK(any.is_ready() == (i > win), "ready with the first value or the last failure");
            p[i](x);
        }
        CHECK(any.is_ready() && calls == (win < N), "runs once iff one succeeded");
        if (win == N) CHECK_BOOM(any.exception(), x ^ (N - 1), "the last failure");
        sym::reach("done");
    }
    sym::leaks();
}
// 300 continuations on one future; a chain of 300
ENTRY(n_then) { // @A01,A02 reach=done flags=max-insts=200000000
    {
        int x = sym::i32("x"), fail = (int)sym::choose("fail", 2);
        auto pf = package<int(int)>(immediate_executor, [&](int v) { if (fail) throw boom{v}; return v; });
        std::vector<future<int>> fan;
        for (int i = 0; i < N; ++i) fan.push_back(pf.second.then([i](int v) { ++runs[i]; return v ^ i; }));
        auto f = pf.second.then([](int v) { return v; });
        for (int i = 0; i < N; ++i) f = std::move(f).then([](int v) { return (int)((unsigned)v + 1u); });
        pf.first(x);
        CHECK(f.is_ready(), "the chain is ready");
        if (fail) CHECK_BOOM(f.exception(), x, "the failure through the chain");
        else CHECK(f.get_ready() == (int)((unsigned)x + (unsigned)N), "the value through the chain");
        for (int i = 0; i < N; ++i) {
            CHECK(fan[i].is_ready() && runs[i] == !fail, "every continuation");
            if (fail) CHECK_BOOM(fan[i].exception(), x, "the failure");
            else CHECK(fan[i].get_ready() == (x ^ i), "its result");
        }
        sym::reach("done");
    }
    sym::leaks();
}

// one worker: 300 waiting tasks start by priority, then in submission order
ENTRY(n_order) { // @E02,E01 preempt=0 reach=done flags=max-insts=200000000
    __sym_set_hw(1);
    int pat = (int)sym::choose("pattern", 4), last = -1, n = 0;
    auto prio = [pat](int k) { return pat == 3 ? (k < 200 ? 2 : k < 280 ? 1 : 0) : pat == 2 ? k % 3 : pat; };
    auto key = [&](int k) { return prio(k) * N + k; };
    stlab::default_executor([&]() noexcept {
        for (int k = 0; k < N; ++k) {
            auto f = [&, k]() noexcept {
                ++runs[k];
                ++n;
                CHECK(key(k) > last, "by priority, then in submission order");
                last = key(k);
            };
            switch (prio(k)) {
                case 0: stlab::high_executor(f); break;
                case 1: stlab::default_executor(f); break;
                default: stlab::low_executor(f);
            }
        }
    });
    stlab::pre_exit();
    CHECK(n == N, "all ran");
    once();
    sym::reach("done");
    sym::leaks();
}
// 66000 tasks one after the other, always three waiting
ENTRY(n_order_long) { // @E02,E01 preempt=0 reach=done flags=max-insts=2000000000
    __sym_set_hw(1);
    constexpr int M = 66000;
    int last = -1, n = 0;
    struct env {
        int &last, &n, put = 0;
        void one() {
            int k = put++;
            if (k < M) stlab::default_executor([this, k]() noexcept {
                CHECK(k == last + 1, "in submission order");
                last = k;
                ++n;
                one();
            });
        }
    } e{last, n};
    stlab::default_executor([&]() noexcept { for (int i = 0; i < 3; ++i) e.one(); });
    stlab::pre_exit();
    CHECK(n == M, "all ran");
    sym::reach("done");
    sym::leaks();
}
// 300 tasks for three workers
ENTRY(n_pool) { // @E01 preempt=0 reach=done flags=max-insts=200000000
    __sym_set_hw(4);
    for (int k = 0; k < N; ++k) stlab::default_executor([k]() noexcept { ++runs[k]; });
    stlab::pre_exit();
    once();
    sym::reach("done");
    sym::leaks();
}
// a serial queue with 300 tasks waiting
ENTRY(n_serial) { // @E04 reach=done flags=max-insts=200000000
    {
        int n = 0;
        stlab::serial_queue_t q(Q.executor(), sym::choose("mode", 2) ? stlab::schedule_mode::all : stlab::schedule_mode::single);
        auto ex = q.executor();
        int put = 0, every = (int)sym::choose("every", 3);
        std::function<void(bool)> one = [&](bool more) {
            int k = put++;
            ex([&, k, more]() noexcept {
                CHECK(n == k, "in submission order");
                ++n;
                if (more && every && k % (every == 1 ? 7 : 100) == 0) one(false);
            });
        };
        for (int k = 0; k < N; ++k) one(true);
        Q.run_all();
        CHECK(put >= N && n == put, "every task ran");
        sym::reach("done");
    }
    sym::leaks();
}
// 66000 tasks through a serial queue
ENTRY(n_serial_long) { // @E04 reach=done flags=max-insts=2000000000
    {
        int n = 0, put = 0;
        constexpr int M = 66000;
        stlab::serial_queue_t q(Q.executor(), sym::choose("mode", 2) ? stlab::schedule_mode::all : stlab::schedule_mode::single);
        auto ex = q.executor();
        while (put < M) {
            for (int i = 0; i < 100; ++i) ex([&, k = put++]() noexcept { CHECK(n == k, "in submission order"); ++n; });
            Q.run_all();
        }
        CHECK(n == M, "every task ran");
        sym::reach("done");
    }
    sym::leaks();
}
// a timer with 300 tasks
ENTRY(n_timer) { // @E05 preempt=0 reach=done flags=max-insts=200000000
    {
        uint64_t last = 0;
        int n = 0, step = 1 + (int)sym::choose("step", 3) * 76;
        stlab::detail::system_timer tm;
        for (int k = 0; k < N; ++k) {
            uint64_t due = __sym_now() + 1000 * (uint64_t)((k * step) % N);
            tm(std::chrono::nanoseconds(1000 * ((k * step) % N)), [&, k, due]() noexcept {
                ++runs[k];
                ++n;
                CHECK(__sym_now() >= due && due >= last, "not early, in due order");
                last = due;
            });
        }
        sym::quiesce();
        CHECK(n == N, "all ran");
        once();
        sym::reach("done");
    }
    sym::leaks();
}

// 300 values waiting in a channel without a limit, or with a limit of 300; a zip whose one side is 300 ahead
ENTRY(n_channel) { // @H01,H05 reach=done flags=max-insts=200000000
    {
        int x = sym::i32("x"), n = 0, ahead = 0;
        std::size_t b = sym::choose("limit", 2) ? 270 : 0;
        auto [send, recv] = channel<int>(immediate_executor);
        auto r = recv | (buffer_size{0} & [&](int v) { ++ahead; return v; });
        auto hold = r | (executor{Q.executor()} & buffer_size{b} & [&](int v) { CHECK(v == (x ^ n), "in order"); ++n; });
        r.set_ready();
        recv.set_ready();
        for (int k = 0; k < N; ++k) {
            send(x ^ k);
            CHECK(b ? ahead <= (int)b + 1 && ahead >= (k + 1 < (int)b ? k + 1 : (int)b) : ahead == k + 1, "the limit holds back, and nothing else");
        }
        Q.run_all();
        CHECK(n == N && ahead == N, "every value once");
        sym::reach("done");
    }
    sym::leaks();
}
// 66000 values through a stage with a small buffer, a hundred at a time
ENTRY(n_channel_long) { // @H01,H05 reach=done weight=2 time=300 flags=max-insts=2000000000
    {
        int n = 0, put = 0;
        constexpr int M = 66000;
        auto [send, recv] = channel<int>(immediate_executor);
        auto hold = recv | (executor{Q.executor()} & buffer_size{3} & [&](int v) { CHECK(v == n, "in order"); ++n; });
        recv.set_ready();
        while (put < M) {
            for (int i = 0; i < 100; ++i) send(put++);
            Q.run_all();
        }
        CHECK(n == M, "every value once");
        sym::reach("done");
    }
    sym::leaks();
}
ENTRY(n_merge) { // @H03 reach=done flags=max-insts=200000000
    {
        int x = sym::i32("x"), n = 0, kind = (int)sym::choose("kind", 3), first = (int)sym::choose("first", 2);
        auto [sa, ra] = channel<int>(immediate_executor);
        auto [sb, rb] = channel<int>(immediate_executor);
        auto zip = [&](int a, int b) { CHECK(a == (x ^ n) && b == (x ^ (n + 1000)), "pairs in order"); ++n; };
        int na = 0, nb = 0;
        auto one = [&](int v) {
            if (kind == 1) CHECK(v == (n % 2 ? x ^ (n / 2 + 1000) : x ^ (n / 2)), "taking turns");
            else if ((first == 0) == (n < N)) { CHECK(v == (x ^ na), "in order"); ++na; }
            else { CHECK(v == (x ^ (nb + 1000)), "in order"); ++nb; }
            ++n;
        };
        receiver<void> hold;
        if (kind == 0) hold = stlab::merge_channel<stlab::zip_with_t>(immediate_executor, zip, ra, rb);
        else if (kind == 1) hold = stlab::merge_channel<stlab::round_robin_t>(immediate_executor, one, ra, rb);
        else hold = stlab::merge_channel<stlab::unordered_t>(immediate_executor, one, ra, rb);
        ra.set_ready();
        rb.set_ready();
        for (int i = 0; i < 2; ++i)
            for (int k = 0; k < N; ++k) {
                if (i == first) sa(x ^ k);
                else sb(x ^ (k + 1000));
            }
        CHECK(n == (kind == 0 ? N : 2 * N), "everything arrived");
        sym::reach("done");
    }
    sym::leaks();
}
// one receiver with 300 processes
ENTRY(n_fan) { // @H01,H04 reach=done flags=max-insts=200000000
    {
        int x = sym::i32("x");
        auto [send, recv] = channel<int>(immediate_executor);
        std::vector<receiver<void>> hold;
        for (int k = 0; k < N; ++k) hold.push_back(recv | [k, x](int v) { CHECK(v == x, "the value"); ++runs[k]; });
        recv.set_ready();
        send(x);
        once();
        for (int k = 0; k < N; k += 2) hold[k] = receiver<void>();
        send(x);
        for (int k = 0; k < N; ++k) CHECK(runs[k] == 1 + k % 2, "each remaining process exactly once");
        send.close();
        sym::reach("done");
    }
    sym::leaks();
}

// forests of 300 nodes: siblings, a chain, and pairs
ENTRY(n_forest) { // @F01,F02,F04 reach=done flags=max-insts=200000000
    {
        stlab::forest<int> f;
        int kind = (int)sym::choose("kind", 3), x = sym::i32("x");
        auto at = f.end();
        for (int k = 0; k < N; ++k) {
            auto i = f.insert(at, x ^ k);
            at = kind == 0 ? f.end() : kind == 1 ? stlab::trailing_of(i) : k % 2 ? f.end() : stlab::trailing_of(i);
        }
        CHECK(f.size() == N && !f.empty(), "size");
        int n = 0, edges = 0;
        for (auto i = f.begin(); i != f.end(); ++i) {
            ++edges;
            if (stlab::is_leading(i)) { CHECK(*i == (x ^ n), "leading edges in preorder"); ++n; }
        }
        CHECK(n == N && edges == 2 * N, "each node entered and left once");
        for (auto i = f.end(); i != f.begin();) {
            --i;
            --edges;
            if (stlab::is_leading(i)) { --n; CHECK(*i == (x ^ n), "and backwards"); }
        }
        CHECK(n == 0 && edges == 0, "each node entered and left once, backwards");
        auto g = f;
        CHECK(g == f && g.size() == N, "a copy is equal");
        int first = kind == 0 ? N : kind == 1 ? 1 : N / 2, c = 0;
        for (auto b = stlab::child_begin(f.root()), e = stlab::child_end(f.root()); b != e; ++b) ++c;
        CHECK(c == first, "children of the root");
        f.erase(f.begin());
        CHECK(f.size() == N - 1 && g.size() == N && !(f == g), "erasing one");
        auto h = f.splice(f.end(), g);
        CHECK(f.size() == 2 * N - 1 && g.size() == 0 && g.empty(), "splicing");
        (void)h;
        f.clear();
        CHECK(f.empty() && f.size() == 0, "clearing");
        sym::reach("done");
    }
    sym::leaks();
}
ENTRY(n_forest_algo) { // @F03,F05,F06 reach=done flags=max-insts=200000000
    {
        stlab::forest<int> f, g;
        int kind = (int)sym::choose("kind", 2), x = sym::i32("x");
        for (int k = 0; k < N; ++k) f.insert(kind ? f.begin() : f.end(), x ^ k);
        g = f;
        f.reverse(stlab::child_begin(f.root()), stlab::child_end(f.root()));
        int n = 0;
        for (auto b = stlab::child_begin(f.root()), e = stlab::child_end(f.root()); b != e; ++b, ++n) CHECK(*b == (x ^ (kind ? n : N - 1 - n)), "reversed");
        CHECK(n == N && f.size() == N, "all of them");
        CHECK(!(f == g) && stlab::forests::equal_shape(f, g), "other values, equal shape");
        f.reverse(stlab::child_begin(f.root()), stlab::child_end(f.root()));
        CHECK(f == g, "twice is the identity");
        std::vector<std::optional<int>> flat;
        stlab::forests::flatten(f.begin(), f.end(), std::back_inserter(flat));
        CHECK((int)flat.size() == 2 * N, "one entry per edge");
        stlab::forest<int> u;
        stlab::forests::unflatten(flat.begin(), flat.end(), u);
        CHECK(u == f, "flatten and unflatten");
        sym::reach("done");
    }
    sym::leaks();
}
// 300 wrapped tasks
ENTRY(n_progress) { // @P01 reach=done flags=max-insts=200000000
    {
        std::size_t s = 0, d = 0;
        stlab::progress_tracker tr([&](std::size_t a, std::size_t b) { s = a; d = b; });
        auto make = [&](int k) { return tr([k](int x) { return x ^ k; }); };
        std::vector<decltype(make(0))> t;
        t.reserve(N);
        int x = sym::i32("x");
        for (int k = 0; k < N; ++k) t.push_back(make(k));
        CHECK(tr.steps() == N && tr.completed() == 0, "steps");
        for (int k = 0; k < N; ++k) {
            CHECK(t[k](x) == (x ^ k), "result");
            CHECK(s == N && (int)d == k + 1, "the counts signalled");
        }
        t.clear();
        CHECK(tr.steps() == N && tr.completed() == N, "all finished");
        sym::reach("done");
    }
    sym::leaks();
}
namespace {
int nh;
template <int K>
void hnd() noexcept { CHECK(nh == K + 1, "reverse order of registration"); nh = K; }
template <int... K>
void regall(std::integer_sequence<int, K...>) {
    static constexpr stlab::pre_exit_handler h[] = {hnd<K>...};
    for (auto f : h) stlab::at_pre_exit(f);
}
} // namespace
ENTRY(n_handlers) { // @U02 reach=done flags=max-insts=200000000
    nh = N;
    regall(std::make_integer_sequence<int, N>());
    stlab::pre_exit();
    CHECK(nh == 0, "every handler ran");
    sym::reach("done");
}
