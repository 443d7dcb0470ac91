// The parts together: channels, futures, coroutines and serial queues on the real pool and the real timer.
#include "chan.hpp"
#include <stlab/concurrency/await.hpp>
#include <functional>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/progress.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/concurrency/system_timer.hpp>
#include <stlab/pre_exit.hpp>
using stlab::default_executor;
using stlab::round_robin_t;
using stlab::schedule_mode;
using stlab::serial_queue_t;
using stlab::unordered_t;

namespace {
// two inputs are taken, then their difference is yielded
struct differ {
    int* inside;
    int n = 0, a = 0, d = 0;
    bool full = false;
    void await(int v) {
        guard g(inside);
        CHECK(!full, "inputs come only while the process awaits");
        if (n++ % 2 == 0) a = v;
        else { d = (int)((unsigned)a - (unsigned)v); full = true; }
    }
    int yield() {
        guard g(inside);
        CHECK(full, "a process is asked to yield only when it says so");
        full = false;
        return d;
    }
    process_state_scheduled state() const { return full ? yield_immediate : await_forever; }
};
template <class M>
void merged_process() {
    {
        bool qd = sym::choose("queued", 2);
        int inside = 0, x[2][2], n[2] = {}, order[4];
        sink s;
        auto [s0, r0] = channel<int>(exec(qd));
        auto [s1, r1] = channel<int>(exec(qd));
        sender<int>* snd[2] = {&s0, &s1};
        auto hold = merge_channel<M>(exec(qd), differ{&inside}, r0, r1) | [&](int v) { s.put(v); };
        r0.set_ready();
        r1.set_ready();
        for (int k = 0; k < 4; ++k) {
            int i = n[0] == 2 ? 1 : n[1] == 2 ? 0 : (int)sym::choose("from", 2);
            x[i][n[i]] = sym::i32("x");
            (*snd[i])(x[i][n[i]]);
            order[k] = x[i][n[i]++];
            int m = qd ? (int)sym::choose("run", 3) : 0;
            for (int j = 0; j < m; ++j) Q.run_one();
        }
        Q.run_all();
        CHECK(s.n == 2, "one output per two inputs");
        auto diff = [](int a, int b) { return (int)((unsigned)a - (unsigned)b); };
        if (std::is_same_v<M, round_robin_t>)
            for (int k = 0; k < 2; ++k) CHECK(s.got[k] == diff(x[0][k], x[1][k]), "one value from each input in turn");
        else if (!qd)
            for (int k = 0; k < 2; ++k) CHECK(s.got[k] == diff(order[2 * k], order[2 * k + 1]), "values in the order they arrive");
        s0.close();
        s1.close();
        Q.run_all();
        CHECK(s.n == 2, "nothing is left");
        sym::reach("done");
    }
    sym::leaks();
}
} // namespace
// a process with await and yield behind a round robin
ENTRY(z_robin_process) { // @H03,H02 reach=done
    merged_process<round_robin_t>();
}
// the same behind an unordered merge
ENTRY(z_mixed_process) { // @H03,H02 reach=done
    merged_process<unordered_t>();
}

// ---- a pipeline on the pool: every value in order, no process entered twice, the last one fulfils a future
ENTRY(z_chan_pool) { // @H01,S01 preempt=1 reach=done time=120 weight=3 thorough.preempt=2 thorough.time=600
    __sym_set_hw(2);
    {
        int x = sym::i32("x"), in[2] = {};
        sink s;
        auto [done, f] = package<int()>(immediate_executor, [&] { return s.n; });
        {
            auto [send, recv] = channel<int>(default_executor);
            auto hold = recv | [&](int v) { guard g(&in[0]); return v ^ 5; } | [&, d = std::move(done)](int v) mutable {
                guard g(&in[1]);
                s.put(v);
                if (s.n == 2) d();
            };
            recv.set_ready();
            send(x);
            send(x + 1);
            CHECK(stlab::await(std::move(f)) == 2, "both values arrive");
        }
        sym::quiesce();
        int want[2] = {x ^ 5, (x + 1) ^ 5};
        s.expect(want, 2);
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}
// ---- two pipelines on one serial queue over the pool: their processes never run at the same time
ENTRY(z_chan_serial) { // @E04,H01,S01 preempt=1 reach=done time=120 weight=3 thorough.preempt=2 thorough.time=600
    __sym_set_hw(3);
    {
        int in = 0;
        sink s[2];
        serial_queue_t q(default_executor, sym::choose("mode", 2) ? schedule_mode::all : schedule_mode::single);
        auto [s0, r0] = channel<int>(q.executor());
        auto [s1, r1] = channel<int>(q.executor());
        auto h0 = r0 | [&](int v) { guard g(&in); s[0].put(v); };
        auto h1 = r1 | [&](int v) { guard g(&in); s[1].put(v); };
        r0.set_ready();
        r1.set_ready();
        s0(1);
        s1(2);
        s0(3);
        sym::quiesce();
        int w0[] = {1, 3}, w1[] = {2};
        s[0].expect(w0, 2);
        s[1].expect(w1, 1);
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}
// ---- a chain of futures on the pool with a failure that is recovered from, and a combination of two such
ENTRY(z_fut_pool) { // @A01,A02,A07,S01 preempt=1 reach=done time=120 weight=2 thorough.preempt=2 thorough.time=600
    __sym_set_hw(2);
    {
        int x = sym::i32("x"), fail = (int)sym::choose("fail", 3), runs[4] = {};
        auto one = [&](int k) {
            return stlab::async(default_executor, [&, k](int v) -> int { ++runs[k]; if (fail == k + 1) throw boom{v}; return v ^ k; }, x);
        };
        auto a = one(0), b = one(1);
        auto all = stlab::when_all(default_executor, [&](int v, int w) { ++runs[2]; CHECK(v == x && w == (x ^ 1), "each input's value"); return v ^ w; }, a, b);
        auto r = std::move(all).recover([&](future<int> f) { ++runs[3]; auto e = f.exception(); if (e) { CHECK_BOOM(e, x, "the failure"); return 77; } return *f.get_try(); });
        int got = stlab::await(std::move(r));
        CHECK(got == (fail ? 77 : 1) && runs[2] == !fail && runs[3] == 1, "the outcome, and each function as often as it has to run");
        sym::quiesce();
        CHECK((runs[0] == 1 || fail) && (runs[1] == 1 || fail) && runs[0] <= 1 && runs[1] <= 1, "each task once");
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}
// ---- the first of two tasks on the pool wins; a third is cancelled
ENTRY(z_any_pool) { // @A08,A04,S01 preempt=1 reach=done time=120 weight=2 thorough.preempt=2 thorough.time=600
    __sym_set_hw(2);
    {
        int fail = (int)sym::choose("fail", 4), runs = 0;
        auto one = [&](int k) { return stlab::async(default_executor, [fail, k]() -> int { if (fail >> k & 1) throw boom{k}; return 10 + k; }); };
        auto any = stlab::when_any(default_executor, [&](int v, std::size_t i) { ++runs; CHECK(v == 10 + (int)i && !(fail >> i & 1), "value and index of one that succeeded"); return v; }, one(0), one(1));
        auto e = caught([&] { stlab::await(std::move(any)); });
        CHECK(!!e == (fail == 3) && runs == (fail != 3), "fails only if all fail");
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}

namespace {
int frame_live;
future<int> both(future<int> a, future<int> b) {
    token t(&frame_live);
    int x = co_await std::move(a);
    int y = co_await std::move(b);
    co_return x - y;
}
} // namespace
// ---- a coroutine that awaits two tasks of the pool
ENTRY(z_coro_pool) { // @A10,S01 preempt=2 reach=done time=120 weight=2 thorough.preempt=3 thorough.time=600
    __sym_set_hw(2);
    {
        int x = sym::i32("x"), y = sym::i32("y"), fail = (int)sym::choose("fail", 2);
        auto f = both(stlab::async(default_executor, [=] { return x; }), stlab::async(default_executor, [=]() -> int { if (fail) throw boom{y}; return y; }));
        auto e = caught([&] { CHECK(stlab::await(std::move(f)) == (int)((unsigned)x - (unsigned)y), "the value"); });
        CHECK(!!e == !!fail, "the exception");
        if (fail) CHECK_BOOM(e, y, "the exception");
        sym::quiesce();
        CHECK(frame_live == 0, "the frame is released");
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}
// ---- a timed continuation: package, timer and pool
ENTRY(z_timer_pool) { // @E06,E05,S01 preempt=2 reach=done time=120 weight=2 thorough.preempt=3 thorough.time=600
    __sym_set_hw(1);
    {
        int d = 1 + (int)sym::choose("delay", 2), live = 0;
        uint64_t start = __sym_now();
        auto f = stlab::async(stlab::execute_delayed(std::chrono::nanoseconds(d), default_executor), [t = token(&live), start, d] {
            CHECK(__sym_now() >= start + (uint64_t)d, "not before its time");
            return 3;
        });
        auto g = std::move(f) | [](int v) { return v + 1; };
        CHECK(stlab::await(std::move(g)) == 4, "the value");
        sym::quiesce();
        CHECK(live == 0, "the task is released");
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}
