// Larger numbers of tasks, workers and delays for the executors, mostly without preemption.
#include "conc.hpp"
#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/concurrency/system_timer.hpp>
#include <stlab/pre_exit.hpp>
using namespace hc;
using std::chrono::nanoseconds;

namespace {
template <class F>
void submit(int prio, F f) {
    if (prio == 0) stlab::high_executor(std::move(f));
    else if (prio == 1) stlab::default_executor(std::move(f));
    else stlab::low_executor(std::move(f));
}
constexpr int N = 12;
struct tally {
    int runs[N] = {}, live[N] = {};
    void ran(int k) {
        CHECK(runs[k] == 0, "a task runs once");
        ++runs[k];
    }
    void finish(int n) {
        for (int k = 0; k < n; ++k) CHECK(runs[k] == 1 && live[k] == 0, "every task ran once and was released");
    }
};
void give(tally& p, int k, int prio) {
    submit(prio, [&p, k, t = token(&p.live[k])]() noexcept { p.ran(k); });
}
} // namespace

// 12 tasks for up to 5 workers, from outside, from a task, and to sleeping workers
ENTRY(xw_pool) { // @E01 preempt=0 reach=done
    __sym_set_hw((int)sym::choose("hw", 6));
    tally p;
    int how = (int)sym::choose("how", 3), pr = (int)sym::choose("prio", 4);
    auto all = [&] { for (int k = 0; k < N; ++k) give(p, k, pr == 3 ? k % 3 : pr); };
    if (how == 0) all();
    else if (how == 1) submit(1, [&]() noexcept { all(); });
    else {
        stlab::default_executor([]() noexcept {});
        sym::quiesce();
        all();
        sym::quiesce();
        p.finish(N);
    }
    stlab::pre_exit();
    p.finish(N);
    sym::reach("done");
    sym::leaks();
}
// one worker, 8 waiting tasks of any priorities: started by priority, then in submission order
ENTRY(xw_order) { // @E02 preempt=0 reach=done weight=2
    __sym_set_hw(1);
    constexpr int n = 8;
    int pr[n], got = 0;
    bool started[n] = {};
    for (int k = 0; k < n; ++k) pr[k] = (int)sym::choose("prio", 3);
    stlab::default_executor([&]() noexcept {
        for (int k = 0; k < n; ++k)
            submit(pr[k], [&, k]() noexcept {
                CHECK(!started[k], "a task starts once");
                started[k] = true;
                ++got;
                for (int j = 0; j < n; ++j)
                    if (!started[j]) CHECK(pr[j] > pr[k] || (pr[j] == pr[k] && j > k), "by priority, then in submission order");
            });
    });
    stlab::pre_exit();
    CHECK(got == n, "all tasks ran");
    sym::reach("done");
    sym::leaks();
}
// the same with 40 tasks whose priorities follow a few patterns, submitted in two waves
ENTRY(xw_order_many) { // @E02 preempt=0 reach=done
    __sym_set_hw(1);
    constexpr int n = 40;
    int pr[n], seq[n], cnt = 0, got = 0, pat = (int)sym::choose("pattern", 5), when = (int)sym::choose("when", 8) * 3;
    bool started[n] = {}, queued[n] = {};
    auto put = [&](auto&& put, int k) -> void {
        pr[k] = pat == 0 ? k % 3 : pat == 1 ? 2 - k % 3 : pat == 2 ? (k / 7) % 3 : pat == 3 ? k * 5 % 7 % 3 : 1;
        seq[k] = cnt++;
        queued[k] = true;
        submit(pr[k], [&, k]() noexcept {
            CHECK(!started[k], "a task starts once");
            started[k] = true;
            for (int j = 0; j < n; ++j)
                if (queued[j] && !started[j]) CHECK(pr[j] > pr[k] || (pr[j] == pr[k] && seq[j] > seq[k]), "by priority, then in submission order");
            if (got++ == when) for (int j = n / 2; j < n; ++j) put(put, j);
        });
    };
    stlab::default_executor([&]() noexcept { for (int k = 0; k < n / 2; ++k) put(put, k); });
    stlab::pre_exit();
    CHECK(got == n || (when >= n / 2 && got == n / 2), "all tasks ran");
    sym::reach("done");
    sym::leaks();
}
// waits nested 5 deep on one worker
ENTRY(xw_wait) { // @E03 preempt=0 reach=done
    __sym_set_hw(1);
    constexpr int d = 5;
    int runs[d + 1] = {};
    struct rec {
        static int go(int* runs, int d) {
            ++runs[d];
            if (!d) return 1;
            return 1 + stlab::await(stlab::async(stlab::default_executor, [=]() -> int { return go(runs, d - 1); }));
        }
    };
    CHECK(stlab::await(stlab::async(stlab::default_executor, [&]() -> int { return rec::go(runs, d); })) == d + 1, "nested waits all finish");
    for (int i = 0; i <= d; ++i) CHECK(runs[i] == 1, "each level ran once");
    stlab::pre_exit();
    sym::reach("done");
    sym::leaks();
}

// a serial queue given 12 tasks in bursts while its executor runs them in bursts
ENTRY(xw_serial) { // @E04 reach=done
    {
        int order[N], n = 0, live = 0, inside = 0, put = 0;
        int mode = (int)sym::choose("mode", 2), burst = 1 + (int)sym::choose("burst", 5), run = (int)sym::choose("run", 5), self = (int)sym::choose("self", 3);
        {
            stlab::serial_queue_t q(Q.executor(), mode ? stlab::schedule_mode::all : stlab::schedule_mode::single);
            auto ex = q.executor();
            auto submit = [&](auto&& again) -> void {
                int k = put++;
                ex([&, k, t = token(&live)]() noexcept {
                    CHECK(!inside, "one task at a time");
                    inside = 1;
                    order[n++] = k;
                    for (int i = 0; i < self && put < N && k % 2; ++i) again(again); // tasks that add tasks
                    inside = 0;
                });
            };
            while (put < N) {
                for (int i = 0; i < burst && put < N; ++i) submit(submit);
                for (int i = 0; i < run; ++i) Q.run_one();
            }
        }
        Q.run_all();
        CHECK(n == N && live == 0, "every task ran and was released");
        for (int i = 0; i < N; ++i) CHECK(order[i] == i, "in submission order");
        sym::reach("done");
    }
    sym::leaks();
}
// the same over the pool: submitted by a pool task and by the main thread, both modes
ENTRY(xw_serial_pool) { // @E04 preempt=0 reach=done
    __sym_set_hw(1 + (int)sym::choose("hw", 4));
    int order[N], n = 0, inside = 0;
    {
        stlab::serial_queue_t q(stlab::default_executor, sym::choose("mode", 2) ? stlab::schedule_mode::all : stlab::schedule_mode::single);
        auto ex = q.executor();
        auto put = [&](int k) {
            ex([&, k]() noexcept {
                CHECK(!inside, "one task at a time");
                inside = 1;
                order[n++] = k;
                inside = 0;
            });
        };
        int from = (int)sym::choose("from", 2);
        if (from) stlab::default_executor([&, put]() noexcept { for (int k = 0; k < N; ++k) put(k); });
        else for (int k = 0; k < N; ++k) put(k);
        sym::quiesce();
    }
    stlab::pre_exit();
    CHECK(n == N, "every task ran");
    for (int i = 0; i < N; ++i) CHECK(order[i] == i, "in submission order");
    sym::reach("done");
    sym::leaks();
}

namespace {
struct tlog {
    uint64_t due[N] = {};
    int runs[N] = {}, live[N] = {}, order[N] = {}, n = 0;
};
template <class T>
void at(T& tm, tlog& l, int k, int d) {
    l.due[k] = __sym_now() + (uint64_t)d;
    tm(nanoseconds(d), [&l, k, t = token(&l.live[k])]() noexcept {
        CHECK(__sym_now() >= l.due[k], "never before its delay has elapsed");
        ++l.runs[k];
        l.order[l.n++] = k;
    });
}
void finish(tlog& l, int n) {
    CHECK(l.n == n, "every task ran");
    for (int k = 0; k < n; ++k) CHECK(l.runs[k] == 1 && l.live[k] == 0, "every task ran once and was released");
    for (int i = 1; i < n; ++i) CHECK(l.due[l.order[i - 1]] <= l.due[l.order[i]], "tasks run in the order they are due");
}
} // namespace
// 6 delays in any order
ENTRY(xw_timer) { // @E05 preempt=0 reach=done weight=2
    {
        tlog l;
        {
            stlab::detail::system_timer tm;
            constexpr int n = 6;
            int equal = (int)sym::choose("equal", 2); // two of the delays are equal
            bool used[n] = {};
            for (int k = 0; k < n; ++k) {
                int c = (int)sym::choose("perm", n - k), j = 0;
                while (used[j] || c) { if (!used[j]) --c; ++j; }
                used[j] = true;
                at(tm, l, k, 1000 * (equal && j == 4 ? 2 : j));
            }
            sym::quiesce();
            finish(l, n);
        }
        sym::reach("done");
    }
    sym::leaks();
}
// 12 delays in patterns, a part of them submitted after some time
ENTRY(xw_timer_many) { // @E05 preempt=0 reach=done
    {
        tlog l;
        {
            stlab::detail::system_timer tm;
            int step = 1 + (int)sym::choose("step", 11), off = (int)sym::choose("off", 3) * 4, first = 1 + (int)sym::choose("first", 12);
            for (int k = 0; k < N; ++k) {
                if (k == first) { __sym_advance(5500); sym::quiesce(false); }
                at(tm, l, k, 1000 * ((k * step + off) % 13));
            }
            sym::quiesce();
            CHECK(l.n == N, "every task ran");
            for (int k = 0; k < N; ++k) CHECK(l.runs[k] == 1 && l.live[k] == 0, "every task ran once and was released");
            // the ones submitted together run in the order they are due
            for (int i = 0; i < N; ++i)
                for (int j = i + 1; j < N; ++j)
                    if ((l.order[i] < first) == (l.order[j] < first)) CHECK(l.due[l.order[i]] <= l.due[l.order[j]], "tasks run in the order they are due");
        }
        sym::reach("done");
    }
    sym::leaks();
}
