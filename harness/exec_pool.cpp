#include "conc.hpp"
#include <concepts>
#include <condition_variable>
#include <mutex>
#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/pre_exit.hpp>
using namespace hc;

namespace {
// one submitted task: counts its runs and the live copies of its capture
struct job {
    int runs = 0, live = 0, where = -1;
};
constexpr int MAXJ = 12;
struct pool_test {
    job j[MAXJ];
    int n = 0;
    int main_tid = __sym_tid();
    void ran(int k) {
        CHECK(j[k].runs == 0, "a task runs once");
        ++j[k].runs;
        j[k].where = __sym_tid();
        CHECK(j[k].where != main_tid, "a task runs on a pool thread");
    }
    void finish() {
        for (int k = 0; k < n; ++k) {
            CHECK(j[k].runs == 1, "every submitted task ran when tear-down is complete");
            CHECK(j[k].live == 0, "every submitted task was released");
        }
    }
};
template <class F>
void submit(int prio, F f) {
    if (prio == 0) stlab::high_executor(std::move(f));
    else if (prio == 1) stlab::default_executor(std::move(f));
    else stlab::low_executor(std::move(f));
}
void give(pool_test& p, int k, int prio) {
    submit(prio, [&p, k, t = token(&p.j[k].live)]() noexcept { p.ran(k); });
}
void submit_main(int hw, int n) {
    __sym_set_hw(hw);
    pool_test p;
    p.n = n;
    for (int k = 0; k < n; ++k) give(p, k, (int)sym::choose("prio", 3));
    stlab::pre_exit();
    p.finish();
    sym::reach("done");
    sym::leaks();
}
void submit_two(int hw, int a, int b) {
    __sym_set_hw(hw);
    pool_test p;
    p.n = a + b;
    std::thread t([&] { for (int k = 0; k < b; ++k) give(p, a + k, 1); });
    for (int k = 0; k < a; ++k) give(p, k, 1);
    t.join();
    stlab::pre_exit();
    p.finish();
    sym::reach("done");
    sym::leaks();
}
// a task that submits `fan` tasks, each of which submits `deep` more in a row
void chain(pool_test& p, int k, int more) {
    submit((int)(k % 3), [&p, k, more, t = token(&p.j[k].live)]() noexcept {
        if (more) chain(p, k + 1, more - 1);
        p.ran(k);
    });
}
void nested(int hw, int fan, int deep) {
    __sym_set_hw(hw);
    pool_test p;
    p.n = 1 + fan * (1 + deep);
    submit(1, [&p, fan, deep, t = token(&p.j[0].live)]() noexcept {
        for (int f = 0; f < fan; ++f) chain(p, 1 + f * (1 + deep), deep);
        p.ran(0);
    });
    stlab::pre_exit();
    p.finish();
    sym::reach("done");
    sym::leaks();
}
// the pool is idle (every worker asleep) before the tasks arrive
void idle(int hw, int n) {
    __sym_set_hw(hw);
    pool_test p;
    p.n = n + 1;
    give(p, n, 1);
    sym::quiesce();
    CHECK(p.j[n].runs == 1 && p.j[n].live == 0, "a submitted task runs without further help");
    for (int k = 0; k < n; ++k) give(p, k, 1);
    sym::quiesce();
    for (int k = 0; k < n; ++k) CHECK(p.j[k].runs == 1 && p.j[k].live == 0, "a sleeping worker is woken for a task");
    stlab::pre_exit();
    p.finish();
    sym::reach("done");
    sym::leaks();
}
} // namespace

ENTRY(p_main_1w) { // @E01,S01 flags=unlock-sched preempt=3 reach=done thorough.preempt=4
    submit_main(1, 2);
}
ENTRY(p_main_2w) { // @E01,S01 flags=unlock-sched preempt=2 reach=done thorough.preempt=3 weight=3
    submit_main(3, 2);
}
ENTRY(p_main_3w) { // @E01 flags=unlock-sched preempt=1 reach=done thorough.preempt=2 weight=2
    submit_main(4, 3);
}
ENTRY(p_two_1w) { // @E01,S01 flags=unlock-sched preempt=3 reach=done thorough.preempt=4 weight=2
    submit_two(2, 1, 1);
}
ENTRY(p_two_2w) { // @E01,S01 flags=unlock-sched preempt=2 reach=done thorough.preempt=3 weight=3
    submit_two(3, 1, 1);
}
ENTRY(p_two_2w_more) { // @E01 flags=unlock-sched preempt=1 reach=done thorough.preempt=2 weight=3
    submit_two(3, 2, 2);
}
ENTRY(p_nested_1w) { // @E01 flags=unlock-sched preempt=3 reach=done thorough.preempt=4
    nested(1, 2, 1);
}
ENTRY(p_nested_2w) { // @E01,S01 flags=unlock-sched preempt=3 reach=done thorough.preempt=4 weight=3
    nested(3, 2, 0);
}
ENTRY(p_nested_2w_deep) { // @E01 flags=unlock-sched preempt=1 reach=done thorough.preempt=2 weight=2
    nested(3, 2, 1);
}
ENTRY(p_idle_1w) { // @E01 flags=unlock-sched preempt=3 reach=done thorough.preempt=4
    idle(1, 2);
}
ENTRY(p_idle_2w) { // @E01 flags=unlock-sched preempt=3 reach=done thorough.preempt=4 weight=2
    idle(3, 2);
}
ENTRY(p_spurious) { // @E01 flags=unlock-sched preempt=1 reach=done thorough.preempt=2
    __sym_option("spurious", 1);
    idle(3, 1);
}

// ---- E02: order of waiting tasks. One worker, so every task waits in the same queue.
namespace {
constexpr int N2 = 6;
struct order_test {
    int prio[N2 + 1], seq[N2 + 1];
    bool queued[N2 + 1] = {}, started[N2 + 1] = {};
    int n = 0, nstarted = 0;
    // called as the first thing a task does
    void start(int k) {
        CHECK(queued[k] && !started[k], "a task starts once");
        started[k] = true;
        ++nstarted;
        for (int j = 0; j < n; ++j)
            if (queued[j] && !started[j]) {
                CHECK(prio[j] >= prio[k], "no task waits while one of lower priority is started");
                CHECK(prio[j] > prio[k] || seq[j] > seq[k], "tasks of equal priority start in submission order");
            }
    }
    template <class F>
    void put(int p, F after) {
        int k = n++;
        prio[k] = p;
        seq[k] = k;
        queued[k] = true;
        submit(p, [this, k, after]() noexcept { start(k); after(k); });
    }
};
} // namespace

ENTRY(o_gated) { // @E02 preempt=0 reach=done weight=2
    // the worker runs a task that submits all the others
    __sym_set_hw(1);
    order_test o;
    constexpr int n = 5;
    int pr[n];
    for (int k = 0; k < n; ++k) pr[k] = (int)sym::choose("prio", 3);
    stlab::default_executor([&]() noexcept {
        for (int k = 0; k < n; ++k) o.put(pr[k], [](int) {});
    });
    stlab::pre_exit();
    CHECK(o.nstarted == n, "all tasks ran");
    sym::reach("done");
    sym::leaks();
}
ENTRY(o_more) { // @E02 preempt=0 reach=done weight=2
    // running tasks submit further ones
    __sym_set_hw(1);
    order_test o;
    int pr[N2], by[2];
    for (int k = 0; k < 5; ++k) pr[k] = (int)sym::choose("prio", 3);
    by[0] = (int)sym::choose("parent", 3);
    by[1] = (int)sym::choose("parent", 3);
    stlab::default_executor([&]() noexcept {
        for (int k = 0; k < 3; ++k)
            o.put(pr[k], [&](int me) {
                for (int j = 0; j < 2; ++j)
                    if (by[j] == me) o.put(pr[3 + j], [](int) {});
            });
    });
    stlab::pre_exit();
    CHECK(o.nstarted == 5, "all tasks ran");
    sym::reach("done");
    sym::leaks();
}
ENTRY(o_asleep) { // @E02 preempt=0 reach=done
    // the worker sleeps while several tasks arrive
    __sym_set_hw(1);
    order_test o;
    constexpr int n = 4;
    int pr[n];
    for (int k = 0; k < n; ++k) pr[k] = (int)sym::choose("prio", 3);
    stlab::default_executor([]() noexcept {});
    sym::quiesce();
    for (int k = 0; k < n; ++k) o.put(pr[k], [](int) {});
    sym::quiesce();
    CHECK(o.nstarted == n, "all tasks ran");
    stlab::pre_exit();
    sym::reach("done");
    sym::leaks();
}
ENTRY(o_wrapped) { // @E02 preempt=0 reach=done
    // many tasks of one priority behind each other keep their order; a late high one overtakes all
    __sym_set_hw(1);
    int prev = -1, ran = 0, n = 9, late = (int)sym::choose("late", 9), p = (int)sym::choose("prio", 2), at = -1;
    stlab::default_executor([&]() noexcept {
        for (int k = 0; k < n; ++k)
            submit(p + 1, [&, k]() noexcept {
                CHECK(k == prev + 1, "submission order");
                prev = k;
                ++ran;
                if (k == late) submit(p, [&]() noexcept { at = ran; });
            });
    });
    stlab::pre_exit();
    CHECK(ran == n && at == late + 1, "a later task of higher priority starts next");
    sym::reach("done");
    sym::leaks();
}
namespace {
// the queue of one worker, as far as it has the operations the pool is built on today
template <class NQ>
concept has_steal = requires(NQ& q, ctask f, std::size_t p) {
    { q.try_pop() } -> std::same_as<ctask>;
    { q.pop() } -> std::same_as<std::pair<bool, ctask>>;
    q.push(std::move(f), p);
    { q.try_push(std::move(f), p) } -> std::same_as<bool>;
};
template <class NQ>
void steal() {
    NQ q;
    constexpr int n = 5;
    int pr[n], got[n], m = 0;
    bool in[n] = {}, out[n] = {};
    auto take = [&](bool steal) {
        int best = -1;
        for (int k = 0; k < n; ++k)
            if (in[k] && !out[k] && (best < 0 || pr[k] < pr[best])) best = k;
        if (best < 0) return;
        int before = m;
        if (steal) {
            auto t = q.try_pop();
            CHECK(static_cast<bool>(t), "a waiting task is taken");
            if (t) t();
        } else {
            auto t = q.pop();
            CHECK(!t.first && static_cast<bool>(t.second), "a waiting task is taken");
            if (t.second) t.second();
        }
        CHECK(m == before + 1 && got[before] == best, "the first task by priority and submission is taken");
        out[best] = true;
    };
    for (int k = 0; k < n; ++k) {
        pr[k] = (int)sym::choose("prio", 3);
        auto f = [&, k]() noexcept { got[m++] = k; };
        if (sym::choose("push", 2)) q.push(f, (std::size_t)pr[k]);
        else { bool ok = q.try_push(f, (std::size_t)pr[k]); CHECK(ok, "an uncontended push succeeds"); }
        in[k] = true;
        if (k >= 2 && sym::choose("mid", 2)) take(k & 1);
    }
    bool own = sym::choose("own", 2);
    for (int k = 0; k < n; ++k) take(own);
    CHECK(m == n && !q.try_pop(), "every task was taken once");
}
} // namespace
ENTRY(o_steal) { // @E02 preempt=0 reach=done weight=2
    // one thread drains a queue that another fills, by the stealing and by the owning operation
    using NQ = stlab::detail::notification_queue;
    if constexpr (has_steal<NQ>) steal<NQ>();
    sym::reach("done");
}

// ---- E03: waiting inside pool tasks
namespace {
struct wait_test {
    int runs[MAXJ] = {}, n = 0;
    void finish() {
        for (int k = 0; k < n; ++k) CHECK(runs[k] == 1, "every task ran once");
    }
};
// a task that waits for a task that waits ... d deep
int depth(wait_test& w, int k, int d) {
    ++w.runs[k];
    if (!d) return 1;
    return 1 + stlab::await(stlab::async(stlab::default_executor, [&w, k, d]() -> int { return depth(w, k + 1, d - 1); }));
}
void waits(int hw, int d) {
    __sym_set_hw(hw);
    wait_test w;
    w.n = d + 1;
    {
        auto f = stlab::async(stlab::default_executor, [&]() -> int { return depth(w, 0, d); });
        CHECK(stlab::await(std::move(f)) == d + 1, "nested waits all finish");
    }
    stlab::pre_exit();
    w.finish();
    sym::reach("done");
    sym::leaks();
}
// n tasks that each wait for one further task
void fan(int hw, int n) {
    __sym_set_hw(hw);
    wait_test w;
    w.n = 2 * n;
    for (int k = 0; k < n; ++k)
        stlab::default_executor([&w, k]() noexcept {
            ++w.runs[2 * k];
            auto f = stlab::async(stlab::default_executor, [&w, k] { ++w.runs[2 * k + 1]; return k; });
            CHECK(stlab::await(std::move(f)) == k, "the waiting task gets the result");
        });
    sym::quiesce();
    w.finish();
    stlab::pre_exit();
    sym::reach("done");
    sym::leaks();
}
} // namespace

ENTRY(w_depth1) { // @E03,E01,S01 flags=unlock-sched preempt=2 reach=done thorough.preempt=3 weight=2
    waits(1, 1);
}
ENTRY(w_depth2) { // @E03 flags=unlock-sched preempt=1 reach=done thorough.preempt=2 weight=2
    waits(1, 2);
}
ENTRY(w_depth4) { // @E03 preempt=0 reach=done
    waits(1, 4);
}
ENTRY(w_fan2) { // @E03,S01 flags=unlock-sched preempt=1 reach=done thorough.preempt=2 weight=2
    fan(1, 2);
}
ENTRY(w_fan2_2w) { // @E03 flags=unlock-sched preempt=1 reach=done thorough.preempt=2 weight=2
    fan(3, 2);
}
ENTRY(w_fan4) { // @E03 preempt=0 reach=done
    fan(3, 4);
}
ENTRY(w_late) { // @E03 preempt=0 reach=done
    // the result a task waits for comes from work submitted while it waits
    __sym_set_hw((int)sym::choose("hw", 2) + 2);
    int ran = 0;
    {
        auto pf = package<int(int)>(immediate_executor, [](int v) { return v; });
        stlab::default_executor([&, f = std::move(pf.second)]() mutable noexcept {
            ++ran;
            CHECK(stlab::await(std::move(f)) == 7, "the waiting task gets the result");
            ++ran;
        });
        sym::quiesce();
        CHECK(ran == 1, "the task waits");
        stlab::default_executor([&, p = std::move(pf.first)]() mutable noexcept { p(7); });
        sym::quiesce();
        CHECK(ran == 2, "work submitted while a task waits gets a thread");
    }
    stlab::pre_exit();
    sym::reach("done");
    sym::leaks();
}
ENTRY(w_teardown) { // @E03,E01,S01 flags=unlock-sched preempt=2 reach=done thorough.preempt=3 weight=2
    // tear-down begins while tasks still start waits
    __sym_set_hw((int)sym::choose("hw", 2) + 2);
    wait_test w;
    w.n = 2;
    stlab::default_executor([&]() noexcept {
        ++w.runs[0];
        auto f = stlab::async(stlab::default_executor, [&] { ++w.runs[1]; return 1; });
        CHECK(stlab::await(std::move(f)) == 1, "the waiting task gets the result");
    });
    stlab::pre_exit();
    w.finish();
    sym::reach("done");
    sym::leaks();
}
