#include "conc.hpp"
#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/pre_exit.hpp>
using namespace hc;
using stlab::schedule_mode;
using stlab::serial_queue_t;

namespace {
constexpr int MAXJ = 8;
// what the tasks of one queue do; plain data, the queue must order all accesses
struct log {
    int ran = 0, order[MAXJ] = {}, lives[MAXJ] = {}, inside = 0;
    int live() const {
        int s = 0;
        for (int x : lives) s += x;
        return s;
    }
    int runs[MAXJ] = {};
    void in(int k) {
        CHECK(inside == 0, "no two tasks of a queue run at the same time");
        inside = 1;
        CHECK(runs[k] == 0, "a task runs once");
        ++runs[k];
        order[ran++] = k;
    }
    void out() { inside = 0; }
    int pos(int k) const {
        for (int i = 0; i < ran; ++i) if (order[i] == k) return i;
        return -1;
    }
    void all(int n) const {
        CHECK(ran == n, "every task ran");
        for (int k = 0; k < n; ++k) CHECK(runs[k] == 1, "every task ran once");
        CHECK(live() == 0, "every task was released");
    }
};
schedule_mode mode() { return sym::choose("mode", 2) ? schedule_mode::all : schedule_mode::single; }

template <class Ex>
void put(log& l, Ex& ex, int k) {
    ex([&l, k, t = token(&l.lives[k])]() noexcept { l.in(k); l.out(); });
}
// a thread that runs what it is handed, one thread per task
struct thread_executor {
    std::thread* t;
    int* n;
    int max;
    template <class F>
    void operator()(F&& f) const {
        CHECK(*n < max, "harness has a thread for the task");
        if (*n < max) t[(*n)++] = std::thread(std::forward<F>(f));
    }
};
} // namespace

// ---- one thread, every way to interleave submitting, running and dropping the queue
ENTRY(s_manual) { // @E04 reach=done weight=2
    {
        log l;
        constexpr int n = 4;
        {
            std::optional<serial_queue_t> q(std::in_place, Q.executor(), mode());
            auto ex = q->executor();
            for (int k = 0; k < n; ++k) {
                put(l, ex, k);
                CHECK(l.ran <= k, "nothing runs before the executor runs it");
                if (sym::choose("drop", 2)) q.reset();
                int r = (int)sym::choose("run", 3);
                for (int i = 0; i < r; ++i) Q.run_one();
                for (int i = 0; i < l.ran; ++i) CHECK(l.order[i] == i, "tasks run in submission order");
                if (!q) break;
            }
        }
        Q.run_all();
        for (int i = 0; i < l.ran; ++i) CHECK(l.order[i] == i && l.runs[i] == 1, "tasks run once, in submission order");
        CHECK(l.live() == 0, "every task ran and was released");
        sym::reach("done");
    }
    sym::leaks();
}
// a task submitted while the queue runs (also by a task of the queue) runs later, not nested
ENTRY(s_inside) { // @E04 reach=done
    {
        log l;
        bool imm = sym::choose("executor", 2);
        auto m = mode();
        serial_queue_t q = imm ? serial_queue_t(immediate_executor, m) : serial_queue_t(Q.executor(), m);
        auto ex = q.executor();
        int more = (int)sym::choose("more", 3), who = (int)sym::choose("who", 2);
        for (int k = 0; k < 2; ++k)
            ex([&, k]() noexcept {
                l.in(k);
                if (k == who)
                    for (int j = 0; j < more; ++j) {
                        put(l, ex, 2 + j);
                        CHECK(l.runs[2 + j] == 0, "a task submitted by a task of the queue waits for it to finish");
                    }
                l.out();
            });
        Q.run_all();
        l.all(2 + more);
        if (more == 2) CHECK(l.pos(2) < l.pos(3), "submission order");
        CHECK(l.pos(0) < l.pos(1), "submission order");
        if (more && !imm) CHECK(l.pos(1) < l.pos(2), "submission order");
        sym::reach("done");
    }
    sym::leaks();
}
// the executor drops what it was given: tasks are released, nothing runs, the queue stays usable as an object
ENTRY(s_dropped) { // @E04 reach=done
    {
        log l;
        {
            serial_queue_t q(Q.executor(), mode());
            auto ex = q.executor();
            put(l, ex, 0);
            put(l, ex, 1);
            Q.drop_all();
            put(l, ex, 2);
            Q.run_all();
            CHECK(l.ran == 0 || (l.order[0] == 0 && (l.ran < 2 || l.order[1] == 1)), "order is kept");
        }
        CHECK(l.live() == 0, "every task was released");
        sym::reach("done");
    }
    sym::leaks();
}
// two queues on one executor do not hold each other up; copies of a queue are the same queue
ENTRY(s_two_queues) { // @E04 reach=done
    {
        log a, b;
        auto m = mode();
        serial_queue_t q(Q.executor(), m), r(Q.executor(), m);
        serial_queue_t q2 = q;
        auto e1 = q.executor(), e2 = q2.executor(), e3 = r.executor();
        put(a, e1, 0);
        put(b, e3, 0);
        put(a, e2, 1);
        put(b, e3, 1);
        put(a, e1, 2);
        Q.run_all();
        a.all(3);
        b.all(2);
        for (int i = 0; i < 3; ++i) CHECK(a.order[i] == i, "order through copies of a queue");
        for (int i = 0; i < 2; ++i) CHECK(b.order[i] == i, "order");
        sym::reach("done");
    }
    sym::leaks();
}
// calling the queue: results, exceptions, dropped futures
ENTRY(s_call) { // @E04 reach=done weight=2
    {
        int x = sym::i32("x");
        log l;
        bool fail = sym::choose("fail", 2), drop = sym::choose("drop", 2);
        auto m = mode();
        std::optional<serial_queue_t> q(std::in_place, Q.executor(), m);
        auto f0 = (*q)([&, t = token(&l.lives[0])](int v) { l.in(0); l.out(); if (fail) throw boom{v}; return v + 1; }, x);
        auto f1 = (*q)([&, t = token(&l.lives[1])](mo v) { l.in(1); l.out(); return v; }, mo(x));
        auto f2 = (*q)([&, t = token(&l.lives[2])] { l.in(2); l.out(); });
        auto g = std::move(f2) | [&] { return 5; };
        if (drop) {
            f1.reset();
            CHECK(l.live() == 2, "a task whose future was dropped is released");
        }
        if (sym::choose("gone", 2)) q.reset();
        CHECK(!f0.is_ready(), "nothing runs before the executor runs it");
        Q.run_all();
        CHECK(l.ran == (drop ? 2 : 3) && l.live() == 0, "all tasks ran");
        CHECK(l.pos(0) == 0 && l.pos(2) == l.ran - 1, "order");
        auto e = caught([&] { int v = std::move(f0).get_ready(); CHECK(!fail && v == (int)((unsigned)x + 1), "the result"); });
        CHECK(!!e == fail, "the exception");
        if (fail) CHECK_BOOM(e, x, "the exception");
        if (!drop) CHECK(kind<mo>::get(std::move(f1).get_ready()) == x, "the result");
        CHECK(std::move(g).get_ready() == 5, "continuation");
        sym::reach("done");
    }
    sym::leaks();
}
// serial queue as the executor of continuations and of another serial queue
ENTRY(s_nested) { // @E04 reach=done
    {
        int x = sym::i32("x");
        log l;
        serial_queue_t outer(Q.executor(), mode()), inner(outer.executor(), mode());
        auto ei = inner.executor(), eo = outer.executor();
        put(l, ei, 0);
        put(l, eo, 1);
        put(l, ei, 2);
        auto f = stlab::async(ei, [](int v) { return v; }, x).then(eo, [&](int v) { l.in(3); l.out(); return v; });
        Q.run_all();
        l.all(4);
        CHECK(l.pos(0) < l.pos(2), "order");
        CHECK(std::move(f).get_ready() == x, "value");
        sym::reach("done");
    }
    sym::leaks();
}

// ---- several threads
namespace {
void concurrent_enqueue(schedule_mode m, int extra) {
    {
        log l;
        {
            serial_queue_t q(immediate_executor, m);
            std::thread t([&, ex = q.executor()] { put(l, ex, 0); put(l, ex, 1); });
            auto ex = q.executor();
            put(l, ex, 2);
            for (int k = 0; k < extra; ++k) put(l, ex, 3 + k);
            t.join();
        }
        l.all(3 + extra);
        CHECK(l.pos(0) < l.pos(1), "order of one thread's submissions");
        for (int k = 0; k < extra; ++k) CHECK(l.pos(2 + k) < l.pos(3 + k), "order of one thread's submissions");
        sym::reach("done");
    }
    sym::leaks();
}
void on_threads(schedule_mode m) {
    {
        log l;
        std::thread ts[4];
        int n = 0;
        std::mutex mx;
        {
            serial_queue_t q([&](auto&& f) {
                std::scoped_lock<std::mutex> lock(mx);
                CHECK(n < 4, "harness has a thread for the task");
                if (n < 4) ts[n++] = std::thread([f = std::move(f)]() mutable { std::move(f)(); });
            }, m);
            auto ex = q.executor();
            for (int k = 0; k < 3; ++k) put(l, ex, k);
        }
        sym::quiesce();
        for (int k = 0; k < n; ++k) ts[k].join();
        l.all(3);
        for (int i = 0; i < 3; ++i) CHECK(l.order[i] == i, "submission order");
        sym::reach("done");
    }
    sym::leaks();
}
void on_pool(int hw, schedule_mode m, bool two) {
    __sym_set_hw(hw);
    {
        log l;
        {
            serial_queue_t q(stlab::default_executor, m);
            auto ex = q.executor();
            std::thread t;
            if (two) t = std::thread([&, ex = q.executor()] { put(l, ex, 2); });
            put(l, ex, 0);
            put(l, ex, 1);
            if (two) t.join();
        }
        stlab::pre_exit();
        l.all(two ? 3 : 2);
        CHECK(l.pos(0) < l.pos(1), "submission order");
        sym::reach("done");
    }
    sym::leaks();
}
} // namespace

ENTRY(s_enq_single) { // @E04,S01 preempt=3 reach=done flags=unlock-sched thorough.preempt=5 weight=2
    concurrent_enqueue(schedule_mode::single, 0);
}
ENTRY(s_enq_all) { // @E04,S01 preempt=3 reach=done flags=unlock-sched thorough.preempt=5 weight=2
    concurrent_enqueue(schedule_mode::all, 0);
}
ENTRY(s_enq2_single) { // @E04 preempt=3 reach=done thorough.preempt=4 weight=2
    concurrent_enqueue(schedule_mode::single, 2);
}
ENTRY(s_enq2_all) { // @E04 preempt=3 reach=done thorough.preempt=4 weight=2
    concurrent_enqueue(schedule_mode::all, 2);
}
ENTRY(s_threads_single) { // @E04,S01 preempt=3 reach=done thorough.preempt=4 weight=2
    on_threads(schedule_mode::single);
}
ENTRY(s_threads_all) { // @E04,S01 preempt=3 reach=done thorough.preempt=4 weight=2
    on_threads(schedule_mode::all);
}
ENTRY(s_pool_single) { // @E04,S01 preempt=2 reach=done flags=unlock-sched thorough.preempt=3 weight=2
    on_pool(3, schedule_mode::single, false);
}
ENTRY(s_pool_all) { // @E04,S01 preempt=2 reach=done flags=unlock-sched thorough.preempt=3 weight=2
    on_pool(3, schedule_mode::all, false);
}
ENTRY(s_pool2_single) { // @E04 preempt=2 reach=done thorough.preempt=3 weight=2
    on_pool(3, schedule_mode::single, true);
}
ENTRY(s_pool2_all) { // @E04 preempt=2 reach=done thorough.preempt=3 weight=2
    on_pool(3, schedule_mode::all, true);
}
