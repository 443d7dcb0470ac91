#include "conc.hpp"
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/executor_base.hpp>
#include <stlab/concurrency/system_timer.hpp>
#include <stlab/pre_exit.hpp>
using namespace hc;
using std::chrono::nanoseconds;

namespace {
using timer = stlab::detail::system_timer;
constexpr int MAXJ = 6;
struct tlog {
    uint64_t due[MAXJ] = {};
    int runs[MAXJ] = {}, lives[MAXJ] = {}, order[MAXJ] = {}, n = 0;
    bool stopped = false;
    void run(int k) {
        CHECK(!stopped, "no task runs after the timer stopped");
        CHECK(__sym_now() >= due[k], "a task never runs before its delay has elapsed");
        CHECK(runs[k] == 0, "a task runs once");
        ++runs[k];
        order[n++] = k;
    }
};
int delay(const char* n, int max) { return sym::range(n, 0, max); }
template <class T>
void at(T& tm, tlog& l, int k, int d) {
    l.due[k] = __sym_now() + (uint64_t)d;
    tm(nanoseconds(d), [&l, k, t = token(&l.lives[k])]() noexcept { l.run(k); });
}
} // namespace

// n tasks with arbitrary delays: run in due order
namespace {
void due_order(int n, int max) {
    {
        tlog l;
        {
            timer tm;
            int d[MAXJ];
            for (int k = 0; k < n; ++k) at(tm, l, k, d[k] = delay("delay", max));
            sym::quiesce();
            CHECK(l.n == n, "every task ran");
            for (int i = 0; i < n; ++i)
                for (int j = i + 1; j < n; ++j)
                    CHECK(d[l.order[i]] <= d[l.order[j]], "tasks run in the order they are due");
            for (int k = 0; k < n; ++k) CHECK(l.runs[k] == 1 && l.lives[k] == 0, "every task ran once and was released");
        }
        sym::reach("done");
    }
    sym::leaks();
}
} // namespace
ENTRY(t_due2) { // @E05 preempt=0 reach=done
    due_order(2, 1 << 30);
}
ENTRY(t_due3) { // @E05 preempt=0 reach=done weight=2
    due_order(3, 1 << 30);
}
ENTRY(t_due4) { // @E05 preempt=0 reach=done weight=4 tier=thorough time=400
    due_order(4, 1 << 30);
}
// the clock moves between submissions, some tasks are already due
ENTRY(t_advance) { // @E05 preempt=0 reach=done weight=3
    {
        tlog l;
        {
            timer tm;
            int d[3], a[3];
            for (int k = 0; k < 3; ++k) {
                at(tm, l, k, d[k] = sym::range("delay", -1000, 1 << 20));
                a[k] = sym::range("pass", 0, 1 << 20);
                __sym_advance((uint64_t)a[k]);
                if (k == 1 && sym::choose("let", 2)) {
                    sym::quiesce(false);
                    for (int j = 0; j < 2; ++j)
                        if (__sym_now() < l.due[j]) CHECK(l.runs[j] == 0, "not before it is due");
                }
            }
            sym::quiesce();
            CHECK(l.n == 3, "every task ran");
            for (int k = 0; k < 3; ++k) CHECK(l.runs[k] == 1 && l.lives[k] == 0, "every task ran once and was released");
        }
        sym::reach("done");
    }
    sym::leaks();
}
// a task due earlier is not held up by the wait for a later one
ENTRY(t_earlier) { // @E05 preempt=0 reach=done weight=2
    {
        tlog l;
        {
            timer tm;
            int a = delay("long", 1 << 30), b = delay("short", 1 << 30), c = delay("mid", 1 << 30);
            sym::assume(b < c && c < a);
            bool seen[3] = {};
            l.due[2] = ~0ull;
            auto put = [&](int k, int d) {
                l.due[k] = __sym_now() + (uint64_t)d;
                tm(nanoseconds(d), [&l, &seen, k]() noexcept {
                    l.run(k);
                    seen[k] = true;
                    if (k == 1) CHECK(__sym_now() < l.due[0] && __sym_now() < l.due[2], "the earlier task runs before the later ones are due");
                    if (k == 2) CHECK(__sym_now() < l.due[0], "the earlier task runs before the later one is due");
                });
            };
            put(0, a);
            sym::quiesce(false);
            sym::assume(l.n == 0); // no time passed
            put(1, b);
            if (sym::choose("wait", 2)) {
                sym::quiesce(false);
                sym::assume(l.runs[0] == 0);
            }
            put(2, c);
            sym::assume(l.due[2] < l.due[0]);
            sym::quiesce();
            CHECK(l.n == 3 && l.order[0] == 1 && l.order[1] == 2 && l.order[2] == 0, "due order");
        }
        sym::reach("done");
    }
    sym::leaks();
}
// the timer is destroyed while tasks are pending, running or due
ENTRY(t_stop) { // @E05,S01 preempt=2 reach=done flags=unlock-sched thorough.preempt=3 weight=2
    {
        tlog l;
        int at_stop;
        {
            timer tm;
            at(tm, l, 0, delay("delay", 100));
            at(tm, l, 1, delay("delay", 100));
        }
        at_stop = l.n;
        l.stopped = true;
        sym::quiesce();
        CHECK(l.n == at_stop, "nothing runs after the timer stopped");
        for (int k = 0; k < 2; ++k) CHECK(l.lives[k] == 0 && l.runs[k] <= 1, "pending tasks are released");
        sym::reach("done");
    }
    sym::leaks();
}
// stopping waits for the running task
ENTRY(t_stop_running) { // @E05 preempt=2 reach=in,out thorough.preempt=3
    {
        std::mutex m;
        bool started = false, done = false;
        {
            timer tm;
            tm(nanoseconds(0), [&]() noexcept {
                { std::scoped_lock<std::mutex> l(m); started = true; }
                { std::scoped_lock<std::mutex> l(m); done = true; }
            });
        }
        CHECK(started == done, "stopping waits for the task that runs");
        sym::reach(started ? "in" : "out");
    }
    sym::leaks();
}
ENTRY(t_two_threads) { // @E05,S01 preempt=2 reach=done thorough.preempt=3 weight=2
    {
        tlog l;
        {
            timer tm;
            int a = delay("delay", 50), b = delay("delay", 50);
            std::thread t([&] { at(tm, l, 0, a); });
            at(tm, l, 1, b);
            t.join();
            sym::quiesce();
            CHECK(l.n == 2 && l.lives[0] == 0 && l.lives[1] == 0, "every task ran");
        }
        sym::reach("done");
    }
    sym::leaks();
}
// tasks that use the timer
ENTRY(t_inside) { // @E05 preempt=0 reach=done
    {
        tlog l;
        {
            timer tm;
            int a = delay("delay", 1 << 20), b = sym::range("again", -10, 1 << 20), c = delay("delay", 1 << 20);
            sym::assume(a < c);
            l.due[0] = __sym_now() + (uint64_t)a;
            tm(nanoseconds(a), [&]() noexcept {
                l.run(0);
                at(tm, l, 1, b);
            });
            at(tm, l, 2, c);
            sym::quiesce();
            CHECK(l.n == 3 && l.order[0] == 0, "every task ran");
            if (a + b < c) CHECK(l.order[1] == 1, "due order");
            if (a + b > c) CHECK(l.order[2] == 1, "due order");
        }
        sym::reach("done");
    }
    sym::leaks();
}
// the clock moves while the timer looks at it, waits end without cause
ENTRY(t_clock) { // @E05 preempt=1 reach=done weight=2
    {
        __sym_option("spurious", 1);
        tlog l;
        {
            timer tm;
            at(tm, l, 0, delay("delay", 1 << 20));
            sym::quiesce(false);
            at(tm, l, 1, delay("delay", 1 << 20));
            __sym_option("clock", 1);
            sym::quiesce();
            CHECK(l.n == 2, "every task ran");
        }
        sym::reach("done");
    }
    sym::leaks();
}
// the process-wide timer, every unit of time
ENTRY(t_global) { // @E05 preempt=0 reach=done
    {
        tlog l;
        using namespace std::chrono;
        auto put = [&](int k, auto d) {
            l.due[k] = __sym_now() + (uint64_t)duration_cast<nanoseconds>(d).count();
            stlab::system_timer(d, [&l, k, t = token(&l.lives[k])]() noexcept { l.run(k); });
        };
        put(0, seconds(2));
        put(1, milliseconds(2));
        put(2, microseconds(2));
        put(3, nanoseconds(2));
        put(4, hours(1));
        l.due[5] = __sym_now() + 5000;
        stlab::system_timer(steady_clock::now() + nanoseconds(5000), [&l]() noexcept { l.run(5); });
        sym::quiesce();
        CHECK(l.n == 6, "every task ran");
        static const int want[] = {3, 2, 5, 1, 0, 4};
        for (int i = 0; i < 6; ++i) CHECK(l.order[i] == want[i], "due order");
        sym::reach("done");
    }
}

// ---------------------------------------------------------------- E06
namespace {
constexpr int MT = 4;
struct dlog {
    int given[2] = {}, ran[MT] = {}, lives[MT] = {};
    uint64_t due[MT] = {}, handed[MT] = {};
    int order[MT] = {}, n = 0;
};
} // namespace
// tasks given to a delayed executor reach the underlying executor once each, not before the delay
ENTRY(x_delayed) { // @E06 preempt=0 reach=done weight=2
    {
        dlog l;
        int form = (int)sym::choose("form", 3), n = 3, d = delay("delay", 1 << 20);
        std::mutex m; // the timer thread fills the queue
        auto under = [&](ctask&& t) {
            std::scoped_lock<std::mutex> lock(m);
            CHECK(static_cast<bool>(t), "an executor is never given an empty task");
            l.handed[l.n] = __sym_now();
            ++l.n;
            Q.executor()(std::move(t));
        };
        stlab::executor_t e = form == 0 ? stlab::execute_at(nanoseconds(d), under) :
                              form == 1 ? stlab::executor_t(stlab::execute_delayed(nanoseconds(d), under)) :
                                          stlab::execute_at(std::chrono::steady_clock::now() + nanoseconds(d), under);
        stlab::executor_t e2 = e;
        uint64_t t0 = __sym_now();
        for (int k = 0; k < n; ++k) {
            auto f = [&l, k, t = token(&l.lives[k])]() noexcept { ++l.ran[k]; l.order[k] = k; };
            int before = l.n;
            if (k == 1) e2(std::move(f));
            else e(std::move(f));
            if (d == 0) CHECK(l.n == before + 1, "without a delay the task is handed over at once");
            if (k == 1 && sym::choose("wait", 2)) sym::quiesce();
        }
        sym::quiesce();
        CHECK(l.n == n, "every task is handed to the underlying executor, once");
        for (int k = 0; k < n; ++k) CHECK(l.ran[k] == 0, "only the underlying executor runs tasks");
        for (int k = 0; k < n; ++k) CHECK(l.handed[k] >= t0 + (uint64_t)d, "not before the delay");
        Q.run_all();
        for (int k = 0; k < n; ++k) CHECK(l.ran[k] == 1 && l.lives[k] == 0, "every task ran once");
        sym::reach("done");
    }
}
// dropping the delayed executor while tasks are pending does not lose them
ENTRY(x_delayed_drop) { // @E06 preempt=1 reach=done thorough.preempt=2
    {
        int ran = 0, live = 0, d = delay("delay", 1 << 20);
        {
            auto e = stlab::execute_delayed(nanoseconds(d), [](ctask&& t) { std::move(t)(); });
            e([&, t = token(&live)]() noexcept { ++ran; });
        }
        sym::quiesce();
        CHECK(ran == 1 && live == 0, "the task runs once");
        sym::reach("done");
    }
}
// several threads use one delayed executor
ENTRY(x_delayed_shared) { // @E06,S01 preempt=2 reach=done thorough.preempt=3 weight=2
    {
        int ran[2] = {};
        auto under = [](ctask&& t) { std::move(t)(); };
        const stlab::executor_t e = stlab::execute_at(nanoseconds(10), under);
        stlab::executor_t a = e, b = e;
        std::thread t([&] { a([&]() noexcept { ++ran[0]; }); });
        b([&]() noexcept { ++ran[1]; });
        t.join();
        sym::quiesce();
        CHECK(ran[0] == 1 && ran[1] == 1, "every task runs once");
        sym::reach("done");
    }
}
// futures on delayed executors
ENTRY(xd_async) { // @E06 preempt=0 reach=done weight=2
    {
        int x = sym::i32("x"), d = delay("delay", 1 << 20);
        uint64_t due = __sym_now() + (uint64_t)d;
        int stage = 0;
        auto ex = stlab::execute_delayed(nanoseconds(d), [](ctask&& t) { std::move(t)(); });
        auto f = stlab::async(ex, [&](int v) { CHECK(__sym_now() >= due, "not early"); ++stage; return v; }, x) |
                 (stlab::executor{ex} & [&](int v) { CHECK(__sym_now() >= due + (uint64_t)d, "each stage is delayed"); ++stage; return mo(v); });
        sym::quiesce();
        CHECK(stage == 2 && f.is_ready(), "done");
        CHECK(kind<mo>::get(std::move(f).get_ready()) == x, "value");
        sym::reach("done");
    }
}
// executor & function in both orders; the immediate executor
ENTRY(x_pair) { // @E06 reach=done
    {
        int x = sym::i32("x"), got = 0, given = 0, live = 0;
        auto ex = [&](ctask&& t) { ++given; std::move(t)(); };
        auto fn = [&, t = token(&live)](int v) { got = v; return v; };
        {
            auto a = stlab::executor{ex} & fn;
            auto b = fn & stlab::executor{ex};
            auto c = stlab::executor{ex} & [&, m = mo(3)](int v) { got = v + kind<mo>::get(m); return v; };
            CHECK(a._f(x) == x && got == x, "the pair keeps the function");
            CHECK(b._f(x ^ 1) == (x ^ 1) && got == (x ^ 1), "the pair keeps the function");
            int r = 0;
            a._executor([&]() noexcept { r += 1; });
            CHECK(r == 1 && given == 1, "the pair keeps the executor");
            b._executor([&]() noexcept { r += 2; });
            CHECK(r == 3 && given == 2, "the pair keeps the executor");
            c._executor([&]() noexcept { r += 4; });
            CHECK(r == 7 && given == 3, "the pair keeps the executor");
            c._f(0);
            CHECK(got == 3, "the pair keeps the function");
        }
        CHECK(live == 1, "copies are released");
        int r = 0;
        mo m(x);
        immediate_executor([&, m = std::move(m)]() mutable noexcept { r = kind<mo>::get(m); m = mo(); });
        CHECK(r == x, "the immediate executor runs the task before it returns");
        immediate_executor(ctask([&]() noexcept { r = 5; }));
        CHECK(r == 5, "the immediate executor runs the task before it returns");
        sym::reach("done");
    }
    sym::leaks();
}

// the deprecated forms with a point in time, also one that is past
ENTRY(t_point) { // @E05,E06 preempt=1 reach=done,past
    {
        tlog l[2]; // one each: a task without delay runs in place
        bool direct = sym::choose("direct", 2);
        {
            std::optional<timer> tm;
            if (direct) tm.emplace();
            __sym_advance((uint64_t)sym::range("start", 1000, 2000));
            int n = 0;
            for (; n < 2; ++n) {
                int d = sym::range("delay", -500, 1 << 20);
                auto when = std::chrono::steady_clock::now() + nanoseconds(d);
                l[n].due[n] = (uint64_t)when.time_since_epoch().count();
                auto f = [&l, n, t = token(&l[n].lives[n])]() noexcept { l[n].run(n); };
                if (direct) (*tm)(when, std::move(f));
                else stlab::execute_at(when, stlab::immediate_executor)(std::move(f));
                if (d < 0) sym::reach("past");
                if (d == 0 && !direct) CHECK(l[n].runs[n] == 1, "a task without delay goes to the executor at once");
                if (sym::choose("wait", 2)) sym::quiesce();
            }
            sym::quiesce();
            for (int k = 0; k < n; ++k) CHECK(l[k].runs[k] == 1 && l[k].lives[k] == 0, "every task ran once and was released");
        }
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}

// delays of any size and unit, up to and beyond the range of the clock
namespace {
constexpr uint64_t never = (uint64_t)INT64_MAX; // in nanoseconds: the last value the clock can show
// x units of `unit` nanoseconds from now
uint64_t far_due(uint64_t now, uint64_t x, uint64_t unit) {
    return x > (never - now) / unit ? never : now + x * unit;
}
// a delay about as long as the clock can show, or much longer
int64_t far_delay(uint64_t unit, int64_t most) {
    const int64_t room = (int64_t)((never - __sym_now()) / unit);
    const int64_t d[] = {room - 2, room - 1, room, room + 1, room / 2, most / 2 + 1, most - 1, most};
    const int64_t x = d[sym::choose("far", 8)];
    sym::assume(x >= 0 && x <= most);
    return x;
}
template <class F>
uint64_t far_put(int form, F&& put) {
    const uint64_t now = __sym_now();
    const uint64_t unit[] = {1, 1000, 1000000000ull, 3600000000000ull, 86400000000000ull};
    const int64_t d = far_delay(unit[form], form == 4 ? INT32_MAX : INT64_MAX);
    switch (form) {
        case 0: put(nanoseconds(d)); break;
        case 1: put(std::chrono::microseconds(d)); break;
        case 2: put(std::chrono::seconds(d)); break;
        case 3: put(std::chrono::hours(d)); break;
        default: put(std::chrono::duration<int, std::ratio<86400>>((int)d));
    }
    return far_due(now, (uint64_t)d, unit[form]);
}
} // namespace
ENTRY(t_far) { // @E05 preempt=0 reach=done,never
    {
        tlog l;
        {
            timer tm;
            int form = (int)sym::choose("unit", 5), e = (int)sym::choose("short", 2) * 1000;
            if (sym::choose("later", 2)) __sym_advance(12345);
            l.due[0] = 0;
            uint64_t due = far_put(form, [&](auto d) { tm(d, [&l, t = token(&l.lives[0])]() noexcept { l.run(0); }); });
            l.due[0] = due;
            if (due == never) sym::reach("never");
            at(tm, l, 1, e);
            sym::quiesce(); // the clock goes on until everything is due
            CHECK(l.n == 2, "every task ran");
            if (due != l.due[1]) CHECK(l.order[0] == (due < l.due[1] ? 0 : 1), "tasks run in the order they are due");
            for (int k = 0; k < 2; ++k) CHECK(l.runs[k] == 1 && l.lives[k] == 0, "every task ran once and was released");
        }
        sym::reach("done");
    }
    sym::leaks();
}
// a delayed executor with such a delay hands over nothing before it
ENTRY(x_far) { // @E06 preempt=0 reach=done
    {
        dlog l;
        std::mutex m;
        auto under = [&](ctask&& t) {
            std::scoped_lock<std::mutex> lock(m);
            l.handed[l.n++] = __sym_now();
            Q.executor()(std::move(t));
        };
        uint64_t due = far_put((int)sym::choose("unit", 5), [&](auto d) {
            auto e = stlab::execute_delayed(d, under);
            for (int k = 0; k < 2; ++k) e([&l, k, t = token(&l.lives[k])]() noexcept { ++l.ran[k]; });
        });
        sym::quiesce(false);
        {
            std::scoped_lock<std::mutex> lock(m);
            if (due > __sym_now()) CHECK(l.n == 0, "not before the delay");
        }
        sym::quiesce();
        CHECK(l.n == 2 && l.handed[0] >= due && l.handed[1] >= due, "every task is handed to the underlying executor, not before the delay");
        Q.run_all();
        for (int k = 0; k < 2; ++k) CHECK(l.ran[k] == 1 && l.lives[k] == 0, "every task ran once");
        sym::reach("done");
    }
}
