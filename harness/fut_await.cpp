#include "conc.hpp"
#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/pre_exit.hpp>
using namespace hc;

namespace {
// 0 value, 1 exception, 2 broken
template <class T>
auto source(int& out) {
    return package<T(int)>(immediate_executor, [&out](int v) -> T { if (out == 1) throw boom{v}; return mk<T>(v); });
}
template <class P>
void fire(P& p, int out, int x) {
    if (out == 2) { auto gone = std::move(p); }
    else p(x);
}
// the outcome of taking f by get()
template <class F>
void expect_outcome(int out, int x, F&& get) {
    auto e = caught([&] {
        if constexpr (std::is_void_v<decltype(get())>) { get(); CHECK(out == 0, "the wait returns"); }
        else { auto v = get(); CHECK(out == 0 && is_val(x, v), "the wait returns the value"); }
    });
    CHECK(!!e == (out != 0), "an exception is rethrown exactly when there is one");
    if (out == 1) CHECK_BOOM(e, x, "the stored exception");
    if (out == 2) CHECK_BROKEN(e, "the broken promise");
}
template <class T>
void await_race() {
    __sym_set_hw(1);
    {
        int x = sym::i32("x"), out = sym::choose("out", 3);
        auto pf = source<T>(out);
        std::thread t([&, p = std::move(pf.first)]() mutable { fire(p, out, x); });
        expect_outcome(out, x, [&] { return stlab::await(std::move(pf.second)); });
        t.join();
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}
template <class T>
void await_ready() {
    __sym_set_hw(1);
    {
        int x = sym::i32("x"), out = sym::choose("out", 3), form = sym::choose("form", 3);
        auto pf = source<T>(out);
        fire(pf.first, out, x);
        if (form == 0) expect_outcome(out, x, [&] { return stlab::await(std::move(pf.second)); });
        else if (form == 1) {
            auto r = stlab::await_for(std::move(pf.second), std::chrono::nanoseconds(0));
            CHECK(r.is_ready(), "a bounded wait for a ready future returns it");
            expect_outcome(out, x, [&] { return std::move(r).get_ready(); });
        } else if constexpr (!std::is_same_v<T, mo>) {
            expect_outcome(out, x, [&] { return stlab::await(stlab::copy(pf.second)); });
            expect_outcome(out, x, [&] { return stlab::blocking_get(pf.second); });
            expect_outcome(out, x, [&] { return stlab::await(pf.second); });
            auto r = stlab::await_for(pf.second, std::chrono::nanoseconds(0));
            CHECK(r.is_ready() && r == pf.second, "a bounded wait for a copy is a copy");
            expect_outcome(out, x, [&] { return pf.second.get_ready(); });
        }
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}
template <class T>
void await_for_race() {
    __sym_set_hw(1);
    {
        int x = sym::i32("x"), out = sym::choose("out", 3), runs = 0;
        auto pf = source<T>(out);
        std::thread t([&, p = std::move(pf.first)]() mutable { fire(p, out, x); });
        auto r = stlab::await_for(std::move(pf.second), std::chrono::milliseconds(5));
        CHECK(r.valid(), "a bounded wait returns a valid future");
        sym::reach(r.is_ready() ? "intime" : "late");
        if (sym::choose("cont", 2)) {
            auto c = std::move(r).recover([&](future<T> f) { ++runs; expect_outcome(out, x, [&] { return std::move(f).get_ready(); }); });
            t.join();
            CHECK(runs == 1 && c.is_ready() && !c.exception(), "the result arrives exactly once");
        } else {
            t.join();
            CHECK(r.is_ready(), "the returned future receives the result");
            expect_outcome(out, x, [&] { return std::move(r).get_ready(); });
        }
    }
    stlab::pre_exit();
    sym::leaks();
}
} // namespace

ENTRY(v_ready_int) { // @A09 reach=done
    await_ready<cm>();
}
ENTRY(v_ready_mo) { // @A09 reach=done
    await_ready<mo>();
}
ENTRY(v_ready_void) { // @A09 reach=done
    await_ready<void>();
}
ENTRY(v_await_int) { // @A09,S01 reach=done preempt=2 thorough.preempt=3
    await_race<cm>();
}
ENTRY(v_await_mo) { // @A09,S01 reach=done preempt=2 thorough.preempt=3
    await_race<mo>();
}
ENTRY(v_await_void) { // @A09,S01 reach=done preempt=2 thorough.preempt=3
    await_race<void>();
}
ENTRY(v_for_int) { // @A09,S01 reach=intime,late preempt=2 thorough.preempt=3
    await_for_race<cm>();
}
ENTRY(v_for_mo) { // @A09,S01 reach=intime,late preempt=2 thorough.preempt=3
    await_for_race<mo>();
}
ENTRY(v_for_void) { // @A09,S01 reach=intime,late preempt=2 thorough.preempt=3
    await_for_race<void>();
}

// the deprecated spellings
ENTRY(v_blocking) { // @A09 reach=intime,late preempt=1
    __sym_set_hw(1);
    {
        int x = sym::i32("x"), out = sym::choose("out", 3), form = sym::choose("form", 3);
        auto pf = source<int>(out);
        std::thread t([&, p = std::move(pf.first)]() mutable { fire(p, out, x); });
        if (form == 0) {
            expect_outcome(out, x, [&] { return stlab::blocking_get(std::move(pf.second)); });
        } else if (form == 1) {
            auto r = stlab::blocking_get_for(std::move(pf.second), std::chrono::milliseconds(5));
            CHECK(r.valid(), "a bounded wait returns a valid future");
            t.join();
            CHECK(r.is_ready(), "the returned future receives the result");
            expect_outcome(out, x, [&] { return std::move(r).get_ready(); });
        } else {
            auto keep = pf.second;
            bool got = false;
            auto e = caught([&] {
                auto o = stlab::blocking_get(std::move(pf.second), std::chrono::milliseconds(5));
                if (o) { got = true; CHECK(out == 0 && *o == x, "value"); }
            });
            if (e && out == 1) CHECK_BOOM(e, x, "exception");
            else if (e) { CHECK(out == 2, "only failures throw"); CHECK_BROKEN(e, "broken"); }
            sym::reach(e || got ? "intime" : "late");
            if (t.joinable()) t.join();
            expect_outcome(out, x, [&] { return std::move(keep).get_ready(); });
        }
        if (t.joinable()) t.join();
    }
    stlab::pre_exit();
    sym::leaks();
}

// time passes only while nothing can run: a result that comes ends a bounded wait then and there, not at its time
template <class T>
static void prompt() {
    __sym_option("clock", 2);
    __sym_set_hw(1);
    {
        int x = sym::i32("x"), out = sym::choose("out", 3), when = sym::choose("when", 3), go = 0;
        std::mutex m;
        std::condition_variable c;
        auto pf = source<T>(out);
        std::thread t([&, p = std::move(pf.first)]() mutable {
            if (when == 1) { // not before it is told to
                std::unique_lock<std::mutex> l(m);
                c.wait(l, [&] { return go != 0; });
            }
            fire(p, out, x);
        });
        uint64_t end = __sym_now() + 5000000;
        auto r = when == 2 ? stlab::blocking_get_for(std::move(pf.second), std::chrono::milliseconds(5)) : stlab::await_for(std::move(pf.second), std::chrono::milliseconds(5));
        CHECK(r.valid(), "a bounded wait returns a valid future");
        if (when != 1) {
            CHECK(r.is_ready(), "a bounded wait returns the result that came in time");
            CHECK(__sym_now() < end, "a bounded wait ends when the result comes");
            sym::reach("intime");
        } else {
            CHECK(!r.is_ready(), "no result has come");
            CHECK(__sym_now() >= end, "a bounded wait lasts its time when no result comes");
            std::unique_lock<std::mutex> l(m);
            go = 1;
            c.notify_one();
            sym::reach("late");
        }
        t.join();
        CHECK(r.is_ready(), "the returned future receives the result");
        expect_outcome(out, x, [&] { return std::move(r).get_ready(); });
    }
    stlab::pre_exit();
    sym::leaks();
}
ENTRY(v_prompt_int) { // @A09 reach=intime,late preempt=1 thorough.preempt=2
    prompt<int>();
}
ENTRY(v_prompt_mo) { // @A09 reach=intime,late preempt=1 thorough.preempt=2
    prompt<mo>();
}
ENTRY(v_prompt_void) { // @A09 reach=intime,late preempt=1 thorough.preempt=2
    prompt<void>();
}

// condition variables may wake without cause
ENTRY(v_spurious) { // @A09 reach=done preempt=1 thorough.preempt=2
    __sym_option("spurious", 1);
    __sym_set_hw(1);
    {
        int x = sym::i32("x"), form = sym::choose("form", 2), out = 0;
        auto pf = source<mo>(out);
        std::thread t([&, p = std::move(pf.first)]() mutable { p(x); });
        if (form == 0) {
            mo m = stlab::await(std::move(pf.second));
            CHECK(kind<mo>::get(m) == x, "value");
            t.join();
        } else {
            auto r = stlab::await_for(std::move(pf.second), std::chrono::milliseconds(5));
            t.join();
            CHECK(r.is_ready() && kind<mo>::get(std::move(r).get_ready()) == x, "value");
        }
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}

// a chain is awaited; its stages run on the pool
ENTRY(v_pool) { // @A09,S01 reach=done preempt=2 thorough.preempt=3 flags=unlock-sched
    __sym_set_hw(2);
    {
        int x = sym::i32("x"), fail = sym::choose("fail", 2);
        auto f = stlab::async(stlab::default_executor, [&](int v) -> int { if (fail) throw boom{v}; return v ^ 1; }, x);
        auto g = std::move(f) | [](int v) { return mo(v ^ 2); };
        auto e = caught([&] {
            mo m = stlab::await(std::move(g));
            CHECK(!fail && kind<mo>::get(m) == (x ^ 3), "value");
        });
        CHECK(!!e == fail, "exception");
        if (fail) CHECK_BOOM(e, x, "exception");
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}

// ---- a bounded wait as long as the clock can show, or longer
ENTRY(v_far) { // @A09 reach=done preempt=1
    __sym_set_hw(1);
    {
        int x = sym::i32("x"), out = (int)sym::choose("out", 3);
        const int64_t room = INT64_MAX - (int64_t)__sym_now(), all[] = {room / 2, room - 1, room, room + 1, INT64_MAX - 1, INT64_MAX};
        const std::chrono::nanoseconds d(all[sym::choose("d", 6)]);
        auto pf = source<cm>(out);
        bool back = false;
        std::mutex m;
        std::thread t([&, f = std::move(pf.second)]() mutable {
            const uint64_t now = __sym_now(), until = (uint64_t)d.count() > INT64_MAX - now ? (uint64_t)INT64_MAX : now + (uint64_t)d.count();
            auto r = stlab::await_for(std::move(f), d);
            sym::assume(__sym_now() < until); // this much time does not pass here
            std::lock_guard<std::mutex> lock(m);
            CHECK(r.is_ready(), "the result arrived in time");
            back = true;
            expect_outcome(out, x, [&] { return std::move(r).get_ready(); });
        });
        if (sym::choose("waiting", 2)) {
            __sym_advance(1000000);
            sym::quiesce(false);
            std::lock_guard<std::mutex> lock(m);
            CHECK(!back, "the wait goes on");
        }
        fire(pf.first, out, x);
        t.join();
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}
