#include "conc.hpp"
using namespace hc;

namespace {
template <class T>
void abandoned() {
    int x = sym::i32("x");
    int how = sym::choose("how", 5), lv = sym::choose("lv", 2), when = sym::choose("when", 2);
    int chow = sym::choose("chow", 2) * 2;
    int ran = 0, vals = 0, recs = 0, tk = 0;
    auto pf = package<T(int)>(immediate_executor, [&, t = token(&tk)](int v) -> T { ++ran; return mk<T>(v); });
    auto fut = std::move(pf.second);
    auto abandon = [&] {
        CHECK(!pf.first.canceled() && !fut.is_ready(), "pending");
        switch (how) {
            case 0: { auto gone = std::move(pf.first); break; }
            case 1: pf.first = decltype(pf.first)(); break;
            case 2: { auto other = package<T(int)>(immediate_executor, [](int v) -> T { return mk<T>(v); });
                      pf.first = std::move(other.first); break; }
            case 3: { decltype(pf.first) b; b = std::move(pf.first); b = decltype(pf.first)(); break; }
            default: { auto a = std::move(pf.first); auto b = std::move(a); a(x); (void)b; break; }
        }
    };
    if (when == 0) { abandon(); CHECK(fut.is_ready(), "an abandoned result is ready"); CHECK_BROKEN(fut.exception(), "with a broken promise"); }
    auto r = rec_any(fut, lv, chow, [&](future<T> f) { ++recs; CHECK(f.is_ready(), "ready"); CHECK_BROKEN(f.exception(), "recovery sees it"); std::rethrow_exception(f.exception()); return mk<T>(0); });
    auto v = then_any(r, 0, 0, [&](auto&&...) { ++vals; return 1; });
    if (when == 1) { auto keep = &fut; (void)keep; if (!lv || std::is_same_v<T, mo>) {
            // the handle moved into the continuation
            switch (how) {
                case 0: { auto gone = std::move(pf.first); break; }
                case 1: pf.first = decltype(pf.first)(); break;
                default: { auto a = std::move(pf.first); auto b = std::move(a); a(x); (void)b; break; }
            }
        } else abandon(); }
    Q.run_all();
    CHECK(ran == 0 && vals == 0 && recs == 1, "observed exactly once, nothing else runs");
    CHECK(tk == 0, "the function is released");
    CHECK(v.is_ready(), "dependents are ready");
    CHECK_BROKEN(v.exception(), "and carry the broken promise");
    CHECK_BROKEN(caught([&] { v.get_ready(); }), "get_ready throws it");
    sym::reach("done");
}
} // namespace
ENTRY(b_int) { // @A05 reach=done
    abandoned<cm>();
    sym::leaks();
}
ENTRY(b_mo) { // @A05 reach=done
    abandoned<mo>();
    sym::leaks();
}
ENTRY(b_void) { // @A05 reach=done
    abandoned<void>();
    sym::leaks();
}

// sequences of operations on the task: only the first counts; nothing happens once the future is gone
ENTRY(b_ops) { // @A05 reach=value,failed,broken,gone
    {
        int x = sym::i32("x"), y = sym::i32("y");
        int ran = 0, recs = 0, tk = 0, dropAt = sym::choose("dropAt", 4);
        int state = 0; // 1 value, 2 exception, 3 broken
        bool gone = false;
        auto pf = package<int(int)>(immediate_executor, [&, t = token(&tk)](int v) { ++ran; return v; });
        auto r = pf.second.recover([&](future<int> f) {
            ++recs;
            if (state == 1) CHECK(!f.exception() && f.get_ready() == x, "value");
            else if (state == 2) CHECK_BOOM(f.exception(), x, "exception");
            else CHECK_BROKEN(f.exception(), "broken");
            return 0;
        });
        auto fut = std::move(pf.second);
        for (int i = 0; i < 3; ++i) {
            if (i == dropAt) {
                r.reset();
                fut.reset();
                gone = true;
                CHECK(tk == 0, "everything is released with the last handle");
            }
            bool act = !state && !gone;
            CHECK(pf.first.canceled() == !act, "canceled() tells whether invoking has an effect");
            int op = sym::choose(i == 0 ? "op0" : i == 1 ? "op1" : "op2", 4);
            int arg = i == 0 || act ? x : y;
            if (act) state = op == 0 ? 1 : op == 1 ? 2 : op == 2 ? 3 : 0;
            if (op == 0) pf.first(arg);
            else if (op == 1) pf.first.set_exception(std::make_exception_ptr(boom{arg}));
            else if (op == 2) { auto d = std::move(pf.first); }
            else { auto d = std::move(pf.first); pf.first = std::move(d); }
            if (act && state) CHECK(recs == 1, "observed once at once");
        }
        if (!state && !gone) { state = 3; pf.first = decltype(pf.first)(); }
        if (gone && !state) CHECK(recs == 0 && ran == 0, "nothing happens when the future is gone");
        else CHECK(recs == 1 && ran == (state == 1), "exactly one outcome");
        CHECK(tk == 0, "released");
        if (!gone) {
            CHECK(fut.is_ready(), "ready");
            if (state == 1) CHECK(fut.get_ready() == x, "the value stays");
            else if (state == 2) CHECK_BOOM(fut.exception(), x, "the exception stays");
            else CHECK_BROKEN(fut.exception(), "the broken promise stays");
        }
        sym::reach(gone && !state ? "gone" : state == 1 ? "value" : state == 2 ? "failed" : "broken");
    }
    sym::leaks();
}

// tasks dropped by an executor break the futures that wait for them
ENTRY(b_queue) { // @A05 reach=done
    {
        int x = sym::i32("x");
        int vals = 0;
        auto f = stlab::async(Q.executor(), [](int v) { return v; }, x);
        auto g = f.then(immediate_executor, [&](int) { ++vals; return 1; });
        auto [pro, fut] = package<mo(int)>(immediate_executor, [](int v) { return mo(v); });
        auto c = std::move(fut).then(Q.executor(), [&](mo m) { ++vals; return m; });
        auto d = std::move(c).then(immediate_executor, [&](mo) { ++vals; });
        pro(x);
        int keepn = sym::choose("run", 3); // how many queued tasks run before the queue is dropped
        for (int i = 0; i < keepn; ++i) Q.run_one();
        Q.drop_all();
        CHECK(g.is_ready() && d.is_ready(), "everything is ready");
        if (keepn >= 1) CHECK(g.get_ready() == 1 && f.get_ready() == x, "the task ran");
        else { CHECK_BROKEN(f.exception(), "dropped task"); CHECK_BROKEN(g.exception(), "its dependent"); }
        CHECK(vals == (keepn == 0 ? 0 : keepn == 1 ? 1 : 3), "continuations of dropped tasks do not run");
        if (keepn == 2) CHECK(!d.exception(), "value");
        else CHECK_BROKEN(d.exception(), "dropped continuation");
        sym::reach("done");
    }
    sym::leaks();
}

// abandoning races with attaching, polling and dropping
ENTRY(b_race) { // @A05,S01 reach=done preempt=3 thorough.preempt=5
    {
        int recs = 0, vals = 0;
        auto pf = package<int(int)>(immediate_executor, [&](int v) { CHECK(false, "never invoked"); return v; });
        std::thread t([&, p = std::move(pf.first)]() mutable { auto q = std::move(p); });
        auto r = pf.second.recover([&](future<int> f) { ++recs; CHECK_BROKEN(f.exception(), "broken"); return 1; });
        auto v = std::move(pf.second).then([&](int) { ++vals; });
        t.join();
        CHECK(recs == 1 && vals == 0 && r.is_ready() && r.get_ready() == 1 && v.is_ready(), "observed once");
        CHECK_BROKEN(v.exception(), "the other dependent too");
        sym::reach("done");
    }
    sym::leaks();
}
ENTRY(b_race_gone) { // @A05,S01 reach=ran,not preempt=3 thorough.preempt=5
    {
        int ran = 0, x = sym::i32("x"), op = sym::choose("op", 3);
        auto pf = package<mo(int)>(immediate_executor, [&](int v) { ++ran; return mo(v); });
        std::thread t([&, p = std::move(pf.first)]() mutable {
            if (op == 0) p(x);
            else if (op == 1) p.set_exception(std::make_exception_ptr(boom{x}));
        });
        pf.second.reset();
        t.join();
        CHECK(ran <= (op == 0), "at most once");
        sym::reach(ran ? "ran" : "not");
    }
    sym::leaks();
}
