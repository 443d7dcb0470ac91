#include "conc.hpp"
using namespace hc;

// source -> c1 -> c2 and a sibling s of c1: every combination of kept, copied, dropped and detached handles
ENTRY(k_chain) { // @A04 reach=all,none,some
    {
        int x = sym::i32("x");
        int tk[4] = {}, ran[4] = {};
        int when = sym::choose("when", 2); // drop before the source runs, or while continuations are queued
        auto pf = package<int(int)>(Q.executor(), [&, t = token(&tk[0])](int v) { ++ran[0]; return v; });
        auto fut = std::move(pf.second);
        auto c1 = fut.then([&, t = token(&tk[1])](int v) { ++ran[1]; return v ^ 1; });
        auto c2 = c1.then([&, t = token(&tk[2])](int v) { ++ran[2]; return v ^ 2; });
        auto s = fut.then([&, t = token(&tk[3])](int v) { ++ran[3]; });
        for (int i = 0; i < 4; ++i) CHECK(tk[i] == 1, "one live copy of each function");
        bool started = when == 1;
        if (started) pf.first(x);
        bool k0 = sym::choose("k0", 2), k1 = sym::choose("k1", 2);
        int k2 = sym::choose("k2", 4); // dropped, kept, copy kept, detached
        int k3 = sym::choose("k3", 3); // dropped, kept, detached
        auto copy2 = k2 == 2 ? c2 : decltype(c2)();
        if (k2 == 3) c2.detach();
        if (k2 != 1) c2.reset();
        if (k3 == 2) s.detach();
        if (k3 != 1) s.reset();
        if (!k1) c1 = decltype(c1)();
        if (!k0) { auto gone = std::move(fut); }
        bool n2 = k2, n1 = n2 || k1, n3 = k3, n0 = k0 || n1 || n3;
        CHECK(tk[2] == n2 && tk[1] == n1 && tk[3] == n3, "functions nobody depends on are released at once");
        if (!started) {
            CHECK(tk[0] == n0, "a source nobody depends on is released at once");
            CHECK(pf.first.canceled() == !n0, "the task knows whether it was cancelled");
            pf.first(x);
            CHECK(pf.first.canceled(), "a task that was invoked is spent");
        }
        Q.run_all();
        CHECK(ran[0] == (n0 || started), "the source runs iff somebody depends on it");
        CHECK(ran[1] == n1 && ran[2] == n2 && ran[3] == n3, "a continuation runs once iff somebody depends on it");
        CHECK(tk[0] == 0 && tk[1] == 0 && tk[2] == 0 && tk[3] == 0, "functions that ran are released");
        if (k0) CHECK(fut.is_ready() && fut.get_ready() == x, "kept source");
        if (k1) CHECK(c1.is_ready() && c1.get_ready() == (x ^ 1), "kept continuation");
        if (k2 == 1) CHECK(c2.is_ready() && c2.get_ready() == (x ^ 3), "kept end");
        if (k2 == 2) CHECK(copy2.is_ready() && copy2.get_ready() == (x ^ 3), "kept copy");
        if (n0 && n1 && n2 && n3) sym::reach("all");
        else if (!n0) sym::reach("none");
        else sym::reach("some");
    }
    sym::leaks();
}

// move-only and void chains
ENTRY(k_mo) { // @A04 reach=done
    {
        int x = sym::i32("x");
        int tk[3] = {}, ran[3] = {};
        int keep = sym::choose("keep", 3); // dropped, kept, detached
        int fail = sym::choose("fail", 2);
        auto pf = package<mo(int)>(Q.executor(), [&, t = token(&tk[0])](int v) { ++ran[0]; if (fail) throw boom{v}; return mo(v); });
        auto c1 = std::move(pf.second).then([&, t = token(&tk[1])](mo m) { ++ran[1]; CHECK(kind<mo>::get(m) == x, "value"); return m; });
        auto c2 = std::move(c1).recover([&, t = token(&tk[2])](future<mo> f) { ++ran[2]; CHECK(f.is_ready(), "ready"); });
        CHECK(tk[0] == 1 && tk[1] == 1 && tk[2] == 1, "one live copy of each function");
        if (keep == 2) c2.detach();
        if (keep != 1) c2.reset();
        bool n = keep;
        CHECK(tk[0] == n && tk[1] == n && tk[2] == n, "the whole chain is released with its last handle");
        CHECK(pf.first.canceled() == !n, "cancelled");
        if (sym::choose("how", 2)) pf.first(x);
        else { auto p = std::move(pf.first); p(x); }
        Q.run_all();
        CHECK(ran[0] == n && ran[1] == (n && !fail) && ran[2] == n, "runs iff depended on");
        CHECK(tk[0] == 0 && tk[1] == 0 && tk[2] == 0, "released");
        if (keep == 1) CHECK(c2.is_ready() && !c2.exception(), "kept end");
        sym::reach("done");
    }
    sym::leaks();
}

// work already handed to an executor but not started
ENTRY(k_async) { // @A04 reach=done
    {
        int x = sym::i32("x");
        int tk[4] = {}, ran[4] = {};
        auto f = stlab::async(Q.executor(), [&, t = token(&tk[0])](int v) { ++ran[0]; return v; }, x);
        auto g = stlab::async(Q.executor(), [&, t = token(&tk[1])](mo v) { ++ran[1]; return mo(kind<mo>::get(v)); }, mo(x));
        auto h = stlab::async(Q.executor(), [&, t = token(&tk[2])] { ++ran[2]; });
        auto c = f.then(Q.executor(), [&, t = token(&tk[3])](int v) { ++ran[3]; return v; });
        int kf = sym::choose("kf", 3), kg = sym::choose("kg", 3), kh = sym::choose("kh", 3), kc = sym::choose("kc", 2);
        auto settle = [&](auto& fu, int k) {
            if (k == 2) fu.detach();
            if (k != 1) fu.reset();
        };
        settle(f, kf);
        settle(g, kg);
        settle(h, kh);
        if (!kc) c.reset();
        bool n0 = kf || kc;
        CHECK(tk[0] == n0 && tk[1] == !!kg && tk[2] == !!kh && tk[3] == kc, "released at once when dropped");
        Q.run_all();
        CHECK(ran[0] == n0 && ran[1] == !!kg && ran[2] == !!kh && ran[3] == kc, "runs iff depended on");
        CHECK(tk[0] + tk[1] + tk[2] + tk[3] == 0, "released");
        if (kf == 1) CHECK(f.get_ready() == x, "kept");
        if (kg == 1) CHECK(kind<mo>::get(std::move(g).get_ready()) == x, "kept");
        if (kh == 1) CHECK(h.is_ready(), "kept");
        if (kc) CHECK(c.get_ready() == x, "kept");
        sym::reach("done");
    }
    sym::leaks();
}

namespace {
// detach with a callback: called once with the ready future, before or after fulfilment
template <class T>
void detach_cb() {
    int x = sym::i32("x"), in = sym::choose("in", 3), when = sym::choose("when", 2);
    int calls = 0, tk = 0, ran = 0;
    auto pf = package<T(int)>(immediate_executor, [&, t = token(&tk)](int v) -> T { ++ran; if (in == 1) throw boom{v}; return mk<T>(v); });
    auto fire = [&] { if (in == 2) { auto d = std::move(pf.first); } else pf.first(x); };
    if (when == 0) fire();
    std::move(pf.second).detach([&](future<T> f) {
        ++calls;
        CHECK(f.is_ready() && static_cast<bool>(f.exception()) == (in != 0), "the callback gets the ready future");
        if (in == 0) {
            if constexpr (std::is_void_v<T>) std::move(f).get_ready();
            else CHECK(is_val(x, std::move(f).get_ready()), "value");
        } else if (in == 1) CHECK_BOOM(f.exception(), x, "exception");
        else CHECK_BROKEN(f.exception(), "broken");
    });
    if (when == 1) {
        CHECK(calls == 0 && tk == 1 && !pf.first.canceled(), "a detached future is still produced");
        fire();
    }
    CHECK(calls == 1 && tk == 0 && ran == (in != 2), "the callback runs exactly once");
    sym::reach("done");
}
} // namespace
ENTRY(k_detach_int) { // @A04,A01 reach=done
    detach_cb<cm>();
    sym::leaks();
}
ENTRY(k_detach_mo) { // @A04,A01 reach=done
    detach_cb<mo>();
    sym::leaks();
}
ENTRY(k_detach_void) { // @A04,A01 reach=done
    detach_cb<void>();
    sym::leaks();
}

// dropping the last handle races with fulfilment and with the queued continuation
ENTRY(k_race_drop) { // @A04,S01 reach=ran,cancelled preempt=3 thorough.preempt=5
    {
        int x = sym::i32("x");
        int tk[2] = {}, ran[2] = {};
        auto pf = package<int(int)>(immediate_executor, [&](int v) { ++ran[0]; return v; });
        auto c = std::move(pf.second).then([&](int v) { ++ran[1]; CHECK(v == x, "value"); return v; });
        std::thread t([&, p = std::move(pf.first)]() mutable { p(x); });
        c.reset();
        t.join();
        CHECK(ran[0] <= 1 && ran[1] <= ran[0], "cancelled or run once");
        sym::reach(ran[1] ? "ran" : "cancelled");
    }
    sym::leaks();
}
// one dependent is dropped while another stays
ENTRY(k_race_sib) { // @A04,S01 reach=ran,cancelled preempt=2 thorough.preempt=4
    {
        int x = sym::i32("x");
        int ran[3] = {};
        auto pf = package<int(int)>(immediate_executor, [&](int v) { ++ran[0]; return v; });
        auto a = pf.second.then([&](int v) { ++ran[1]; return v; });
        auto b = pf.second.then([&](int v) { ++ran[2]; return v; });
        pf.second.reset();
        std::thread t([&, p = std::move(pf.first)]() mutable { p(x); });
        std::thread u([&, f = std::move(a)]() mutable { f.reset(); });
        t.join();
        u.join();
        CHECK(ran[0] == 1 && ran[1] <= 1 && ran[2] == 1, "a sibling keeps the source alive");
        CHECK(b.is_ready() && b.get_ready() == x, "value");
        sym::reach(ran[1] ? "ran" : "cancelled");
    }
    sym::leaks();
}
ENTRY(k_race_detach) { // @A04,A01,S01 reach=done preempt=3 thorough.preempt=5
    {
        int x = sym::i32("x");
        int ran[3] = {};
        int k = sym::choose("k", 2);
        auto pf = package<mo(int)>(immediate_executor, [&](int v) { ++ran[0]; return mo(v); });
        std::thread t([&, p = std::move(pf.first)]() mutable { p(x); });
        if (k) pf.second.detach();
        else std::move(pf.second).detach([&](future<mo> f) { ++ran[1]; CHECK(kind<mo>::get(*std::move(f).get_try()) == x, "value"); });
        pf.second.reset();
        t.join();
        CHECK(ran[0] == 1 && ran[1] == !k, "detached work completes");
        sym::reach("done");
    }
    sym::leaks();
}
