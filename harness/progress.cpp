#include "conc.hpp"
#include <functional>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/progress.hpp>
#include <stlab/pre_exit.hpp>
using namespace hc;

namespace {
struct fn {
    int k;
    int* calls;
    int operator()(int x) const {
        ++*calls;
        if (x == 77) throw boom{x};
        return x + k;
    }
};
using wrapped = decltype(std::declval<stlab::progress_tracker&>()(std::declval<fn>()));
} // namespace

// ---- every history of wrapping, copying, moving, assigning, calling and dropping tasks of two trackers
namespace {
void history(int steps) {
    {
        constexpr int SL = 3;
        int calls = 0;
        struct want { std::size_t steps = 0, done = 0; int signals = 0; } w[2];
        struct { int n = 0; std::size_t s = 0, d = 0; } sig[2];
        std::optional<stlab::progress_tracker> tr[2];
        for (int i = 0; i < 2; ++i)
            tr[i].emplace([&sig, i](std::size_t s, std::size_t d) { ++sig[i].n; sig[i].s = s; sig[i].d = d; });
        std::optional<wrapped> f[SL];
        int owner[SL], k[SL]; // owner -1: inert (moved from)
        bool done[SL];
        auto drop = [&](int a) {
            if (f[a] && owner[a] >= 0 && !done[a]) --w[owner[a]].steps;
        };
        for (int i = 0; i < steps; ++i) {
            int op = (int)sym::choose("op", 7), a = (int)sym::choose("slot", SL);
            int b = (a + 1) % SL;
            bool self = false;
            switch (op) {
                case 0: { // wrap
                    int t = (int)sym::choose("tracker", 2), v = sym::i32("k");
                    sym::assume(v >= 0 && v < 1000);
                    if (!tr[t]) break;
                    drop(a);
                    f[a].reset();
                    f[a].emplace((*tr[t])(fn{v, &calls}));
                    owner[a] = t;
                    k[a] = v;
                    done[a] = false;
                    ++w[t].steps;
                    break;
                }
                case 1: // copy
                    if (!f[b]) break;
                    drop(a);
                    f[a].reset();
                    f[a].emplace(*f[b]);
                    owner[a] = owner[b]; k[a] = k[b]; done[a] = false;
                    if (owner[a] >= 0) ++w[owner[a]].steps;
                    break;
                case 2: // move
                    if (!f[b]) break;
                    drop(a);
                    f[a].reset();
                    f[a].emplace(std::move(*f[b]));
                    owner[a] = owner[b]; k[a] = k[b]; done[a] = done[b];
                    owner[b] = -1;
                    break;
                case 3: // copy assign, maybe to itself
                    self = sym::choose("self", 2);
                    if (!f[a] || !f[b]) break;
                    if (self) {
                        auto& same = *f[a];
                        *f[a] = same;
                        if (owner[a] >= 0 && done[a]) ++w[owner[a]].steps;
                        done[a] = false;
                        break;
                    }
                    drop(a);
                    *f[a] = *f[b];
                    owner[a] = owner[b]; k[a] = k[b]; done[a] = false;
                    if (owner[a] >= 0) ++w[owner[a]].steps;
                    break;
                case 4: // move assign
                    if (!f[a] || !f[b]) break;
                    drop(a);
                    *f[a] = std::move(*f[b]);
                    owner[a] = owner[b]; k[a] = k[b]; done[a] = done[b];
                    owner[b] = -1;
                    break;
                case 5: { // call, it may throw
                    if (!f[a]) break;
                    int x = sym::i32("arg"), before = calls;
                    sym::assume((x >= 0 && x < 1000));
                    int o = owner[a];
                    bool fin = o >= 0 && !done[a] && tr[o].has_value();
                    int n0 = o >= 0 ? sig[o].n : 0;
                    bool threw = false;
                    int r = 0;
                    try {
                        r = (*f[a])(x);
                    } catch (const boom&) {
                        threw = true;
                    }
                    CHECK(calls == before + 1, "the wrapped function is called");
                    CHECK(threw == (x == 77), "what the wrapped function throws comes through");
                    if (threw) fin = false;
                    else CHECK(r == x + k[a], "a wrapped call returns the function's result");
                    if (fin) {
                        done[a] = true;
                        ++w[o].done;
                        CHECK(sig[o].n == n0 + 1, "a completion signals once");
                        CHECK(sig[o].s == w[o].steps && sig[o].d == w[o].done, "the signal has the current counts");
                    } else if (o >= 0) CHECK(sig[o].n == n0, "only a completion signals");
                    break;
                }
                default: // drop
                    drop(a);
                    f[a].reset();
            }
            for (int t = 0; t < 2; ++t) {
                CHECK(tr[t]->steps() == w[t].steps, "steps counts the tasks pending or completed");
                CHECK(tr[t]->completed() == w[t].done, "completed counts the tasks that finished");
                CHECK(tr[t]->completed() <= tr[t]->steps(), "completed never exceeds steps");
            }
        }
        sym::reach("done");
    }
    sym::leaks();
}
} // namespace
ENTRY(p_history3) { // @P01 reach=done weight=2
    history(3);
}
ENTRY(p_history4) { // @P01 reach=done weight=4 parts=4 time=150
    history(4);
}
ENTRY(p_history5) { // @P01 reach=done weight=8 parts=8 tier=thorough time=800
    history(5);
}
// ---- the tracker may go before its tasks, or be copied and moved: the handles share one count
ENTRY(p_tracker) { // @P01 reach=done
    {
        int calls = 0, n = 0;
        std::optional<stlab::progress_tracker> a, b;
        bool sig = sym::choose("signal", 2);
        if (sig) a.emplace([&](std::size_t s, std::size_t d) { ++n; CHECK(d <= s, "completed never exceeds steps"); });
        else a.emplace();
        auto f = (*a)(fn{1, &calls});
        switch (sym::choose("how", 4)) {
            case 0: b.emplace(*a); break;
            case 1: b.emplace(std::move(*a)); a.reset(); break;
            case 2: b.emplace(); *b = *a; break;
            default: b.emplace(); *b = std::move(*a); a.reset();
        }
        CHECK(b->steps() == 1 && b->completed() == 0, "handles share the counts");
        auto g = (*b)(fn{2, &calls});
        if (a) CHECK(a->steps() == 2, "handles share the counts");
        if (sym::choose("gone", 2)) { a.reset(); b.reset(); }
        CHECK(f(5) == 6 && g(5) == 7, "a wrapped call returns the function's result");
        auto& t = a ? a : b;
        if (t) {
            CHECK(t->steps() == 2 && t->completed() == 2, "completed counts the tasks that finished");
            CHECK(n == (sig ? 2 : 0), "a completion signals once");
        } else CHECK(n == 0, "a tracker that is gone signals nothing");
        sym::reach("done");
    }
    sym::leaks();
}
// ---- through the library: a task passed to async or a continuation is moved along and destroyed when done
ENTRY(p_async) { // @P01 reach=done
    {
        int calls = 0, n = 0;
        stlab::progress_tracker t([&](std::size_t, std::size_t) { ++n; });
        int x = sym::i32("x");
        sym::assume(x >= 0 && x < 77);
        auto f = stlab::async(Q.executor(), t(fn{1, &calls}), x);
        auto g = f.then(t([](int v) { return v * 2; }));
        auto h = g.then(t([](int v) { return v + 1; }));
        CHECK(t.steps() == 3 && t.completed() == 0, "steps counts the tasks pending or completed");
        if (sym::choose("cancel", 2)) {
            h.reset();
            CHECK(t.steps() == 2, "a task that will not run is not counted");
            Q.run_all();
            CHECK(t.steps() == 2 && t.completed() == 2 && n == 2, "completed counts the tasks that finished");
        } else {
            Q.run_all();
            CHECK(h.is_ready() && *h.get_try() == (x + 1) * 2 + 1, "a wrapped call returns the function's result");
            CHECK(t.steps() == 3 && t.completed() == 3 && n == 3, "completed counts the tasks that finished");
        }
        sym::reach("done");
    }
    sym::leaks();
}
// ---- threads: counts are exact at the end and never inconsistent on the way
ENTRY(p_threads) { // @P01,S01 preempt=2 reach=done time=100 thorough.preempt=3
    {
        int calls[2] = {};
        std::atomic<int> n{0};
        stlab::progress_tracker t([&](std::size_t s, std::size_t d) {
            n++;
            CHECK(d <= s, "completed never exceeds steps");
        });
        {
            std::thread a([f = t(fn{1, &calls[0]})] { CHECK(f(1) == 2, "a wrapped call returns the function's result"); });
            auto g = t(fn{2, &calls[1]});
            auto copy = g;
            g(1);
            auto c = t.completed();
            CHECK(c <= t.steps(), "completed never exceeds steps");
            a.join();
            CHECK(t.steps() == 3 && t.completed() == 2 && n == 2, "completed counts the tasks that finished");
        }
        CHECK(t.steps() == 2 && t.completed() == 2, "a task that did not run is not counted");
        sym::reach("done");
    }
    sym::leaks();
}
