// Values whose copies may fail: the failure reaches whoever asked for the value, and nobody waits for ever.
#include "conc.hpp"
#include <stlab/concurrency/await.hpp>
#include <vector>
using namespace hc;

namespace {
int budget; // copies left before one throws; negative: never
int alive;
void spend() {
    if (budget < 0) return;
    if (budget-- == 0) {
        budget = -1; // fails once
        throw boom{5};
    }
}
struct tv {
    int v;
    tv() : v(0) { ++alive; }
    explicit tv(int x) : v(x) { ++alive; }
    tv(const tv& x) : v(x.v) {
        spend();
        ++alive;
    }
    tv(tv&& x) noexcept : v(x.v) { ++alive; }
    tv& operator=(const tv& x) {
        spend();
        v = x.v;
        return *this;
    }
    tv& operator=(tv&& x) noexcept {
        v = x.v;
        return *this;
    }
    ~tv() { --alive; }
};
template <class Fut>
bool failed_or(const Fut& f, int want) {
    CHECK(f.is_ready(), "a future is ready although its value could not be copied or moved");
    if (f.exception()) {
        CHECK_BOOM(f.exception(), 5, "the exception thrown by the value");
        return true;
    }
    CHECK(*f.get_try() == want, "the result when nothing failed");
    return false;
}
} // namespace

// one future: the result itself, a continuation on a handle that is kept or given up, a recovery, get_try, get_ready
ENTRY(ft_then) { // @A12 reach=threw,done
    alive = 0;
    budget = -1;
    {
        int x = sym::i32("x"), calls = 0;
        int shared = sym::choose("shared", 2), early = sym::choose("early", 2), op = sym::choose("op", 5);
        int fail = sym::choose("fail", 5);
        auto p = package<tv(int)>(immediate_executor, [](int v) { return tv(v); });
        future<tv> keep = shared ? p.second : future<tv>(), f = std::move(p.second);
        bool threw = false;
        budget = early ? fail : -1;
        if (!early) {
            p.first(x);
            budget = fail;
        }
        future<int> c;

        auto body = [&](tv v) {
            ++calls;
            CHECK(v.v == x, "value");
            return v.v;
        };
        auto rec = [&](const future<tv>& v) {
            ++calls;
            if (v.exception()) std::rethrow_exception(v.exception());
            return (*v.get_try()).v;
        };
        try {
            if (op == 0) c = f.then(body);
            if (op == 1) c = std::move(f).then(body);
            if (op == 2) c = std::move(f).recover(rec);
            if (op == 3) c = std::move(f).then(Q.executor(), body);
            if (early) p.first(x);
            if (op == 4) {
                auto o = f.get_try();
                CHECK(o && o->v == x, "get_try");
                ++calls;
                c = stlab::make_ready_future(o->v, immediate_executor);
            }
        } catch (const boom& e) {
            CHECK(op == 4 && e.v == 5, "only a direct access throws");
            threw = true;
        }
        Q.run_all();
        if (!threw) {
            threw = failed_or(c, x);
            if (!threw) CHECK(calls == 1, "a continuation that has its value runs once");
            else CHECK(op == 2 || calls == 0, "a continuation without its value does not run");
        }
        budget = -1;
        if (shared) { // the failure of one consumer is not the failure of another
            CHECK(keep.is_ready(), "the other handle");
            if (!keep.exception()) CHECK(std::move(keep).get_ready().v == x, "the other handle's value");
        }

        if (threw) sym::reach("threw");
        else sym::reach("done");
    }
    CHECK(alive == 0, "a value outlives its futures");
    sym::leaks();
}

// combinations of two inputs
ENTRY(ft_when) { // @A12 reach=threw,done parts=4
    alive = 0;
    budget = -1;
    {
        int x[2] = {sym::i32("x0"), sym::i32("x1")}, calls = 0;
        int shared = sym::choose("shared", 2), pre = sym::choose("pre", 3), op = sym::choose("op", 4), ord = sym::choose("order", 2);
        int fail = sym::choose("fail", 12);
        auto mkp = [] { return package<tv(int)>(immediate_executor, [](int v) { return tv(v); }); };
        auto a = mkp(), b = mkp();
        future<tv> ka = shared ? a.second : future<tv>(), kb = shared ? b.second : future<tv>();
        auto fire = [&](int k) { if (k) b.first(x[1]); else a.first(x[0]); };
        if (pre > 0) fire(ord);
        if (pre > 1) fire(1 - ord);
        std::vector<future<tv>> in;
        if (op & 1) {
            in.push_back(std::move(a.second));
            in.push_back(std::move(b.second));
        }
        budget = fail;
        future<int> c;
        auto all = [&](const tv& p, const tv& q) {
            ++calls;
            CHECK(p.v == x[0] && q.v == x[1], "values of all");
            return 7;
        };
        auto allv = [&](const std::vector<tv>& v) {
            ++calls;
            CHECK(v.size() == 2 && v[0].v == x[0] && v[1].v == x[1], "values of all");
            return 7;
        };
        auto any = [&](const tv& p, std::size_t i) {
            ++calls;
            CHECK(i < 2 && p.v == x[i], "the winner");
            return 7;
        };
        if (op == 0) c = stlab::when_all(immediate_executor, std::move(all), std::move(a.second), std::move(b.second));
        if (op == 1) c = stlab::when_all(immediate_executor, std::move(allv), std::make_pair(in.begin(), in.end()));
        if (op == 2) c = stlab::when_any(immediate_executor, std::move(any), std::move(a.second), std::move(b.second));
        if (op == 3) c = stlab::when_any(immediate_executor, std::move(any), std::make_pair(in.begin(), in.end()));
        in.clear();
        if (pre < 1) fire(ord);
        if (pre < 2) fire(1 - ord);
        budget = -1;
        bool threw = failed_or(c, 7);
        CHECK(calls == (threw ? 0 : 1), "the continuation runs once, if it has its values");
        if (threw) sym::reach("threw");
        else sym::reach("done");
    }
    CHECK(alive == 0, "a value outlives its futures");
    sym::leaks();
}

namespace {
future<int> co_take(future<tv> f, int* calls, int x) {
    tv v = co_await std::move(f);
    ++*calls;
    CHECK(v.v == x, "value");
    co_return v.v;
}
} // namespace

// a future inside a future, a blocking wait, a coroutine, two consumers of one handle
ENTRY(ft_nested) { // @A12 reach=threw,done
    alive = 0;
    budget = -1;
    {
        int x = sym::i32("x"), calls = 0;
        int shared = sym::choose("shared", 2), early = sym::choose("early", 2), op = sym::choose("op", 4);
        int fail = sym::choose("fail", 5);
        auto p = package<tv(int)>(immediate_executor, [](int v) { return tv(v); });
        future<tv> keep = shared ? p.second : future<tv>(), f = std::move(p.second);
        bool threw = false;
        if (early || op == 1) p.first(x);
        budget = fail;
        future<int> c, d;
        auto body = [&](const tv& v) {
            ++calls;
            CHECK(v.v == x, "value");
            return v.v;
        };
        try {
            if (op == 0) {
                auto o = stlab::async(Q.executor(), [g = std::move(f)]() mutable { return std::move(g); });
                Q.run_all();
                if (!early) p.first(x);
                CHECK(o.is_ready(), "the outer future is ready");
                c = std::move(o).then(body);
            } else if (op == 1) {
                tv v = stlab::await(std::move(f));
                c = stlab::make_ready_future(body(v), immediate_executor);
            } else if (op == 2) {
                c = co_take(std::move(f), &calls, x);
                if (!early) p.first(x);
            } else {
                c = f.then(body);
                d = f.then(body);
                if (!early) p.first(x);
            }
        } catch (const boom& e) {
            CHECK(op == 1 && e.v == 5, "only a direct access throws");
            threw = true;
        }
        Q.run_all();
        bool t2 = false;
        if (!threw) threw = failed_or(c, x);
        if (op == 3) t2 = failed_or(d, x);
        CHECK(!(threw && t2), "one failed copy fails one consumer");
        CHECK(calls == (op == 3 ? 2 - threw - t2 : !threw), "a continuation runs once, if it has its value");
        budget = -1;
        if (shared) {
            CHECK(keep.is_ready() && !keep.exception(), "the other handle");
            CHECK(std::move(keep).get_ready().v == x, "the other handle's value");
        }
        if (threw || t2) sym::reach("threw");
        else sym::reach("done");
    }
    CHECK(alive == 0, "a value outlives its futures");
    sym::leaks();
}
