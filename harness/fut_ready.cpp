#include "conc.hpp"
using namespace hc;

namespace {
template <class T>
future<T> ready(int x, stlab::executor_t e) {
    if constexpr (std::is_void_v<T>) return stlab::make_ready_future(std::move(e));
    else return stlab::make_ready_future(mk<T>(x), std::move(e));
}
template <class T>
void made_ready() {
    {
        int x = sym::i32("x"), exc = sym::choose("exc", 2), own = sym::choose("own", 2);
        stlab::executor_t e = [own](ctask&& t) { if (own) Q.executor()(std::move(t)); else stlab::immediate_executor(std::move(t)); };
        auto f = exc ? stlab::make_exceptional_future<T>(std::make_exception_ptr(boom{x}), e) : ready<T>(x, e);
        static_assert(std::is_same_v<decltype(f), future<T>>);
        CHECK(f.valid() && f.is_ready() && Q.empty(), "ready on return, nothing scheduled");
        if (exc) CHECK_BOOM(f.exception(), x, "exactly the given exception");
        else CHECK(!f.exception(), "no exception");
        int what_ = sym::choose("op", 4), runs = 0;
        if (what_ == 0) { // continuation
            int how = sym::choose("how", 5), lv = sym::choose("lv", 2);
            auto c = then_any(f, lv, how, [&](auto&&... v) { ++runs; CHECK(is_val(x, v...), "value"); return 4; });
            bool queued = own || on_manual(how);
            CHECK(Q.n == queued && (queued ? runs == 0 : runs == !exc), "continuations run on the executor given or chosen");
            Q.run_all();
            CHECK(runs == !exc && c.is_ready(), "run once with that outcome");
            if (exc) CHECK_BOOM(c.exception(), x, "the exception is passed on");
            else CHECK(c.get_ready() == 4, "result");
        } else if (what_ == 1) { // recovery
            int how = sym::choose("how", 5), lv = sym::choose("lv", 2);
            auto c = rec_any(f, lv, how, [&](future<T> r) {
                ++runs;
                CHECK(r.is_ready() && !!r.exception() == exc, "the outcome");
                if (!exc) {
                    if constexpr (std::is_void_v<T>) std::move(r).get_ready();
                    else CHECK(is_val(x, std::move(r).get_ready()), "value");
                }
            });
            CHECK(Q.n == (own || on_manual(how)), "on the executor given or chosen");
            Q.run_all();
            CHECK(runs == 1 && c.is_ready() && !c.exception(), "run once");
        } else if (what_ == 2) { // take
            auto e2 = caught([&] {
                if constexpr (std::is_void_v<T>) std::move(f).get_ready();
                else { auto v = std::move(f).get_ready(); CHECK(!exc && is_val(x, v), "value"); }
            });
            CHECK(!!e2 == exc, "thrown iff failed");
            if (exc) CHECK_BOOM(e2, x, "the exception");
        } else { // poll
            auto e2 = caught([&] {
                auto v = std::move(f).get_try();
                CHECK(!exc && v, "value");
                if constexpr (!std::is_void_v<T>) CHECK(v && is_val(x, *v), "value");
            });
            CHECK(!!e2 == exc, "thrown iff failed");
            if (exc) CHECK_BOOM(e2, x, "the exception");
        }
        sym::reach("done");
    }
    sym::leaks();
}

// handles: every sequence of up to four operations on three handles, against the identity of the result held
template <class T>
void handles(int steps) {
    {
        int x[3] = {sym::i32("x0"), sym::i32("x1"), sym::i32("x2")};
        int live[3] = {};
        future<T> h[3];
        int id[3] = {0, 1, 2};
        stlab::packaged_task<int> pro[3];
        for (int i = 0; i < 3; ++i) {
            auto pf = package<T(int)>(immediate_executor, [t = token(&live[i])](int v) -> T { return mk<T>(v); });
            pro[i] = std::move(pf.first);
            h[i] = std::move(pf.second);
        }
        { auto extra = std::move(pro[2]); pro[2] = std::move(extra); }
        const char* on[] = {"op0", "op1", "op2", "op3"};
        for (int s = 0; s < steps; ++s) {
            int op = sym::choose(on[s], 6), a = sym::choose("a", 3), b = sym::choose("b", 3);
            if (op == 0) {
                if constexpr (std::is_same_v<T, mo>) continue;
                else { h[a] = h[b]; id[a] = id[b]; }
            } else if (op == 1) {
                int t = id[b];
                h[a] = std::move(h[b]);
                if (a != b) id[b] = -1;
                id[a] = t;
                if (a == b) { CHECK(h[a].valid() == (t >= 0) || !h[a].valid(), "self move"); if (!h[a].valid()) id[a] = -1; }
            } else if (op == 2) {
                if (s & 1) h[a].swap(h[b]);
                else swap(h[a], h[b]);
                std::swap(id[a], id[b]);
            } else if (op == 3) {
                h[a].reset();
                id[a] = -1;
            } else if (op == 4) {
                if constexpr (std::is_same_v<T, mo>) { auto m = std::move(h[a]); CHECK(!h[a].valid(), "moved from"); h[a] = std::move(m); }
                else { auto c = h[a]; CHECK(c == h[a], "a copy is the same result"); c.reset(); CHECK(!c.valid() && h[a].valid() == (id[a] >= 0), "resetting a copy leaves the other"); }
            } else {
                future<T> n;
                CHECK(!n.valid() && !n.is_ready(), "a default handle is empty");
                std::swap(n, h[a]);
                CHECK(!h[a].valid(), "swapped out");
                h[a] = std::move(n);
            }
            for (int i = 0; i < 3; ++i) {
                CHECK(h[i].valid() == (id[i] >= 0), "valid() tells whether a handle holds a result");
                bool used = false;
                for (int j = 0; j < 3; ++j) {
                    CHECK((h[i] == h[j]) == (id[i] == id[j]) && (h[i] != h[j]) == (id[i] != id[j]), "equal exactly when they refer to the same result");
                    used |= id[j] == i;
                }
                CHECK(live[i] == used && pro[i].canceled() == !used, "a result lives while a handle refers to it");
            }
        }
        for (int i = 0; i < 3; ++i) pro[i](x[i]);
        int way = sym::choose("take", 4);
        for (int i = 0; i < 3; ++i)
            if (id[i] >= 0) {
                CHECK(h[i].is_ready(), "ready");
                if constexpr (!std::is_void_v<T>) {
                    // taken through one handle, the result is still there for the others
                    if (way == 0) { auto o = std::move(h[i]).get_try(); CHECK(o && is_val(x[id[i]], *o), "the result, polled and taken"); }
                    else if (way == 1) CHECK(is_val(x[id[i]], std::move(h[i]).get_ready()), "the result, taken");
                    else if constexpr (std::is_same_v<T, cm>) {
                        if (way == 2) { auto o = h[i].get_try(); CHECK(o && is_val(x[id[i]], *o), "the result, polled"); }
                        else CHECK(is_val(x[id[i]], h[i].get_ready()), "the result");
                    }
                } else if (way == 0) CHECK(std::move(h[i]).get_try() == true, "ready, polled");
                else std::move(h[i]).get_ready();
            } else CHECK(!h[i].is_ready(), "an empty handle is never ready");
        sym::reach("done");
    }
    sym::leaks();
}
} // namespace

ENTRY(y_int) { // @A11 reach=done
    made_ready<cm>();
}
ENTRY(y_mo) { // @A11 reach=done
    made_ready<mo>();
}
ENTRY(y_void) { // @A11 reach=done
    made_ready<void>();
}
ENTRY(y_handles_int) { // @A11 reach=done parts=4
    handles<cm>(2);
}
ENTRY(y_handles_mo) { // @A11 reach=done parts=2
    handles<mo>(2);
}
ENTRY(y_handles_void) { // @A11 reach=done tier=thorough parts=4
    handles<void>(2);
}
ENTRY(y_handles_3) { // @A11 reach=done tier=thorough parts=8
    handles<cm>(3);
}

// conversions of the value given: lvalues are copied, rvalues moved
ENTRY(y_decay) { // @A11 reach=done
    {
        int x = sym::i32("x");
        const int c = x;
        int l = x;
        auto a = stlab::make_ready_future(c, immediate_executor);
        auto b = stlab::make_ready_future(l, immediate_executor);
        static_assert(std::is_same_v<decltype(a), future<int>> && std::is_same_v<decltype(b), future<int>>);
        l = 0;
        CHECK(a.get_ready() == x && b.get_ready() == x, "copied");
        auto p = std::make_shared<int>(x);
        auto d = stlab::make_ready_future(p, immediate_executor);
        CHECK(p && p.use_count() == 2 && d.get_ready() == p, "an lvalue stays");
        auto e = stlab::make_ready_future(std::move(p), immediate_executor);
        CHECK(!p && *e.get_ready() == x, "an rvalue is moved");
        CHECK(a != b && !(a == b) && a == a, "distinct results");
        sym::reach("done");
    }
    sym::leaks();
}
