#include "sym.h"
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <stlab/concurrency/tuple_algorithm.hpp>
#include <stlab/functional.hpp>
#include <stlab/memory.hpp>
#include <stlab/scope.hpp>
#include <stlab/utility.hpp>
#include <tuple>
#include <utility>

// tuples of 1..4 symbolic elements
template <class Tuple, std::size_t N>
static void tuple_case(Tuple t, const long (&x)[N]) {
    long lim = sym::i32("limit");
    std::size_t want = N;
    for (std::size_t i = N; i-- > 0;) want = x[i] > lim ? i : want;
    int seen = 0;
    std::size_t got = stlab::tuple_find(t, [&](const auto& e) {
        ++seen;
        return (long)e > lim;
    });
    CHECK(got == want, "tuple_find returns the first match or the size");
    CHECK((std::size_t)seen == (want == N ? N : want + 1), "tuple_find stops at the first match");
    // for each: all elements in order
    long order[N];
    std::size_t n = 0;
    stlab::tuple_for_each(t, [&](auto& e) {
        if (n < N) order[n] = (long)e;
        ++n;
        e = (std::remove_reference_t<decltype(e)>)(e + 1);
    });
    CHECK(n == N, "tuple_for_each visits every element once");
    for (std::size_t i = 0; i < N; ++i) CHECK(order[i] == x[i], "tuple_for_each visits in order");
    // index access with a symbolic index
    unsigned idx = sym::u32("index");
    long dflt = sym::i32("default");
    int hits = 0;
    long g = stlab::get_i(
        t, idx,
        [&](auto& e) -> long {
            ++hits;
            return (long)e;
        },
        dflt);
    long w = dflt;
    for (std::size_t i = 0; i < N; ++i)
        if (idx == i) w = (long)std::get<0>(std::tuple<long>(x[i])) + 1;
    if (idx < N) CHECK(hits == 1 && g == w, "get_i returns the element at the index");
    else CHECK(hits == 0 && g == dflt, "get_i returns the default beyond the end");
    int touched = 0;
    long val = 0;
    stlab::void_i(t, idx, [&](auto& e) {
        ++touched;
        val = (long)e;
    });
    CHECK(touched == (idx < N ? 1 : 0), "void_i touches exactly the indexed element");
    if (idx < N) CHECK(val == w, "void_i touches the element at the index");
}

ENTRY(u_tuple) { // @U01 reach=done
    // int / short elements keep the arithmetic inside long
    int a = sym::range("a", -1000, 1000), b = sym::range("b", -1000, 1000), c = sym::range("c", -1000, 1000),
        d = sym::range("d", -1000, 1000);
    switch (sym::choose("size", 4)) {
        case 0: tuple_case(std::tuple<int>(a), {(long)a}); break;
        case 1: tuple_case(std::tuple<int, long>(a, b), {(long)a, (long)b}); break;
        case 2: tuple_case(std::tuple<long, short, int>(a, (short)b, c), {(long)a, (long)b, (long)c}); break;
        case 3: tuple_case(std::tuple<int, int, long, int>(a, b, c, d), {(long)a, (long)b, (long)c, (long)d}); break;
    }
    sym::reach("done");
}

ENTRY(u_apply) { // @U01 reach=done
    {
        using stlab::placeholder;
        int a = sym::i32("a"), b = sym::i32("b"), c = sym::i32("c");
        // selected arguments in order
        auto t = std::make_tuple(a, placeholder{}, b, placeholder{}, c);
        using TT = decltype(t);
        using seq = stlab::index_sequence_transform_t<std::make_index_sequence<5>, stlab::remove_placeholder<TT>::template function>;
        static_assert(std::is_same_v<seq, std::index_sequence<0, 2, 4>>);
        int n = 0;
        stlab::apply_indexed<seq>(
            [&](int x, int y, int z) {
                ++n;
                CHECK(x == a && y == b && z == c, "index-filtered application passes the selected elements");
            },
            t);
        CHECK(n == 1, "applied once");
        using rev = std::index_sequence<4, 0>;
        CHECK(stlab::apply_indexed<rev>([](int x, int y) { return x ^ (y << 1); }, t) == (c ^ (int)((unsigned)a << 1)), "in the order of the indexes");
        CHECK(stlab::apply_ignore_placeholders([](int x, int y) { return x - y; }, std::make_tuple((int)(short)a, (int)(short)b)) == (short)a - (short)b, "apply");
        std::tuple<std::optional<std::unique_ptr<int>>, std::optional<placeholder>, std::optional<int>> o;
        std::get<0>(o) = std::make_unique<int>(a);
        std::get<2>(o) = b;
        using OT = decltype(o);
        using oseq = stlab::index_sequence_transform_t<std::make_index_sequence<3>, stlab::remove_placeholder<OT>::template function>;
        static_assert(std::is_same_v<oseq, std::index_sequence<0, 2>>);
        bool called = false;
        stlab::detail::apply_optional_indexed<oseq>(
            [&](std::unique_ptr<int> p, int y) {
                called = true;
                CHECK(p && *p == a && y == b, "optional elements are moved out in order");
            },
            o);
        CHECK(called, "applied");
        int seen[4], k = 0;
        stlab::for_each_argument([&](auto& x) { if (k < 4) seen[k] = (int)x; ++k; }, a, b, c);
        CHECK(k == 3 && seen[0] == a && seen[1] == b && seen[2] == c, "for_each_argument in order");
        stlab::for_each_argument([&](auto&) { ++k; });
        CHECK(k == 3, "for_each_argument without arguments");
        static_assert(std::is_same_v<stlab::voidless_tuple<void, int, void, long>, std::tuple<int, long>>);
        static_assert(std::is_same_v<stlab::placeholder_tuple<void, int>, std::tuple<placeholder, int>>);
        static_assert(std::is_same_v<stlab::optional_placeholder_tuple<void, int>, std::tuple<std::optional<placeholder>, std::optional<int>>>);
        using s2 = stlab::index_sequence_cat_t<std::index_sequence<3, 1>, std::index_sequence<2>>;
        static_assert(std::is_same_v<s2, std::index_sequence<3, 1, 2>>);
        auto arr = stlab::index_sequence_to_array<s2>::value;
        CHECK(arr[0] == 3 && arr[1] == 1 && arr[2] == 2, "index_sequence_to_array");
        sym::reach("done");
    }
    sym::leaks();
}

static int guard_state, bodies;
struct guard {
    int* flag;
    guard(int* f, int v) : flag(f) { *flag = v; }
    ~guard() { *flag = 0; }
    guard(const guard&) = delete;
};

ENTRY(u_scope) { // @U01 reach=done,threw
    {
        int x = sym::i32("x"), st = sym::range("state", 1, 100);
        bool thr = sym::flag("throws");
        int flag = 0, body = 0;
        bool threw = false;
        int r = 0;
        try {
            r = stlab::scope<guard>(&flag, st, [&]() -> int {
                ++body;
                CHECK(flag == st, "the guard is alive during the body");
                if (thr) throw x;
                return x;
            });
        } catch (int e) {
            threw = true;
            CHECK(e == x, "the body's exception passes through");
        }
        CHECK(body == 1, "the body runs exactly once");
        CHECK(flag == 0, "the guard is released after the body");
        CHECK(threw == thr, "throws exactly when the body throws");
        if (!threw) CHECK(r == x, "the body's result is returned");
        else sym::reach("threw");
        // mutex form
        std::mutex m;
        body = 0;
        bool threw2 = false;
        try {
            r = stlab::scope<std::unique_lock<std::mutex>>(m, [&]() -> int {
                ++body;
                CHECK(!m.try_lock(), "the mutex is held during the body");
                if (thr) throw x;
                return x ^ 1;
            });
        } catch (int e) {
            threw2 = true;
        }
        CHECK(body == 1 && threw2 == thr, "the body runs exactly once under the lock");
        if (!threw2) CHECK(r == (x ^ 1), "the body's result is returned");
        CHECK(m.try_lock(), "the mutex is free afterwards");
        m.unlock();
        // void body, move-only body, move-only result
        auto p = std::make_unique<int>(x);
        auto q = stlab::scope<std::lock_guard<std::mutex>>(m, [p = std::move(p)]() mutable { return std::move(p); });
        CHECK(q && *q == x, "move-only result");
        int hit = 0;
        stlab::scope<guard>(&flag, 1, [&] { ++hit; });
        CHECK(hit == 1 && flag == 0, "void body");
        sym::reach("done");
    }
    sym::leaks();
}

ENTRY(u_values) { // @U01 reach=done
    {
        int x = sym::i32("x");
        int v = x;
        auto c = stlab::copy(v);
        c = (int)((unsigned)c + 1);
        CHECK(v == x && c == (int)((unsigned)x + 1), "copy is independent");
        auto p = std::make_unique<int>(x);
        auto q = stlab::move(p);
        CHECK(!p && q && *q == x, "move transfers");
        auto r = stlab::move_if<true>(q);
        CHECK(!q && *r == x, "move_if true moves");
        auto s = std::make_shared<int>(x);
        auto s2 = stlab::move_if<false>(s);
        CHECK(s && s2 == s, "move_if false copies");
        std::reference_wrapper<int> w(v);
        stlab::unwrap(w) = (int)((unsigned)x ^ 5u);
        CHECK(v == (x ^ 5), "unwrap of a reference wrapper is the referenced object");
        CHECK(&stlab::unwrap(v) == &v && &stlab::unwrap(w) == &v, "unwrap");
        const std::reference_wrapper<int> cw(v);
        const int& cr = v;
        CHECK(&stlab::unwrap(cw) == &v && &stlab::unwrap(cr) == &v, "const unwrap");
        static_assert(stlab::is_reference_wrapper_v<std::reference_wrapper<int>> && !stlab::is_reference_wrapper_v<int>);
        static_assert(std::is_same_v<stlab::unwrap_reference_t<std::reference_wrapper<int>>, int>);
        auto wp = stlab::make_weak_ptr(s);
        CHECK(s.use_count() == 2, "make_weak_ptr does not own");
        CHECK(wp.lock() == s, "make_weak_ptr refers to the object");
        s.reset();
        s2.reset();
        CHECK(wp.expired(), "make_weak_ptr does not keep alive");
        sym::reach("done");
    }
    sym::leaks();
}
