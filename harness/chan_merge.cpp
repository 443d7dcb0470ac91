#include "chan.hpp"
#include <tuple>
using stlab::merge_channel;
using stlab::round_robin_t;
using stlab::unordered_t;
using stlab::zip_with;
using stlab::zip_with_t;

namespace {
const char* SN[] = {"who0", "who1", "who2", "who3", "who4", "who5"};
const char* XN[] = {"a", "b", "c"};
constexpr int IN = 3, DEPTH = 2;
// inputs, and the values sent on each so far
struct inputs {
    std::optional<sender<int>> send[IN];
    receiver<int> recv[IN];
    int x[IN][DEPTH], n[IN] = {}, k;
    explicit inputs(int m, bool qd) : k(m) {
        for (int i = 0; i < m; ++i) {
            auto [s, r] = channel<int>(exec(qd));
            send[i] = std::move(s);
            recv[i] = std::move(r);
        }
    }
    void put(int i) {
        int v = x[i][n[i]] = sym::i32(XN[i]);
        ++n[i];
        (*send[i])(v);
    }
    int shortest() const {
        int r = DEPTH;
        for (int i = 0; i < k; ++i) r = n[i] < r ? n[i] : r;
        return r;
    }
    void ready() { for (auto& r : recv) r.set_ready(); }
    // every order of up to `total` sends over the inputs; after each a few queued tasks run
    template <class F>
    void play(int total, bool qd, F check) {
        for (int s = 0; s < total; ++s) {
            int i = (int)sym::choose(SN[s], k + 1);
            if (i == k) break; // fewer values
            if (n[i] == DEPTH) sym::assume(false);
            put(i);
            int m = qd ? (int)sym::choose("run", 3) : 0;
            for (int j = 0; j < m; ++j) Q.run_one();
            check(false);
        }
        Q.run_all();
        check(true);
    }
};
struct pairs {
    int n = 0, a[4][IN];
};
} // namespace

// ---- zip: one call per complete set
ENTRY(m_zip2) { // @H03 reach=done weight=2
    {
        bool qd = sym::choose("queued", 2);
        inputs in(2, qd);
        pairs p;
        auto hold = zip_with(exec(qd), [&](int a, int b) {
            CHECK(p.n < 4, "one call per complete set");
            p.a[p.n][0] = a;
            p.a[p.n++][1] = b;
        }, in.recv[0], in.recv[1]);
        in.ready();
        in.play(4, qd, [&](bool end) {
            CHECK(p.n <= in.shortest(), "the function is called only for complete sets");
            if (end) CHECK(p.n == in.shortest(), "the function is called for every complete set");
            for (int j = 0; j < p.n && j < DEPTH; ++j)
                for (int i = 0; i < 2; ++i) CHECK(p.a[j][i] == in.x[i][j], "values are paired by position");
        });
        sym::reach("done");
    }
    sym::leaks();
}
ENTRY(m_zip3) { // @H03 reach=done weight=3
    {
        bool qd = sym::choose("queued", 2), tup = sym::choose("tuple", 2);
        inputs in(3, false);
        pairs p;
        auto take = [&](int a, int b, int c) {
            CHECK(p.n < 4, "one call per complete set");
            p.a[p.n][0] = a;
            p.a[p.n][1] = b;
            p.a[p.n++][2] = c;
        };
        receiver<void> hold;
        if (tup) hold = stlab::zip(exec(qd), in.recv[0], in.recv[1], in.recv[2]) | [take](std::tuple<int, int, int> t) { std::apply(take, t); };
        else hold = zip_with(exec(qd), take, in.recv[0], in.recv[1], in.recv[2]);
        in.ready();
        in.play(6, false, [&](bool end) {
            CHECK(p.n <= in.shortest(), "the function is called only for complete sets");
            if (end || !qd) CHECK(p.n == in.shortest(), "the function is called for every complete set");
            for (int j = 0; j < p.n && j < DEPTH; ++j)
                for (int i = 0; i < 3; ++i) CHECK(p.a[j][i] == in.x[i][j], "values are paired by position");
        });
        sym::reach("done");
    }
    sym::leaks();
}
// a process with await and yield behind a zip
namespace {
struct zacc {
    pairs* p;
    bool full = false;
    int inside = 0;
    void await(int a, int b) {
        guard g(&inside);
        CHECK(!full, "inputs come only while the process awaits");
        CHECK(p->n < 4, "one call per complete set");
        p->a[p->n][0] = a;
        p->a[p->n++][1] = b;
        full = true;
    }
    int yield() {
        guard g(&inside);
        CHECK(full, "a process is asked to yield only when it says so");
        full = false;
        return p->a[p->n - 1][0] ^ p->a[p->n - 1][1];
    }
    process_state_scheduled state() const { return full ? yield_immediate : await_forever; }
};
} // namespace
ENTRY(m_zip_process) { // @H03,H02 reach=done
    {
        bool qd = sym::choose("queued", 2);
        inputs in(2, false);
        pairs p;
        sink s;
        auto hold = merge_channel<zip_with_t>(exec(qd), zacc{&p}, in.recv[0], in.recv[1]) | [&](int v) { s.put(v); };
        in.ready();
        in.play(4, qd, [&](bool end) {
            CHECK(p.n <= in.shortest(), "the process is called only for complete sets");
            if (end) CHECK(p.n == in.shortest() && s.n == p.n, "every complete set is processed");
            for (int j = 0; j < p.n && j < DEPTH; ++j)
                for (int i = 0; i < 2; ++i) CHECK(p.a[j][i] == in.x[i][j], "values are paired by position");
            for (int j = 0; j < s.n && j < DEPTH; ++j) CHECK(s.got[j] == (in.x[0][j] ^ in.x[1][j]), "every yield goes downstream");
        });
        sym::reach("done");
    }
    sym::leaks();
}
// ---- round robin: one value from each input in turn
template <int N>
static void robin(bool heads) {
    bool qd = sym::choose("queued", 2);
    inputs in(N, heads && qd);
    sink s;
    auto f = [&](int v) { s.put(v); };
    receiver<void> hold;
    if constexpr (N == 2) hold = merge_channel<round_robin_t>(exec(qd), f, in.recv[0], in.recv[1]);
    else hold = merge_channel<round_robin_t>(exec(qd), f, in.recv[0], in.recv[1], in.recv[2]);
    in.ready();
    in.play(2 * N, heads && qd, [&](bool end) {
        int can = 0; // values that have had their turn
        while (can < N * DEPTH && in.n[can % N] > can / N) ++can;
        CHECK(s.n <= can, "an input waits for its turn");
        if (end) CHECK(s.n == can, "every value whose turn has come is passed on");
        for (int j = 0; j < s.n && j < N * DEPTH; ++j) CHECK(s.got[j] == in.x[j % N][j / N], "one value from each input in turn");
    });
    sym::reach("done");
}
ENTRY(m_robin2) { // @H03 reach=done
    robin<2>(true);
    sym::leaks();
}
ENTRY(m_robin3) { // @H03 reach=done weight=3
    robin<3>(false);
    sym::leaks();
}
// ---- unordered: everything once, each input in order
template <int N>
static void mixed(bool heads) {
    bool qd = sym::choose("queued", 2);
    inputs in(N, heads && qd);
    int total = 0, ids[8], at[N] = {};
    // the value tells which input and position it is from: passed along with the symbolic value
    auto f = [&](int v) {
        CHECK(total < 6, "no value arrives more than once");
        if (total < 6) ids[total++] = v;
    };
    receiver<void> hold;
    if constexpr (N == 2) hold = merge_channel<unordered_t>(exec(qd), f, in.recv[0], in.recv[1]);
    else hold = merge_channel<unordered_t>(exec(qd), f, in.recv[0], in.recv[1], in.recv[2]);
    in.ready();
    in.play(N * DEPTH, heads && qd, [&](bool) {});
    int sent = 0;
    for (int i = 0; i < N; ++i) sent += in.n[i];
    CHECK(total == sent, "every value arrives exactly once");
    // the values seen are a shuffle of the inputs: match greedily is not enough for equal values, so
    // assume all values differ
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < in.n[i]; ++j)
            for (int k = 0; k < N; ++k)
                for (int m = 0; m < in.n[k]; ++m)
                    if (i != k || j != m) sym::assume(in.x[i][j] != in.x[k][m]);
    for (int q = 0; q < total; ++q) {
        bool hit = false;
        for (int i = 0; i < N; ++i) {
            for (int j = 0; j < in.n[i]; ++j)
                if (ids[q] == in.x[i][j]) {
                    CHECK(at[i] == j, "values of one input keep their order");
                    ++at[i];
                    hit = true;
                }
        }
        CHECK(hit, "only values sent arrive");
    }
    for (int i = 0; i < N; ++i) CHECK(at[i] == in.n[i], "every value arrives exactly once");
    sym::reach("done");
}
ENTRY(m_mixed2) { // @H03 reach=done
    mixed<2>(true);
    sym::leaks();
}
ENTRY(m_mixed3) { // @H03 reach=done weight=2
    mixed<3>(false);
    sym::leaks();
}
// ---- values that can only be moved, or whose copies fail: a merge passes on the value itself
namespace {
int copies_left; // before one copy throws; negative: never
struct fragile {
    int v;
    explicit fragile(int x = 0) : v(x) {}
    fragile(fragile&& x) noexcept : v(x.v) {}
    fragile(const fragile& x) : v(x.v) {
        if (copies_left >= 0 && copies_left-- == 0) throw boom{v};
    }
    fragile& operator=(fragile&&) = default;
    fragile& operator=(const fragile& x) { return *this = fragile(x); }
};
int get_value(const fragile& u) { return u.v; }
int get_value(const mo& m) { return kind<mo>::get(m); }
template <class T>
void merge_moved() {
    bool qd = sym::choose("queued", 2);
    int kind = (int)sym::choose("kind", 3), x[2][DEPTH], n[2] = {}, got[4], calls = 0;
    auto [s0, r0] = channel<T>(exec(qd));
    auto [s1, r1] = channel<T>(exec(qd));
    sender<T>* snd[2] = {&s0, &s1};
    auto one = [&](T v) {
        CHECK(calls < 4, "no value arrives more than once");
        if (calls < 4) got[calls++] = get_value(v);
    };
    auto two = [&](T a, T b) {
        CHECK(calls < 2, "one call per complete set");
        if (calls < 2) {
            got[2 * calls] = get_value(a);
            got[2 * calls++ + 1] = get_value(b);
        }
    };
    receiver<void> hold;
    if (kind == 0) hold = zip_with(exec(qd), two, std::move(r0), std::move(r1));
    else if (kind == 1) hold = merge_channel<round_robin_t>(exec(qd), one, std::move(r0), std::move(r1));
    else hold = merge_channel<unordered_t>(exec(qd), one, std::move(r0), std::move(r1));
    r0.set_ready();
    r1.set_ready();
    int order[2 * DEPTH];
    copies_left = std::is_same_v<T, mo> ? -1 : (int)sym::choose("copy", 10);
    const bool armed = copies_left >= 0;
    for (int k = 0; k < 2 * DEPTH; ++k) {
        int i = n[0] == DEPTH ? 1 : n[1] == DEPTH ? 0 : (int)sym::choose(SN[k], 2);
        x[i][n[i]] = sym::i32(XN[i]);
        (*snd[i])(T(x[i][n[i]++]));
        order[k] = i;
        int m = qd ? (int)sym::choose("run", 3) : 0;
        for (int j = 0; j < m; ++j) Q.run_one();
    }
    Q.run_all();
    if (armed && copies_left < 0) { // an error that nobody handles ends the merge; what came before has arrived
        CHECK(calls <= (kind == 0 ? DEPTH : 2 * DEPTH), "no value arrives more than once");
        int at[2] = {};
        for (int k = 0; k < (kind == 0 ? 2 : 1) * calls && kind < 2; ++k) CHECK(got[k] == x[k % 2][at[k % 2]++], "the values before the error in their order");
        sym::reach("failed");
        return;
    }
    CHECK(calls == (kind == 0 ? DEPTH : 2 * DEPTH), "every value arrives");
    int at[2] = {};
    for (int k = 0; k < 2 * DEPTH; ++k) {
        int i = kind < 2 ? k % 2 : !qd ? order[k] : -1;
        if (i >= 0) CHECK(got[k] == x[i][at[i]++], "the values in their order");
    }
    sym::reach("done");
}
} // namespace
ENTRY(m_moved) { // @H03 reach=done
    merge_moved<mo>();
    sym::leaks();
}
ENTRY(m_fragile) { // @H03,H06 reach=done,failed weight=3
    merge_moved<fragile>();
    sym::leaks();
}
// ---- threads: two senders on threads of their own
template <class M>
static void merged(sink& s) {
    int in = 0;
    auto [s0, r0] = channel<int>(immediate_executor);
    auto [s1, r1] = channel<int>(immediate_executor);
    auto hold = merge_channel<M>(immediate_executor, [&](int v) { guard g(&in); s.put(v); }, r0, r1);
    r0.set_ready();
    r1.set_ready();
    std::thread t([snd = std::move(s1)] { snd(11); snd(12); });
    s0(1);
    s0(2);
    t.join();
    CHECK(s.n == 4, "every value arrives exactly once");
    CHECK(s.pos(1) >= 0 && s.pos(1) < s.pos(2) && s.pos(11) >= 0 && s.pos(11) < s.pos(12), "values of one input keep their order");
}
ENTRY(m_threads_mixed) { // @H03,S01 preempt=1 reach=done time=120 weight=3 thorough.preempt=2 thorough.time=600
    {
        sink s;
        merged<unordered_t>(s);
        sym::reach("done");
    }
    sym::leaks();
}
ENTRY(m_threads_robin) { // @H03,S01 preempt=1 reach=done time=120 weight=3 thorough.preempt=2 thorough.time=600
    {
        sink s;
        merged<round_robin_t>(s);
        CHECK(s.got[0] == 1 && s.got[1] == 11 && s.got[2] == 2 && s.got[3] == 12, "one value from each input in turn");
        sym::reach("done");
    }
    sym::leaks();
}
ENTRY(m_threads_zip) { // @H03,S01 preempt=1 reach=done time=120 weight=3 thorough.preempt=2 thorough.time=600
    {
        sink s;
        int in = 0;
        auto [s0, r0] = channel<int>(immediate_executor);
        auto [s1, r1] = channel<int>(immediate_executor);
        auto hold = zip_with(immediate_executor, [&](int a, int b) { guard g(&in); s.put(a * 100 + b); }, r0, r1);
        r0.set_ready();
        r1.set_ready();
        std::thread t([snd = std::move(s1)] { snd(11); snd(12); });
        s0(1);
        s0(2);
        t.join();
        CHECK(s.n == 2 && s.got[0] == 111 && s.got[1] == 212, "values are paired by position");
        sym::reach("done");
    }
    sym::leaks();
}
