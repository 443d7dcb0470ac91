// Pipelines that are longer, wider and carry more values than those whose every interleaving is explored: here the order of the
// steps is one of a few regular ones.
#define MANUAL_MAX 96
#include "chan.hpp"
using stlab::merge_channel;
using stlab::round_robin_t;
using stlab::unordered_t;
using stlab::zip_with;

namespace {
manual Qn[4];
constexpr int N = 12;
int want(int x, int stages) { return x + stages * (stages + 1) / 2; }
} // namespace

// a chain of stages with buffers, many values; the queue is run a few tasks at a time, or at the end
ENTRY(cw_chain) { // @H01,H05 reach=done
    {
        sink s;
        int stages = (int)sym::choose("stages", 6), lag = (int)sym::choose("lag", 4), in[6] = {}, x[N], w[N];
        std::size_t b = sym::choose("buffer", 6);
        auto [send, recv] = channel<int>(exec(true));
        receiver<int> r = std::move(recv);
        for (int k = 0; k < stages; ++k) {
            receiver<int> next = r | (buffer_size{b} & [k, &in](int v) { guard g(&in[k]); return v + k + 1; });
            r.set_ready();
            r = std::move(next);
        }
        auto hold = r | (buffer_size{b} & [&](int v) { s.put(v); });
        r.set_ready();
        for (int k = 0; k < N; ++k) {
            x[k] = sym::i32("x");
            w[k] = want(x[k], stages);
            send(x[k]);
            for (int j = 0; j < lag; ++j) Q.run_one();
        }
        s.prefix(w, N);
        Q.run_all();
        s.expect(w, N);
        sym::reach("done");
    }
    sym::leaks();
}
// one receiver, many processes, each on its own queue, which run at different times
ENTRY(cw_fan) { // @H01,H05,H04 reach=done
    {
        sink s[5];
        int n = 1 + (int)sym::choose("processes", 5), x[N];
        std::size_t b = sym::choose("buffer", 5);
        int slow = (int)sym::choose("slow", n), lag = (int)sym::choose("lag", 3);
        sender<int> send;
        receiver<int> recv;
        std::tie(send, recv) = channel<int>(immediate_executor);
        auto head = recv | [](int v) { return v; };
        recv.set_ready();
        std::vector<receiver<void>> hold;
        for (int k = 0; k < n; ++k)
            hold.push_back(head | (executor{k == slow ? Qn[0].executor() : stlab::executor_t(immediate_executor)} & buffer_size{b} & [&s, k](int v) { s[k].put(v); }));
        head.set_ready();
        for (int k = 0; k < N; ++k) {
            x[k] = sym::i32("x");
            send(x[k]);
            for (int j = 0; j < lag; ++j) Qn[0].run_one();
            if (b) for (int j = 0; j < n; ++j) CHECK(s[j].n <= s[slow].n + (int)b + 1, "the tightest buffer limits how far a process runs ahead");
            else for (int j = 0; j < n; ++j) CHECK(j == slow || s[j].n == k + 1, "a process without a limit is not held back");
        }
        send.close();
        Qn[0].run_all();
        for (int k = 0; k < n; ++k) s[k].expect(x, N);
        sym::reach("done");
    }
    sym::leaks();
}
// a generator far ahead: every limit up to 8
ENTRY(cw_limit) { // @H05 reach=done
    {
        sink s;
        int made = 0;
        const int b = (int)sym::choose("buffer", 9);
        struct gen {
            int* made;
            int yield() { return (*made)++; }
            process_state_scheduled state() const { return *made < N ? yield_immediate : await_forever; }
        };
        auto recv = channel<void>(immediate_executor);
        auto g = recv | gen{&made};
        auto hold = g | (executor{Q.executor()} & buffer_size{(std::size_t)b} & [&](int v) { s.put(v); });
        g.set_ready();
        recv.set_ready();
        int steps = 0;
        do {
            if (b) CHECK(made - s.n <= b + 1, "the buffer limits how far a process runs ahead");
            CHECK(made == N || (b && made - s.n >= b), "a process runs until the buffer is full");
        } while (Q.run_one() && ++steps < 4 * N);
        int x[N];
        for (int k = 0; k < N; ++k) x[k] = k;
        s.expect(x, N);
        sym::reach("done");
    }
    sym::leaks();
}
// merges of four and five inputs with up to three values each
namespace {
constexpr int M = 5, D = 3;
template <class K, int I>
void merge() {
    int order = (int)sym::choose("order", 5), who = (int)sym::choose("who", I), cnt[M], x[M][D], sent[M] = {}, got[M * D][M], calls = 0;
    bool qd = sym::choose("queued", 2), buffered = sym::choose("buffer", 2);
    for (int i = 0; i < I; ++i) cnt[i] = D;
    const bool shorter = sym::choose("shorter", 2);
    if (shorter) cnt[who] = 1;
    sender<int> snd[I];
    receiver<int> rcv[I];
    for (int i = 0; i < I; ++i) {
        auto [s, r] = channel<int>(exec(qd));
        snd[i] = std::move(s);
        rcv[i] = std::move(r);
    }
    auto one = [&](int v) {
        CHECK(calls < M * D, "no value arrives more than once");
        if (calls < M * D) got[calls++][0] = v;
    };
    auto all = [&](auto... v) {
        int k = 0;
        CHECK(calls < D, "one call per complete set");
        if (calls < D) {
            ((got[calls][k++] = v), ...);
            ++calls;
        }
    };
    receiver<void> hold;
    if constexpr (std::is_same_v<K, stlab::zip_with_t>) {
        if constexpr (I == 4) hold = zip_with(exec(qd), all, rcv[0], rcv[1], rcv[2], rcv[3]);
        else hold = zip_with(exec(qd), all, rcv[0], rcv[1], rcv[2], rcv[3], rcv[4]);
    } else {
        if constexpr (I == 4) hold = merge_channel<K>(exec(qd), one, rcv[0], rcv[1], rcv[2], rcv[3]);
        else hold = merge_channel<K>(exec(qd), one, rcv[0], rcv[1], rcv[2], rcv[3], rcv[4]);
    }
    for (auto& r : rcv) r.set_ready();
    int seq[M * D], total = 0;
    auto put = [&](int i) {
        if (sent[i] == cnt[i]) return;
        seq[total++] = i * D + sent[i];
        int v = x[i][sent[i]++] = sym::i32("x");
        snd[i](v);
        if (buffered) Q.run_one();
    };
    switch (order) {
        case 0: for (int d = 0; d < D; ++d) for (int i = 0; i < I; ++i) put((i + who) % I); break;  // in turn, from any input on
        case 1: for (int i = 0; i < I; ++i) for (int d = 0; d < D; ++d) put((i + who) % I); break;  // one input after the other
        case 2: for (int d = 0; d < D; ++d) for (int i = I; i-- > 0;) put((i + who) % I); break;    // in turn, backwards
        case 3: // one lags behind
            for (int d = 0; d < D; ++d) for (int i = 0; i < I; ++i) if (i != who) put(i);
            for (int d = 0; d < D; ++d) put(who);
            break;
        default: // one is ahead
            for (int d = 0; d < D; ++d) put(who);
            for (int d = 0; d < D; ++d) for (int i = 0; i < I; ++i) put(i);
    }
    Q.run_all();
    if constexpr (std::is_same_v<K, stlab::zip_with_t>) {
        int k = shorter ? 1 : D;
        CHECK(calls == k, "the function is called for every complete set");
        for (int j = 0; j < calls; ++j) for (int i = 0; i < I; ++i) CHECK(got[j][i] == x[i][j], "values are paired by position");
    } else if constexpr (std::is_same_v<K, round_robin_t>) {
        int can = 0;
        while (can < I * D && sent[can % I] > can / I) ++can;
        CHECK(calls == can, "every value whose turn has come is passed on");
        for (int j = 0; j < calls; ++j) CHECK(got[j][0] == x[j % I][j / I], "one value from each input in turn");
    } else {
        CHECK(calls == total, "every value arrives exactly once");
        if (!qd) for (int j = 0; j < calls; ++j) CHECK(got[j][0] == x[seq[j] / D][seq[j] % D], "values are passed on as they come");
        else {
            // with different values: each input in its order
            for (int j = 0; j < total; ++j) for (int k = 0; k < j; ++k) sym::assume(x[seq[j] / D][seq[j] % D] != x[seq[k] / D][seq[k] % D]);
            int at[M] = {}, hits = 0;
            for (int q = 0; q < calls; ++q)
                for (int i = 0; i < I; ++i)
                    if (at[i] < cnt[i] && got[q][0] == x[i][at[i]]) { ++at[i]; ++hits; break; }
            CHECK(hits == total, "values of one input keep their order");
        }
    }
    // closing the inputs ends the merge
    for (auto& s : snd) s.close();
    Q.run_all();
    sym::reach("done");
}
} // namespace
ENTRY(mw_zip4) { // @H03 reach=done
    merge<stlab::zip_with_t, 4>();
    sym::leaks();
}
ENTRY(mw_zip5) { // @H03 reach=done
    merge<stlab::zip_with_t, 5>();
    sym::leaks();
}
ENTRY(mw_robin4) { // @H03 reach=done
    merge<round_robin_t, 4>();
    sym::leaks();
}
ENTRY(mw_robin5) { // @H03 reach=done
    merge<round_robin_t, 5>();
    sym::leaks();
}
ENTRY(mw_mixed4) { // @H03 reach=done
    merge<unordered_t, 4>();
    sym::leaks();
}
ENTRY(mw_mixed5) { // @H03 reach=done
    merge<unordered_t, 5>();
    sym::leaks();
}

// a long chain is closed: everything is processed first, each process is closed once
ENTRY(kw_chain) { // @H04 reach=done
    {
        struct log { int got = 0, closes = 0, lives = 0; } l[5];
        struct pass {
            log* l;
            token t;
            int v = 0;
            bool full = false;
            explicit pass(log* p) : l(p), t(&p->lives) {}
            void await(int x) {
                CHECK(!full && !l->closes, "inputs come only while the process awaits, and before close");
                v = x;
                full = true;
                ++l->got;
            }
            int yield() { full = false; return v; }
            void close() { ++l->closes; CHECK(l->closes == 1, "close is called once"); }
            process_state_scheduled state() const { return full ? yield_immediate : await_forever; }
        };
        sink s;
        int x[N], n = (int)sym::choose("stages", 5) + 1, lag = (int)sym::choose("lag", 3), values = (int)sym::choose("values", N + 1);
        std::size_t b = sym::choose("buffer", 3);
        {
            auto [send, recv] = channel<int>(exec(true));
            receiver<int> r = std::move(recv);
            for (int k = 0; k < n; ++k) {
                receiver<int> next = r | (buffer_size{b} & pass(&l[k]));
                r.set_ready();
                r = std::move(next);
            }
            auto hold = r | [&](int v) { s.put(v); };
            r.set_ready();
            for (int k = 0; k < values; ++k) {
                x[k] = sym::i32("x");
                send(x[k]);
                for (int j = 0; j < lag; ++j) Q.run_one();
            }
            send.close();
            Q.run_all();
            s.expect(x, values);
            for (int k = 0; k < n; ++k) {
                CHECK(l[k].got == values, "what was sent before the close is processed");
                CHECK(l[k].closes == 1, "a process is told to close exactly once");
                CHECK(l[k].lives == 0, "a closed process is released");
            }
        }
        sym::reach("done");
    }
    sym::leaks();
}

// ---- processes that gather up to 6 inputs and then yield up to 6 values, one behind the other
namespace {
struct gather {
    struct log { int closes = 0, inside = 0, lives = 0, awaits = 0; };
    log* l;
    int need, outs, have = 0, left = 0;
    unsigned sum = 0;
    token t;
    gather(log* p, int n, int o) : l(p), need(n), outs(o), t(&p->lives) {}
    void await(int x) {
        guard g(&l->inside);
        CHECK(left == 0 && l->closes == 0, "inputs come only while the process awaits");
        ++l->awaits;
        sum += (unsigned)x;
        if (++have == need) { have = 0; left = outs; }
    }
    int yield() {
        guard g(&l->inside);
        CHECK(left > 0, "a process is asked to yield only when it says so");
        int r = (int)(sum + (unsigned)left);
        if (--left == 0) sum = 0;
        return r;
    }
    // what is left over comes out once more before the end
    void close() {
        guard g(&l->inside);
        CHECK(left == 0 && ++l->closes == 1, "close is called once, while the process awaits");
        if (have) { have = 0; left = 1; }
    }
    process_state_scheduled state() const { return left ? yield_immediate : await_forever; }
    static std::vector<int> model(const std::vector<int>& x, int need, int outs, bool closed) {
        std::vector<int> r;
        unsigned sum = 0;
        int have = 0;
        for (int v : x) {
            sum += (unsigned)v;
            if (++have < need) continue;
            for (int j = outs; j > 0; --j) r.push_back((int)(sum + (unsigned)j));
            have = 0;
            sum = 0;
        }
        if (closed && have) r.push_back((int)(sum + 1));
        return r;
    }
};
} // namespace
ENTRY(pw_batch) { // @H02 reach=done weight=2
    {
        std::vector<int> x, got;
        gather::log l[2];
        int need = 1 + (int)sym::choose("need", 6), outs = 1 + (int)sym::choose("outs", 4), need2 = 1 + (int)sym::choose("then", 3) * 2, lag = (int)sym::choose("lag", 3);
        std::size_t b = sym::choose("buffer", 3) * 2;
        bool cl = sym::choose("close", 2);
        auto [send, recv] = channel<int>(exec(true));
        auto hold = recv | (buffer_size{b} & gather(&l[0], need, outs)) | (buffer_size{b} & gather(&l[1], need2, 2)) | (buffer_size{b} & [&](int v) { got.push_back(v); });
        recv.set_ready();
        for (int k = 0; k < N; ++k) {
            x.push_back(sym::i32("x"));
            send(x.back());
            for (int j = 0; j < lag; ++j) Q.run_one();
        }
        if (cl) send.close();
        Q.run_all();
        auto want = gather::model(gather::model(x, need, outs, cl), need2, 2, cl);
        CHECK(got.size() == want.size(), "every yielded value goes downstream exactly once");
        for (std::size_t i = 0; i < got.size() && i < want.size(); ++i) CHECK(got[i] == want[i], "and in order");
        CHECK(l[0].awaits == N, "every input was taken");
        CHECK(l[0].closes == cl && l[1].closes == cl, "closed once iff the sender is");
        sym::reach("done");
    }
    sym::leaks();
}

// ---- a pipeline of 5 processes; some inputs fail in one of them, and the next one with a handler deals with it
namespace {
struct handler {
    std::vector<int>* seen; // v: value, -1 - v: error
    int k, v = 0;
    bool full = false;
    void await(int x) { seen->push_back(x); v = x; full = true; }
    void set_error(std::exception_ptr e) {
        auto o = what(e);
        CHECK(o.has && !o.broken && !o.other, "the error that was thrown arrives");
        seen->push_back(-1 - o.v);
        v = o.v;
        full = true;
    }
    int yield() { full = false; return v; }
    process_state_scheduled state() const { return full ? yield_immediate : await_forever; }
};
} // namespace
ENTRY(ew_chain) { // @H06 reach=done
    {
        constexpr int P = 5;
        std::vector<int> seen[P + 1];
        int at = (int)sym::choose("thrower", P), pat = (int)sym::choose("pattern", 6), lag = (int)sym::choose("lag", 3), x[N], cnt = 0;
        std::size_t b = sym::choose("buffer", 3) * 2;
        auto bad = [pat](int k) { return pat == 0 ? k == 0 : pat == 1 ? k == N - 1 : pat == 2 ? k % 2 == 0 : pat == 3 ? k / 3 == 1 : pat == 4 ? true : k % 5 == 4; };
        auto [send, recv] = channel<int>(exec(true));
        receiver<int> r = std::move(recv);
        for (int k = 0; k < P; ++k) {
            receiver<int> next;
            if (k == at) next = r | (buffer_size{b} & [&](int v) { if (bad(cnt++)) throw boom{v}; return v; });
            else next = r | (buffer_size{b} & handler{&seen[k], k});
            r.set_ready();
            r = std::move(next);
        }
        auto hold = r | (buffer_size{b} & handler{&seen[P], P}) | [](int) {};
        r.set_ready();
        for (int k = 0; k < N; ++k) {
            x[k] = sym::i32("x");
            sym::assume(x[k] >= 0);
            send(x[k]);
            for (int j = 0; j < lag; ++j) Q.run_one();
        }
        Q.run_all();
        for (int s = 0; s <= P; ++s) {
            if (s == at) continue;
            CHECK((int)seen[s].size() == N, "every value and every error arrives exactly once");
            for (int k = 0; k < (int)seen[s].size(); ++k)
                CHECK(seen[s][k] == (s == at + 1 && bad(k) ? -1 - x[k] : x[k]), "values and errors arrive in the order sent");
        }
        CHECK(cnt == N, "the failing process goes on");
        sym::reach("done");
    }
    sym::leaks();
}
