#include "chan.hpp"
#include <functional>

namespace {
// gathers `need` inputs, then yields `outs` values; what it may be asked is checked at every call
struct acc {
    struct log {
        int closes = 0, inside = 0, lives = 0, awaits = 0, yields = 0;
    };
    log* l;
    int need, outs, flush; // flush: on close, yield once more if inputs are left
    int have = 0, left = 0, sum = 0;
    token t;
    acc(log* p, int n, int o, int f = 0) : l(p), need(n), outs(o), flush(f), t(&p->lives) {}
    void await(int x) {
        guard g(&l->inside);
        CHECK(left == 0, "inputs come only while the process awaits");
        CHECK(l->closes == 0, "no input after close");
        ++l->awaits;
        sum += x;
        if (++have == need) { have = 0; left = outs; }
    }
    int yield() {
        guard g(&l->inside);
        CHECK(left > 0, "a process is asked to yield only when it says so");
        ++l->yields;
        int r = sum + left;
        if (--left == 0) sum = 0;
        return r;
    }
    void close() {
        guard g(&l->inside);
        CHECK(left == 0, "close comes while the process awaits");
        ++l->closes;
        CHECK(l->closes == 1, "close is called once");
        if (flush && have) { have = 0; left = flush; }
    }
    process_state_scheduled state() const { return left ? yield_immediate : await_forever; }
};
// the values an acc yields for inputs x[0..n)
int model(const int* x, int n, int need, int outs, int flush, bool closed, int* out) {
    int have = 0, sum = 0, k = 0;
    for (int i = 0; i < n; ++i) {
        sum += x[i];
        if (++have == need) {
            for (int j = outs; j > 0; --j) out[k++] = sum + j;
            have = sum = 0;
        }
    }
    if (closed && flush && have)
        for (int j = flush; j > 0; --j) out[k++] = sum + j;
    return k;
}
const std::size_t BUF[] = {1, 2, 0};
} // namespace

// ---- inputs gathered in batches, several outputs per batch, every interleaving on a queue
ENTRY(y_batch) { // @H02 reach=done weight=2 parts=2
    {
        sink s;
        acc::log l;
        constexpr int n = 4;
        int x[n], want[MAXV], need = 1 + (int)sym::choose("need", 3), outs = 1 + (int)sym::choose("outs", 2);
        auto [send, recv] = channel<int>(exec(true));
        auto hold = recv | acc(&l, need, outs) | (buffer_size{BUF[sym::choose("buffer", 3)]} & [&](int v) { s.put(v); });
        recv.set_ready();
        for (int k = 0; k < n; ++k) {
            x[k] = sym::i32("x");
            send(x[k]);
            int m = (int)sym::choose("run", 3);
            for (int i = 0; i < m; ++i) Q.run_one();
            s.prefix(want, model(x, k + 1, need, outs, 0, false, want));
        }
        Q.run_all();
        s.expect(want, model(x, n, need, outs, 0, false, want));
        CHECK(l.closes == 0, "nobody closed the channel");
        CHECK(l.awaits == n, "every input was taken");
        sym::reach("done");
    }
    sym::leaks();
}
// the same, closed at the end: leftovers are yielded, then close goes on downstream
ENTRY(y_close) { // @H02,H04 reach=done weight=2
    {
        sink s;
        acc::log l[2];
        int x[4], want[MAXV], n = (int)sym::choose("n", 4), need = 2 + (int)sym::choose("need", 2), flush = (int)sym::choose("flush", 3);
        bool qd = sym::choose("queued", 2);
        auto [send, recv] = channel<int>(exec(qd));
        auto hold = recv | acc(&l[0], need, 1, flush) | acc(&l[1], 1, 1) |
                    (buffer_size{BUF[sym::choose("buffer", 3)]} & [&, t = token(&s.closes)](int v) { s.put(v); });
        recv.set_ready();
        for (int k = 0; k < n; ++k) {
            x[k] = sym::i32("x");
            send(x[k]);
        }
        if (sym::choose("run", 2)) Q.run_all();
        send.close();
        Q.run_all();
        int k = model(x, n, need, 1, flush, true, want), out[MAXV];
        for (int i = 0; i < k; ++i) out[i] = want[i] + 1;
        s.expect(out, k);
        for (auto& e : l) {
            CHECK(e.closes == 1, "each process is told to close once");
            CHECK(e.lives == 0, "a closed process is released");
        }
        CHECK(s.closes == 0, "the end of a closed pipeline is released");
        sym::reach("done");
    }
    sym::leaks();
}
// a generator: a process without input runs as soon as it is set ready, until it stops yielding
namespace {
struct gen {
    int* made;
    int* inside;
    int n;
    int yield() {
        guard g(inside);
        CHECK(*made < n, "a process is asked to yield only when it says so");
        return (*made)++;
    }
    process_state_scheduled state() const { return *made < n ? yield_immediate : await_forever; }
};
} // namespace
ENTRY(y_gen) { // @H02,H05 reach=done
    {
        sink s;
        int made = 0, inside = 0, n = (int)sym::choose("n", 5), b = (int)sym::choose("buffer", 3);
        bool copy = sym::choose("copy", 2);
        auto recv = channel<void>(exec(true));
        auto g = recv | gen{&made, &inside, n};
        auto h = g;
        auto hold = g | (buffer_size{BUF[b]} & [&](int v) { s.put(v); });
        CHECK(Q.empty(), "nothing runs before the pipeline is set ready");
        if (!copy) h.set_ready();
        g.set_ready();
        if (copy) {
            CHECK(Q.empty(), "nothing runs before the pipeline is set ready");
            h.set_ready();
        }
        int steps = 0;
        while (steps++ < 20 && Q.run_one())
            if (BUF[b]) CHECK(made - s.n <= (int)BUF[b] + 1, "the buffer limits how far a process runs ahead");
        int want[] = {0, 1, 2, 3};
        s.expect(want, n);
        CHECK(Q.empty(), "a generator that ended is not run again");
        sym::reach("done");
    }
    sym::leaks();
}
// a process that only reads: no result
namespace {
struct eat {
    sink* s;
    int need, have = 0;
    bool done = false;
    void await(int x) {
        CHECK(!done, "inputs come only while the process awaits");
        s->put(x);
        if (++have == need) { have = 0; done = true; }
    }
    void close() { ++s->closes; }
    int yield() {
        CHECK(done, "a process is asked to yield only when it says so");
        done = false;
        return 7;
    }
    process_state_scheduled state() const { return done ? yield_immediate : await_forever; }
};
} // namespace
// a process by reference: the caller's object is used, and outlives the channel
ENTRY(y_ref) { // @H02 reach=done
    {
        sink s, t;
        constexpr int n = 3;
        int x[n];
        eat e{&s, 1 + (int)sym::choose("need", 2)};
        {
            bool last = sym::choose("last", 2);
            auto [send, recv] = channel<int>(exec(sym::choose("queued", 2)));
            auto mid = recv | std::ref(e);
            receiver<void> hold;
            if (!last) hold = mid | [&](int v) { t.put(v); };
            recv.set_ready();
            mid.set_ready();
            for (int k = 0; k < n; ++k) send(x[k] = sym::i32("x"));
            if (sym::choose("close", 2)) {
                send.close();
                Q.run_all();
                CHECK(s.closes == 1, "a process given by reference is closed");
            } else Q.run_all();
            s.expect(x, n);
            if (!last) CHECK(t.n == n / e.need, "every yield goes downstream");
        }
        Q.drop_all();
        sym::reach("done");
    }
    sym::leaks();
}
// function_process: a function split into await and yield
ENTRY(y_func) { // @H02 reach=done
    {
        sink s;
        constexpr int n = 3;
        int x[n], calls = 0;
        auto [send, recv] = channel<int>(exec(sym::choose("queued", 2)));
        stlab::function_process<int(int)> f([&](int v) { ++calls; return v + 1; });
        auto hold = recv | std::move(f) | [&](int v) { s.put(v - 1); };
        recv.set_ready();
        for (int k = 0; k < n; ++k) {
            send(x[k] = sym::i32("x"));
            if (sym::choose("run", 2)) Q.run_one();
        }
        Q.run_all();
        s.expect(x, n);
        CHECK(calls == n, "the function is called once per value");
        sym::reach("done");
    }
    sym::leaks();
}
