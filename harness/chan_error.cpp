#include "chan.hpp"
#include <functional>

namespace {
// what the handling process saw: values >= 0 as they are, errors as -1 - code
struct seen {
    int n = 0, kind[MAXV] = {}, val[MAXV] = {}, closes = 0, lives = 0, inside = 0;
    void put(int k, int v) {
        CHECK(n < MAXV, "nothing arrives more than once");
        if (n < MAXV) { kind[n] = k; val[n++] = v; }
    }
};
// takes values and errors; passes on one value for either
struct catcher {
    seen* s;
    bool full = false;
    token t;
    explicit catcher(seen* p) : s(p), t(&p->lives) {}
    void await(int v) {
        guard g(&s->inside);
        CHECK(!full, "inputs come only while the process awaits");
        s->put(0, v);
        full = true;
    }
    void set_error(std::exception_ptr e) {
        guard g(&s->inside);
        CHECK(!full, "errors come only while the process awaits");
        auto o = what(e);
        CHECK(o.has && !o.broken && !o.other, "the error that was thrown arrives");
        s->put(1, o.v);
        full = true;
    }
    int yield() {
        guard g(&s->inside);
        CHECK(full, "a process is asked to yield only when it says so");
        full = false;
        return s->kind[s->n - 1] ? -1 : 1;
    }
    void close() { CHECK(++s->closes == 1, "close is called once"); }
    process_state_scheduled state() const { return full ? yield_immediate : await_forever; }
};
// no handler: an error closes it
struct plain {
    seen* s;
    bool full = false;
    token t;
    explicit plain(seen* p) : s(p), t(&p->lives) {}
    void await(int v) {
        guard g(&s->inside);
        CHECK(s->closes == 0, "no input after close");
        s->put(0, v);
        full = true;
    }
    int yield() {
        guard g(&s->inside);
        full = false;
        return s->val[s->n - 1];
    }
    void close() { CHECK(++s->closes == 1, "close is called once"); }
    process_state_scheduled state() const { return full ? yield_immediate : await_forever; }
};
constexpr int N = 3;
const char* BN[] = {"bad0", "bad1", "bad2"};
struct inputs {
    int x[N];
    bool bad[N];
    inputs() {
        for (int k = 0; k < N; ++k) {
            x[k] = sym::i32("x");
            sym::assume(x[k] >= 0);
            bad[k] = sym::choose(BN[k], 2);
        }
    }
    int first() const {
        for (int k = 0; k < N; ++k) if (bad[k]) return k;
        return N;
    }
};
// a process that throws for some of its inputs, as a function or with await and yield (then from either)
struct thrower {
    const inputs* in;
    int at = 0, v = 0;
    bool full = false, in_yield;
    thrower(const inputs* p, bool y) : in(p), in_yield(y) {}
    void await(int x) {
        v = x;
        if (in->bad[at] && !in_yield) { ++at; throw boom{x}; }
        full = true;
    }
    int yield() {
        full = false;
        if (in->bad[at++]) throw boom{v};
        return v;
    }
    process_state_scheduled state() const { return full ? yield_immediate : await_forever; }
};
template <class S>
void feed(S& send, const inputs& in) {
    for (int k = 0; k < N; ++k) {
        send(in.x[k]);
        int m = (int)sym::choose("run", 3);
        for (int i = 0; i < m; ++i) Q.run_one();
    }
    Q.run_all();
}
void check_all(const seen& s, const inputs& in) {
    CHECK(s.n == N, "every value and every error arrives exactly once");
    for (int k = 0; k < s.n && k < N; ++k) {
        CHECK(s.kind[k] == (in.bad[k] ? 1 : 0), "errors arrive in order with the values");
        CHECK(s.val[k] == in.x[k], "values and errors arrive in the order sent");
    }
}
} // namespace

// ---- what a process throws reaches the handler of the next process
ENTRY(r_throw) { // @H06,H02 reach=done weight=2
    {
        inputs in;
        seen s;
        sink end;
        bool qd = sym::choose("queued", 2);
        int kind = (int)sym::choose("kind", 4), at = 0, calls = 0;
        auto [send, recv] = channel<int>(exec(qd));
        receiver<int> mid;
        if (kind == 0) mid = recv | [&, at](int v) mutable { if (in.bad[at++]) throw boom{v}; return v; };
        else if (kind == 3) mid = recv | stlab::function_process<int(int)>([&](int v) { ++calls; if (in.bad[at++]) throw boom{v}; return v; });
        else mid = recv | thrower(&in, kind == 2);
        auto hold = mid | catcher(&s) | [&](int v) { end.put(v); };
        mid.set_ready();
        recv.set_ready();
        feed(send, in);
        check_all(s, in);
        for (int k = 0; k < end.n; ++k) CHECK(end.got[k] == (in.bad[k] ? -1 : 1), "the pipeline goes on after a handled error");
        CHECK(end.n == N, "the pipeline goes on after a handled error");
        CHECK(s.closes == 0, "a process that handles errors is not closed by them");
        if (kind == 3) CHECK(calls == N, "the function is called once per value");
        sym::reach("done");
    }
    sym::leaks();
}
// an error sent on the channel itself; the handler may be given by reference
ENTRY(r_sent) { // @H06 reach=done
    {
        inputs in;
        seen s;
        sink end;
        bool qd = sym::choose("queued", 2), ref = sym::choose("ref", 2);
        auto [send, recv] = channel<int>(exec(qd));
        catcher c(&s);
        receiver<int> mid;
        if (ref) mid = recv | std::ref(c);
        else mid = recv | std::move(c);
        auto hold = mid | [&](int v) { end.put(v); };
        mid.set_ready();
        recv.set_ready();
        for (int k = 0; k < N; ++k) {
            if (in.bad[k]) send(std::make_exception_ptr(boom{in.x[k]}));
            else send(in.x[k]);
            if (sym::choose("run", 2)) Q.run_one();
        }
        Q.run_all();
        check_all(s, in);
        CHECK(end.n == N, "the pipeline goes on after a handled error");
        sym::reach("done");
    }
    sym::leaks();
}
// ---- a process without a handler is closed by an error, and with it everything downstream
ENTRY(r_close) { // @H06 reach=done weight=2
    {
        inputs in;
        seen p;
        sink mid, end;
        bool qd = sym::choose("queued", 2);
        int kind = (int)sym::choose("kind", 2), first = in.first(), at = 0;
        auto [send, recv] = channel<int>(exec(qd));
        receiver<void> hold;
        auto bad = recv | [&](int v) { if (in.bad[at++]) throw boom{v}; return v; };
        auto tail = [&, t = token(&end.closes)](int v) { end.put(v); };
        if (kind == 0) hold = bad | plain(&p) | std::move(tail);
        else hold = bad | [&, t = token(&mid.closes)](int v) { mid.put(v); return v; } | std::move(tail);
        { auto moved = std::move(tail); }
        bad.set_ready();
        recv.set_ready();
        feed(send, in);
        end.expect(in.x, first);
        if (kind == 0) {
            CHECK(p.n == first, "no value overtakes the error that closes a process");
            CHECK(p.closes == (first < N ? 1 : 0), "a process without an error handler is closed by an error");
            CHECK(p.lives == (first < N ? 0 : 1), "a closed process is released");
        } else {
            mid.expect(in.x, first);
            CHECK(mid.closes == (first < N ? 0 : 1), "a process without an error handler is closed by an error");
        }
        CHECK(end.closes == (first < N ? 0 : 1), "everything downstream of a closed process is released");
        CHECK(at == N, "the rest of the pipeline is not held back by a closed process");
        sym::reach("done");
    }
    sym::leaks();
}
// one of two processes closed by an error: the other one still gets everything
ENTRY(r_fan) { // @H06,H05 reach=done weight=2
    {
        inputs in;
        seen s;
        sink other, end;
        bool qd = sym::choose("queued", 2), order = sym::choose("order", 2);
        int at = 0;
        auto [send, recv] = channel<int>(exec(qd));
        auto bad = recv | [&](int v) { if (in.bad[at++]) throw boom{v}; return v; };
        receiver<void> hold[2];
        auto a = [&] { hold[0] = bad | catcher(&s) | [](int) {}; };
        auto b = [&] { hold[1] = bad | [&](int v) { other.put(v); }; };
        if (order) { a(); b(); }
        else { b(); a(); }
        bad.set_ready();
        recv.set_ready();
        feed(send, in);
        check_all(s, in);
        other.expect(in.x, in.first());
        sym::reach("done");
    }
    sym::leaks();
}
// a value that fails to be copied on its way to several processes is an error like one thrown by the process
namespace {
int copies_left; // before one copy throws; negative: never
struct brittle {
    int v;
    explicit brittle(int x) : v(x) {}
    brittle(brittle&& x) noexcept : v(x.v) {}
    brittle(const brittle& x) : v(x.v) {
        if (copies_left >= 0 && copies_left-- == 0) throw boom{x.v};
    }
    brittle& operator=(brittle&& x) noexcept {
        v = x.v;
        return *this;
    }
    brittle& operator=(const brittle& x) { return *this = brittle(x); }
};
struct brittle_catcher {
    catcher c;
    void await(const brittle& b) { c.await(b.v); }
    void set_error(std::exception_ptr e) { c.set_error(std::move(e)); }
    int yield() { return c.yield(); }
    void close() { c.close(); }
    process_state_scheduled state() const { return c.state(); }
};
} // namespace
ENTRY(r_copy) { // @H06,H01 reach=failed,done
    {
        seen s[2];
        sink end[2];
        bool qd = sym::choose("queued", 2);
        int kind = (int)sym::choose("kind", 2), x[N];
        copies_left = -1;
        auto [send, recv] = channel<int>(exec(qd));
        receiver<brittle> mid;
        struct yielding {
            int v = 0;
            bool full = false;
            void await(int w) { v = w; full = true; }
            brittle yield() { full = false; return brittle(v); }
            process_state_scheduled state() const { return full ? yield_immediate : await_forever; }
        };
        if (kind == 0) mid = recv | [](int v) { return brittle(v); };
        else mid = recv | yielding{};
        receiver<void> hold[2];
        for (int i = 0; i < 2; ++i) hold[i] = mid | brittle_catcher{catcher(&s[i])} | [&end, i](int v) { end[i].put(v); };
        mid.set_ready();
        recv.set_ready();
        for (int k = 0; k < N; ++k) {
            x[k] = sym::i32("x");
            sym::assume(x[k] >= 0);
        }
        copies_left = (int)sym::choose("copy", 4 * N);
        bool armed = true;
        for (int k = 0; k < N; ++k) {
            send(x[k]);
            int m = (int)sym::choose("run", 3);
            for (int i = 0; i < m; ++i) Q.run_one();
        }
        Q.run_all();
        armed = copies_left < 0;
        int errs[2] = {}, bad = -1;
        for (int i = 0; i < 2; ++i) {
            int k = 0;
            for (int j = 0; j < s[i].n; ++j) {
                if (s[i].kind[j]) {
                    ++errs[i];
                    bad = s[i].val[j];
                    // it takes the place of the value, or follows it
                    if (j && !s[i].kind[j - 1] && k && s[i].val[j - 1] == s[i].val[j] && s[i].n == N + 1) continue;
                    ++k;
                } else {
                    CHECK(k < N && s[i].val[j] == x[k], "every value in the order sent");
                    ++k;
                }
            }
            CHECK(k == N, "every value or its error arrives");
            CHECK(end[i].n == s[i].n, "the pipeline goes on after the error");
        }
        CHECK(errs[0] == errs[1] && errs[0] == (armed ? 1 : 0), "a failed copy is reported to every process once");
        CHECK(!armed || bad >= 0, "the error that was thrown");
        if (armed) sym::reach("failed");
        else sym::reach("done");
    }
    sym::leaks();
}
// the last process throws: nobody to tell, the pipeline goes on
ENTRY(r_last) { // @H06 reach=done
    {
        inputs in;
        sink end;
        bool qd = sym::choose("queued", 2);
        int at = 0;
        auto [send, recv] = channel<int>(exec(qd));
        auto hold = recv | [&](int v) { end.put(v); if (in.bad[at++]) throw boom{v}; };
        recv.set_ready();
        feed(send, in);
        end.expect(in.x, N);
        sym::reach("done");
    }
    sym::leaks();
}
// an error in one input of a merge
ENTRY(r_merge) { // @H06,H03 reach=done
    {
        inputs in;
        seen s;
        bool qd = sym::choose("queued", 2);
        int kind = (int)sym::choose("kind", 2), at = 0;
        auto [s0, r0] = channel<int>(exec(qd));
        auto [s1, r1] = channel<int>(exec(qd));
        auto bad = r0 | [&](int v) { if (in.bad[at++]) throw boom{v}; return v; };
        struct zip_catcher : catcher {
            using catcher::catcher;
            void await(int v, int w) { CHECK(w == 5, "paired"); catcher::await(v); }
        };
        receiver<int> mid;
        if (kind == 0) mid = stlab::merge_channel<stlab::zip_with_t>(exec(qd), zip_catcher(&s), bad, r1);
        else mid = stlab::merge_channel<stlab::unordered_t>(exec(qd), catcher(&s), bad, r1);
        sink end;
        auto hold = mid | [&](int v) { end.put(v); };
        bad.set_ready();
        r0.set_ready();
        r1.set_ready();
        mid.set_ready();
        for (int k = 0; k < N; ++k) {
            if (kind == 0) s1(5);
            s0(in.x[k]);
            if (sym::choose("run", 2)) Q.run_one();
        }
        Q.run_all();
        check_all(s, in);
        CHECK(end.n == N, "the pipeline goes on after a handled error");
        sym::reach("done");
    }
    sym::leaks();
}
// closing works after errors, handled or not
ENTRY(r_then_close) { // @H06,H04 reach=done
    {
        inputs in;
        seen s;
        sink end;
        bool qd = sym::choose("queued", 2), handled = sym::choose("handled", 2);
        int at = 0;
        auto [send, recv] = channel<int>(exec(qd));
        auto bad = recv | [&](int v) { if (in.bad[at++]) throw boom{v}; return v; };
        auto tail = [&, t = token(&end.closes)](int v) { end.put(v); };
        receiver<void> hold;
        if (handled) hold = bad | catcher(&s) | std::move(tail);
        else hold = bad | plain(&s) | std::move(tail);
        { auto moved = std::move(tail); }
        bad.set_ready();
        recv.set_ready();
        for (int k = 0; k < N; ++k) send(in.x[k]);
        if (sym::choose("run", 2)) Q.run_all();
        send.close();
        Q.run_all();
        CHECK(s.closes == 1, "close is called once");
        CHECK(s.lives == 0 && end.closes == 0, "everything is released at the end");
        CHECK(at == N && end.n == (handled ? N : in.first()), "values sent before closing are processed");
        sym::reach("done");
    }
    sym::leaks();
}
// close() itself may throw, or yield may throw while the process drains
ENTRY(r_in_close) { // @H06,H04 reach=done
    {
        struct p {
            int* closes;
            int how, left = 0;
            token t;
            p(int* c, int* lives, int h) : closes(c), how(h), t(lives) {}
            void await(int) {}
            void close() {
                ++*closes;
                if (how == 0) throw boom{9};
                left = 2;
            }
            int yield() {
                --left;
                if (how == 1 && left == 1) throw boom{9};
                return left;
            }
            process_state_scheduled state() const { return left ? yield_immediate : await_forever; }
        };
        seen s;
        int closes = 0, lives = 0, how = (int)sym::choose("how", 3);
        bool qd = sym::choose("queued", 2);
        auto [send, recv] = channel<int>(exec(qd));
        auto hold = recv | p(&closes, &lives, how) | catcher(&s) | [](int) {};
        recv.set_ready();
        send(1);
        if (sym::choose("run", 2)) Q.run_all();
        send.close();
        Q.run_all();
        CHECK(closes == 1 && lives == 0, "a process that throws while it ends is released");
        CHECK(s.closes == 1 && s.lives == 0, "and so is what is downstream");
        int e = 0;
        for (int k = 0; k < s.n; ++k) e += s.kind[k];
        CHECK(e == (how == 2 ? 0 : 1), "the error arrives once");
        CHECK(s.n == (how == 0 ? 1 : 2), "what is yielded while closing arrives");
        sym::reach("done");
    }
    sym::leaks();
}
// ---- threads
ENTRY(r_threads) { // @H06,S01 preempt=1 reach=done time=120 weight=3 thorough.preempt=2 thorough.time=600
    {
        seen s;
        sink end;
        auto [send, recv] = channel<int>(immediate_executor);
        auto hold = recv | [](int v) { if (v == 1) throw boom{v}; return v; } | catcher(&s) | [&](int v) { end.put(v); };
        recv.set_ready();
        {
            std::thread t([snd = send] { snd(1); snd(2); });
            send(11);
            t.join();
        }
        int e = 0;
        for (int k = 0; k < s.n; ++k) e += s.kind[k];
        CHECK(s.n == 3 && e == 1, "every value and every error arrives exactly once");
        CHECK(end.n == 3, "the pipeline goes on after a handled error");
        sym::reach("done");
    }
    sym::leaks();
}
