#include "chan.hpp"

namespace {
struct tlog {
    int closes = 0, inside = 0, lives = 0, awaits = 0, yields = 0, taken = 0;
};
// takes inputs; when it has some it waits `d` for more (timed await) or yields after `d` (delayed yield)
struct timed {
    tlog* l;
    bool delayed;
    int64_t d;
    int flush;
    int have = 0, sum = 0;
    uint64_t since = 0; // when it went into the state it is in
    token t;
    timed(tlog* p, bool y, int64_t dur, int f = 0) : l(p), delayed(y), d(dur), flush(f), t(&p->lives) {}
    void await(int x) {
        guard g(&l->inside);
        CHECK(on_marked > 0, "a process runs on its executor");
        CHECK(l->closes == 0, "no input after close");
        CHECK(!delayed || have == 0, "inputs come only while the process awaits");
        ++l->awaits;
        ++have;
        sum += x;
        since = __sym_now();
    }
    // when the time is over; a time beyond the range of the clock never is
    uint64_t until() const { return (uint64_t)d > INT64_MAX - since ? (uint64_t)INT64_MAX : since + (uint64_t)d; }
    int yield() {
        guard g(&l->inside);
        CHECK(on_marked > 0, "a process runs on its executor");
        CHECK(have > 0, "a process is asked to yield only when it says so");
        if (!l->closes) CHECK(__sym_now() >= until(), "a delayed yield or timed await ends not before its time");
        int r = sum;
        l->taken += have;
        ++l->yields;
        have = sum = 0;
        return r;
    }
    void close() {
        guard g(&l->inside);
        CHECK(++l->closes == 1, "close is called once");
        if (!flush) have = 0;
    }
    process_state_scheduled state() const {
        if (!have) return await_forever;
        if (l->closes) return yield_immediate;
        return {delayed ? process_state::yield : process_state::await, std::chrono::nanoseconds(d)};
    }
};
constexpr int MAXD = 1 << 20;
} // namespace

// ---- a delayed yield: once per input, in order, not before its time
ENTRY(y_delay) { // @H02,H05 preempt=1 reach=done,late weight=2 time=150
    {
        sink s;
        tlog l;
        constexpr int n = 2;
        int x[n], d = sym::range("d", 0, MAXD);
        auto [send, recv] = channel<int>(marked());
        auto hold = recv | timed(&l, true, d) | [&](int v) { s.put(v); };
        recv.set_ready();
        for (int k = 0; k < n; ++k) {
            send(x[k] = sym::i32("x"));
            if (sym::choose("wait", 2)) {
                sym::quiesce();
                s.expect(x, k + 1);
                sym::reach("late");
            }
        }
        sym::quiesce();
        s.expect(x, n);
        CHECK(l.yields == n, "yields exactly once per input");
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}
// ---- a timed await: ends by yielding once unless input arrives first
ENTRY(y_timeout) { // @H02 preempt=1 reach=done weight=3 time=150 thorough.preempt=2 thorough.time=600
    {
        sink s;
        tlog l;
        constexpr int n = 2;
        int x[n], d = sym::range("d", 0, MAXD), total = 0;
        auto [send, recv] = channel<int>(marked());
        auto hold = recv | timed(&l, false, d) | [&](int v) { s.put(v); };
        recv.set_ready();
        for (int k = 0; k < n; ++k) {
            x[k] = 1 + k;
            total += x[k];
            send(x[k]);
            if (sym::choose("pass", 2)) __sym_advance((uint64_t)sym::range("time", 0, MAXD));
            if (sym::choose("wait", 2)) {
                sym::quiesce();
                CHECK(l.taken == k + 1, "a timed await ends when its time is over");
            }
        }
        sym::quiesce();
        CHECK(l.awaits == n && l.taken == n, "every input is taken and yielded once");
        int got = 0;
        for (int k = 0; k < s.n; ++k) got += s.got[k];
        CHECK(s.n == l.yields && got == total, "each yielded value goes downstream once");
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}
// time that is over by the time input comes does not hold back the yield; an early input resets the time
ENTRY(y_cancel) { // @H02,H05 preempt=0 reach=early,late weight=1
    {
        sink s;
        tlog l;
        int d = sym::range("d", 1, MAXD), p = sym::range("time", 0, MAXD);
        auto [send, recv] = channel<int>(marked());
        auto hold = recv | timed(&l, false, d) | [&](int v) { s.put(v); };
        recv.set_ready();
        send(1);
        CHECK(l.awaits == 1, "input is taken while the process awaits");
        __sym_advance((uint64_t)p);
        if (sym::choose("let", 2)) sym::quiesce(false);
        send(2);
        sym::quiesce();
        CHECK(l.awaits == 2, "input is taken while the process awaits");
        if (s.n == 2) {
            CHECK(s.n == 2 && s.got[0] == 1 && s.got[1] == 2, "a timed await that ended yields what it had");
            sym::reach("late");
        } else {
            CHECK(s.n == 1 && s.got[0] == 3, "input that arrives in time cancels the yield");
            sym::reach("early");
        }
    }
    stlab::pre_exit();
    sym::leaks();
}
// closing while the process waits for its time
ENTRY(y_timed_close) { // @H02,H04 preempt=1 reach=done weight=2 time=150
    {
        sink s;
        tlog l;
        int d = sym::range("d", 0, MAXD), flush = (int)sym::choose("flush", 2);
        bool delayed = sym::choose("delayed", 2);
        {
            auto [send, recv] = channel<int>(marked());
            auto hold = recv | timed(&l, delayed, d, flush) | [&, t = token(&s.closes)](int v) { s.put(v); };
            recv.set_ready();
            send(7);
            int before = 0;
            if (sym::choose("wait", 2)) {
                sym::quiesce();
                before = l.yields;
                CHECK(before == 1, "a timed await ends when its time is over");
            }
            send.close();
            if (sym::choose("more", 2)) send(8);
            sym::quiesce();
            CHECK(l.closes == 1, "the process is told to close once");
            CHECK(l.lives == 0 && s.closes == 0, "everything is released at the end");
            CHECK(s.n == l.yields && l.yields <= 1, "yields exactly once");
            if (delayed || flush || before) CHECK(s.n == 1 && s.got[0] == 7, "values already sent are processed");
        }
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}
// the pipeline is gone before the time is over
ENTRY(y_timed_drop) { // @H02,H04 preempt=1 reach=done weight=1 time=150
    {
        sink s;
        tlog l;
        int d = sym::range("d", 1, MAXD);
        bool delayed = sym::choose("delayed", 2), twice = sym::choose("twice", 2);
        {
            auto [send, recv] = channel<int>(marked());
            auto hold = recv | timed(&l, delayed, d) | [&](int v) { s.put(v); };
            recv.set_ready();
            send(7);
            if (twice) send(8);
        }
        sym::quiesce();
        CHECK(l.lives == 0, "everything is released at the end");
        CHECK(s.n <= l.yields && l.yields <= 1 + twice, "yields exactly once");
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}
// two processes that wait, one after the other, and a sender on another thread
ENTRY(y_timed_chain) { // @H02,S01 preempt=1 reach=done weight=2 time=150 thorough.preempt=2 thorough.time=600
    {
        sink s;
        tlog l[2];
        int d0 = sym::range("d", 0, MAXD), d1 = sym::range("d", 0, MAXD);
        auto [send, recv] = channel<int>(marked());
        auto hold = recv | timed(&l[0], true, d0) | timed(&l[1], false, d1) | [&](int v) { s.put(v); };
        recv.set_ready();
        {
            std::thread t([snd = send] { snd(1); });
            send(2);
            t.join();
        }
        sym::quiesce();
        CHECK(l[0].yields == 2 && l[0].awaits == 2, "every input is taken and yielded once");
        int got = 0;
        for (int k = 0; k < s.n; ++k) got += s.got[k];
        CHECK(got == 3 && l[1].taken == 2, "every value goes downstream once");
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}

// ---- a generator that yields after a delay each time
namespace {
struct slow_gen {
    tlog* l;
    int n, d;
    int* flip; // asked for its state, alternates between a delayed and an immediate yield when set
    int made = 0;
    uint64_t since = 0;
    token t;
    slow_gen(tlog* p, int cnt, int dur, int* f) : l(p), n(cnt), d(dur), flip(f), t(&p->lives) {}
    int yield() {
        guard g(&l->inside);
        CHECK(on_marked > 0, "a process runs on its executor");
        CHECK(made < n, "a process is asked to yield only when it says so");
        if (!(*flip && made % 2)) CHECK(__sym_now() >= since + (uint64_t)d, "a delayed yield ends not before its time");
        since = __sym_now();
        ++l->yields;
        return made++;
    }
    process_state_scheduled state() const {
        if (made == n) return await_forever;
        if (*flip && made % 2) return yield_immediate;
        return {process_state::yield, std::chrono::nanoseconds(d)};
    }
};
} // namespace
ENTRY(y_gen_delay) { // @H02,H05 preempt=1 reach=done,dropped weight=1
    {
        sink s;
        tlog l;
        int n = (int)sym::choose("n", 4), d = sym::range("d", 1, MAXD), flip = sym::choose("flip", 2), want[] = {0, 1, 2, 3};
        bool drop = sym::choose("drop", 2);
        auto recv = channel<void>(marked());
        {
            auto g = recv | slow_gen(&l, n, d, &flip);
            auto hold = g | [&](int v) { s.put(v); };
            g.set_ready();
            if (drop) {
                if (sym::choose("some", 2)) sym::quiesce(false);
                sym::reach("dropped");
            } else {
                sym::quiesce();
                s.expect(want, n);
                CHECK(l.yields == n, "each value is yielded once");
            }
        }
        sym::quiesce();
        s.expect(want, s.n);
        CHECK(l.lives == 0, "a generator nobody listens to is released");
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}

// ---- times about as long as the clock can show, or longer
ENTRY(y_far) { // @H02 preempt=0 reach=done,never
    {
        sink s;
        tlog l;
        bool delayed = sym::choose("delayed", 2);
        const int64_t room = INT64_MAX - (int64_t)__sym_now(), all[] = {room / 2, room - 1, room, room + 1, INT64_MAX - 1, INT64_MAX};
        const int64_t d = all[sym::choose("d", 6)];
        const uint64_t soon = __sym_now() + 1000000000;
        int x[2];
        auto [send, recv] = channel<int>(marked());
        auto hold = recv | timed(&l, delayed, d) | [&](int v) { s.put(v); };
        recv.set_ready();
        send(x[0] = sym::i32("x"));
        __sym_advance(100000);
        sym::quiesce(false);
        sym::assume(__sym_now() < soon); // not that much time passed
        CHECK(l.yields == 0 && s.n == 0, "not before its time");
        send(x[1] = sym::i32("x"));
        if (d == INT64_MAX && !delayed) { // waits for ever
            { auto gone = std::move(send); }
            sym::quiesce(false);
            CHECK(l.closes == 1 && l.yields == 0, "closing ends the wait");
            sym::reach("never");
        } else {
            sym::quiesce(); // until everything is due
            if (delayed) s.expect(x, 2);
            else CHECK(s.n == 1 && s.got[0] == (int)((unsigned)x[0] + (unsigned)x[1]), "one yield for what came during the wait");
        }
        sym::reach("done");
    }
    stlab::pre_exit();
    sym::leaks();
}
