#include "chan.hpp"

namespace {
// a process that counts how it ends: told to close, and released
struct probe {
    struct log {
        int closes = 0, lives = 0, inside = 0, n = 0, got[MAXV] = {};
        bool over() const { return lives == 0; }
    };
    log* l;
    bool full = false;
    int v = 0;
    token t;
    explicit probe(log* p) : l(p), t(&p->lives) {}
    void await(int x) {
        guard g(&l->inside);
        CHECK(l->closes == 0, "no input after close");
        CHECK(!full, "inputs come only while the process awaits");
        if (l->n < MAXV) l->got[l->n++] = x;
        v = x;
        full = true;
    }
    int yield() {
        guard g(&l->inside);
        CHECK(full, "a process is asked to yield only when it says so");
        full = false;
        return v;
    }
    void close() {
        guard g(&l->inside);
        CHECK(++l->closes == 1, "close is called once");
    }
    process_state_scheduled state() const { return full ? yield_immediate : await_forever; }
};
void open(const probe::log& l) { CHECK(l.closes == 0 && l.lives == 1, "an open channel's process lives on"); }
void ended(const probe::log& l) {
    CHECK(l.closes == 1, "the process is told to close once");
    CHECK(l.lives == 0, "a closed process is released");
}
// the last process: a function; lives counts its copies
auto tail(sink& s) { return [&s, t = token(&s.closes)](int v) { s.put(v); }; }
} // namespace

// ---- handles of the end of a pipeline, which has no results: copied, set ready, dropped and assigned over; the last one holds the process
ENTRY(k_void_handle) { // @H04,H07 reach=done
    {
        sink s;
        bool qd = sym::choose("queued", 2), up = sym::choose("two", 2);
        int x[MAXV], n = 0;
        auto [send, r0] = channel<int>(exec(qd));
        receiver<void> h[3];
        if (up) h[0] = r0 | [](int v) { return v; } | (executor{exec(qd)} & tail(s));
        else h[0] = r0 | tail(s);
        r0.set_ready();
        auto put = [&] { int v = sym::i32("x"); send(v); if (h[0] != receiver<void>() || h[1] != receiver<void>() || h[2] != receiver<void>()) x[n++] = v; };
        for (int k = 0; k < 3; ++k) {
            int i = k % 2 ? 1 : 0;
            switch (sym::choose("op", 6)) {
                case 0: h[i + 1] = h[i]; break;
                case 1: { auto c = h[i]; CHECK(c == h[i], "a copy is equal"); } break;
                case 2: if (h[i] != receiver<void>()) h[i].set_ready(); break;
                case 3: h[i] = std::move(h[i + 1]); break;
                case 4: h[i] = receiver<void>(); break;
                default: swap(h[i], h[i + 1]);
            }
            put();
            bool any = h[0] != receiver<void>() || h[1] != receiver<void>() || h[2] != receiver<void>();
            // dropping the last handle drops what waits
            if (!any) { n = (int)s.n; }
            else if (sym::choose("run", 2)) Q.run_all();
        }
        Q.run_all();
        s.expect(x, n);
        sym::reach("done");
    }
    sym::leaks();
}
// ---- the channel closes with its last sender; what was sent before is still processed
ENTRY(k_last) { // @H04 reach=done weight=3
    {
        sink s;
        probe::log l;
        bool qd = sym::choose("queued", 2);
        int x[MAXV], n = 0, alive = 1;
        auto [s0, r0] = channel<int>(exec(qd));
        std::optional<sender<int>> h[3];
        h[0] = std::move(s0);
        auto hold = r0 | probe(&l) | tail(s);
        r0.set_ready();
        auto send = [&](int i) {
            int v = sym::i32("x");
            (*h[i])(v);
            if (alive) x[n++] = v;
        };
        for (int i = 1; i < 3; ++i) {
            if (!sym::choose("copy", 2)) continue;
            h[i] = *h[0];
            ++alive;
        }
        for (int i = 0; i < 3; ++i) {
            if (!h[i]) continue;
            if (sym::choose("send", 2)) send(i);
            switch (sym::choose("end", 3)) {
                case 0: h[i].reset(); break;
                case 1: h[i]->close(); h[i]->close(); break;   // closing twice
                default: { auto gone = std::move(*h[i]); h[i]->close(); } // the moved-from handle is inert
            }
            --alive;
            if (h[i]) send(0 <= i ? i : 0);                     // a send through a closed or moved-from handle
            if (h[i] && alive) --n;
            if (sym::choose("run", 2)) Q.run_all();
            if (alive) open(l);
        }
        Q.run_all();
        s.expect(x, n);
        ended(l);
        CHECK(s.closes == 0, "everything downstream is released");
        sym::reach("done");
    }
    sym::leaks();
}
// closed at any point of a chain's life: before or after it is set ready, with values in any stage
ENTRY(kc_chain) { // @H04 reach=done weight=2
    {
        sink s;
        probe::log l[2];
        int x[MAXV], n = (int)sym::choose("n", 4), at = (int)sym::choose("ready", 3), fl = 0;
        bool qd = sym::choose("queued", 2);
        auto [send, recv] = channel<int>(exec(qd));
        auto mid = recv | [t = token(&fl)](int v) { return v; } | probe(&l[0]);
        auto hold = mid | probe(&l[1]) | (buffer_size{1 + sym::choose("buffer", 2)} & tail(s));
        mid.set_ready();
        if (at == 0) recv.set_ready();
        for (int k = 0; k < n; ++k) {
            send(x[k] = sym::i32("x"));
            int m = (int)sym::choose("run", 3);
            for (int i = 0; i < m; ++i) Q.run_one();
        }
        if (at == 1) recv.set_ready();
        send.close();
        int m = (int)sym::choose("run", 3);
        for (int i = 0; i < m; ++i) Q.run_one();
        if (at == 2) {
            CHECK(s.n == 0 && l[0].lives == 1 && l[0].closes == 0, "a channel that is not ready does not end");
            recv.set_ready();
        }
        Q.run_all();
        s.expect(x, n);
        for (auto& e : l) ended(e);
        CHECK(fl == 0 && s.closes == 0, "everything downstream is released");
        sym::reach("done");
    }
    sym::leaks();
}
// one upstream with two processes: both are closed
ENTRY(k_fan) { // @H04 reach=done
    {
        sink s[2];
        probe::log l[2];
        int x[MAXV], n = (int)sym::choose("n", 3);
        bool qd = sym::choose("queued", 2);
        auto [send, recv] = channel<int>(exec(qd));
        receiver<void> hold[2];
        for (int i = 0; i < 2; ++i) hold[i] = recv | probe(&l[i]) | tail(s[i]);
        recv.set_ready();
        for (int k = 0; k < n; ++k) {
            send(x[k] = sym::i32("x"));
            if (sym::choose("run", 2)) Q.run_one();
        }
        { auto gone = std::move(send); }
        Q.run_all();
        for (int i = 0; i < 2; ++i) {
            s[i].expect(x, n);
            ended(l[i]);
            CHECK(s[i].closes == 0, "everything downstream is released");
        }
        sym::reach("done");
    }
    sym::leaks();
}
// a merge ends when all its inputs have ended
ENTRY(k_merge) { // @H04,H03 reach=done weight=2
    {
        sink s;
        int kind = (int)sym::choose("kind", 3), n = (int)sym::choose("n", 3), fl = 0;
        bool qd = sym::choose("queued", 2);
        auto [s0, r0] = channel<int>(exec(qd));
        auto [s1, r1] = channel<int>(exec(qd));
        receiver<int> mid;
        auto one = [&, t = token(&fl)](int v) { return v; };
        auto two = [&, t = token(&fl)](int a, int b) { CHECK(a == 1 && b == 2, "paired by position"); return a; };
        if (kind == 0) mid = stlab::zip_with(exec(qd), std::move(two), r0, r1);
        else if (kind == 1) mid = stlab::merge_channel<stlab::round_robin_t>(exec(qd), std::move(one), r0, r1);
        else mid = stlab::merge_channel<stlab::unordered_t>(exec(qd), std::move(one), r0, r1);
        { auto a = std::move(one); }
        { auto b = std::move(two); }
        auto hold = mid | tail(s);
        r0.set_ready();
        r1.set_ready();
        mid.set_ready();
        if (n > 0) s0(1);
        if (n > 1) s1(2);
        if (sym::choose("run", 2)) Q.run_all();
        if (sym::choose("first", 2)) s0.close();
        else s1.close();
        if (sym::choose("run", 2)) Q.run_all();
        // a zip or round robin may end as soon as the input it waits for is closed
        CHECK(kind != 2 || (fl == 1 && s.closes == 1), "a merge with an open input lives on");
        s0.close();
        s1.close();
        Q.run_all();
        CHECK(fl == 0 && s.closes == 0, "a merge whose inputs have all ended is released with everything downstream");
        CHECK(s.n == (kind == 0 ? n / 2 : n), "values sent before are processed");
        sym::reach("done");
    }
    sym::leaks();
}
// inputs that end after different numbers of values: what can be merged is, and all is released
ENTRY(k_uneven) { // @H04,H03 reach=done weight=4 parts=2
    {
        sink s;
        int kind = (int)sym::choose("kind", 2), fl = 0, n[2], x[2][3], up = 0;
        bool qd = sym::choose("queued", 2), stage = sym::choose("stage", 2);
        for (auto& e : n) e = (int)sym::choose("n", 4);
        auto [s0, r0] = channel<int>(exec(qd));
        auto [s1, r1] = channel<int>(exec(qd));
        auto f = [&] { return [t = token(&up)](int v) { return v; }; };
        receiver<int> a = r0, b = r1, mid;
        if (stage) {
            a = r0 | f();
            b = r1 | f();
        }
        auto one = [&, t = token(&fl)](int v) { return v; };
        auto two = [&, t = token(&fl)](int v, int w) { CHECK(v % 10 == w % 10, "paired by position"); return v; };
        if (kind == 0) mid = stlab::zip_with(exec(qd), std::move(two), a, b);
        else mid = stlab::merge_channel<stlab::round_robin_t>(exec(qd), std::move(one), a, b);
        { auto g = std::move(one); }
        { auto g = std::move(two); }
        auto hold = mid | tail(s);
        r0.set_ready();
        r1.set_ready();
        a.set_ready();
        b.set_ready();
        mid.set_ready();
        bool later = sym::choose("later", 2);
        for (int k = 0; k < n[0]; ++k) s0(x[0][k] = k);
        if (!later) s0.close();
        for (int k = 0; k < n[1]; ++k) s1(x[1][k] = 10 + k);
        if (sym::choose("run", 2)) Q.run_all();
        s0.close();
        s1.close();
        Q.run_all();
        int want[MAXV], m = 0;
        if (kind == 0) {
            for (int k = 0; k < n[0] && k < n[1]; ++k) want[m++] = k;
        } else {
            for (int k = 0; k < n[0]; ++k) {
                want[m++] = k;
                if (k == n[1]) break;
                want[m++] = 10 + k;
            }
        }
        s.expect(want, m);
        CHECK(fl == 0 && s.closes == 0, "a merge whose inputs have all ended is released with everything downstream");
        CHECK(up == 0, "what leads to a merge that ended is released");
        sym::reach("done");
    }
    sym::leaks();
}
// ---- assigning over a handle gives up what it referred to
ENTRY(k_assign) { // @H04,H07 reach=done weight=2
    {
        sink s[2];
        probe::log l[2];
        bool qd = sym::choose("queued", 2);
        std::optional<sender<int>> snd[2];
        receiver<int> rcv[2];
        receiver<void> hold[2];
        for (int i = 0; i < 2; ++i) {
            auto [a, b] = channel<int>(exec(qd));
            snd[i] = std::move(a);
            rcv[i] = std::move(b);
            hold[i] = rcv[i] | probe(&l[i]) | tail(s[i]);
            rcv[i].set_ready();
        }
        int how = (int)sym::choose("how", 5);
        switch (how) {
            case 0: *snd[0] = *snd[1]; break;             // copy
            case 1: *snd[0] = std::move(*snd[1]); break;  // move
            case 2: *snd[0] = sender<int>(); break;       // an empty handle
            case 3: { sender<int> e; e = *snd[0]; *snd[0] = e; } break; // the same channel
            default: { sender<int> e; e = std::move(*snd[0]); *snd[0] = std::move(e); } break;
        }
        Q.run_all();
        if (how >= 3) {
            open(l[0]);
            open(l[1]);
            (*snd[0])(5);
            Q.run_all();
            CHECK(s[0].n == 1 && s[0].got[0] == 5, "a handle moved or copied and back still sends");
        } else {
            ended(l[0]);
            CHECK(s[0].closes == 0, "a channel whose only sender is assigned over ends");
            open(l[1]);
            (*snd[0])(7);
            Q.run_all();
            CHECK(s[1].n == (how == 2 ? 0 : 1), "an assigned handle refers to the other channel");
            snd[0].reset();
            Q.run_all();
            if (how == 1) ended(l[1]);
            else open(l[1]);
        }
        snd[0].reset();
        snd[1].reset();
        Q.run_all();
        ended(l[1]);
        sym::reach("done");
    }
    sym::leaks();
}
// the same for receivers: one that is not ready holds its channel until it is ready, gone or assigned over
ENTRY(k_receiver) { // @H04,H07 reach=done weight=2
    {
        sink s;
        bool qd = sym::choose("queued", 2);
        auto [send, recv] = channel<int>(exec(qd));
        auto [send2, recv2] = channel<int>(exec(qd));
        auto hold = recv | tail(s);
        send(1);
        std::optional<receiver<int>> copy;
        bool have = sym::choose("copy", 2);
        if (have) copy = recv;
        Q.run_all();
        CHECK(s.n == 0, "nothing flows before the receiver is set ready");
        int how = (int)sym::choose("how", 6);
        switch (how) {
            case 0: recv.set_ready(); recv.set_ready(); break;
            case 1: recv = recv2; break;
            case 2: recv = std::move(recv2); break;
            case 3: recv = receiver<int>(); break;
            case 4: { auto gone = std::move(recv); } break;
            default: {
                receiver<int> other;
                swap(other, recv);
                Q.run_all();
                CHECK(s.n == 0, "a swapped receiver still holds its channel");
                recv.set_ready();
                Q.run_all();
                CHECK(s.n == 0, "setting an empty receiver ready has no effect on another");
            }
        }
        Q.run_all();
        if (have) {
            CHECK(s.n == 0, "every receiver of a channel must be ready or gone before values flow");
            if (sym::choose("end", 2)) copy->set_ready();
            else copy.reset();
            Q.run_all();
        }
        CHECK(s.n == 1 && s.got[0] == 1, "values flow when every receiver is ready or gone");
        if (how == 0) {
            receiver<int> again = recv; // a copy of a ready receiver is ready
            CHECK(again.ready(), "a copy of a ready receiver is ready");
            send(2);
            Q.run_all();
            CHECK(s.n == 2, "a copy of a ready receiver does not hold the channel");
        }
        sym::reach("done");
    }
    sym::leaks();
}
// ---- the parts of a pipeline dropped in any order, at any point
ENTRY(k_drop) { // @H04 reach=done weight=3 parts=2
    {
        sink s[2];
        int x[MAXV], n = 0, in = 0, fl = 0;
        bool qd = sym::choose("queued", 2);
        std::optional<receiver<void>> hold[2];
        std::optional<sender<int>> send;
        {
            auto [a, recv] = channel<int>(exec(qd));
            send = std::move(a);
            auto mid = recv | [&, t = token(&fl)](int v) { guard g(&in); return v; };
            for (int i = 0; i < 2; ++i) hold[i] = mid | tail(s[i]);
        }
        bool gone[2] = {};
        for (int step = 0; step < 3; ++step) {
            switch (sym::choose("what", 4)) {
                case 0: break;
                case 1: if (hold[0]) hold[0].reset(); gone[0] = true; break;
                case 2: if (hold[1]) hold[1].reset(); gone[1] = true; break;
                default: send.reset(); break;
            }
            if (gone[0] && gone[1]) CHECK(fl == 0, "a pipeline nobody holds is released");
            if (send && sym::choose("send", 2)) {
                (*send)(x[n] = sym::i32("x"));
                ++n;
            }
            int m = qd ? (int)sym::choose("run", 3) : 0;
            for (int i = 0; i < m; ++i) Q.run_one();
        }
        if (send) {
            (*send)(x[n] = sym::i32("x"));
            ++n;
        }
        Q.run_all();
        for (int i = 0; i < 2; ++i) {
            if (!gone[i]) s[i].expect(x, n);
            else s[i].prefix(x, n);
            CHECK(s[i].closes == (!gone[i] && send ? 1 : 0), "a process lives while its pipeline is held and open");
        }
        sym::reach("done");
    }
    sym::leaks();
}
// dropping the receivers does not end a process that is at work upstream
ENTRY(k_drop_inside) { // @H04 reach=done
    {
        sink s;
        int who = (int)sym::choose("who", 2), runs = 0;
        bool qd = sym::choose("queued", 2);
        auto [send, recv] = channel<int>(exec(qd));
        std::optional<receiver<void>> hold;
        std::optional<sender<int>> snd(std::move(send));
        hold = recv | [&](int v) {
            ++runs;
            if (v == 1 && who == 0) hold.reset();   // the process lets go of its own pipeline
            if (v == 1 && who == 1) snd.reset();    // or closes it
            return v;
        } | tail(s);
        recv.set_ready();
        (*snd)(1);
        if (snd) (*snd)(2);
        Q.run_all();
        if (who == 1) CHECK(runs == (qd ? 2 : 1) && s.n == runs, "values sent before closing are processed");
        CHECK(s.closes == 0, "the pipeline is released");
        sym::reach("done");
    }
    sym::leaks();
}
// ---- threads: sending and closing against dropping
ENTRY(k_threads_close) { // @H04,S01 preempt=2 reach=done time=120 weight=3 thorough.preempt=3 thorough.time=600
    {
        sink s;
        probe::log l;
        auto [send, recv] = channel<int>(immediate_executor);
        auto hold = recv | probe(&l) | tail(s);
        recv.set_ready();
        {
            std::thread t([snd = send]() mutable { snd(1); snd.close(); });
            send(11);
            send.close();
            t.join();
        }
        CHECK(s.n == 2 && s.count(1) == 1 && s.count(11) == 1, "values sent before closing are processed");
        ended(l);
        CHECK(s.closes == 0, "everything downstream is released");
        sym::reach("done");
    }
    sym::leaks();
}
ENTRY(k_threads_drop) { // @H04,S01 preempt=2 reach=done time=120 weight=3 thorough.preempt=3 thorough.time=600
    {
        sink s;
        int fl = 0;
        auto [send, recv] = channel<int>(immediate_executor);
        {
            std::optional<receiver<void>> hold(recv | [t = token(&fl)](int v) { return v; } | tail(s));
            recv.set_ready();
            recv = receiver<int>();
            std::thread t([snd = std::move(send)]() mutable { snd(1); snd(2); });
            hold.reset();
            t.join();
        }
        for (int i = 0; i < s.n; ++i) CHECK(s.got[i] == i + 1, "values arrive in the order sent");
        CHECK(fl == 0 && s.closes == 0, "a pipeline nobody holds is released");
        sym::reach("done");
    }
    sym::leaks();
}
// one of two processes dropped while values flow: the other still gets everything
ENTRY(k_threads_fan) { // @H04,S01 preempt=2 reach=done time=120 weight=3 thorough.preempt=3 thorough.time=600
    {
        sink s[2];
        auto [send, recv] = channel<int>(immediate_executor);
        auto keep = recv | [](int v) { return v; } | tail(s[0]);
        std::optional<receiver<void>> drop(recv | tail(s[1]));
        recv.set_ready();
        {
            std::thread t([snd = std::move(send)]() mutable { snd(1); snd(2); });
            drop.reset();
            t.join();
        }
        CHECK(s[0].n == 2 && s[0].got[0] == 1 && s[0].got[1] == 2, "dropping one process does not affect the other");
        for (int i = 0; i < s[1].n; ++i) CHECK(s[1].got[i] == i + 1, "values arrive in the order sent");
        CHECK(s[1].closes == 0 && s[0].closes == 0, "everything is released");
        sym::reach("done");
    }
    sym::leaks();
}
