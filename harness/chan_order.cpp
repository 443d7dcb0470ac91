#include "chan.hpp"

namespace {
int add(int x, int c) { return x + c; }
}
// ---- a chain of function processes, one thread: every way to interleave sending, setting ready and
// running the queued tasks
ENTRY(c_chain) { // @H01 reach=done weight=2
    {
        sink s;
        constexpr int n = 3;
        int x[n], want[n], stages = (int)sym::choose("stages", 3), in[2] = {};
        auto [send, recv] = channel<int>(exec(true));
        receiver<int> r = recv;
        recv.set_ready();
        for (int k = 0; k < stages; ++k) {
            receiver<int> next = r | [k, &in](int v) { guard g(&in[k]); return add(v, 10 * (k + 1)); };
            r.set_ready();
            r = std::move(next);
        }
        auto hold = r | [&](int v) { s.put(v); };
        bool ready = false;
        for (int k = 0; k < n; ++k) {
            if (!ready && sym::choose("ready", 2)) { r.set_ready(); ready = true; }
            x[k] = sym::i32("x");
            want[k] = x[k] + (stages > 0 ? 10 : 0) + (stages > 1 ? 20 : 0);
            send(x[k]);
            int m = (int)sym::choose("run", 3);
            for (int i = 0; i < m; ++i) Q.run_one();
            s.prefix(want, k + 1);
            if (!ready) CHECK(s.n == 0, "nothing arrives before the pipeline is set ready");
        }
        if (!ready) r.set_ready();
        Q.run_all();
        s.expect(want, n);
        sym::reach("done");
    }
    sym::leaks();
}
// values of a type that can only be moved
ENTRY(c_move) { // @H01 reach=done
    {
        sink s;
        constexpr int n = 3;
        int x[n];
        bool qd = sym::choose("queued", 2);
        int stages = (int)sym::choose("stages", 2);
        auto [send, recv] = channel<mo>(exec(qd));
        receiver<mo> r = std::move(recv);
        if (stages) {
            receiver<mo> next = r | [](mo v) { kind<mo>::get(v); return v; };
            r.set_ready();
            r = std::move(next);
        }
        auto hold = r | [&](mo v) { s.put(kind<mo>::get(v)); };
        bool ready = false;
        for (int k = 0; k < n; ++k) {
            if (!ready && sym::choose("ready", 2)) { r.set_ready(); ready = true; }
            x[k] = sym::i32("x");
            send(mo(x[k]));
            int m = (int)sym::choose("run", 3);
            for (int i = 0; i < m; ++i) Q.run_one();
            s.prefix(x, k + 1);
        }
        if (!ready) r.set_ready();
        Q.run_all();
        s.expect(x, n);
        sym::reach("done");
    }
    sym::leaks();
}
// two processes on one receiver: each gets every value
ENTRY(c_fan) { // @H01 reach=done weight=2
    {
        sink s[2];
        constexpr int n = 3;
        int x[n];
        bool qd = sym::choose("queued", 2), copy = sym::choose("copy", 2), stage = sym::choose("stage", 2);
        auto [send, recv] = channel<cm>(exec(qd)); // a type that notices being moved from
        auto get = [](const cm& v) { return kind<cm>::get(v); };
        receiver<void> hold[2];
        {
            receiver<cm> r2 = recv;
            receiver<cm>& b = copy ? r2 : recv;
            if (stage) hold[0] = recv | [&](cm v) { return cm(get(v) + 1); } | [&](cm v) { s[0].put(get(v) - 1); };
            else hold[0] = recv | [&](cm v) { s[0].put(get(v)); };
            hold[1] = b | [&](const cm& v) { s[1].put(get(v)); };
        }
        bool ready = false;
        for (int k = 0; k < n; ++k) {
            if (!ready && sym::choose("ready", 2)) { recv.set_ready(); ready = true; }
            x[k] = sym::i32("x");
            if (sym::choose("lv", 2)) { cm v(x[k]); send(v); CHECK(get(v) == x[k], "a value sent from an lvalue stays"); }
            else send(cm(x[k]));
            int m = qd ? (int)sym::choose("run", 3) : 0;
            for (int i = 0; i < m; ++i) Q.run_one();
            for (auto& e : s) e.prefix(x, k + 1);
        }
        if (!ready) recv.set_ready();
        Q.run_all();
        for (auto& e : s) e.expect(x, n);
        sym::reach("done");
    }
    sym::leaks();
}
// a process attached while values flow gets the values processed from then on, in order; the other all
ENTRY(c_late) { // @H01 reach=done
    {
        sink s[2];
        constexpr int n = 3;
        int x[n], at = (int)sym::choose("at", n), from = 0;
        auto [send, recv] = channel<int>(exec(true));
        receiver<int> keep = recv | [](int v) { return v; };
        receiver<int> mid = keep;  // copies keep the channel from running
        recv.set_ready();
        receiver<void> hold[2];
        hold[0] = keep | [&](int v) { s[0].put(v); };
        keep.set_ready();
        for (int k = 0; k < n; ++k) {
            if (k == at) {
                hold[1] = mid | [&](int v) { s[1].put(v); };
                mid.set_ready();
            }
            x[k] = sym::i32("x");
            send(x[k]);
            int m = (int)sym::choose("run", 3);
            for (int i = 0; i < m; ++i) Q.run_one();
        }
        Q.run_all();
        s[0].expect(x, n);
        s[1].expect(x + from, n - from);
        sym::reach("done");
    }
    sym::leaks();
}
// a receiver piped into another channel's sender
ENTRY(c_sender) { // @H01 reach=done
    {
        sink s;
        constexpr int n = 3;
        int x[n];
        auto [send, recv] = channel<int>(exec(sym::choose("queued", 2)));
        auto [send2, recv2] = channel<int>(exec(sym::choose("queued", 2)));
        auto hold2 = recv2 | [&](int v) { s.put(v); };
        auto hold = recv | send2;
        recv.set_ready();
        bool ready = false;
        for (int k = 0; k < n; ++k) {
            if (!ready && sym::choose("ready", 2)) { recv2.set_ready(); ready = true; }
            x[k] = sym::i32("x");
            send(x[k]);
            if (sym::choose("run", 2)) Q.run_one();
            s.prefix(x, k + 1);
        }
        if (!ready) recv2.set_ready();
        Q.run_all();
        s.expect(x, n);
        sym::reach("done");
    }
    sym::leaks();
}
// ---- threads. Two senders, and the pipeline may be set ready by a third
ENTRY(c_senders) { // @H01,S01 preempt=2 reach=done time=150 weight=4 thorough.preempt=3 thorough.time=700
    {
        sink s;
        bool late = sym::choose("late", 2);
        int mine = late ? (int)sym::choose("mine", 2) : 1;
        auto [send, recv] = channel<int>(immediate_executor);
        int in = 0;
        auto hold = recv | [&](int v) { guard g(&in); return v; } | [&](int v) { s.put(v); };
        if (!late) recv.set_ready();
        {
            std::thread t([snd = send] { snd(1); snd(2); });
            if (late) recv.set_ready();
            if (mine) send(11);
            t.join();
        }
        CHECK(s.n == 2 + mine, "every value arrives exactly once");
        CHECK(s.count(1) == 1 && s.count(2) == 1 && s.count(11) == mine, "every value arrives exactly once");
        CHECK(s.pos(1) < s.pos(2), "values of one sender arrive in the order sent");
        sym::reach("done");
    }
    sym::leaks();
}
// the downstream process runs on threads of its own behind a buffer
ENTRY(c_buffered) { // @H01,H05,S01 preempt=1 reach=done time=200 weight=6 parts=3 thorough.preempt=2 thorough.time=700
    {
        sink s;
        spawner w;
        static const std::size_t B[] = {1, 2, 0};
        std::size_t bs = B[sym::choose("buffer", 3)];
        bool two = sym::choose("two", 2);
        auto [send, recv] = channel<int>(immediate_executor);
        int in = 0;
        auto hold = recv | [&](int v) { guard g(&in); return v; } |
                    (buffer_size{bs} & executor{w.executor()} & [&](int v) { s.put(v); });
        recv.set_ready();
        {
            std::thread t;
            if (two) t = std::thread([snd = send] { snd(11); });
            send(1);
            send(2);
            if (!two) send(3);
            if (two) t.join();
        }
        sym::quiesce();
        w.join();
        CHECK(s.n == 3, "every value arrives exactly once");
        CHECK(s.count(1) == 1 && s.count(2) == 1 && s.count(two ? 11 : 3) == 1, "every value arrives exactly once");
        CHECK(s.pos(1) < s.pos(2), "values of one sender arrive in the order sent");
        if (!two) CHECK(s.pos(2) < s.pos(3), "values of one sender arrive in the order sent");
        sym::reach("done");
    }
    sym::leaks();
}
