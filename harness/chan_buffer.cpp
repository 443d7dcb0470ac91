#include "chan.hpp"

namespace {
const std::size_t BUF[] = {1, 2, 0, 3};
struct gen {
    int* made;
    int* inside;
    int n;
    int yield() {
        guard g(inside);
        CHECK(*made < n, "a process is asked to yield only when it says so");
        return (*made)++;
    }
    process_state_scheduled state() const { return *made < n ? yield_immediate : await_forever; }
};
manual Q2, Q3;
auto put(sink& s) { return [&s](int v) { s.put(v); }; }
// attach f with executor e and buffer b, in every spelling
template <class R, class E, class F>
receiver<void> both(R& r, int how, E e, std::size_t b, F f) {
    auto x = [&] { return executor{e}; };
    auto y = [&] { return buffer_size{b}; };
    switch (how) {
        case 0: return r | (x() & y() & std::move(f));
        case 1: return r | (y() & x() & std::move(f));
        case 2: return r | (std::move(f) & (x() & y()));
        case 3: return r | (std::move(f) & (y() & x()));
        case 4: return r | (x() & std::move(f) & y());
        case 5: return r | (y() & std::move(f) & x());
        case 6: return r | (std::move(f) & y() & x());
        case 7: return r | (std::move(f) & x() & y());
        default: return r | (y() & (x() & std::move(f)));
    }
}
template <class R, class E, class F>
receiver<void> only_exec(R& r, int how, E e, F f) {
    executor x{e};
    switch (how) {
        case 0: return r | (x & std::move(f));
        case 1: return r | (std::move(f) & x);
        case 2: return r | (executor{e} & std::move(f));
        default: return r | (std::move(f) & executor{e});
    }
}
template <class R, class F>
receiver<void> only_buf(R& r, int how, std::size_t b, F f) {
    buffer_size y{b};
    switch (how) {
        case 0: return r | (y & std::move(f));
        case 1: return r | (std::move(f) & y);
        case 2: return r | (buffer_size{b} & std::move(f));
        default: return r | (std::move(f) & buffer_size{b});
    }
}
} // namespace

// ---- how far a generator gets ahead of a process that does not run; each on its own queue
ENTRY(b_limit) { // @H05,H02 reach=done weight=2
    {
        sink s;
        int made = 0, inside = 0, n = 5, b = (int)BUF[sym::choose("buffer", 4)];
        auto recv = channel<void>(Q.executor());
        auto g = recv | gen{&made, &inside, n};
        auto hold = g | (executor{Q2.executor()} & buffer_size{(std::size_t)b} & put(s));
        g.set_ready();
        Q.run_all();
        CHECK(made - s.n >= (b && b < n ? b : n), "a process runs until the buffer is full");
        if (b) CHECK(made - s.n <= b + 1, "the buffer limits how far a process runs ahead");
        for (int step = 0; step < 8; ++step) {
            bool one = sym::choose("which", 2);
            bool ran = one ? Q2.run_one() : Q.run_one();
            if (!ran) ran = one ? Q.run_one() : Q2.run_one();
            if (b) CHECK(made - s.n <= b + 1, "the buffer limits how far a process runs ahead");
            if (!ran) break;
        }
        while (Q.run_one() || Q2.run_one()) {}
        int want[] = {0, 1, 2, 3, 4};
        s.expect(want, n); // also: never left suspended
        sym::reach("done");
    }
    sym::leaks();
}
// two processes with different buffers: the tighter one limits; each on its own queue
ENTRY(b_fan) { // @H05,H01 reach=done weight=3 parts=4 thorough.time=700
    {
        sink s[2];
        int made = 0, inside = 0, n = 4, b[2] = {(int)BUF[sym::choose("buffer0", 3)], (int)BUF[sym::choose("buffer1", 3)]};
        auto recv = channel<void>(Q.executor());
        auto g = recv | gen{&made, &inside, n};
        receiver<void> hold[2];
        hold[0] = g | (executor{Q2.executor()} & buffer_size{(std::size_t)b[0]} & put(s[0]));
        hold[1] = g | (buffer_size{(std::size_t)b[1]} & executor{Q3.executor()} & put(s[1]));
        g.set_ready();
        manual* q[] = {&Q, &Q2, &Q3};
        for (int step = 0; step < 8; ++step) {
            int first = (int)sym::choose("which", 3);
            bool ran = q[first]->run_one();
            if (!ran) continue;
            for (int i = 0; i < 2; ++i)
                if (b[i]) CHECK(made - s[i].n <= b[i] + 1, "the buffer limits how far a process runs ahead");
        }
        while (Q.run_one() || Q2.run_one() || Q3.run_one()) {}
        int want[] = {0, 1, 2, 3};
        for (auto& e : s) e.expect(want, n);
        sym::reach("done");
    }
    sym::leaks();
}
// function stages behind each other: a full buffer holds back everything upstream
ENTRY(b_chain) { // @H05,H01 reach=done weight=3 parts=2
    {
        sink s;
        constexpr int n = 4;
        int x[n], mid = 0, in = 0, b = (int)BUF[sym::choose("buffer", 3)];
        bool two = sym::choose("two", 2);
        auto [send, recv] = channel<int>(Q.executor());
        auto hold = recv | [&](int v) { guard g(&in); ++mid; return v; } |
                    (executor{two ? stlab::executor_t(Q2.executor()) : stlab::executor_t(Q.executor())} &
                     buffer_size{(std::size_t)b} & put(s));
        recv.set_ready();
        for (int k = 0; k < n; ++k) send(x[k] = sym::i32("x"));
        for (int step = 0; step < 8; ++step) {
            bool one = two && sym::choose("which", 2);
            bool ran = one ? Q2.run_one() : Q.run_one();
            if (b) CHECK(mid - s.n <= b + 1, "the buffer limits how far a process runs ahead");
            if (!ran && !two) break;
        }
        while (Q.run_one() || Q2.run_one()) {}
        s.expect(x, n);
        sym::reach("done");
    }
    sym::leaks();
}
// values that can only be moved
ENTRY(b_move) { // @H05,H01 reach=done
    {
        sink s;
        constexpr int n = 3;
        int x[n], mid = 0, b = (int)BUF[sym::choose("buffer", 3)], at = (int)sym::choose("attach", 3), from = 0;
        auto [send, recv] = channel<mo>(Q.executor());
        receiver<mo> last = recv | [&](mo v) { ++mid; return v; };
        recv.set_ready();
        receiver<void> hold;
        auto attach = [&] {
            hold = last | (executor{Q2.executor()} & buffer_size{(std::size_t)b} & [&](mo v) { s.put(kind<mo>::get(v)); });
        };
        if (at == 0) attach();
        last.set_ready(); // at == 1: nobody takes the values, and the process goes on
        for (int k = 0; k < n; ++k) send(mo(x[k] = sym::i32("x")));
        for (int step = 0; step < 6; ++step) {
            bool one = sym::choose("which", 2);
            if (one) Q2.run_one();
            else Q.run_one();
            if (b && at == 0) CHECK(mid - s.n <= b + 1, "the buffer limits how far a process runs ahead");
        }
        while (Q.run_one() || Q2.run_one()) {}
        CHECK(mid == n, "a process is not held back when nothing is attached to it");
        if (at == 0) s.expect(x, n);
        else s.expect(x, from);
        sym::reach("done");
    }
    sym::leaks();
}
// a process nobody listens to is not held back
ENTRY(b_none) { // @H05 reach=done
    {
        constexpr int n = 3;
        int mid = 0;
        bool qd = sym::choose("queued", 2);
        auto [send, recv] = channel<int>(exec(qd));
        auto last = recv | [&](int v) { ++mid; return v; };
        recv.set_ready();
        last.set_ready();
        for (int k = 0; k < n; ++k) send(k);
        Q.run_all();
        CHECK(mid == n, "a process is not held back when nothing is attached to it");
        sym::reach("done");
    }
    sym::leaks();
}
// ---- annotations in every spelling
ENTRY(b_both) { // @H05 reach=done weight=2
    {
        sink s;
        int made = 0, inside = 0, n = 5, b = 1 + (int)sym::choose("buffer", 3);
        auto recv = channel<void>(Q.executor());
        auto g = recv | gen{&made, &inside, n};
        auto hold = both(g, (int)sym::choose("how", 9), Q2.executor(), (std::size_t)b, put(s));
        g.set_ready();
        Q.run_all();
        CHECK(s.n == 0, "the process runs on the executor given for it");
        CHECK(made == b || made == b + 1, "the buffer size given for the process takes effect");
        while (Q2.run_one()) {}
        CHECK(s.n == made, "the process runs on the executor given for it");
        while (Q.run_one() || Q2.run_one()) {}
        int want[] = {0, 1, 2, 3, 4};
        s.expect(want, n);
        sym::reach("done");
    }
    sym::leaks();
}
ENTRY(b_one) { // @H05 reach=done weight=2
    {
        sink s, t;
        int made = 0, inside = 0, n = 5, how = (int)sym::choose("how", 8), b = 2 + (int)sym::choose("buffer", 2);
        auto recv = channel<void>(Q.executor());
        auto g = recv | gen{&made, &inside, n};
        auto mid = receiver<int>();
        receiver<void> hold;
        // the annotation applies to one process: the one before and the one after keep their own
        if (how < 4) {
            hold = only_exec(g, how, Q2.executor(), put(s));
            g.set_ready();
            Q.run_all();
            CHECK(s.n == 0, "the process runs on the executor given for it");
            CHECK(made == 1 || made == 2, "a process has a buffer of one unless told otherwise");
            Q2.run_one();
            CHECK(s.n == 1, "the process runs on the executor given for it");
        } else {
            hold = only_buf(g, how - 4, (std::size_t)b, put(s));
            g.set_ready();
        }
        while (Q.run_one() || Q2.run_one()) {}
        if (how >= 4) CHECK(Q2.n == 0, "a process without an executor of its own uses the one upstream");
        int want[] = {0, 1, 2, 3, 4};
        s.expect(want, n);
        sym::reach("done");
    }
    sym::leaks();
}
// a buffer given for a process on its upstream's executor, seen while the queue is controlled
ENTRY(b_spell) { // @H05 reach=done
    {
        sink s;
        int made = 0, inside = 0, n = 5, b = 2 + (int)sym::choose("buffer", 2);
        auto recv = channel<void>(Q.executor());
        auto g = recv | gen{&made, &inside, n};
        auto m = g | (executor{Q2.executor()} & [](int v) { return v; }); // on Q2, as what follows
        auto hold = only_buf(m, (int)sym::choose("how", 4), (std::size_t)b, put(s));
        g.set_ready();
        m.set_ready();
        while (Q.run_one()) {}
        CHECK(made == 1 || made == 2, "an annotation applies to its own process only");
        Q2.run_one();
        CHECK(s.n == 0 || made > 1, "order");
        while (Q.run_one()) {}
        while (Q2.run_one() || Q.run_one()) {}
        int want[] = {0, 1, 2, 3, 4};
        s.expect(want, n);
        CHECK(Q2.n >= 2 * n, "a process without an executor of its own uses the one upstream");
        sym::reach("done");
    }
    sym::leaks();
}
// what a sender reports as free space
ENTRY(b_free) { // @H05 reach=done
    {
        sink s;
        auto [send, recv] = channel<int>(Q.executor());
        auto hold = recv | put(s);
        recv.set_ready();
        int n = (int)sym::choose("n", 4), ran = 0;
        for (int k = 0; k < n; ++k) send(k);
        auto f = send.free_buffer();
        CHECK(f.has_value(), "an open channel reports its free space");
        CHECK(*f == (n ? 0u : 1u), "a queue that is over its limit has no free space");
        while (Q.run_one()) ++ran;
        CHECK(send.free_buffer() && *send.free_buffer() == 1, "space is free again once values are taken");
        send.close();
        CHECK(!send.free_buffer(), "a closed handle reports no channel");
        Q.run_all();
        sym::reach("done");
    }
    sym::leaks();
}
// ---- threads: generator and process on threads of their own
ENTRY(b_threads) { // @H05,H01,S01 preempt=1 reach=done time=150 weight=4 thorough.preempt=2 thorough.time=700
    {
        sink s;
        spawner w;
        constexpr int n = 3;
        std::atomic<int> made{0}, taken{0};
        int inside = 0, b = 1 + (int)sym::choose("buffer", 2);
        struct g2 {
            std::atomic<int>*made, *taken;
            int *inside, b;
            int yield() {
                guard g(inside);
                int v = made->load();
                CHECK(v - taken->load() <= b + 1, "the buffer limits how far a process runs ahead");
                made->store(v + 1);
                return v;
            }
            process_state_scheduled state() const { return made->load() < n ? yield_immediate : await_forever; }
        };
        auto recv = channel<void>(immediate_executor);
        auto g = recv | g2{&made, &taken, &inside, b};
        auto hold = g | (executor{w.executor()} & buffer_size{(std::size_t)b} & [&](int v) { taken.store(taken.load() + 1); s.put(v); });
        g.set_ready();
        sym::quiesce();
        w.join();
        int want[] = {0, 1, 2};
        s.expect(want, n);
        sym::reach("done");
    }
    sym::leaks();
}
