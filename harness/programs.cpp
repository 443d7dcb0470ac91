// Programs: threads that each do a few operations on shared handles, every combination of operations in every schedule.
#include "chan.hpp"
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/concurrency/system_timer.hpp>

namespace {
// a thread's own handle of a shared future, and the continuations it attached
template <class T>
struct actor {
    static constexpr int M = 3;
    future<T> f;
    future<int> kept[M];
    int n = 0, x, runs[M] = {}, live[M] = {}, how[M] = {}; // how 1: kept, 2: dropped, 3: detached
    bool value;                                             // fulfilled with a value in the end
    auto count(int how_) {
        how[n] = how_;
        return [this, k = n, t = token(&live[n])](const auto& v) {
            CHECK(value && is_val(x, v), "the value");
            ++runs[k];
            return k;
        };
    }
    void op(int k) {
        if (!f.valid()) return;
        constexpr bool copies = !std::is_same_v<T, mo>;
        switch (k) {
            case 0:
                if constexpr (copies) auto c = f;
                break;
            case 1: {
                auto e = caught([&] { auto o = f.get_try(); CHECK(!o || (value && is_val(x, *o)), "a polled value is the value"); if (o && !copies) f = future<T>(); });
                CHECK(!e || !value, "a failure only if it failed");
                break;
            }
            case 2: kept[n] = then_any(f, true, 0, count(1)); ++n; break;
            case 3: { auto c = then_any(f, true, 0, count(2)); } ++n; break;
            case 4: then_any(f, true, 0, count(3)).detach(); ++n; break;
            case 5: f = future<T>(); break;
            case 6: kept[n] = then_any(f, false, 0, count(1)); f = future<T>(); ++n; break;
            case 7: std::move(f).detach(); break;
            default: if (f.is_ready()) { auto e = f.exception(); CHECK(!e == value, "a failure only if it failed"); }
        }
    }
    void finish() {
        for (int k = 0; k < n; ++k) {
            if (how[k] == 1) {
                CHECK(kept[k].is_ready(), "every dependent gets the outcome");
                CHECK(runs[k] == value && !kept[k].exception() == value, "each continuation runs exactly once, on a value");
            } else if (how[k] == 3) CHECK(runs[k] == value, "a detached continuation runs");
            else CHECK(runs[k] <= value, "at most once");
            kept[k] = future<int>();
            CHECK(live[k] == 0, "and is released");
        }
    }
};
constexpr int OPS = 9;
template <class T>
void future_program(int mine, int theirs) {
    {
        int x = sym::i32("x"), end = (int)sym::choose("end", 3), a[3], b[3];
        auto pf = package<T(int)>(immediate_executor, [end](int v) -> T { if (end == 1) throw boom{v}; return mk<T>(v); });
        for (int i = 0; i < mine; ++i) a[i] = (int)sym::choose("a", OPS);
        for (int i = 0; i < theirs; ++i) b[i] = (int)sym::choose("b", OPS);
        actor<T> m, o;
        m.x = o.x = x;
        m.value = o.value = end == 0;
        if constexpr (!std::is_same_v<T, mo>) o.f = pf.second;
        m.f = std::move(pf.second);
        std::thread t([&, p = std::move(pf.first)]() mutable {
            if (end < 2) p(x);
            else { auto gone = std::move(p); }
        });
        std::thread u([&] { for (int i = 0; i < theirs; ++i) o.op(b[i]); });
        for (int i = 0; i < mine; ++i) m.op(a[i]);
        t.join();
        u.join();
        m.finish();
        o.finish();
        sym::reach("done");
    }
    sym::leaks();
}
} // namespace
// a future that two threads hold while a third completes it with a value, a failure or not at all
ENTRY(g_future) { // @A01,A04,S01 preempt=1 reach=done parts=8 time=300 weight=4 thorough.preempt=2 thorough.time=800
    future_program<int>(2, 1);
}
// the same of a type that can only be moved; one holder
ENTRY(g_future_mo) { // @A02,A05,S01 preempt=2 reach=done parts=4 time=300 weight=2 thorough.preempt=4 thorough.time=800
    future_program<mo>(2, 0);
}

namespace {
// the first process: gathers nothing, hands on what it gets; sees itself closed once and released
struct relay {
    struct log { int closes = 0, lives = 0, inside = 0; };
    log* l;
    bool full = false;
    int v = 0;
    token t;
    explicit relay(log* p) : l(p), t(&p->lives) {}
    void await(int x) {
        guard g(&l->inside);
        CHECK(l->closes == 0 && !full, "inputs come only while the process awaits");
        v = x;
        full = true;
    }
    int yield() {
        guard g(&l->inside);
        CHECK(full, "a process is asked to yield only when it says so");
        full = false;
        return v;
    }
    void close() {
        guard g(&l->inside);
        CHECK(++l->closes == 1, "close is called once");
    }
    process_state_scheduled state() const { return full ? yield_immediate : await_forever; }
};
struct outlet {
    sender<int> s;
    int base, n = 0, x0;
    bool open = true;
    void op(int k) {
        switch (k) {
            case 0: send(s); break;
            case 1: s.close(); open = false; break;
            case 2: { auto c = s; send(c); } break;
            default: s = sender<int>(); open = false;
        }
    }
    void send(sender<int>& c) { c(base + n); n += open; }
};
// values of two senders: each sender's are there in their order, all of them or a first part
void in_order(const sink& s, const outlet& a, const outlet& b, bool all) {
    int at[2] = {};
    for (int i = 0; i < s.n; ++i) {
        int o = s.got[i] >= 100;
        CHECK(s.got[i] == (o ? b : a).base + at[o]++, "values of one sender keep their order, none is repeated");
    }
    CHECK(at[0] <= a.n && at[1] <= b.n, "no value is invented");
    if (all) CHECK(at[0] == a.n && at[1] == b.n, "every value arrives");
}
void channel_program(int mine, int theirs) {
    {
        int a[3], b[3];
        bool ready = sym::choose("ready", 2), dropped = false;
        for (int i = 0; i < mine; ++i) a[i] = (int)sym::choose("a", 7);
        for (int i = 0; i < theirs; ++i) b[i] = (int)sym::choose("b", 4);
        relay::log l;
        sink s, s2;
        outlet m{{}, 1}, o{{}, 100};
        receiver<int> recv;
        std::tie(m.s, recv) = channel<int>(immediate_executor);
        o.s = m.s;
        receiver<int> mid = recv | relay(&l);
        receiver<void> hold = mid | [&](int v) { s.put(v); }, hold2;
        mid.set_ready();
        bool second = false;
        if (ready) recv.set_ready();
        std::thread u([&] { for (int i = 0; i < theirs; ++i) o.op(b[i]); });
        for (int i = 0; i < mine; ++i) {
            switch (a[i]) {
                case 4: recv.set_ready(); ready = true; break;
                case 5: if (!ready && !second) { hold2 = recv | [&](int v) { s2.put(v); }; second = true; } break;
                case 6: hold = receiver<void>(); mid = receiver<int>(); dropped = true; break;
                default: m.op(a[i]);
            }
        }
        u.join();
        recv.set_ready();
        in_order(s, m, o, !dropped);
        if (second) in_order(s2, m, o, true);
        if (m.open || o.open) CHECK(dropped || (l.closes == 0 && l.lives == 1), "an open channel's process lives on");
        m.s.close();
        o.s = sender<int>();
        CHECK(dropped || l.closes == 1, "the process is told to close once");
        CHECK(l.lives == 0, "a closed process is released");
        sym::reach("done");
    }
    sym::leaks();
}
} // namespace
// a channel with senders on two threads; one also sets it ready, attaches another process or drops the pipeline
ENTRY(g_channel) { // @H01,H04,S01 preempt=1 reach=done parts=8 time=300 weight=4 thorough.preempt=2 thorough.time=800
    channel_program(2, 1);
}
// three operations against two
ENTRY(g_channel3) { // @H01,H04,S01 preempt=1 reach=done parts=16 time=800 tier=thorough
    channel_program(3, 2);
}

namespace {
template <class M>
void merge_program(int mine, int theirs) {
    constexpr bool zip = std::is_same_v<M, stlab::zip_with_t>, robin = std::is_same_v<M, stlab::round_robin_t>;
    {
        int a[3], b[3], in = 0, live = 0;
        bool ready = sym::choose("ready", 2);
        for (int i = 0; i < mine; ++i) a[i] = (int)sym::choose("a", 5);
        for (int i = 0; i < theirs; ++i) b[i] = (int)sym::choose("b", 4);
        sink s;
        outlet m{{}, 1}, o{{}, 100};
        receiver<int> r0, r1;
        std::tie(m.s, r0) = channel<int>(immediate_executor);
        std::tie(o.s, r1) = channel<int>(immediate_executor);
        receiver<void> hold;
        if constexpr (zip)
            hold = stlab::merge_channel<M>(immediate_executor, [&, t = token(&live)](int x, int y) { guard g(&in); s.put(x); s.put(y); }, r0, r1);
        else hold = stlab::merge_channel<M>(immediate_executor, [&, t = token(&live)](int x) { guard g(&in); s.put(x); }, r0, r1);
        r1.set_ready();
        if (ready) r0.set_ready();
        std::thread u([&] { for (int i = 0; i < theirs; ++i) o.op(b[i]); });
        for (int i = 0; i < mine; ++i) {
            if (a[i] == 4) r0.set_ready();
            else m.op(a[i]);
        }
        u.join();
        r0.set_ready();
        if (zip || robin) {
            int n = zip ? 2 * std::min(m.n, o.n) : m.n <= o.n ? 2 * m.n : 2 * o.n + 1;
            CHECK(s.n == n, zip ? "one call per complete set" : "one value from each input in turn");
            for (int i = 0; i < s.n; ++i) CHECK(s.got[i] == (i % 2 ? o : m).base + i / 2, "values keep their order");
        } else in_order(s, m, o, true);
        m.s.close();
        o.s = sender<int>();
        CHECK(live == 0, "a merge ends when its inputs have");
        sym::reach("done");
    }
    sym::leaks();
}
} // namespace
// merges whose inputs are fed, closed and dropped by two threads
ENTRY(g_zip) { // @H03,H04,S01 preempt=1 reach=done parts=4 time=300 weight=2 thorough.preempt=2 thorough.time=800
    merge_program<stlab::zip_with_t>(2, 2);
}
ENTRY(g_robin) { // @H03,H04,S01 preempt=1 reach=done parts=4 time=300 weight=2 thorough.preempt=2 thorough.time=800
    merge_program<stlab::round_robin_t>(2, 2);
}
ENTRY(g_mixed) { // @H03,H04,S01 preempt=1 reach=done parts=4 time=300 weight=2 thorough.preempt=2 thorough.time=800
    merge_program<stlab::unordered_t>(2, 2);
}
