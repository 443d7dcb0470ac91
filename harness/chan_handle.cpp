#include "chan.hpp"
#include <stlab/concurrency/default_executor.hpp>
#include <functional>
using stlab::channel_error;
using stlab::channel_error_codes;

namespace {
template <class F>
int code(F f) {
    try {
        f();
    } catch (const channel_error& e) {
        CHECK(e.what() != nullptr, "an error has a description");
        return (int)e.code();
    } catch (...) {
        return -1;
    }
    return 0;
}
constexpr int BROKEN = (int)channel_error_codes::broken_channel, RUNNING = (int)channel_error_codes::process_already_running;
// every way to attach something
template <class R>
int attach(R& r, int how, sink& s) {
    auto f = [&](int v) { s.put(v); };
    return code([&] {
        receiver<void> h;
        switch (how) {
            case 0: h = r | std::move(f); break;
            case 1: h = r | std::ref(f); break;
            case 2: h = r | (buffer_size{2} & std::move(f)); break;
            case 3: h = r | (executor{immediate_executor} & std::move(f)); break;
            case 4: h = r | (executor{immediate_executor} & buffer_size{2} & std::move(f)); break;
            default: { auto [a, b] = channel<int>(immediate_executor); h = r | a; } break;
        }
    });
}
} // namespace

ENTRY(h_misuse) { // @H07 reach=done
    {
        sink s, t;
        int how = (int)sym::choose("how", 6);
        bool qd = sym::choose("queued", 2);
        receiver<int> empty;
        CHECK(attach(empty, how, t) == BROKEN, "attaching to an empty receiver reports a broken channel");
        auto [send, recv] = channel<int>(exec(qd));
        auto hold = recv | [&](int v) { s.put(v); };
        receiver<int> spare = recv;
        recv.set_ready();
        CHECK(attach(recv, how, t) == RUNNING, "attaching to a ready receiver reports that the process is running");
        CHECK(recv.ready() && !spare.ready(), "readiness belongs to the handle");
        spare.set_ready();
        CHECK(attach(spare, how, t) == RUNNING, "attaching to a ready receiver reports that the process is running");
        receiver<int> copy = recv;
        CHECK(attach(copy, how, t) == RUNNING, "a copy of a ready receiver is ready");
        int x[2] = {sym::i32("x"), sym::i32("x")};
        send(x[0]);
        send(x[1]);
        Q.run_all();
        s.expect(x, 2);
        CHECK(t.n == 0, "a refused process gets nothing");
        receiver<int> gone = std::move(recv);
        CHECK(attach(recv, how, t) == BROKEN, "attaching to a moved-from receiver reports a broken channel");
        sym::reach("done");
    }
    sym::leaks();
}
// default and moved-from handles do nothing
ENTRY(h_inert) { // @H07,H04 reach=done
    {
        sink s;
        sender<int> none;
        none(1);
        none.close();
        CHECK(!none.free_buffer(), "a default sender refers to no channel");
        receiver<int> r;
        r.set_ready();
        sender<mo> nm;
        nm(mo(1));
        nm.close();
        auto [send, recv] = channel<int>(immediate_executor);
        auto hold = recv | [&](int v) { s.put(v); };
        sender<int> moved = std::move(send);
        send(3);
        send.close();
        CHECK(!send.free_buffer(), "a moved-from sender refers to no channel");
        receiver<int> rmoved = std::move(recv);
        recv.set_ready();
        moved(4);
        CHECK(s.n == 0, "a moved-from receiver does not set its channel ready");
        rmoved.set_ready();
        CHECK(s.n == 1 && s.got[0] == 4, "the handle moved to refers to the channel");
        { auto gone = std::move(hold); }
        moved(5);
        CHECK(s.n == 1, "sending on a channel that is gone has no effect");
        moved.close();
        sym::reach("done");
    }
    sym::leaks();
}
ENTRY(h_compare) { // @H07 reach=done
    {
        sink s[2];
        bool qd = sym::choose("queued", 2);
        auto [s0, r0] = channel<int>(exec(qd));
        auto [s1, r1] = channel<int>(exec(qd));
        auto hold0 = r0 | [&](int v) { s[0].put(v); };
        auto hold1 = r1 | [&](int v) { s[1].put(v); };
        auto eq = [](const auto& a, const auto& b, bool e) {
            CHECK((a == b) == e && (b == a) == e && (a != b) != e && (b != a) != e, "handles are equal when they refer to the same channel");
        };
        sender<int> sc = s0, se;
        receiver<int> rc = r0, re;
        eq(s0, sc, true);
        eq(r0, rc, true);
        eq(s0, s1, false);
        eq(r0, r1, false);
        eq(s0, se, false);
        eq(r0, re, false);
        eq(se, sender<int>(), true);
        eq(re, receiver<int>(), true);
        int how = (int)sym::choose("how", 3);
        if (how == 0) { swap(s0, s1); swap(r0, r1); }
        else if (how == 1) { s0.swap(s1); r0.swap(r1); }
        if (how < 2) {
            eq(s1, sc, true);
            eq(s0, sc, false);
            eq(r1, rc, true);
            eq(r0, rc, false);
        }
        { // a handle set ready is still a handle to its channel
            receiver<int> kept = rc, rd = rc;
            rd.set_ready();
            eq(rd, kept, true);
            eq(rd, rc, true);
            eq(rd, r0, how == 2);
            eq(rd, re, false);
            receiver<int> moved = std::move(rd);
            eq(moved, kept, true);
            eq(rd, re, true);
            CHECK(moved.ready() && !kept.ready() && !re.ready(), "readiness belongs to the handle");
        }
        { auto gone = std::move(rc); }
        int x = sym::i32("x"), y = sym::i32("y");
        s0(x);
        s1(y);
        Q.run_all();
        CHECK(s[0].n == 0 && s[1].n == 0, "nothing flows before a channel is ready");
        (how < 2 ? r1 : r0).set_ready(); // the first channel
        Q.run_all();
        CHECK(s[0].n == 1 && s[0].got[0] == (how < 2 ? y : x) && s[1].n == 0, "swapped handles refer to each other's channel");
        (how < 2 ? r0 : r1).set_ready();
        Q.run_all();
        CHECK(s[1].n == 1 && s[1].got[0] == (how < 2 ? x : y), "swapped handles refer to each other's channel");
        // closing: the copy keeps the first channel open
        s0.close();
        s1.close();
        Q.run_all();
        sc(77);
        Q.run_all();
        CHECK(s[0].n == 2 && s[0].got[1] == 77, "a copy of a sender keeps the channel open");
        sym::reach("done");
    }
    sym::leaks();
}
// swapping with handles that are ready, empty or the same
ENTRY(h_swap) { // @H07 reach=done
    {
        sink s;
        auto [send, recv] = channel<int>(immediate_executor);
        auto hold = recv | [&](int v) { s.put(v); };
        bool ready = sym::choose("ready", 2);
        if (ready) recv.set_ready();
        receiver<int> other;
        if (sym::choose("member", 2)) recv.swap(other);
        else swap(recv, other);
        CHECK(recv == receiver<int>() && !(other == recv), "an empty handle is swapped in");
        CHECK(other.ready() == ready, "readiness goes with the handle");
        send(1);
        CHECK(s.n == (ready ? 1 : 0), "a swap does not set anything ready");
        other.set_ready();
        CHECK(s.n == 1, "the handle swapped to refers to the channel");
        sender<mo> a, b;
        swap(a, b);
        CHECK(a == b, "empty handles are equal");
        auto [ms, mr] = channel<mo>(immediate_executor);
        auto mh = mr | [&](mo v) { s.put(kind<mo>::get(v)); };
        mr.set_ready();
        swap(a, ms);
        CHECK(a != ms && ms == b, "handles of values that can only be moved compare and swap");
        ms(mo(5));
        CHECK(s.n == 1, "an empty handle has no effect");
        a(mo(6));
        CHECK(s.n == 2 && s.got[1] == 6, "a swapped handle refers to the channel");
        sym::reach("done");
    }
    sym::leaks();
}
