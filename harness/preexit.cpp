#include "sym.h"
#include <stlab/pre_exit.hpp>
#include <thread>

namespace {
int order[16], n;
bool again[4];   // handler k registers an extra handler while running
int runs[8];
template <int K>
void extra() noexcept { order[n++] = 10 + K; }
template <int K>
void handler() noexcept {
    ++runs[K];
    order[n++] = K;
    if (again[K]) stlab::at_pre_exit(extra<K>);
}
} // namespace

ENTRY(p_order) { // @U02 reach=done
    int k = sym::choose("handlers", 5);
    stlab::pre_exit_handler h[4] = {handler<0>, handler<1>, handler<2>, handler<3>};
    int idx[4];
    for (int i = 0; i < k; ++i) {
        idx[i] = sym::choose("which", 4); // the same handler may be registered more than once
        stlab::at_pre_exit(h[idx[i]]);
    }
    for (int i = 0; i < 4; ++i) again[i] = sym::flag("again");
    CHECK(n == 0, "no handler runs before pre_exit");
    stlab::pre_exit();
    int m = 0;
    for (int i = k; i-- > 0;) {
        CHECK(m < n && order[m] == idx[i], "handlers run in reverse order of registration");
        ++m;
        if (again[idx[i]]) {
            CHECK(m < n && order[m] == 10 + idx[i], "a handler registered by a handler runs next");
            ++m;
        }
    }
    CHECK(n == m, "every handler runs exactly once");
    sym::reach("done");
}

namespace {
int done[4];
bool reg[4];
template <int K>
void count() noexcept { ++done[K]; }
template <int K>
void spawn_more() noexcept {
    ++done[K];
    stlab::at_pre_exit(count<3>);
}
} // namespace

// registration from several threads
ENTRY(pe_threads) { // @U02,S01 reach=done preempt=3
    {
        std::thread a([] { stlab::at_pre_exit(count<0>); });
        std::thread b([] {
            stlab::at_pre_exit(count<1>);
            stlab::at_pre_exit(spawn_more<2>);
        });
        stlab::at_pre_exit(count<3>);
        a.join();
        b.join();
        stlab::pre_exit();
        CHECK(done[0] == 1 && done[1] == 1 && done[2] == 1 && done[3] == 2, "every handler registered from any thread runs exactly once");
        sym::reach("done");
    }
}

// registration while processing runs: a handler registered before processing ends is run, exactly once
ENTRY(p_during) { // @U02 reach=done preempt=3
    {
        static bool finished = false;
        static std::thread* t;
        stlab::at_pre_exit(count<0>);
        // handler 1 starts a thread that registers, and waits for it: still inside processing
        stlab::at_pre_exit([]() noexcept {
            ++done[1];
            std::thread x([] { stlab::at_pre_exit(count<2>); });
            std::thread y([] { stlab::at_pre_exit(count<3>); });
            x.join();
            y.join();
        });
        stlab::pre_exit();
        CHECK(done[0] == 1 && done[1] == 1 && done[2] == 1 && done[3] == 1, "handlers registered during processing run exactly once");
        sym::reach("done");
        (void)finished;
        (void)t;
    }
}
