// Fulfilment plans for combinations of futures.
#pragma once
#include "conc.hpp"
using namespace hc;

namespace {
const char* ON[] = {"out0", "out1", "out2", "out3"};
const char* PN[] = {"ord0", "ord1", "ord2", "ord3"};

// n inputs fulfilled in any order, each with value, exception or broken promise, some before the
// combination is made; executor: immediate or the manual queue (run after every step or at the end)
struct plan {
    int n, pre, qd, lazy;
    int out[4], order[4];
    int x[4];
    int nout;
    plan(int n_, int nout_) : n(n_), nout(nout_) {
        for (int i = 0; i < n; ++i) {
            out[i] = sym::choose(ON[i], nout);
            x[i] = sym::i32("x");
        }
        bool used[4] = {};
        for (int i = 0; i < n; ++i) {
            int k = sym::choose(PN[i], n - i), j = 0;
            while (used[j] || k) { if (!used[j]) --k; ++j; }
            used[j] = true;
            order[i] = j;
        }
        pre = n ? sym::choose("pre", n + 1) : 0;
        qd = sym::choose("queued", 3); // immediate, queued and run at every step, queued and run at the end
        lazy = qd == 2;
    }
    // position in arrival order of the first failure, or n. With the inputs ready before, the inputs
    // arrive in the order they are attached
    int arrival(int* seq) const {
        bool early[4] = {};
        int k = 0;
        for (int i = 0; i < pre; ++i) early[order[i]] = true;
        for (int i = 0; i < n; ++i) if (early[i]) seq[k++] = i;
        for (int i = pre; i < n; ++i) seq[k++] = order[i];
        return k;
    }
    template <class P>
    void fire(P& p, int i) const {
        if (out[i] == 2) { auto gone = std::move(p); }
        else p(x[i]);
    }
};
auto ex(const plan& p) {
    return stlab::executor_t([q = p.qd](ctask&& t) { if (q) Q.executor()(std::move(t)); else stlab::immediate_executor(std::move(t)); });
}
} // namespace
