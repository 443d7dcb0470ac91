// Shared helpers of the channel harnesses.
#pragma once
#include "conc.hpp"
#include <stlab/concurrency/channel.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/pre_exit.hpp>
#include <thread>
using namespace hc;
using stlab::await_forever;
using stlab::buffer_size;
using stlab::channel;
using stlab::executor;
using stlab::process_state;
using stlab::process_state_scheduled;
using stlab::receiver;
using stlab::sender;
using stlab::yield_immediate;
using stlab::operator&;

namespace {
constexpr int MAXV = 12;
// what a process received; plain data: the channel must order all accesses
struct sink {
    int n = 0, got[MAXV] = {}, errs = 0, closes = 0, inside = 0;
    void put(int x) {
        CHECK(inside == 0, "a process is not entered while it runs");
        inside = 1;
        CHECK(n < MAXV, "no value arrives more than once");
        if (n < MAXV) got[n++] = x;
        inside = 0;
    }
    void expect(const int* x, int k, const char* = nullptr) const {
        CHECK(n == k, "every value arrives exactly once");
        for (int i = 0; i < n && i < k; ++i) CHECK(got[i] == x[i], "values arrive in the order sent");
    }
    void prefix(const int* x, int k) const {
        CHECK(n <= k, "no value arrives more than once");
        for (int i = 0; i < n && i < k; ++i) CHECK(got[i] == x[i], "values arrive in the order sent");
    }
    int count(int x) const {
        int c = 0;
        for (int i = 0; i < n; ++i) c += got[i] == x;
        return c;
    }
    int pos(int x) const {
        for (int i = 0; i < n; ++i) if (got[i] == x) return i;
        return -1;
    }
};
// a function process that is never entered while it runs
struct guard {
    int* in;
    explicit guard(int* p) : in(p) {
        CHECK(*in == 0, "a process is not entered while it runs");
        *in = 1;
    }
    ~guard() { *in = 0; }
};
// executor: immediate, or the manual queue
inline stlab::executor_t exec(bool manual_queue) {
    if (manual_queue) return Q.executor();
    return immediate_executor;
}
// runs tasks in place and lets them know that it is the one running them
thread_local int on_marked = 0;
inline auto marked() {
    return [](ctask&& f) {
        ++on_marked;
        f();
        --on_marked;
    };
}
} // namespace
namespace {
// runs every task on a thread of its own
struct spawner {
    static constexpr int MAX = 10;
    std::thread t[MAX];
    std::mutex m;
    int n = 0;
    auto executor() {
        return [this](ctask&& f) {
            std::lock_guard<std::mutex> l(m);
            CHECK(n < MAX, "harness has a thread for the task");
            if (n < MAX) t[n++] = std::thread(std::move(f));
        };
    }
    void join() {
        for (int i = 0;; ++i) {
            {
                std::lock_guard<std::mutex> l(m);
                if (i == n) return;
            }
            t[i].join();
        }
    }
};
} // namespace
