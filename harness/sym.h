// Harness interface: symbolic inputs, assumptions, checks. The same harness runs under the symbolic
// executor and (for replay) as a native program.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t __sym_fresh(const char* name, unsigned bits);
void __sym_assume(int c);
void __sym_assert(int c, const char* msg);
unsigned __sym_choose(const char* name, unsigned n);
void __sym_reach(const char* tag);
void __sym_note(const char* tag, uint64_t v);
uint64_t __sym_concretize(uint64_t v);
void __sym_set_hw(int n);
void __sym_leak_check();
void __sym_fail(const char* msg);
void __sym_quiesce(int timers);
int __sym_tid();
void __sym_option(const char* name, uint64_t v);
void __sym_advance(uint64_t ns);
uint64_t __sym_now();
int __sym_nthreads();
int __sym_blocked();
}
namespace sym {
inline int i32(const char* n) { return (int)__sym_fresh(n, 32); }
inline unsigned u32(const char* n) { return (unsigned)__sym_fresh(n, 32); }
inline uint64_t u64(const char* n) { return __sym_fresh(n, 64); }
inline unsigned char u8(const char* n) { return (unsigned char)__sym_fresh(n, 8); }
inline bool flag(const char* n) { return __sym_fresh(n, 1) & 1; }
inline void assume(bool c) { __sym_assume(c); }
// an integer in [lo, hi], symbolic
inline int range(const char* n, int lo, int hi) {
    int v = i32(n);
    __sym_assume(v >= lo);
    __sym_assume(v <= hi);
    return v;
}
// one of 0..k-1: a symbolic value that the solver splits into every feasible case
inline unsigned choose(const char* n, unsigned k) {
    if (k <= 1) return 0;
    unsigned v = u32(n);
    __sym_assume(v < k);
    return (unsigned)__sym_concretize(v);
}
inline void reach(const char* t) { __sym_reach(t); }
inline void leaks() { __sym_leak_check(); }
// wait until no other thread can do anything (timers: including threads waiting with a time limit)
inline void quiesce(bool timers = true) { __sym_quiesce(timers ? 1 : 0); }
} // namespace sym
#define CHECK(c, msg) __sym_assert((c) ? 1 : 0, msg)
#define ENTRY(name) extern "C" void name()
