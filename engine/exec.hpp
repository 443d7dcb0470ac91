// The symbolic executor.
#pragma once
#include "program.hpp"
#include <cmath>
#include <cxxabi.h>
#include <deque>
#include <set>

std::string jstr(const std::string& s);
struct Options {
    std::string entry;
    int preempt = 2;
    bool preemptFixed = false;
    double maxTime = 600;
    uint64_t maxPathInsts = 5000000;
    bool dedup = true;
    bool hashVC = false;
    bool races = true;
    bool uninit = true;
    int part = 0, parts = 1;
    int maxViol = 40;
    int samples = 3;
    int traces = 0;
    bool trace = false;
    uint64_t maxPaths = ~0ull;
    size_t maxMemMB = 3500;
    int unlockSched = 0;
    std::vector<uint64_t> script; // replay schedule
    bool replay = false;
    std::map<std::string, uint64_t> inputs;
};

struct PathKill {};

struct Violation {
    std::string kind, msg, key;
    std::vector<std::string> stack, stack2;
    std::vector<std::pair<std::string, std::pair<unsigned, std::string>>> inputs;
    std::vector<std::string> sched;
    std::vector<std::string> notes;
    uint64_t count = 1;
};

enum BI {
    B_NONE, B_UNKNOWN, B_NOP, B_RET0, B_FRESH, B_ASSUME, B_ASSERT, B_CHOOSE, B_REACH, B_NOTE, B_CONC, B_HW, B_LEAK,
    B_FAIL, B_QUIESCE, B_TID, B_OPT, B_MALLOC, B_NEW, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_THREAD_CREATE, B_THREAD_JOIN,
    B_MLOCK, B_MTRYLOCK, B_MUNLOCK, B_CWAIT, B_CTIMEDWAIT, B_CSIGNAL, B_CBCAST, B_YIELD, B_NOW, B_SETNAME,
    B_UNWIND, B_LASTADJ, B_TERMINATE, B_ABORT, B_ATEXIT, B_POPEXIT, B_UADDO, B_SADDO, B_USUBO, B_SSUBO, B_UMULO, B_SMULO,
    B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_FSHL, B_FSHR, B_EXPECT, B_LASSUME,
    B_TYPEID, B_TLS, B_OBJSIZE, B_LIFEEND, B_LIFESTART, B_TRAP, B_USUBSAT, B_UADDSAT, B_ISCONST, B_STACKSAVE, B_EXIT, B_PTRMASK,
    B_ALIGNED_NEW, B_CEIL, B_CALLOC, B_SELF, B_OPTION, B_NTHREADS, B_ADVANCE, B_BLOCKED
};

class Executor {
public:
    Program& P;
    Ctx& cx;
    Solver& S;
    Options O;
    std::vector<State*> work;
    std::map<std::string, Violation> viols;
    std::map<std::string, uint64_t> reach;
    std::vector<std::string> samples, traces;
    size_t traceCtr = 0;
    std::unordered_map<uint64_t, int> visited;
    // stats
    uint64_t paths = 0, forks = 0, insts = 0, schedPoints = 0, deduped = 0, assertsProved = 0, assertsTrivial = 0,
             killedAssume = 0, branchQueries = 0, statesCreated = 1, violPaths = 0, choices = 0;
    int maxThreads = 1;
    bool timedOut = false, truncated = false;
    std::string truncReason;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    State* s = nullptr;
    bool stopAtFork = false, forkedNow = false;
    std::map<std::pair<CallCtx*, const Inst*>, CallCtx*> ctxTab;
    std::vector<std::string> strPool;
    std::unordered_map<std::string, uint32_t> reachId;
    std::vector<std::string> reachNames;
    std::set<const FnInfo*> touched;
    std::vector<FnInfo*> scriptFns;
    State* rootTemplate = nullptr;
    size_t dupCount = 0;

    Executor(Program& p, Ctx& c, Solver& sv, Options o) : P(p), cx(c), S(sv), O(o) { initBuiltins(); }

    // ---------------------------------------------------------------- helpers
    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    const Node* N(const Val& v, unsigned w) { return v.n ? v.n : cx.con(v.c, w); }
    Val V(const Node* n) {
        if (n->op == O_CONST && n->w <= 64) return Val((uint64_t)n->c);
        return Val(n);
    }
    Val bin(Op op, const Val& a, const Val& b, unsigned w) {
        if (!a.n && !b.n && w <= 64) {
            uint64_t m = w == 64 ? ~0ull : ((1ull << w) - 1);
            switch (op) {
                case O_ADD: return (a.c + b.c) & m;
                case O_SUB: return (a.c - b.c) & m;
                case O_MUL: return (a.c * b.c) & m;
                case O_AND: return a.c & b.c;
                case O_OR: return a.c | b.c;
                case O_XOR: return a.c ^ b.c;
                case O_SHL: return b.c >= w ? 0 : (a.c << b.c) & m;
                case O_LSHR: return b.c >= w ? 0 : a.c >> b.c;
                default: return (uint64_t)foldOp(op, w, a.c, b.c, w);
            }
        }
        return V(cx.bin(op, N(a, w), N(b, w)));
    }
    Val cmp(Op op, const Val& a, const Val& b, unsigned w) {
        if (!a.n && !b.n && w <= 64) return (uint64_t)foldOp(op, w, a.c, b.c, w);
        return V(cx.bin(op, N(a, w), N(b, w)));
    }
    Val lnot(const Val& a) { return a.n ? V(cx.lnot(a.n)) : Val(a.c ^ 1); }
    Val castv(const Val& v, unsigned from, unsigned to, bool sx) {
        if (from == to) return v;
        if (!v.n && from <= 64 && to <= 64) {
            if (to < from) return v.c & (uint64_t)maskw(to);
            return sx ? (uint64_t)((u128)sgn(v.c, from) & maskw(to)) : v.c;
        }
        if (to < from) return V(cx.extract(N(v, from), 0, to));
        return V(cx.ext(sx ? O_SEXT : O_ZEXT, N(v, from), to));
    }
    Thread& T() { return s->th[s->cur]; }
    Frame& F() {
        Frame*& f = T().stk.back();
        if (f->rc > 1) {
            Frame* n = new Frame(*f);
            n->rc = 1;
            f->rc--;
            f = n;
        }
        return *f;
    }
    const Val& get(const Frame& f, int32_t o) { return o >= 0 ? f.r[o] : P.pool[-o - 1]; }
    static int32_t opk(int32_t o, unsigned k) { return Program::opk(o, k); }

    const char* intern(const std::string& x) {
        static std::set<std::string> tab;
        return tab.insert(x).first->c_str();
    }
    void addEv(State* st, uint8_t kind, uint64_t v, const char* name = nullptr, uint32_t n = 0) {
        Ev* e = new Ev{st->ev, kind, v, name, n};
        st->ev = e;
    }

    // ---------------------------------------------------------------- violations
    void srcLoc(const Inst* i, FnInfo* fallback, std::vector<std::string>& out, std::vector<std::string>* repoFns) {
        if (!i || !i->I) { if (fallback) out.push_back(demangle(fallback->name)); return; }
        DILocation* L = i->I->getDebugLoc();
        if (!L) { out.push_back(demangle(i->fn->name)); return; }
        for (; L; L = L->getInlinedAt()) {
            auto* sp = L->getScope()->getSubprogram();
            std::string file = L->getFilename().str();
            std::string nm = sp ? sp->getName().str() : "?";
            out.push_back(nm + " at " + file + ":" + std::to_string(L->getLine()));
            if (repoFns && file.find("/repo/") != std::string::npos) repoFns->push_back(nm);
        }
    }
    std::vector<std::string> stackOf(const Inst* i, CallCtx* ctx, FnInfo* fn, std::vector<std::string>* repoFns) {
        std::vector<std::string> out;
        srcLoc(i, fn, out, repoFns);
        int n = 0;
        for (auto* c = ctx; c && c->call && n < 40; c = c->parent, n++) srcLoc(c->call, nullptr, out, repoFns);
        return out;
    }
    std::string cleanFn(const std::string& f) { // strip template args / lambda uniquifiers
        std::string r;
        int d = 0;
        for (char c : f) {
            if (c == '<') d++;
            else if (c == '>') d--;
            else if (d == 0) r += c;
        }
        return r;
    }
    void collectInputs(State* st, Violation& v) {
        std::vector<const Ev*> es;
        for (auto* e = st->ev; e; e = e->prev) es.push_back(e);
        std::reverse(es.begin(), es.end());
        cx.newEval();
        for (auto* e : es) {
            if (e->kind == 0) v.sched.push_back(std::to_string(e->v));
            else if (e->kind == 1 || e->kind == 3) {
                auto* n = cx.varByName[e->name];
                u128 x = cx.eval(n, st->model);
                v.inputs.push_back({e->name, {n->w, std::to_string((uint64_t)x)}});
            } else if (e->kind == 2) {
                v.notes.push_back(std::string(e->name) + "=" + std::to_string(e->v));
            }
        }
    }
    void violation(const std::string& kind, const std::string& msg, const Inst* i = nullptr, bool kill = true,
                   const Acc* other = nullptr) {
        Frame* f = T().stk.empty() ? nullptr : T().stk.back();
        if (!i && f) i = &f->fn->code[f->pc];
        Violation v;
        v.kind = kind;
        v.msg = msg;
        std::vector<std::string> rf;
        v.stack = stackOf(i, f ? f->ctx : nullptr, f ? f->fn : nullptr, &rf);
        std::string where = rf.empty() ? "harness" : cleanFn(rf[0]);
        if (kind == "assert") v.key = kind + ":" + msg;
        else if (kind == "nonterm") v.key = kind;
        else if (kind == "deadlock" || kind == "leak") v.key = kind + ":" + msg;
        else if (other) {
            std::vector<std::string> rf2;
            v.stack2 = stackOf(other->I, other->ctx, nullptr, &rf2);
            std::string w2 = rf2.empty() ? "harness" : cleanFn(rf2[0]);
            if (w2 < where) std::swap(where, w2);
            v.key = kind + ":" + where + "|" + w2;
        } else v.key = kind + ":" + where;
        violPaths += kill;
        auto it = viols.find(v.key);
        if (it == viols.end()) {
            collectInputs(s, v);
            if (O.trace) fprintf(stderr, "VIOL %s %s\n", v.key.c_str(), msg.c_str());
            viols[v.key] = v;
        } else it->second.count++;
        if (kill) throw PathKill();
    }

    // ---------------------------------------------------------------- forking
    State* fork() {
        forks++;
        forkedNow = true;
        State* n = new State(*s);
        statesCreated++;
        return n;
    }
    void push(State* n) { work.push_back(n); }
    void addPC(State* st, const Node* c) {
        if (c->op == O_CONST) return;
        st->pc.push_back(c);
    }
    // must/may checks
    bool may(const Node* c, Model& m) { branchQueries++; return S.check(s->pc, c, m); }

    void checkUndef(const Val& v, const char* what) {
        if (v.n && v.n->undef && O.uninit) {
            if (O.trace) fprintf(stderr, "uninit expr %s\n", cx.str(v.n).c_str());
            violation("uninit", std::string("use of an uninitialised value in ") + what);
        }
    }

    // Decide a condition; forks when both outcomes are possible. Returns the outcome in the current state.
    // `onFork` receives the clone in which the condition has the other value (pc already extended).
    template <class FN>
    bool decide(const Val& c, FN onFork) {
        if (!c.n) return c.c & 1;
        checkUndef(c, "a branch");
        cx.newEval();
        bool cur = cx.eval(c.n, s->model) != 0;
        const Node* other = cur ? cx.lnot(c.n) : c.n;
        Model m = s->model;
        if (may(other, m)) {
            State* n = fork();
            n->model = m;
            addPC(n, other);
            addPC(s, cur ? c.n : cx.lnot(c.n));
            onFork(n);
            push(n);
        } else {
            // implied; no need to extend the path condition
        }
        return cur;
    }
    // Make a value concrete; clones re-execute the current instruction with other values.
    uint64_t concretize(const Val& v, unsigned w, const char* what) {
        if (!v.n) return v.c;
        checkUndef(v, what);
        cx.newEval();
        u128 cur = cx.eval(v.n, s->model);
        const Node* eq = cx.bin(O_EQ, v.n, cx.con(cur, w));
        Model m = s->model;
        const Node* ne = cx.lnot(eq);
        if (may(ne, m)) {
            State* n = fork();
            n->model = m;
            addPC(n, ne);
            push(n);
            addPC(s, eq);
        }
        return (uint64_t)cur;
    }

    std::string varName(const char* base) {
        Thread& t = T();
        return std::string(base) + "#" + std::to_string(s->cur) + "." + std::to_string(t.varCtr++);
    }
    // n-way choice backed by a symbolic variable; apply(state, i) is run for every alternative
    template <class FN>
    void choose(uint32_t n, const char* name, FN apply) {
        std::string vn = varName(name);
        const Node* v = cx.var(vn, 32);
        choices++;
        const char* nm = intern(vn);
        uint32_t pick = 0;
        if (O.replay) {
            auto it = O.inputs.find(vn);
            pick = it == O.inputs.end() ? 0 : (uint32_t)it->second;
            if (pick >= n) pick = 0;
            s->model[v->aux] = pick;
            addPC(s, cx.bin(O_EQ, v, cx.con(pick, 32)));
            addEv(s, 1, pick, nm, n);
            apply(s, pick);
            return;
        }
        for (uint32_t i = n; i-- > 1;) {
            State* c = fork();
            c->model[v->aux] = i;
            addPC(c, cx.bin(O_EQ, v, cx.con(i, 32)));
            addEv(c, 1, i, nm, n);
            apply(c, i);
            push(c);
        }
        s->model[v->aux] = 0;
        addPC(s, cx.bin(O_EQ, v, cx.con(0, 32)));
        addEv(s, 1, 0, nm, n);
        apply(s, 0);
    }

    // ---------------------------------------------------------------- memory
    std::string addrStr(uint64_t a) {
        char b[64];
        snprintf(b, 64, "0x%llx", (unsigned long long)a);
        return b;
    }
    Obj* find(State* st, uint64_t addr, uint32_t& region, uint32_t& idx) {
        uint32_t id = addr >> 32;
        region = id >> 24;
        idx = id & 0xffffff;
        if (region >= 128 || !st->reg[region]) return nullptr;
        return st->reg[region]->get(idx);
    }
    Obj* access(uint64_t addr, uint64_t size, bool write, uint32_t& off, bool atomic = false, bool isFree = false) {
        uint32_t r, i;
        if (addr < 0x100000000ull) violation("null", "access through a null or small pointer " + addrStr(addr));
        Obj* o = find(s, addr, r, i);
        if (!o) {
            if ((addr >> 56) == 0 && ((addr >> 56) & 0xff) == 0 && r >= R_STACK && r < 0x60)
                violation("stack-use", "access to a dead stack frame " + addrStr(addr));
            violation("wild", "access through an invalid pointer " + addrStr(addr));
        }
        if (o->dead) violation("stack-use", "access to a local object after its lifetime");
        if (o->freed) {
            std::string m = "use of freed memory";
            if (o->freeSite) {
                std::vector<std::string> st = stackOf(o->freeSite, o->freeCtx, nullptr, nullptr);
                m += " (freed in";
                for (size_t k = 0; k < st.size() && k < 12; k++) m += " < " + st[k];
                m += ")";
            }
            violation("uaf", m);
        }
        uint64_t lo = (addr & 0xffffffff);
        if (lo < BASE || lo - BASE + size > o->size || lo - BASE > o->size)
            violation("oob", "out-of-bounds access of " + std::to_string(size) + " bytes at offset " +
                                 std::to_string((int64_t)lo - (int64_t)BASE) + " of an object of " +
                                 std::to_string(o->size) + " bytes");
        if (write && o->ro) violation("rodata", "write to constant memory");
        off = lo - BASE;
        bool multi = s->th.size() > 1 && O.races && !o->ro && o->kind != K_FUNC && size;
        if (write || multi) o = s->reg[r]->getW(i);
        if (multi) race(o, off, size, write, atomic, isFree);
        if (write) o->hok = false;
        return o;
    }
    void race(Obj* o, uint32_t off, uint32_t len, bool write, bool atomic, bool isFree) {
        Thread& t = T();
        uint8_t me = s->cur;
        uint8_t fl = (write ? 1 : 0) | (atomic ? 2 : 0) | (isFree ? 4 : 0);
        uint32_t clk = t.vc.t[me];
        auto& A = o->acc;
        size_t k = 0;
        Frame* f = t.stk.back();
        const Inst* I = &f->fn->code[f->pc];
        for (size_t j = 0; j < A.size(); j++) {
            Acc& a = A[j];
            bool overlap = a.off < off + len && off < a.off + a.len;
            if (overlap && a.tid != me && ((a.fl & 1) || write) && !((a.fl & 2) && atomic) && a.clk > t.vc.t[a.tid]) {
                std::string m = isFree || (a.fl & 4) ? "memory is released without being ordered after a use of it"
                                                     : "unsynchronised conflicting accesses";
                Acc copy = a;
                violation("race", m, I, true, &copy);
            }
            bool drop = false;
            if (a.tid == me && a.off == off && a.len == len && a.fl == fl) drop = true;
            else if (write && !atomic && a.off >= off && a.off + a.len <= off + len &&
                     (a.tid == me || a.clk <= t.vc.t[a.tid]))
                drop = true;
            if (!drop) { if (k != j) A[k] = A[j]; k++; }
        }
        A.resize(k);
        A.push_back({off, len, me, fl, clk, I, f->ctx});
    }
    Val readObj(Obj* o, uint32_t off, unsigned w) {
        unsigned n = (w + 7) / 8;
        bool fast = o->sym.empty() && n <= 8;
        if (fast && !o->init.empty())
            for (unsigned i = 0; i < n; i++)
                if (!o->isInit(off + i)) { fast = false; break; }
        if (fast) {
            uint64_t v = 0;
            memcpy(&v, &o->data[off], n);
            return w >= 64 ? v : v & ((1ull << w) - 1);
        }
        const Node* r = nullptr;
        for (unsigned i = 0; i < n; i++) {
            const Node* b = !o->sym.empty() && o->sym[off + i] ? o->sym[off + i]
                            : o->isInit(off + i)                ? cx.con(o->data[off + i], 8)
                                                                : cx.undef(8);
            r = r ? cx.concat(b, r) : b;
        }
        if (r->w != w) r = cx.extract(r, 0, w);
        return V(r);
    }
    void writeObj(Obj* o, uint32_t off, const Val& v, unsigned w) {
        unsigned n = (w + 7) / 8;
        if (!v.n) {
            memcpy(&o->data[off], &v.c, n);
            if (!o->init.empty()) for (unsigned i = 0; i < n; i++) o->setInit(off + i);
            if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
            return;
        }
        const Node* x = v.n;
        if (x->w < n * 8) x = cx.ext(O_ZEXT, x, n * 8);
        for (unsigned i = 0; i < n; i++) putByte(o, off + i, cx.extract(x, i * 8, 8));
    }
    void putByte(Obj* o, uint32_t off, const Node* b) {
        if (b->op == O_CONST) {
            o->data[off] = (uint8_t)b->c;
            o->setInit(off);
            if (!o->sym.empty()) o->sym[off] = nullptr;
        } else if (b->op == O_UNDEF) {
            o->data[off] = 0;
            o->clrInit(off);
            if (!o->sym.empty()) o->sym[off] = nullptr;
        } else {
            if (o->sym.empty()) o->sym.assign(o->size, nullptr);
            o->sym[off] = b;
            o->data[off] = 0;
            o->setInit(off);
        }
    }
    Val load(uint64_t addr, unsigned w, bool atomic = false) {
        uint32_t off;
        Obj* o = access(addr, (w + 7) / 8, false, off, atomic);
        return readObj(o, off, w);
    }
    void store(uint64_t addr, const Val& v, unsigned w, bool atomic = false) {
        uint32_t off;
        Obj* o = access(addr, (w + 7) / 8, true, off, atomic);
        writeObj(o, off, v, w);
    }
    std::string cstr(uint64_t a) {
        std::string r;
        for (int i = 0; i < 400; i++) {
            uint32_t off;
            Obj* o = access(a + i, 1, false, off);
            Val v = readObj(o, off, 8);
            if (v.n || v.c == 0) break;
            r += (char)v.c;
        }
        return r;
    }
    Obj* newObj(uint32_t size, ObjKind k, bool initd) {
        Obj* o = new Obj();
        o->size = size;
        o->kind = k;
        o->data.assign(size, 0);
        if (!initd) o->init.assign((size + 63) / 64, 0);
        o->serial = ++s->objSerial;
        o->allocTid = s->cur;
        if (!T().stk.empty()) {
            o->site = &T().stk.back()->fn->code[T().stk.back()->pc];
            o->siteCtx = T().stk.back()->ctx;
        }
        return o;
    }
    uint64_t allocHeap(uint64_t size, bool zero = false) {
        Thread& t = T();
        if (size > (1u << 26)) violation("alloc", "allocation of " + std::to_string(size) + " bytes");
        uint32_t i = ++t.heapCtr;
        s->region(R_HEAP + s->cur).set(i, newObj(size, K_HEAP, zero));
        return mkAddr(R_HEAP + s->cur, i);
    }
    void freeHeap(uint64_t a) {
        if (!a) return;
        uint32_t r, i;
        Obj* o = find(s, a, r, i);
        if (!o || o->kind != K_HEAP || (a & 0xffffffff) != BASE) violation("badfree", "release of something that was not allocated");
        if (o->freed) violation("doublefree", "memory released twice");
        uint32_t off;
        if (o->size) access(a, o->size, true, off, false, true);
        o = s->reg[r]->getW(i);
        o->freed = true;
        o->hok = false;
        o->freeSite = &T().stk.back()->fn->code[T().stk.back()->pc];
        o->freeCtx = T().stk.back()->ctx;
        std::vector<uint8_t>().swap(o->data);
        std::vector<const Node*>().swap(o->sym);
        std::vector<uint64_t>().swap(o->init);
        o->acc.clear();
        o->avc.clear();
    }
    void copyMem(uint64_t d, uint64_t sr, uint64_t n) {
        if (!n) return;
        if (d == sr) return;
        uint32_t so, dof;
        Obj* a = access(sr, n, false, so);
        // temp copy
        std::vector<uint8_t> bytes(a->data.begin() + so, a->data.begin() + so + n);
        std::vector<const Node*> sy;
        if (!a->sym.empty()) sy.assign(a->sym.begin() + so, a->sym.begin() + so + n);
        std::vector<bool> in;
        if (!a->init.empty()) { in.resize(n); for (uint64_t i = 0; i < n; i++) in[i] = a->isInit(so + i); }
        Obj* b = access(d, n, true, dof);
        memcpy(&b->data[dof], bytes.data(), n);
        if (in.empty()) { if (!b->init.empty()) for (uint64_t i = 0; i < n; i++) b->setInit(dof + i); }
        else for (uint64_t i = 0; i < n; i++) { if (in[i]) b->setInit(dof + i); else b->clrInit(dof + i); }
        bool anySym = false;
        for (auto* x : sy) anySym |= x != nullptr;
        if (anySym && b->sym.empty()) b->sym.assign(b->size, nullptr);
        if (!b->sym.empty())
            for (uint64_t i = 0; i < n; i++) b->sym[dof + i] = anySym ? sy[i] : nullptr;
    }
    void setMem(uint64_t d, const Val& v, uint64_t n) {
        if (!n) return;
        uint32_t off;
        Obj* o = access(d, n, true, off);
        const Node* b = v.n ? cx.extract(v.n, 0, 8) : nullptr;
        for (uint64_t i = 0; i < n; i++) {
            if (!b) {
                o->data[off + i] = (uint8_t)v.c;
                if (!o->init.empty()) o->setInit(off + i);
                if (!o->sym.empty()) o->sym[off + i] = nullptr;
            } else putByte(o, off + i, b);
        }
    }
    void undefMem(uint64_t a) {
        uint32_t r, i;
        Obj* o = find(s, a, r, i);
        if (!o || o->kind != K_STACK || o->freed || (a & 0xffffffff) != BASE) return;
        o = s->reg[r]->getW(i);
        o->init.assign((o->size + 63) / 64, 0);
        std::fill(o->data.begin(), o->data.end(), 0);
        o->sym.clear();
        o->acc.clear();
        o->hok = false;
    }

    // ---------------------------------------------------------------- frames and calls
    CallCtx* childCtx(CallCtx* p, const Inst* call, FnInfo* callee) {
        auto k = std::make_pair(p, call);
        auto it = ctxTab.find(k);
        if (it != ctxTab.end()) return it->second;
        auto* c = new CallCtx{p, call, callee};
        ctxTab[k] = c;
        return c;
    }
    void pushFrame(Thread& t, FnInfo* fn, const std::vector<Val>& args, const Inst* call) {
        if (!fn->decoded) P.decode(fn);
        if (fn->code.empty()) die("call of undefined function " + fn->name);
        fn->calls++;
        touched.insert(fn);
        auto* f = new Frame();
        f->fn = fn;
        f->r.resize(fn->nslots);
        for (size_t i = 0; i < args.size() && i < fn->nargs; i++) f->r[i] = args[i];
        f->stackBase = t.stackCtr;
        f->ctx = call ? childCtx(t.stk.empty() ? nullptr : t.stk.back()->ctx, call, fn) : nullptr;
        t.stk.push_back(f);
        if (t.stk.size() > 3000) violation("recursion", "call depth exceeds 3000 frames");
    }
    void popFrame(Thread& t, int tid) {
        Frame* f = t.stk.back();
        // release stack objects
        for (uint32_t i = t.stackCtr; i > f->stackBase; i--) s->region(R_STACK + tid).set(i, nullptr);
        t.stackCtr = f->stackBase;
        t.stk.pop_back();
        if (--f->rc == 0) delete f;
    }
    void takeEdge(State* st, Frame& f, const Edge& e) {
        if (e.moves.size() == 1) f.r[e.moves[0].first] = get(f, e.moves[0].second);
        else if (!e.moves.empty()) {
            Val tmp[64];
            std::vector<Val> big;
            Val* p = tmp;
            if (e.moves.size() > 64) { big.resize(e.moves.size()); p = big.data(); }
            for (size_t i = 0; i < e.moves.size(); i++) p[i] = get(f, e.moves[i].second);
            for (size_t i = 0; i < e.moves.size(); i++) f.r[e.moves[i].first] = p[i];
        }
        f.pc = e.target;
    }
    Frame& topOf(State* st) {
        auto& t = st->th[st->cur];
        Frame*& f = t.stk.back();
        if (f->rc > 1) {
            Frame* n = new Frame(*f);
            n->rc = 1;
            f->rc--;
            f = n;
        }
        return *f;
    }
    // finish a call instruction in state st with results
    void finishCall(State* st, const Val* res, unsigned n) {
        Frame& f = topOf(st);
        Inst& i = f.fn->code[f.pc];
        for (unsigned k = 0; k < i.nd && k < n; k++) f.r[i.dst + k] = res[k];
        if (i.invoke) takeEdge(st, f, i.x->edges[0]);
        else f.pc++;
        st->th[st->cur].schedDone = false;
    }

    // ---------------------------------------------------------------- exceptions
    uint64_t rawPtr(uint64_t a) { // read a constant pointer from the initial image
        uint32_t r, i;
        Obj* o = find(s, a, r, i);
        if (!o || o->freed) die("bad constant read");
        return readObj(o, (a & 0xffffffff) - BASE, 64).c;
    }
    std::string tiName(uint64_t ti) {
        auto it = P.gByAddr.find(ti);
        return it == P.gByAddr.end() ? "?" : it->second->getName().str();
    }
    bool tiMatch(uint64_t thrown, uint64_t want, int64_t& adj) {
        if (thrown == want) { adj = 0; return true; }
        auto it = P.gByAddr.find(thrown);
        if (it == P.gByAddr.end() || !it->second->hasInitializer()) return false;
        auto* CS = dyn_cast<ConstantStruct>(it->second->getInitializer());
        if (!CS) return false;
        std::string vt;
        {
            uint64_t va = P.constAddr(CS->getOperand(0));
            auto g = P.gByAddr.find((va & ~0xffffffffull) | BASE);
            if (g != P.gByAddr.end()) vt = g->second->getName().str();
        }
        if (vt == "_ZTVN10__cxxabiv120__si_class_type_infoE") return tiMatch(P.constAddr(CS->getOperand(2)), want, adj);
        if (vt == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
            unsigned n = cast<ConstantInt>(CS->getOperand(3))->getZExtValue();
            for (unsigned k = 0; k < n; k++) {
                int64_t fl = cast<ConstantInt>(CS->getOperand(5 + 2 * k))->getSExtValue();
                if (fl & 1) continue; // virtual base: not needed here
                int64_t a = 0;
                if ((fl & 2) && tiMatch(P.constAddr(CS->getOperand(4 + 2 * k)), want, a)) { adj = (fl >> 8) + a; return true; }
            }
        }
        return false;
    }
    bool padMatches(Inst& call, uint64_t ti, uint64_t& sel, int64_t& adj) {
        for (auto& c : call.x->clauses) {
            if (c.isCatch) {
                if (c.ti[0] == 0) { sel = 0x7fffffff; adj = 0; return true; }
                if (tiMatch(ti, c.ti[0], adj)) { sel = ((c.ti[0] >> 32) & 0xffffff) + 1; return true; }
            } else {
                bool ok = false;
                int64_t a;
                for (auto x : c.ti) if (x == 0 || tiMatch(ti, x, a)) ok = true;
                if (!ok) { sel = 0xffffffff; adj = 0; return true; }
            }
        }
        return false;
    }
    void unwind(uint64_t obj, bool fromResume) {
        Thread& t = T();
        Val tv = load(obj - 32, 64);
        if (tv.n) die("symbolic exception type");
        uint64_t ti = tv.c, sel = 0;
        int64_t adj = 0;
        // phase 1
        int h = -1;
        for (int k = (int)t.stk.size() - 1 - (fromResume ? 1 : 0); k >= 0; k--) {
            Inst& c = t.stk[k]->fn->code[t.stk[k]->pc];
            if (c.op == I_CALL && c.invoke && padMatches(c, ti, sel, adj)) { h = k; break; }
            if (t.stk[k]->fn->F->doesNotThrow() && t.stk[k]->fn->name.find("__cxa") == std::string::npos) break;
        }
        if (h < 0) violation("terminate", "std::terminate: uncaught exception of type " + demangle(tiName(ti)));
        if (fromResume) popFrame(t, s->cur);
        while (true) {
            Frame& f = F();
            Inst& c = f.fn->code[f.pc];
            if (c.op == I_CALL && c.invoke) {
                bool m = padMatches(c, ti, sel, adj);
                if (m || c.x->lpCleanup) {
                    if (!m) sel = 0;
                    for (size_t q = 0; q < t.adjs.size(); q++) if (t.adjs[q].first == obj) { t.adjs.erase(t.adjs.begin() + q); break; }
                    if (m && adj) t.adjs.push_back({obj, obj + adj});
                    Edge& e = c.x->edges[1];
                    takeEdge(s, f, e);
                    Inst& lp = f.fn->code[f.pc];
                    if (lp.op != I_LANDINGPAD) die("landing pad expected");
                    f.r[lp.dst] = Val(obj);
                    f.r[lp.dst + 1] = Val(sel & 0xffffffff);
                    f.pc++;
                    return;
                }
            }
            popFrame(t, s->cur);
            if (t.stk.empty()) die("unwound past the thread entry");
        }
    }

    // ---------------------------------------------------------------- scheduling
    Mutex& mutexAt(State* st, uint64_t a) {
        for (auto& m : st->mx) if (m.addr == a) return m;
        st->mx.push_back({a, -1, VC(), 0});
        return st->mx.back();
    }
    bool mutexFree(State* st, uint64_t a) {
        for (auto& m : st->mx) if (m.addr == a) return m.owner < 0;
        return true;
    }
    bool enabled(State* st, int k, bool timers, bool quiesceOk) {
        Thread& t = st->th[k];
        switch (t.st) {
            case T_RUN: return true;
            case T_MUTEX: return mutexFree(st, t.waitAddr);
            case T_COND:
                return timers && (t.timed || st->spurious > 0) && mutexFree(st, t.waitMutex);
            case T_JOIN: return st->th[t.joinTid].st == T_DONE;
            case T_QUIESCE: {
                if (!quiesceOk) return false;
                for (int j = 0; j < (int)st->th.size(); j++)
                    if (j != k && enabled(st, j, t.quiesceMode & 1, false)) return false;
                return true;
            }
            case T_DONE: return false;
        }
        return false;
    }
    uint64_t hashState(State* st) {
        uint64_t h = hmix(st->cur, st->scriptPos);
        h = hmix(h, st->hw * 131 + st->spurious);
        h = hmix(h, st->now.n ? st->now.n->id * 2654435761ull + 1 : st->now.c);
        uint64_t sum = 0;
        for (int r = 0; r < 128; r++) {
            if (!st->reg[r] || r == R_FUNC) continue;
            auto& ch = st->reg[r]->ch;
            for (size_t c = 0; c < ch.size(); c++)
                if (ch[c])
                    for (int j = 0; j < 32; j++)
                        if (Obj* o = ch[c]->o[j])
                            if (!o->ro) {
                                sum += hmix(o->hash(), (uint64_t)r << 32 | (c * 32 + j));
                                if (O.hashVC)
                                    for (auto& a : o->acc) sum += hmix(a.off, a.len * 977 + a.tid * 31 + a.fl + ((uint64_t)a.clk << 20));
                            }
        }
        h = hmix(h, sum);
        for (auto& t : st->th) {
            h = hmix(h, (uint64_t)t.st | t.phase << 8 | (uint64_t)t.timed << 16 | (uint64_t)t.timedOut << 17);
            h = hmix(h, t.waitAddr);
            h = hmix(h, t.waitMutex ^ ((uint64_t)t.heapCtr << 32) ^ t.varCtr);
            if (O.hashVC) for (auto x : t.vc.t) h = hmix(h, x);
            for (auto* f : t.stk) {
                h = hmix(h, (uint64_t)(uintptr_t)f->fn ^ ((uint64_t)f->pc << 40));
                Inst& i = f->fn->code[f->pc];
                if (i.live) {
                    for (auto k : *i.live) h = hmix(h, f->r[k].n ? f->r[k].n->id * 0x9E3779B97F4A7C15ull + 7 : f->r[k].c);
                } else
                    for (auto& v : f->r) h = hmix(h, v.n ? v.n->id * 0x9E3779B97F4A7C15ull + 7 : v.c);
            }
        }
        sum = 0;
        for (auto& m : st->mx) if (m.owner >= 0) sum += hmix(m.addr, m.owner * 16 + m.depth);
        for (auto& c : st->cv) {
            uint64_t x = c.addr;
            if (c.w.empty()) continue;
            for (int w : c.w) x = hmix(x, w + 1);
            sum += x;
        }
        h = hmix(h, sum);
        sum = 0;
        for (auto* n : st->pc) sum += hmix(n->id, 77);
        h = hmix(h, sum);
        return h;
    }
    bool seen(State* st) {
        if (!O.dedup || O.replay) return false;
        uint64_t h = hashState(st);
        auto it = visited.find(h);
        int key = st->preempt;
        if (it != visited.end() && it->second <= key) return true;
        visited[h] = key;
        return false;
    }
    // make thread k the running one in state st (it was chosen by the scheduler); SPURIOUS + k: its timed wait
    // ends without cause instead of by time-out
    static constexpr int SPURIOUS = 256;
    void activate(State* st, int k) {
        addEv(st, 0, k);
        bool early = k >= SPURIOUS;
        k %= SPURIOUS;
        st->cur = k;
        Thread& t = st->th[k];
        t.schedDone = t.started; // a fresh (or yielding) thread is not at a visible operation yet
        t.started = true;
        if (t.st == T_COND) { // time-out or spurious wake-up
            for (auto& c : st->cv)
                if (c.addr == t.waitAddr) c.w.erase(std::remove(c.w.begin(), c.w.end(), k), c.w.end());
            if (t.timed && !early) {
                t.timedOut = true;
                // time advances to the deadline at least
                Val lt = cmp(O_SLT, st->now, t.deadline, 64);
                if (!lt.n) { if (lt.c) st->now = t.deadline; }
                else st->now = V(cx.ite(lt.n, N(t.deadline, 64), N(st->now, 64)));
            } else
                st->spurious--;
            t.phase = 2;
        }
        t.st = T_RUN;
    }
    // clock mode 2: time is slow, a timed wait runs out only when no thread can run otherwise
    std::vector<int> options(State* st, int except) {
        std::vector<int> v;
        bool slow = st->clockMode == 2, ready = except >= 0;
        if (slow)
            for (int k = 0; k < (int)st->th.size(); k++) ready |= k != except && enabled(st, k, false, true);
        for (int k = 0; k < (int)st->th.size(); k++)
            if (k != except && enabled(st, k, true, true)) {
                bool timed = st->th[k].st == T_COND && st->th[k].timed;
                if (!(slow && ready && timed)) v.push_back(k);
                if (timed && st->spurious > 0) v.push_back(SPURIOUS + k);
            }
        return v;
    }
    size_t replayPos = 0;
    // scheduling point before a visible operation of the running thread
    void schedPoint() {
        schedPoints++;
        if (O.replay) {
            if (replayPos < O.script.size()) {
                int k = (int)O.script[replayPos++];
                if (k != s->cur) activate(s, k);
                else { T().schedDone = true; addEv(s, 0, k); }
            } else { T().schedDone = true; }
            return;
        }
        if (s->preempt < O.preempt) {
            auto v = options(s, s->cur);
            if (!v.empty()) {
                if (seen(s)) { deduped++; throw PathKill(); }
                for (auto it = v.rbegin(); it != v.rend(); ++it) {
                    State* n = fork();
                    n->preempt++;
                    activate(n, *it);
                    push(n);
                }
            }
        }
        T().schedDone = true;
        addEv(s, 0, s->cur);
    }
    // the running thread cannot continue; pick another one
    void reschedule() {
        if (O.replay) {
            if (replayPos < O.script.size()) { activate(s, (int)O.script[replayPos++]); return; }
        }
        auto v = options(s, -1);
        if (v.empty()) {
            std::string m = "no thread can make progress:";
            for (size_t k = 0; k < s->th.size(); k++) {
                Thread& t = s->th[k];
                static const char* nm[] = {"running", "waiting for a mutex", "waiting on a condition", "joining", "quiescing", "finished"};
                if (t.st != T_DONE) m += " T" + std::to_string(k) + " " + nm[t.st] + ";";
            }
            violation("deadlock", m);
        }
        if (v.size() > 1 && seen(s)) { deduped++; throw PathKill(); }
        for (size_t j = v.size(); j-- > 1;) {
            State* n = fork();
            activate(n, v[j]);
            push(n);
        }
        activate(s, v[0]);
    }

    // ---------------------------------------------------------------- atomics
    VC* avc(Obj* o, uint32_t off, bool create) {
        for (auto& p : o->avc) if (p.first == off) return &p.second;
        if (!create) return nullptr;
        o->avc.push_back({off, VC()});
        return &o->avc.back().second;
    }
    void atomicAcquire(Obj* o, uint32_t off, unsigned n, uint8_t ord) {
        if (s->th.size() < 2) return;
        Thread& t = T();
        for (auto& p : o->avc)
            if (p.first < off + n && off < p.first + n) {
                if (ord & 1) t.vc.join(p.second);
                else t.pendAcq.join(p.second);
            }
    }
    void atomicRelease(Obj* o, uint32_t off, uint8_t ord, bool rmw) {
        if (s->th.size() < 2) return;
        Thread& t = T();
        VC* v = avc(o, off, true);
        if (ord & 2) {
            if (rmw) v->join(t.vc); else *v = t.vc;
            t.vc.t[s->cur]++;
        } else {
            if (!rmw) *v = VC();
            v->join(t.relFence);
        }
    }

#include "builtins.inc"

    // ---------------------------------------------------------------- main loop
    void threadDone() {
        Thread& t = T();
        t.st = T_DONE;
        if (s->cur == 0) {
            // main: next script function or end of path
            s->scriptPos++;
            if (s->scriptPos < scriptFns.size()) {
                t.st = T_RUN;
                std::vector<Val> a;
                pushFrame(t, scriptFns[s->scriptPos], a, nullptr);
                return;
            }
            endPath();
            throw PathKill();
        }
        reschedule();
    }
    void endPath() {
        paths++;
        if (s->leakCheck) {
            std::map<std::string, int> leaks;
            for (int r = R_HEAP; r < R_HEAP + MAXT; r++)
                if (s->reg[r])
                    for (auto* c : s->reg[r]->ch)
                        if (c)
                            for (auto* o : c->o)
                                if (o && !o->freed && !o->leakOk && o->serial > s->leakMark) {
                                    std::vector<std::string> rf;
                                    auto st = stackOf(o->site, o->siteCtx, nullptr, &rf);
                                    std::string w = "harness";
                                    for (auto& x : rf) if (!x.empty()) { w = cleanFn(x); break; }
                                    leaks[w]++;
                                    if (leaks.size() == 1 && leaks[w] == 1) leakStack = st;
                                }
            if (!leaks.empty()) {
                std::string m = "not released at the end: ";
                m += "allocation made in " + leaks.begin()->first;
                try { violation("leak", m); } catch (PathKill&) {}
                viols["leak:" + m].stack = leakStack;
            }
        }
        for (auto id : s->reach) reach[reachNames[id]]++;
        if (O.traces && (paths & (paths - 1)) == 0) {
            std::string t = trace();
            if ((int)traces.size() < O.traces) traces.push_back(t);
            else traces[traceCtr % O.traces] = t;
            traceCtr++;
        }
        if ((int)samples.size() < O.samples && (paths & (paths - 1)) == 0) samples.push_back(describe());
    }
    std::vector<std::string> leakStack;
    // a finished path with everything needed to run it natively and to compare what it observes
    std::string trace() {
        Violation v;
        collectInputs(s, v);
        std::vector<const Ev*> es;
        for (auto* e = s->ev; e; e = e->prev) if (e->kind == 2 || e->kind == 5) es.push_back(e);
        uint64_t h = 1469598103934665603ull;
        auto mix = [&](unsigned char c) { h = (h ^ c) * 1099511628211ull; };
        for (size_t k = es.size(); k-- > 0;) {
            for (const char* p = es[k]->name; *p; ++p) mix((unsigned char)*p);
            for (int i = 0; i < 8; i++) mix((unsigned char)((es[k]->kind == 5 ? 0 : es[k]->v) >> (8 * i)));
        }
        uint64_t vars = 0;
        for (auto& t : s->th) vars += t.varCtr;
        std::string r = "{\"inputs\":{";
        for (size_t i = 0; i < v.inputs.size(); i++)
            r += (i ? "," : "") + jstr(v.inputs[i].first) + ":" + v.inputs[i].second.second;
        r += "},\"sched\":\"";
        for (auto& x : v.sched) r += x + " ";
        char b[200];
        snprintf(b, sizeof b, "\",\"expect\":\"asserts=%llu vars=%llu threads=%zu observed=%zu:%llx\"}", (unsigned long long)s->nassert,
                 (unsigned long long)vars, s->th.size(), es.size(), (unsigned long long)h);
        return r + b;
    }
    std::string describe() {
        Violation v;
        collectInputs(s, v);
        std::string r = "inputs:";
        for (auto& i : v.inputs) r += " " + i.first + "=" + i.second.second;
        r += " schedule:";
        std::string last;
        int n = 0, tot = 0;
        for (auto& x : v.sched) {
            if (x == last) { n++; continue; }
            if (n) r += " T" + last + "x" + std::to_string(n);
            if (++tot > 60) { r += " ..."; break; }
            last = x;
            n = 1;
        }
        if (n && tot <= 60) r += " T" + last + "x" + std::to_string(n);
        for (auto& x : v.notes) r += " " + x;
        return r;
    }

    void traceStep(Frame& f) {
        Inst& i = f.fn->code[f.pc];
        std::vector<std::string> rf, st = stackOf(&i, f.ctx, f.fn, &rf);
        std::string out;
        int k = 0;
        for (auto& x : st)
            if (x.find("/usr/") == std::string::npos && k++ < 5) out += (k > 1 ? " < " : "") + x;
        std::string op;
        llvm::raw_string_ostream os(op);
        if (i.I) i.I->print(os);
        if (op.size() > 70) op.resize(70);
        fprintf(stderr, "  T%d %s  @ %s\n", s->cur, op.c_str(), out.c_str());
    }
    void runState() {
        while (true) {
            if (T().stk.empty()) { threadDone(); continue; }
            Frame& f = F();
            Inst& i = f.fn->code[f.pc];
            if (i.visible && (i.visible != 2 || O.unlockSched) && !T().schedDone && s->th.size() > 1) {
                int cur = s->cur;
                schedPoint();
                if (s->cur != cur) continue;
                Frame& f2 = F();
                if (O.replay && O.trace) traceStep(f2);
                f2.fn->code[f2.pc].hit = true;
                exec(f2, f2.fn->code[f2.pc]);
            } else {
                if (O.replay && O.trace && i.visible) traceStep(f);
                i.hit = true;
                exec(f, i);
            }
            if ((++insts & 8191) == 0) {
                if (elapsed() > O.maxTime) { timedOut = true; truncReason = "time limit"; throw PathKill(); }
            }
            if (++s->insts > O.maxPathInsts) violation("nonterm", "path exceeds the instruction bound (possible non-termination)");
            if (forkedNow) {
                forkedNow = false;
                if (stopAtFork) return;
            }
        }
    }

    void initGlobals() {
        uint32_t k = 1;
        for (auto* g : P.gList) {
            Type* VT = g->getValueType();
            uint64_t sz = g->hasInitializer() ? P.DL->getTypeAllocSize(VT).getFixedValue() : 256;
            Obj* o = newObj(sz, K_GLOBAL, true);
            o->ro = g->isConstant() && g->hasInitializer();
            s->region(R_GLOBAL).set(k++, o);
        }
        k = 1;
        for (auto* f : P.fnList) {
            (void)f;
            Obj* o = newObj(0, K_FUNC, true);
            o->ro = true;
            s->region(R_FUNC).set(k++, o);
        }
        for (auto* g : P.gList)
            if (g->hasInitializer()) {
                uint64_t a = P.gaddr[g];
                uint32_t r, i;
                find(s, a, r, i);
                Obj* o = s->reg[r]->getW(i);
                initConst(o, g->getInitializer(), 0);
            }
    }
    void initConst(Obj* o, const Constant* C, uint32_t off) {
        if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || C->isNullValue()) return;
        if (auto* A = dyn_cast<ConstantDataSequential>(C)) {
            StringRef raw = A->getRawDataValues();
            memcpy(&o->data[off], raw.data(), raw.size());
            return;
        }
        std::vector<Leaf> ls;
        P.leaves(C->getType(), 0, ls);
        std::vector<Val> vs;
        P.flat(C, vs);
        if (ls.size() != vs.size()) die("initialiser shape");
        for (size_t i = 0; i < ls.size(); i++)
            if (!(vs[i].n && vs[i].n->undef)) writeObj(o, off + ls[i].off, vs[i], ls[i].w);
    }

    void run() {
        s = new State();
        s->th.resize(1);
        s->th[0].vc.t[0] = 1;
        s->now = Val(1000000000ull);
        initGlobals();
        // script: constructors, entry, exit handlers
        if (auto* G = P.M->getGlobalVariable("llvm.global_ctors")) {
            if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) {
                std::vector<std::pair<uint64_t, Function*>> v;
                for (auto& o : A->operands()) {
                    auto* CS = cast<ConstantStruct>(&o);
                    if (auto* fn = dyn_cast<Function>(CS->getOperand(1)))
                        v.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), fn});
                }
                std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
                for (auto& x : v) scriptFns.push_back(P.fns[x.second]);
            }
        }
        auto* E = P.M->getFunction(O.entry);
        if (!E) die("no entry function " + O.entry);
        scriptFns.push_back(P.fns[E]);
        if (auto* X = P.M->getFunction("__sym_run_atexit")) scriptFns.push_back(P.fns[X]);
        std::vector<Val> a;
        pushFrame(s->th[0], scriptFns[0], a, nullptr);
        std::deque<State*> q;
        if (O.parts > 1) {
            q.push_back(s);
            stopAtFork = true;
            size_t target = (size_t)O.parts * 6;
            uint64_t steps = 0;
            while (!q.empty() && q.size() < target && steps++ < 4000) {
                s = q.front();
                q.pop_front();
                forkedNow = false;
                bool alive = true;
                try { runState(); } catch (PathKill&) { alive = false; }
                if (alive) q.push_back(s); else delete s;
                for (auto* w : work) q.push_back(w);
                work.clear();
                if (timedOut || (int)viols.size() >= O.maxViol) break;
            }
            stopAtFork = false;
            size_t k = 0;
            // the statistics of the shared prefix are counted by partition 0 only
            if (O.part != 0) { paths = 0; reach.clear(); }
            for (auto* st : q) {
                if ((int)(k++ % O.parts) == O.part) work.push_back(st);
                else delete st;
            }
        } else
            work.push_back(s);
        while (!work.empty() && !timedOut) {
            s = work.back();
            work.pop_back();
            forkedNow = false;
            try { runState(); } catch (PathKill&) {}
            delete s;
            if ((int)viols.size() >= O.maxViol) { truncated = true; truncReason = "violation limit"; break; }
            if (paths >= O.maxPaths) { truncated = true; truncReason = "path limit"; break; }
            if (elapsed() > O.maxTime) { timedOut = true; truncReason = "time limit"; }
        }
        for (auto* st : work) delete st;
    }
};
