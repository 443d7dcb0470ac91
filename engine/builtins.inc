    // ---------------------------------------------------------------- builtins (included in class Executor)
    void initBuiltins() {
        static const std::map<std::string, int> exact = {
            {"__sym_fresh", B_FRESH}, {"__sym_assume", B_ASSUME}, {"__sym_assert", B_ASSERT},
            {"__sym_choose", B_CHOOSE}, {"__sym_reach", B_REACH}, {"__sym_note", B_NOTE},
            {"__sym_concretize", B_CONC}, {"__sym_set_hw", B_HW}, {"__sym_hw", B_OPT},
            {"__sym_leak_check", B_LEAK}, {"__sym_fail", B_FAIL}, {"__sym_quiesce", B_QUIESCE},
            {"__sym_tid", B_TID}, {"__sym_option", B_OPTION}, {"__sym_advance", B_ADVANCE},
            {"__sym_now", B_NOW}, {"__sym_thread_create", B_THREAD_CREATE}, {"__sym_thread_join", B_THREAD_JOIN},
            {"__sym_unwind", B_UNWIND}, {"__sym_last_adjusted", B_LASTADJ}, {"__sym_terminate", B_TERMINATE},
            {"__sym_leak_ok", B_ISCONST + 100}, {"__sym_atomic_add", B_ISCONST + 101},
            {"__sym_sync_acquire", B_ISCONST + 102}, {"__sym_sync_release", B_ISCONST + 103},
            {"__sym_blocked", B_BLOCKED}, {"__sym_nthreads", B_NTHREADS},
            {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE},
            {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW},
            {"_ZnwmSt11align_val_t", B_NEW}, {"_ZnamSt11align_val_t", B_NEW},
            {"_ZdlPv", B_FREE}, {"_ZdaPv", B_FREE}, {"_ZdlPvm", B_FREE}, {"_ZdaPvm", B_FREE},
            {"_ZdlPvSt11align_val_t", B_FREE}, {"_ZdlPvmSt11align_val_t", B_FREE}, {"_ZdaPvSt11align_val_t", B_FREE}, {"_ZdaPvmSt11align_val_t", B_FREE},
            {"_ZdlPvRKSt9nothrow_t", B_FREE}, {"_ZdaPvRKSt9nothrow_t", B_FREE}, {"_ZnwmSt11align_val_tRKSt9nothrow_t", B_NEW},
            {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET},
            {"pthread_mutex_lock", B_MLOCK}, {"pthread_mutex_trylock", B_MTRYLOCK},
            {"pthread_mutex_unlock", B_MUNLOCK}, {"pthread_mutex_init", B_RET0}, {"pthread_mutex_destroy", B_RET0},
            {"pthread_cond_wait", B_CWAIT}, {"pthread_cond_timedwait", B_CTIMEDWAIT},
            {"pthread_cond_clockwait", B_CTIMEDWAIT}, {"pthread_cond_signal", B_CSIGNAL},
            {"pthread_cond_broadcast", B_CBCAST}, {"pthread_cond_init", B_RET0}, {"pthread_cond_destroy", B_RET0},
            {"sched_yield", B_YIELD}, {"pthread_setname_np", B_RET0}, {"pthread_self", B_SELF},
            {"abort", B_ABORT}, {"_ZSt9terminatev", B_TERMINATE}, {"exit", B_EXIT}, {"__cxa_pure_virtual", B_ABORT},
            {"__assert_fail", B_ABORT}, {"_Exit", B_EXIT}, {"_exit", B_EXIT}, {"ceil", B_CEIL},
        };
        for (auto* f : P.fnList) {
            auto it = exact.find(f->name);
            if (it != exact.end() && f->F->isDeclaration()) f->builtin = it->second;
            if (f->name.rfind("llvm.", 0) == 0) f->builtin = llvmBuiltin(f->name);
            switch (f->builtin) {
                case B_MLOCK: case B_MTRYLOCK: case B_CSIGNAL: case B_CBCAST: f->visibleCall = 1; break;
                case B_MUNLOCK: f->visibleCall = 2; break;
                default: break;
            }
        }
    }
    static int llvmBuiltin(const std::string& n) {
        static const std::vector<std::pair<std::string, int>> pre = {
            {"llvm.memcpy.", B_MEMCPY}, {"llvm.memmove.", B_MEMMOVE}, {"llvm.memset.", B_MEMSET},
            {"llvm.x86.sse2.pause", B_YIELD}, {"llvm.lifetime.start", B_LIFESTART}, {"llvm.lifetime.end", B_LIFEEND},
            {"llvm.uadd.with.overflow", B_UADDO}, {"llvm.sadd.with.overflow", B_SADDO},
            {"llvm.usub.with.overflow", B_USUBO}, {"llvm.ssub.with.overflow", B_SSUBO},
            {"llvm.umul.with.overflow", B_UMULO}, {"llvm.smul.with.overflow", B_SMULO},
            {"llvm.umin.", B_UMIN}, {"llvm.umax.", B_UMAX}, {"llvm.smin.", B_SMIN}, {"llvm.smax.", B_SMAX},
            {"llvm.abs.", B_ABS}, {"llvm.ctpop.", B_CTPOP}, {"llvm.ctlz.", B_CTLZ}, {"llvm.cttz.", B_CTTZ},
            {"llvm.bswap.", B_BSWAP}, {"llvm.fshl.", B_FSHL}, {"llvm.fshr.", B_FSHR},
            {"llvm.usub.sat.", B_USUBSAT}, {"llvm.uadd.sat.", B_UADDSAT}, {"llvm.expect.", B_EXPECT},
            {"llvm.assume", B_NOP}, {"llvm.eh.typeid.for", B_TYPEID}, {"llvm.threadlocal.address", B_TLS},
            {"llvm.objectsize", B_OBJSIZE}, {"llvm.trap", B_TRAP}, {"llvm.ubsantrap", B_TRAP},
            {"llvm.is.constant", B_ISCONST}, {"llvm.experimental.noalias.scope.decl", B_NOP},
            {"llvm.invariant", B_NOP}, {"llvm.stacksave", B_STACKSAVE}, {"llvm.stackrestore", B_NOP},
            {"llvm.ptrmask", B_PTRMASK}, {"llvm.donothing", B_NOP}, {"llvm.sideeffect", B_NOP},
            {"llvm.prefetch", B_NOP}, {"llvm.ceil.", B_CEIL},
        };
        for (auto& p : pre)
            if (n.rfind(p.first, 0) == 0) return p.second;
        return B_UNKNOWN;
    }

    void touch(uint64_t a, const char* what) {
        (void)what;
        uint32_t off;
        access(a, 1, true, off, true);
    }
    Val fresh(const std::string& base, unsigned w) {
        std::string vn = varName(base.c_str());
        const char* nm = intern(vn);
        const Node* v = cx.var(vn, w);
        if (O.replay) {
            auto it = O.inputs.find(vn);
            uint64_t x = it == O.inputs.end() ? 0 : it->second;
            if (w < 64) x &= (1ull << w) - 1;
            s->model[v->aux] = x;
            addEv(s, 3, x, nm, w);
            return Val(x);
        }
        addEv(s, 3, 0, nm, w);
        return Val(v);
    }
    void assume(const Val& c) {
        if (!c.n) {
            if (!(c.c & 1)) { killedAssume++; throw PathKill(); }
            return;
        }
        checkUndef(c, "an assumption");
        Model m = s->model;
        if (!may(c.n, m)) { killedAssume++; throw PathKill(); }
        s->model = m;
        addPC(s, c.n);
    }
    void assertTrue(const Val& c, const std::string& msg) {
        if (!c.n) {
            if (c.c & 1) { assertsTrivial++; return; }
            violation("assert", msg);
        }
        checkUndef(c, "an assertion");
        Model m = s->model;
        if (!may(cx.lnot(c.n), m)) { assertsProved++; return; }
        Model keep = s->model;
        s->model = m;
        violation("assert", msg, nullptr, false);
        s->model = keep;
        Model m2 = keep;
        if (!may(c.n, m2)) { violPaths++; throw PathKill(); }
        s->model = m2;
        addPC(s, c.n);
    }
    void acquireMutex(uint64_t a) {
        Mutex& m = mutexAt(s, a);
        m.owner = s->cur;
        T().vc.join(m.vc);
    }
    bool recursive(uint64_t a) { // PTHREAD_MUTEX_RECURSIVE_NP in __kind
        Val k = load(a + 16, 32);
        return !k.n && (k.c & 3) == 1;
    }
    void releaseMutex(uint64_t a) {
        Mutex& m = mutexAt(s, a);
        m.owner = -1;
        m.vc = T().vc;
        T().vc.t[s->cur]++;
    }
    void wakeWaiter(State* st, Cond& c, size_t k) {
        int w = c.w[k];
        c.w.erase(c.w.begin() + k);
        Thread& t = st->th[w];
        t.st = T_MUTEX;
        t.waitAddr = t.waitMutex;
        t.phase = 2;
    }
    Cond* condAt(State* st, uint64_t a, bool mk) {
        for (auto& c : st->cv) if (c.addr == a) return &c;
        if (!mk) return nullptr;
        st->cv.push_back({a, {}});
        return &st->cv.back();
    }
    uint64_t cptr(const Val& v, const char* what) { return concretize(v, 64, what); }

    void ret0() { Val z(0); finishCall(s, &z, 1); }
    void retv(const Val& v) { finishCall(s, &v, 1); }

    void builtin(FnInfo* fn, const Inst& i, const std::vector<Val>& a) {
        Thread& t = T();
        switch (fn->builtin) {
            case B_NOP: finishCall(s, nullptr, 0); return;
            case B_RET0: ret0(); return;
            case B_FRESH: {
                unsigned w = (unsigned)concretize(a[1], 32, "width");
                Val v = fresh(cstr(cptr(a[0], "name")), w);
                retv(castv(v, w, 64, false));
                return;
            }
            case B_ASSUME: assume(castv(a[0], i.x ? argw(i, 0) : 32, 1, false)); finishCall(s, nullptr, 0); return;
            case B_ASSERT: {
                std::string m = cstr(cptr(a[1], "message"));
                Val c = castv(a[0], argw(i, 0), 1, false);
                s->nassert++;
                assertTrue(c, m);
                finishCall(s, nullptr, 0);
                return;
            }
            case B_CHOOSE: {
                std::string nm = cstr(cptr(a[0], "name"));
                uint32_t n = (uint32_t)concretize(a[1], 32, "choice count");
                choose(n, nm.c_str(), [&](State* st, uint32_t k) { Val v(k); finishCall(st, &v, 1); });
                return;
            }
            case B_REACH: {
                std::string tag = cstr(cptr(a[0], "tag"));
                reach[tag]++;
                addEv(s, 5, 0, intern(tag));
                finishCall(s, nullptr, 0);
                return;
            }
            case B_NOTE: {
                std::string nm = cstr(cptr(a[0], "tag"));
                cx.newEval();
                uint64_t v = a[1].n ? (uint64_t)cx.eval(a[1].n, s->model) : a[1].c;
                addEv(s, 2, v, intern(nm));
                finishCall(s, nullptr, 0);
                return;
            }
            case B_CONC: retv(Val(concretize(a[0], 64, "a concretised value"))); return;
            case B_HW: s->hw = (int)concretize(a[0], 32, "hw"); finishCall(s, nullptr, 0); return;
            case B_OPT: retv(Val((uint64_t)s->hw)); return;
            case B_LEAK:
                s->leakCheck = true;
                s->leakMark = 0;
                finishCall(s, nullptr, 0);
                return;
            case B_ISCONST + 100: { // leak_ok(ptr)
                uint32_t r, k;
                uint64_t p = cptr(a[0], "pointer");
                if (Obj* o = find(s, p, r, k)) { (void)o; s->reg[r]->getW(k)->leakOk = true; }
                finishCall(s, nullptr, 0);
                return;
            }
            case B_ISCONST + 101: { // atomic_add(int*, delta) -> new value; ordered, not a scheduling point
                uint64_t p = cptr(a[0], "pointer");
                uint32_t off;
                Obj* o = access(p, 4, true, off, true);
                Val v = bin(O_ADD, readObj(o, off, 32), a[1], 32);
                atomicAcquire(o, off, 4, 3);
                writeObj(o, off, v, 32);
                atomicRelease(o, off, 3, true);
                retv(v);
                return;
            }
            case B_ISCONST + 102: case B_ISCONST + 103: { // happens-before edges of harness-level synchronisation
                uint64_t p = cptr(a[0], "pointer");
                Mutex& m = mutexAt(s, p ^ 0x5a5a);
                if (fn->builtin == B_ISCONST + 102) t.vc.join(m.vc);
                else { m.vc.join(t.vc); t.vc.t[s->cur]++; }
                finishCall(s, nullptr, 0);
                return;
            }
            case B_FAIL: violation("assert", cstr(cptr(a[0], "message"))); return;
            case B_QUIESCE:
                if (t.phase == 0) {
                    t.st = T_QUIESCE;
                    t.phase = 1;
                    t.quiesceMode = (uint8_t)concretize(a[0], 32, "mode");
                    reschedule();
                    return;
                }
                t.phase = 0;
                for (size_t k = 0; k < s->th.size(); k++) {
                    if ((int)k == s->cur) continue;
                    t.vc.join(s->th[k].vc);
                    s->th[k].vc.t[k]++;
                }
                for (auto& x : s->th) x.vc.join(t.vc); // idle threads wake up through synchronisation later
                t.vc.t[s->cur]++;
                finishCall(s, nullptr, 0);
                return;
            case B_TID: retv(Val((uint64_t)s->cur)); return;
            case B_SELF: retv(Val((uint64_t)s->cur + 1)); return;
            case B_NTHREADS: retv(Val(s->th.size())); return;
            case B_BLOCKED: { // number of threads that are neither running nor finished
                uint64_t n = 0;
                for (auto& x : s->th) n += x.st != T_RUN && x.st != T_DONE;
                retv(Val(n));
                return;
            }
            case B_OPTION: {
                std::string nm = cstr(cptr(a[0], "option"));
                uint64_t v = concretize(a[1], 64, "option");
                if (nm == "spurious") s->spurious = (int)v;
                else if (nm == "clock") s->clockMode = (int)v;
                else if (nm == "preempt") { if (!O.preemptFixed) O.preempt = (int)v; }
                else if (nm == "unlock_sched") O.unlockSched = (int)v;
                else if (nm == "hashvc") O.hashVC = v;
                else die("unknown option " + nm);
                finishCall(s, nullptr, 0);
                return;
            }
            case B_ADVANCE: s->now = bin(O_ADD, s->now, a[0], 64); finishCall(s, nullptr, 0); return;
            case B_NOW: {
                if (s->clockMode == 1) {
                    Val d = fresh("clock", 64);
                    assume(cmp(O_ULE, d, Val(1ull << 40), 64));
                    s->now = bin(O_ADD, s->now, d, 64);
                }
                retv(s->now);
                return;
            }
            case B_MALLOC: case B_NEW: {
                uint64_t n = concretize(a[0], 64, "allocation size");
                retv(Val(allocHeap(n)));
                return;
            }
            case B_CALLOC: {
                uint64_t n = concretize(a[0], 64, "allocation size") * concretize(a[1], 64, "allocation size");
                retv(Val(allocHeap(n, true)));
                return;
            }
            case B_FREE: freeHeap(cptr(a[0], "pointer")); finishCall(s, nullptr, 0); return;
            case B_MEMCPY: case B_MEMMOVE: {
                uint64_t d = cptr(a[0], "pointer"), sr = cptr(a[1], "pointer"), n = concretize(a[2], 64, "size");
                copyMem(d, sr, n);
                retv(Val(d));
                return;
            }
            case B_MEMSET: {
                uint64_t d = cptr(a[0], "pointer"), n = concretize(a[2], 64, "size");
                Val v = castv(a[1], argw(i, 1), 8, false);
                setMem(d, v, n);
                retv(Val(d));
                return;
            }
            case B_THREAD_CREATE: {
                FnInfo* f = P.fnAt(cptr(a[0], "function"));
                if (!f) violation("wild", "thread entry is not a function");
                if (s->th.size() >= (size_t)MAXT) die("too many threads");
                int k = (int)s->th.size();
                s->th.emplace_back();
                maxThreads = std::max(maxThreads, k + 1);
                Thread& n = s->th.back();
                Thread& me = T();
                n.vc = me.vc;
                n.vc.t[k] = 1;
                me.vc.t[s->cur]++;
                std::vector<Val> av{a[1]};
                int keep = s->cur;
                s->cur = k;
                n.schedDone = false;
                pushFrame(n, f, av, nullptr);
                s->cur = keep;
                retv(Val((uint64_t)k));
                return;
            }
            case B_THREAD_JOIN: {
                int k = (int)concretize(a[0], 64, "thread id");
                if (k <= 0 || k >= (int)s->th.size() || k == s->cur) violation("wild", "join of an invalid thread");
                if (s->th[k].st != T_DONE) {
                    t.st = T_JOIN;
                    t.joinTid = k;
                    reschedule();
                    return;
                }
                t.vc.join(s->th[k].vc);
                finishCall(s, nullptr, 0);
                return;
            }
            case B_MLOCK: {
                uint64_t m = cptr(a[0], "mutex");
                touch(m, "lock");
                Mutex& x = mutexAt(s, m);
                if (x.owner == s->cur) {
                    if (!recursive(m)) violation("deadlock", "a thread locks a mutex it already holds");
                    ++x.depth;
                    ret0();
                    return;
                }
                if (x.owner >= 0) {
                    t.st = T_MUTEX;
                    t.waitAddr = m;
                    reschedule();
                    return;
                }
                acquireMutex(m);
                ret0();
                return;
            }
            case B_MTRYLOCK: {
                uint64_t m = cptr(a[0], "mutex");
                touch(m, "trylock");
                if (Mutex& x = mutexAt(s, m); x.owner >= 0) {
                    if (x.owner != s->cur || !recursive(m)) { retv(Val(16)); return; }
                    ++x.depth;
                    ret0();
                    return;
                }
                acquireMutex(m);
                ret0();
                return;
            }
            case B_MUNLOCK: {
                uint64_t m = cptr(a[0], "mutex");
                touch(m, "unlock");
                Mutex& x = mutexAt(s, m);
                if (x.owner != s->cur) violation("lock", "unlock of a mutex the thread does not hold");
                if (x.depth) --x.depth;
                else releaseMutex(m);
                ret0();
                return;
            }
            case B_CWAIT: case B_CTIMEDWAIT: {
                uint64_t c = cptr(a[0], "condition"), m = cptr(a[1], "mutex");
                if (t.phase == 0) {
                    touch(c, "wait");
                    touch(m, "wait");
                    if (mutexAt(s, m).owner != s->cur) violation("lock", "wait without holding the mutex");
                    t.timed = fn->builtin == B_CTIMEDWAIT;
                    t.timedOut = false;
                    if (t.timed) {
                        uint64_t ts = cptr(a.back(), "timespec");
                        Val sec = load(ts, 64), ns = load(ts + 8, 64);
                        const Val G(1000000000ull);
                        // seconds and nanoseconds of one duration: use it as it was before it was split
                        const Node* whole = sec.n && sec.n->op == O_SDIV && sec.n->k[1]->op == O_CONST &&
                                            sec.n->k[1]->c == 1000000000u ? sec.n->k[0] : nullptr;
                        if (whole && ns.n && (bin(O_ADD, V(whole), bin(O_MUL, sec, Val(-1000000000ll), 64), 64).n == ns.n ||
                                              bin(O_SUB, V(whole), bin(O_MUL, sec, G, 64), 64).n == ns.n))
                            t.deadline = V(whole);
                        else
                            t.deadline = bin(O_ADD, bin(O_MUL, sec, Val(1000000000ull), 64), ns, 64);
                    }
                    releaseMutex(m);
                    condAt(s, c, true)->w.push_back(s->cur);
                    t.st = T_COND;
                    t.waitAddr = c;
                    t.waitMutex = m;
                    t.phase = 2;
                    reschedule();
                    return;
                }
                if (mutexAt(s, m).owner >= 0) { // woken but somebody else took the mutex
                    t.st = T_MUTEX;
                    t.waitAddr = m;
                    reschedule();
                    return;
                }
                acquireMutex(m);
                t.phase = 0;
                bool to = t.timedOut;
                t.timedOut = false;
                t.timed = false;
                retv(Val(to ? 110 : 0));
                return;
            }
            case B_CSIGNAL: case B_CBCAST: {
                uint64_t c = cptr(a[0], "condition");
                touch(c, "notify");
                Cond* cv = condAt(s, c, false);
                if (!cv || cv->w.empty()) { ret0(); return; }
                if (fn->builtin == B_CBCAST) {
                    while (!cv->w.empty()) wakeWaiter(s, *cv, 0);
                    ret0();
                    return;
                }
                if (cv->w.size() == 1) { wakeWaiter(s, *cv, 0); ret0(); return; }
                choose((uint32_t)cv->w.size(), "wake", [&](State* st, uint32_t k) {
                    wakeWaiter(st, *condAt(st, c, false), k);
                    Val z(0);
                    finishCall(st, &z, 1);
                });
                return;
            }
            case B_YIELD: {
                // give way: another enabled thread runs next (fairness for spin loops)
                auto v = options(s, s->cur);
                ret0();
                if (v.empty()) return;
                T().started = false;
                if (O.replay && replayPos < O.script.size()) { activate(s, (int)O.script[replayPos++]); return; }
                if (seen(s)) { deduped++; throw PathKill(); }
                for (size_t j = v.size(); j-- > 1;) {
                    State* n = fork();
                    activate(n, v[j]);
                    push(n);
                }
                activate(s, v[0]);
                return;
            }
            case B_UNWIND: unwind(cptr(a[0], "exception"), false); return;
            case B_LASTADJ: {
                uint64_t o = cptr(a[0], "exception"), r = o;
                for (auto& x : t.adjs) if (x.first == o) r = x.second;
                retv(Val(r));
                return;
            }
            case B_TERMINATE: violation("terminate", "std::terminate called"); return;
            case B_ABORT: violation("abort", "abort called"); return;
            case B_TRAP: violation("trap", "trap instruction reached (undefined behaviour)"); return;
            case B_EXIT: violation("abort", "exit called"); return;
            case B_UADDO: case B_SADDO: case B_USUBO: case B_SSUBO: case B_UMULO: case B_SMULO: {
                unsigned w = argw(i, 0);
                bool sg = fn->builtin == B_SADDO || fn->builtin == B_SSUBO || fn->builtin == B_SMULO;
                Op op = (fn->builtin == B_UADDO || fn->builtin == B_SADDO) ? O_ADD
                        : (fn->builtin == B_USUBO || fn->builtin == B_SSUBO) ? O_SUB : O_MUL;
                unsigned ww = op == O_MUL ? 2 * w : w + 2;
                if (ww > 128) die("overflow intrinsic too wide");
                Val x = castv(a[0], w, ww, sg), y = castv(a[1], w, ww, sg);
                Val r = bin(op, x, y, ww);
                Val lo = castv(r, ww, w, false);
                Val back = castv(lo, w, ww, sg);
                Val res[2] = {lo, lnot(cmp(O_EQ, r, back, ww))};
                finishCall(s, res, 2);
                return;
            }
            case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: {
                unsigned w = argw(i, 0);
                unsigned n = i.nd;
                std::vector<Val> res;
                for (unsigned k = 0; k < n; k++) {
                    const Val &x = a[k], &y = a[n + k];
                    Op op = fn->builtin == B_UMIN || fn->builtin == B_UMAX ? O_ULT : O_SLT;
                    bool mn = fn->builtin == B_UMIN || fn->builtin == B_SMIN;
                    res.push_back(sel(cmp(op, x, y, w), mn ? x : y, mn ? y : x, w));
                }
                finishCall(s, res.data(), n);
                return;
            }
            case B_ABS: {
                unsigned w = argw(i, 0);
                Val neg = bin(O_SUB, Val(0), a[0], w);
                retv(sel(cmp(O_SLT, a[0], Val(0), w), neg, a[0], w));
                return;
            }
            case B_CTPOP: case B_CTLZ: case B_CTTZ: {
                unsigned w = argw(i, 0);
                Val r(fn->builtin == B_CTPOP ? 0 : w);
                if (!a[0].n) {
                    uint64_t x = a[0].c;
                    uint64_t v = fn->builtin == B_CTPOP ? __builtin_popcountll(x)
                                 : x == 0 ? w
                                 : fn->builtin == B_CTLZ ? (unsigned)__builtin_clzll(x) - (64 - w)
                                                         : (unsigned)__builtin_ctzll(x);
                    retv(Val(v));
                    return;
                }
                if (w > 64) die("wide bit count");
                if (fn->builtin == B_CTPOP) {
                    for (unsigned b = 0; b < w; b++)
                        r = bin(O_ADD, r, castv(castv(bin(O_LSHR, a[0], Val(b), w), w, 1, false), 1, w, false), w);
                } else if (fn->builtin == B_CTLZ) {
                    for (unsigned b = 0; b < w; b++)
                        r = sel(castv(bin(O_LSHR, a[0], Val(b), w), w, 1, false), Val(w - 1 - b), r, w);
                } else {
                    for (unsigned b = w; b-- > 0;)
                        r = sel(castv(bin(O_LSHR, a[0], Val(b), w), w, 1, false), Val(b), r, w);
                }
                retv(r);
                return;
            }
            case B_BSWAP: {
                unsigned w = argw(i, 0);
                const Node* x = N(a[0], w);
                const Node* r = nullptr;
                for (unsigned b = 0; b < w; b += 8) {
                    const Node* y = cx.extract(x, b, 8);
                    r = r ? cx.concat(r, y) : y;
                }
                retv(V(r));
                return;
            }
            case B_FSHL: case B_FSHR: {
                unsigned w = argw(i, 0);
                if (a[2].n) die("symbolic funnel shift");
                unsigned k = a[2].c % w;
                Val r;
                if (k == 0) r = fn->builtin == B_FSHL ? a[0] : a[1];
                else if (fn->builtin == B_FSHL) r = bin(O_OR, bin(O_SHL, a[0], Val(k), w), bin(O_LSHR, a[1], Val(w - k), w), w);
                else r = bin(O_OR, bin(O_SHL, a[0], Val(w - k), w), bin(O_LSHR, a[1], Val(k), w), w);
                retv(r);
                return;
            }
            case B_USUBSAT: {
                unsigned w = argw(i, 0);
                retv(sel(cmp(O_ULT, a[0], a[1], w), Val(0), bin(O_SUB, a[0], a[1], w), w));
                return;
            }
            case B_UADDSAT: {
                unsigned w = argw(i, 0);
                Val r = bin(O_ADD, a[0], a[1], w);
                retv(sel(cmp(O_ULT, r, a[0], w), Val((uint64_t)maskw(w)), r, w));
                return;
            }
            case B_EXPECT: retv(a[0]); return;
            case B_ISCONST: retv(Val(0)); return;
            case B_STACKSAVE: retv(Val(0)); return;
            case B_OBJSIZE: retv(Val(~0ull & (uint64_t)maskw(i.w))); return;
            case B_PTRMASK: retv(bin(O_AND, a[0], a[1], 64)); return;
            case B_TYPEID: retv(Val(((a[0].c >> 32) & 0xffffff) + 1)); return;
            case B_TLS: {
                uint64_t g = cptr(a[0], "tls");
                uint32_t gi = (g >> 32) & 0xffffff;
                if (gi > 0xffff) die("too many globals for TLS");
                uint32_t idx = (uint32_t)s->cur << 16 | gi;
                Region& R = s->region(R_TLS);
                if (!R.get(idx)) {
                    auto* gv = P.gList[gi - 1];
                    Obj* o = newObj(P.DL->getTypeAllocSize(gv->getValueType()).getFixedValue(), K_TLS, true);
                    R.set(idx, o);
                    if (gv->hasInitializer()) initConst(R.getW(idx), gv->getInitializer(), 0);
                }
                retv(Val(mkAddr(R_TLS, idx)));
                return;
            }
            case B_LIFESTART: case B_LIFEEND: {
                uint64_t p = cptr(a.back(), "pointer");
                uint32_t r, k;
                Obj* o = find(s, p, r, k);
                if (o && o->kind == K_STACK && (p & 0xffffffff) == BASE) {
                    if (fn->builtin == B_LIFEEND) {
                        stackDeath(r, k);
                        s->reg[r]->getW(k)->dead = true;
                    } else {
                        undefMem(p);
                        s->reg[r]->getW(k)->dead = false;
                    }
                }
                finishCall(s, nullptr, 0);
                return;
            }
            case B_CEIL: {
                if (a[0].n) die("symbolic floating point");
                double x;
                memcpy(&x, &a[0].c, 8);
                x = std::ceil(x);
                uint64_t v;
                memcpy(&v, &x, 8);
                retv(Val(v));
                return;
            }
            default: die("unsupported builtin " + fn->name);
        }
    }
    // a stack object goes away: other threads must be done with it
    void stackDeath(uint32_t r, uint32_t k) {
        Obj* o = s->reg[r]->get(k);
        if (!o || s->th.size() < 2 || !O.races) return;
        for (auto& x : o->acc)
            if (x.tid != s->cur && x.clk > T().vc.t[x.tid]) {
                Acc copy = x;
                violation("race", "stack memory goes out of scope without being ordered after a use of it", nullptr, true, &copy);
            }
    }
    unsigned argw(const Inst& i, unsigned k) {
        return P.width(cast<CallBase>(i.I)->getArgOperand(k)->getType()->getScalarType());
    }
    Val sel(const Val& c, const Val& t, const Val& f, unsigned w) {
        if (!c.n) return c.c & 1 ? t : f;
        return V(cx.ite(c.n, N(t, w), N(f, w)));
    }

    // ---------------------------------------------------------------- floating point (concrete only)
    double fpGet(const Val& v, unsigned w) {
        if (v.n) die("symbolic floating point value");
        if (w == 64) { double d; memcpy(&d, &v.c, 8); return d; }
        if (w == 32) { float d; uint32_t x = (uint32_t)v.c; memcpy(&d, &x, 4); return d; }
        die("unsupported floating point width");
        return 0;
    }
    Val fpMake(double d, unsigned w) {
        if (w == 64) { uint64_t x; memcpy(&x, &d, 8); return Val(x); }
        float f = (float)d;
        uint32_t x;
        memcpy(&x, &f, 4);
        return Val((uint64_t)x);
    }

    // ---------------------------------------------------------------- one instruction
    void exec(Frame& f, Inst& i) {
        switch (i.op) {
            case I_BIN: {
                unsigned n = i.nd;
                for (unsigned k = 0; k < n; k++) {
                    Val a = get(f, opk(i.a, k)), b = get(f, opk(i.b, k));
                    Op op = (Op)i.sub;
                    if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) {
                        bool z = decide(cmp(O_EQ, b, Val(0), i.w), [](State*) {});
                        if (z) violation("div0", "division by zero");
                    }
                    f.r[i.dst + k] = bin(op, a, b, i.w);
                }
                f.pc++;
                return;
            }
            case I_ICMP: {
                for (unsigned k = 0; k < i.nd; k++) {
                    const Val &a = get(f, opk(i.a, k)), &b = get(f, opk(i.b, k));
                    unsigned w = i.w2;
                    Val r;
                    switch (i.sub) {
                        case CmpInst::ICMP_EQ: r = cmp(O_EQ, a, b, w); break;
                        case CmpInst::ICMP_NE: r = lnot(cmp(O_EQ, a, b, w)); break;
                        case CmpInst::ICMP_UGT: r = cmp(O_ULT, b, a, w); break;
                        case CmpInst::ICMP_UGE: r = cmp(O_ULE, b, a, w); break;
                        case CmpInst::ICMP_ULT: r = cmp(O_ULT, a, b, w); break;
                        case CmpInst::ICMP_ULE: r = cmp(O_ULE, a, b, w); break;
                        case CmpInst::ICMP_SGT: r = cmp(O_SLT, b, a, w); break;
                        case CmpInst::ICMP_SGE: r = cmp(O_SLE, b, a, w); break;
                        case CmpInst::ICMP_SLT: r = cmp(O_SLT, a, b, w); break;
                        default: r = cmp(O_SLE, a, b, w); break;
                    }
                    f.r[i.dst + k] = r;
                }
                f.pc++;
                return;
            }
            case I_FBIN: {
                for (unsigned k = 0; k < i.nd; k++) {
                    double a = fpGet(get(f, opk(i.a, k)), i.w), b = fpGet(get(f, opk(i.b, k)), i.w);
                    double r = i.sub == 0 ? a + b : i.sub == 1 ? a - b : i.sub == 2 ? a * b : i.sub == 3 ? a / b : std::fmod(a, b);
                    if (i.w == 32) r = (float)r;
                    f.r[i.dst + k] = fpMake(r, i.w);
                }
                f.pc++;
                return;
            }
            case I_FNEG: f.r[i.dst] = fpMake(-fpGet(get(f, i.a), i.w), i.w); f.pc++; return;
            case I_FCMP: {
                double a = fpGet(get(f, i.a), i.w2), b = fpGet(get(f, i.b), i.w2);
                bool un = std::isnan(a) || std::isnan(b), r = false;
                switch (i.sub) {
                    case CmpInst::FCMP_FALSE: r = false; break;
                    case CmpInst::FCMP_OEQ: r = !un && a == b; break;
                    case CmpInst::FCMP_OGT: r = !un && a > b; break;
                    case CmpInst::FCMP_OGE: r = !un && a >= b; break;
                    case CmpInst::FCMP_OLT: r = !un && a < b; break;
                    case CmpInst::FCMP_OLE: r = !un && a <= b; break;
                    case CmpInst::FCMP_ONE: r = !un && a != b; break;
                    case CmpInst::FCMP_ORD: r = !un; break;
                    case CmpInst::FCMP_UNO: r = un; break;
                    case CmpInst::FCMP_UEQ: r = un || a == b; break;
                    case CmpInst::FCMP_UGT: r = un || a > b; break;
                    case CmpInst::FCMP_UGE: r = un || a >= b; break;
                    case CmpInst::FCMP_ULT: r = un || a < b; break;
                    case CmpInst::FCMP_ULE: r = un || a <= b; break;
                    case CmpInst::FCMP_UNE: r = un || a != b; break;
                    default: r = true;
                }
                f.r[i.dst] = Val((uint64_t)r);
                f.pc++;
                return;
            }
            case I_FCAST: {
                const Val& v = get(f, i.a);
                Val r;
                switch (i.sub) {
                    case Instruction::FPToUI: r = Val((uint64_t)fpGet(v, i.w2) & (uint64_t)maskw(i.w)); break;
                    case Instruction::FPToSI: r = Val((uint64_t)(int64_t)fpGet(v, i.w2) & (uint64_t)maskw(i.w)); break;
                    case Instruction::UIToFP:
                        if (v.n) die("symbolic floating point conversion");
                        r = fpMake((double)v.c, i.w);
                        break;
                    case Instruction::SIToFP:
                        if (v.n) die("symbolic floating point conversion");
                        r = fpMake((double)(int64_t)sgn(v.c, i.w2), i.w);
                        break;
                    default: r = fpMake(fpGet(v, i.w2), i.w);
                }
                f.r[i.dst] = r;
                f.pc++;
                return;
            }
            case I_CAST:
                for (unsigned k = 0; k < i.nd; k++) f.r[i.dst + k] = castv(get(f, opk(i.a, k)), i.w2, i.w, i.sub);
                f.pc++;
                return;
            case I_COPY: {
                Val tmp[16];
                std::vector<Val> big;
                Val* p = tmp;
                if (i.nd > 16) { big.resize(i.nd); p = big.data(); }
                for (unsigned k = 0; k < i.nd; k++) p[k] = get(f, opk(i.a, k));
                for (unsigned k = 0; k < i.nd; k++) f.r[i.dst + k] = p[k];
                f.pc++;
                return;
            }
            case I_FREEZE:
                for (unsigned k = 0; k < i.nd; k++) {
                    Val v = get(f, opk(i.a, k));
                    if (v.n && v.n->op == O_UNDEF) v = i.x->leaves[k].w <= 64 ? Val(0) : Val(cx.con(0, i.x->leaves[k].w));
                    f.r[i.dst + k] = v;
                }
                f.pc++;
                return;
            case I_SELECT: {
                Val c = get(f, i.a);
                for (unsigned k = 0; k < i.nd; k++)
                    f.r[i.dst + k] = sel(c, get(f, opk(i.b, k)), get(f, opk(i.c, k)), i.x->leaves[k].w);
                f.pc++;
                return;
            }
            case I_INSERTV: {
                std::vector<Val> p(i.nd);
                for (unsigned k = 0; k < i.nd; k++) p[k] = get(f, opk(i.a, k));
                for (unsigned k = 0; k < i.x->nret; k++) p[i.c + k] = get(f, opk(i.b, k));
                for (unsigned k = 0; k < i.nd; k++) f.r[i.dst + k] = p[k];
                f.pc++;
                return;
            }
            case I_LOAD: {
                uint64_t a = cptr(get(f, i.a), "an address");
                if (a & (uint64_t)i.x->off) violation("misaligned", "access to " + addrStr(a) + ", which is not aligned to " + std::to_string(i.x->off + 1) + " bytes");
                for (unsigned k = 0; k < i.nd; k++) {
                    unsigned w = i.x->leaves[k].w;
                    uint32_t off;
                    Obj* o = access(a + i.x->leaves[k].off, (w + 7) / 8, false, off, i.ord);
                    f.r[i.dst + k] = readObj(o, off, w);
                    if (i.ord) atomicAcquire(o, off, (w + 7) / 8, i.ord);
                }
                f.pc++;
                T().schedDone = false;
                return;
            }
            case I_STORE: {
                uint64_t a = cptr(get(f, i.a), "an address");
                if (a & (uint64_t)i.x->off) violation("misaligned", "access to " + addrStr(a) + ", which is not aligned to " + std::to_string(i.x->off + 1) + " bytes");
                unsigned n = i.x->leaves.size();
                for (unsigned k = 0; k < n; k++) {
                    unsigned w = i.x->leaves[k].w;
                    uint32_t off;
                    Obj* o = access(a + i.x->leaves[k].off, (w + 7) / 8, true, off, i.ord);
                    writeObj(o, off, get(f, opk(i.b, k)), w);
                    if (i.ord) atomicRelease(o, off, i.ord, false);
                }
                f.pc++;
                T().schedDone = false;
                return;
            }
            case I_ALLOCA: {
                uint64_t n = concretize(get(f, i.a), 32, "an array size");
                Thread& t = T();
                uint32_t k = ++t.stackCtr;
                Obj* o = newObj((uint32_t)(n * i.x->off), K_STACK, false);
                s->region(R_STACK + s->cur).set(k, o);
                f.r[i.dst] = Val(mkAddr(R_STACK + s->cur, k));
                f.pc++;
                return;
            }
            case I_GEP: {
                Val v = bin(O_ADD, get(f, i.a), Val((uint64_t)i.x->off), 64);
                for (size_t k = 0; k < i.x->gep.size(); k++) {
                    Val idx = castv(get(f, i.x->gep[k].first), i.x->gepw[k], 64, true);
                    v = bin(O_ADD, v, bin(O_MUL, idx, Val(i.x->gep[k].second), 64), 64);
                }
                f.r[i.dst] = v;
                f.pc++;
                return;
            }
            case I_BR: takeEdge(s, f, i.x->edges[0]); return;
            case I_CONDBR: {
                Val c = get(f, i.a);
                bool v = decide(c, [&](State* n) {
                    // the clone takes the other edge
                    cx.newEval();
                    bool o = cx.eval(c.n, n->model) != 0;
                    Frame& nf = topOf(n);
                    takeEdge(n, nf, i.x->edges[o ? 0 : 1]);
                });
                Frame& g = F();
                takeEdge(s, g, i.x->edges[v ? 0 : 1]);
                return;
            }
            case I_SWITCH: {
                uint64_t v = 0;
                Val c = get(f, i.a);
                if (c.n) {
                    checkUndef(c, "a switch");
                    // case split on the listed values only
                    for (auto& k : i.x->cases) {
                        Val e = cmp(O_EQ, c, Val(k.first), i.w2);
                        bool hit = decide(e, [](State*) {});
                        if (hit) { Frame& g = F(); takeEdge(s, g, i.x->edges[k.second]); return; }
                    }
                    Frame& g = F();
                    takeEdge(s, g, i.x->edges[0]);
                    return;
                }
                v = c.c;
                uint32_t e = 0;
                for (auto& k : i.x->cases) if (k.first == v) { e = k.second; break; }
                takeEdge(s, f, i.x->edges[e]);
                return;
            }
            case I_RET: {
                std::vector<Val> r(i.x->nret);
                for (unsigned k = 0; k < i.x->nret; k++) r[k] = get(f, opk(i.a, k));
                Thread& t = T();
                if (s->th.size() > 1)
                    for (uint32_t k = t.stackCtr; k > f.stackBase; k--) stackDeath(R_STACK + s->cur, k);
                popFrame(t, s->cur);
                if (!t.stk.empty()) finishCall(s, r.data(), r.size());
                return;
            }
            case I_CALL: call(f, i); return;
            case I_UNREACH: violation("unreachable", "unreachable code reached (undefined behaviour, e.g. a missing return)"); return;
            case I_RESUME: {
                uint64_t o = get(f, i.a).c;
                unwind(o, true);
                return;
            }
            case I_LANDINGPAD: die("landing pad executed directly");
            case I_FENCE: {
                if (i.sub != 1) {
                    Thread& t = T();
                    if (i.ord & 1) t.vc.join(t.pendAcq);
                    if (i.ord & 2) { t.relFence = t.vc; t.vc.t[s->cur]++; }
                }
                f.pc++;
                return;
            }
            case I_RMW: {
                uint64_t a = cptr(get(f, i.a), "an address");
                Val b = get(f, i.b);
                uint32_t off;
                unsigned n = (i.w + 7) / 8, w = i.w;
                Obj* o = access(a, n, true, off, true);
                Val old = readObj(o, off, w), r;
                switch (i.sub) {
                    case AtomicRMWInst::Xchg: r = b; break;
                    case AtomicRMWInst::Add: r = bin(O_ADD, old, b, w); break;
                    case AtomicRMWInst::Sub: r = bin(O_SUB, old, b, w); break;
                    case AtomicRMWInst::And: r = bin(O_AND, old, b, w); break;
                    case AtomicRMWInst::Or: r = bin(O_OR, old, b, w); break;
                    case AtomicRMWInst::Xor: r = bin(O_XOR, old, b, w); break;
                    case AtomicRMWInst::Max: r = sel(cmp(O_SLT, old, b, w), b, old, w); break;
                    case AtomicRMWInst::Min: r = sel(cmp(O_SLT, old, b, w), old, b, w); break;
                    case AtomicRMWInst::UMax: r = sel(cmp(O_ULT, old, b, w), b, old, w); break;
                    case AtomicRMWInst::UMin: r = sel(cmp(O_ULT, old, b, w), old, b, w); break;
                    default: die("unsupported atomic operation");
                }
                atomicAcquire(o, off, n, i.ord);
                writeObj(o, off, r, w);
                atomicRelease(o, off, i.ord, true);
                if (i.dst >= 0) f.r[i.dst] = old;
                f.pc++;
                T().schedDone = false;
                return;
            }
            case I_CMPXCHG: {
                uint64_t a = cptr(get(f, i.a), "an address");
                uint32_t off;
                unsigned n = (i.w + 7) / 8;
                Obj* o = access(a, n, false, off, true);
                Val old = readObj(o, off, i.w);
                Val eq = cmp(O_EQ, old, get(f, i.b), i.w);
                bool ok = decide(eq, [](State*) {});
                Frame& g = F();
                if (ok) {
                    o = access(a, n, true, off, true);
                    atomicAcquire(o, off, n, i.ord);
                    writeObj(o, off, get(g, i.c), i.w);
                    atomicRelease(o, off, i.ord, true);
                } else
                    atomicAcquire(o, off, n, ordFail(i));
                g.r[i.dst] = old;
                g.r[i.dst + 1] = Val((uint64_t)ok);
                g.pc++;
                T().schedDone = false;
                return;
            }
            case I_UNSUP: {
                std::string t;
                raw_string_ostream os(t);
                if (i.I) i.I->print(os);
                die("unsupported instruction " + t + " in " + f.fn->name);
            }
        }
    }
    static uint8_t ordFail(const Inst& i) { return Program::ordBits(cast<AtomicCmpXchgInst>(i.I)->getFailureOrdering()); }

    void call(Frame& f, Inst& i) {
        FnInfo* callee = i.x->callee;
        if (!callee) {
            uint64_t a = cptr(get(f, i.a), "a call target");
            if (a == 0) violation("null", "call through a null function pointer");
            callee = P.fnAt(a);
            if (!callee) violation("wild", "call through an invalid function pointer " + addrStr(a));
        }
        std::vector<Val> av(i.x->args.size());
        for (size_t k = 0; k < av.size(); k++) av[k] = get(f, i.x->args[k]);
        if (callee->builtin) {
            if (callee->builtin == B_UNKNOWN) die("unsupported intrinsic " + callee->name);
            builtin(callee, i, av);
            return;
        }
        if (callee->F->isDeclaration()) die("call of undefined function " + callee->name + " (" + demangle(callee->name) + ")");
        Thread& t = T();
        bool byval = false;
        for (auto b : i.x->argByval) byval |= b != 0;
        pushFrame(t, callee, av, &i);
        if (byval) {
            Frame* nf = t.stk.back();
            for (size_t k = 0; k < av.size(); k++)
                if (uint32_t n = i.x->argByval[k]) {
                    uint32_t idx = ++t.stackCtr;
                    s->region(R_STACK + s->cur).set(idx, newObj(n, K_STACK, false));
                    uint64_t d = mkAddr(R_STACK + s->cur, idx);
                    copyMem(d, av[k].c, n);
                    nf->r[k] = Val(d);
                }
        }
    }
