// Symbolic memory, threads and states (copy-on-write).
#pragma once
#include "expr.hpp"
#include <array>

constexpr int MAXT = 14;

struct Val {
    uint64_t c = 0;
    const Node* n = nullptr;
    Val() = default;
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>> Val(T v) : c((uint64_t)v) {}
    Val(const Node* e) : n(e) {}
    Val(std::nullptr_t) = delete;
    bool conc() const { return !n; }
};

struct VC {
    std::array<uint32_t, MAXT> t{};
    void join(const VC& o) {
        for (int i = 0; i < MAXT; i++)
            if (o.t[i] > t[i]) t[i] = o.t[i];
    }
};

struct Inst;

struct Acc {
    uint32_t off;
    uint32_t len;
    uint8_t tid;
    uint8_t fl; // 1 write, 2 atomic, 4 free
    uint32_t clk;
    const Inst* I;
    struct CallCtx* ctx;
};

enum ObjKind : uint8_t { K_GLOBAL, K_FUNC, K_HEAP, K_STACK, K_TLS };

inline uint64_t hmix(uint64_t h, uint64_t v) {
    h ^= v;
    h *= 0x9FB21C651E98DF25ULL;
    h ^= h >> 35;
    h *= 0xD6E8FEB86659FD93ULL;
    h ^= h >> 28;
    return h + 0x632BE59BD9B4E019ULL;
}

struct Obj {
    int rc = 1;
    uint32_t size = 0;
    ObjKind kind = K_HEAP;
    bool ro = false, freed = false, leakOk = false, dead = false;
    uint8_t allocTid = 0;
    uint32_t serial = 0;
    std::vector<uint8_t> data;
    std::vector<uint64_t> init; // bit per byte; empty == fully initialised
    std::vector<const Node*> sym; // empty == no symbolic bytes
    std::vector<Acc> acc;
    std::vector<std::pair<uint32_t, VC>> avc; // atomic location clocks
    const Inst* site = nullptr;
    struct CallCtx* siteCtx = nullptr;
    const Inst* freeSite = nullptr;
    struct CallCtx* freeCtx = nullptr;
    uint64_t h = 0;
    bool hok = false;

    bool isInit(uint32_t i) const { return init.empty() || ((init[i >> 6] >> (i & 63)) & 1); }
    void setInit(uint32_t i) { if (!init.empty()) init[i >> 6] |= 1ull << (i & 63); }
    void clrInit(uint32_t i) {
        if (init.empty()) init.assign((size + 63) / 64, ~0ull);
        init[i >> 6] &= ~(1ull << (i & 63));
    }
    uint64_t hash() {
        if (hok) return h;
        uint64_t x = hmix(size, freed);
        if (!freed) {
            size_t i = 0;
            for (; i + 8 <= data.size(); i += 8) {
                uint64_t v;
                memcpy(&v, &data[i], 8);
                x = hmix(x, v);
            }
            for (; i < data.size(); i++) x = hmix(x, data[i]);
            for (auto v : init) x = hmix(x, v);
            for (auto* n : sym) x = hmix(x, n ? n->id : 0);
        }
        h = x;
        hok = true;
        return x;
    }
};

struct Chunk {
    int rc = 1;
    Obj* o[32] = {};
};

// One region of dense object indices.
struct Region {
    std::vector<Chunk*> ch;
    Region() = default;
    Region(const Region& r) : ch(r.ch) {
        for (auto* c : ch) if (c) c->rc++;
    }
    Region& operator=(const Region& r) = delete;
    ~Region() {
        for (auto* c : ch) rel(c);
    }
    static void relObj(Obj* o) { if (o && --o->rc == 0) delete o; }
    static void rel(Chunk* c) {
        if (c && --c->rc == 0) {
            for (auto* o : c->o) relObj(o);
            delete c;
        }
    }
    Obj* get(uint32_t i) const {
        uint32_t k = i >> 5;
        if (k >= ch.size() || !ch[k]) return nullptr;
        return ch[k]->o[i & 31];
    }
    Obj*& slot(uint32_t i) {
        uint32_t k = i >> 5;
        if (k >= ch.size()) ch.resize(k + 1, nullptr);
        if (!ch[k]) ch[k] = new Chunk();
        else if (ch[k]->rc > 1) {
            Chunk* n = new Chunk();
            for (int j = 0; j < 32; j++) {
                n->o[j] = ch[k]->o[j];
                if (n->o[j]) n->o[j]->rc++;
            }
            ch[k]->rc--;
            ch[k] = n;
        }
        return ch[k]->o[i & 31];
    }
    Obj* getW(uint32_t i) {
        Obj*& o = slot(i);
        if (!o) return nullptr;
        if (o->rc > 1) {
            Obj* n = new Obj(*o);
            n->rc = 1;
            o->rc--;
            o = n;
        }
        return o;
    }
    void set(uint32_t i, Obj* o) {
        Obj*& s = slot(i);
        relObj(s);
        s = o;
    }
};

struct FnInfo;

struct Frame {
    int rc = 1;
    FnInfo* fn = nullptr;
    uint32_t pc = 0;
    uint32_t stackBase = 0; // stack object counter at entry
    struct CallCtx* ctx = nullptr;
    std::vector<Val> r;
};

enum TStatus : uint8_t { T_RUN, T_MUTEX, T_COND, T_JOIN, T_QUIESCE, T_DONE };

struct Thread {
    TStatus st = T_RUN;
    uint8_t phase = 0;
    bool schedDone = false, started = false;
    bool timed = false, timedOut = false;
    uint8_t quiesceMode = 0;
    uint64_t waitAddr = 0, waitMutex = 0;
    Val deadline;
    int joinTid = -1;
    std::vector<Frame*> stk;
    VC vc, pendAcq, relFence;
    uint32_t heapCtr = 0, stackCtr = 0, varCtr = 0;
    std::vector<std::pair<uint64_t, uint64_t>> adjs;
    Thread() = default;
    Thread(const Thread& o) = default;
};

struct Mutex { uint64_t addr; int owner; VC vc; int depth; };
struct Cond { uint64_t addr; std::vector<int> w; };

struct Ev { // persistent event list
    const Ev* prev;
    uint8_t kind; // 0 sched tid, 1 choice, 2 note
    uint64_t v;
    const char* name;
    uint32_t n;
};

struct State {
    std::array<Region*, 128> reg{};
    std::vector<Thread> th;
    int cur = 0;
    std::vector<Mutex> mx;
    std::vector<Cond> cv;
    std::vector<const Node*> pc;
    Model model;
    Val now;
    int preempt = 0;
    int spurious = 0;
    int hw = 2;
    int clockMode = 0;
    bool leakCheck = false;
    uint32_t scriptPos = 0;
    uint32_t objSerial = 0;
    uint32_t leakMark = 0;
    uint64_t insts = 0, nassert = 0;
    const Ev* ev = nullptr;
    std::vector<std::pair<uint64_t, uint64_t>> atexits;
    uint32_t depth = 0;
    std::vector<uint32_t> reach; // reach tag ids hit

    State() = default;
    State(const State& o)
        : th(o.th), cur(o.cur), mx(o.mx), cv(o.cv), pc(o.pc), model(o.model), now(o.now), preempt(o.preempt),
          spurious(o.spurious), hw(o.hw), clockMode(o.clockMode), leakCheck(o.leakCheck), scriptPos(o.scriptPos),
          objSerial(o.objSerial), leakMark(o.leakMark), insts(o.insts), nassert(o.nassert), ev(o.ev), atexits(o.atexits), depth(o.depth),
          reach(o.reach) {
        for (int i = 0; i < 128; i++) reg[i] = o.reg[i] ? new Region(*o.reg[i]) : nullptr;
        for (auto& t : th)
            for (auto* f : t.stk) f->rc++;
    }
    State& operator=(const State&) = delete;
    ~State() {
        for (auto* r : reg) delete r;
        for (auto& t : th)
            for (auto* f : t.stk)
                if (--f->rc == 0) delete f;
    }
    Region& region(int r) {
        if (!reg[r]) reg[r] = new Region();
        return *reg[r];
    }
};
