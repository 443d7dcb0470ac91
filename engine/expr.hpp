// Hash-consed bit-vector expressions, simplification, evaluation and the z3 back end.
#pragma once
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
    O_CONST, O_VAR, O_UNDEF,
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
    O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
    O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT
};

struct Node {
    Op op;
    uint16_t w;
    bool undef;          // contains an uninitialised part
    uint32_t id;
    uint32_t aux;        // extract: low bit; var: var index
    u128 c;              // const value
    const Node* k[3];
    mutable uint32_t epoch = 0;
    mutable u128 ev = 0;
    mutable Z3_ast ast = nullptr;
    mutable std::vector<uint32_t>* vars = nullptr;
};

struct VarInfo { std::string name; uint16_t w; const Node* node; };

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sgn(u128 v, unsigned w) {
    if (w >= 128) return (s128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (s128)((v ^ m)) - (s128)m;
}

inline u128 foldOp(Op op, unsigned w, u128 a, u128 b, unsigned kw) {
    switch (op) {
        case O_ADD: return (a + b) & maskw(w);
        case O_SUB: return (a - b) & maskw(w);
        case O_MUL: return (a * b) & maskw(w);
        case O_UDIV: return b == 0 ? maskw(w) : (a / b) & maskw(w);
        case O_UREM: return b == 0 ? a : (a % b) & maskw(w);
        case O_SDIV: {
            s128 x = sgn(a, w), y = sgn(b, w);
            if (y == 0) return x < 0 ? 1 : maskw(w);
            if (y == -1) return (u128)(-x) & maskw(w);
            return (u128)(x / y) & maskw(w);
        }
        case O_SREM: {
            s128 x = sgn(a, w), y = sgn(b, w);
            if (y == 0) return a;
            if (y == -1) return 0;
            return (u128)(x % y) & maskw(w);
        }
        case O_AND: return a & b;
        case O_OR: return a | b;
        case O_XOR: return a ^ b;
        case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & maskw(w);
        case O_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
        case O_ASHR: {
            s128 x = sgn(a, w);
            unsigned s = b >= w ? w - 1 : (unsigned)b;
            return (u128)(x >> s) & maskw(w);
        }
        case O_EQ: return a == b;
        case O_ULT: return a < b;
        case O_ULE: return a <= b;
        case O_SLT: return sgn(a, kw) < sgn(b, kw);
        case O_SLE: return sgn(a, kw) <= sgn(b, kw);
        default: return 0;
    }
}

typedef std::unordered_map<uint32_t, u128> Model;

class Ctx {
    struct Key { uint64_t h; const Node* n; };
    std::unordered_multimap<uint64_t, const Node*> table;
    std::vector<const Node*> all;
    uint32_t curEpoch = 0;
    uint32_t nextId = 1;

    static uint64_t mix(uint64_t h, uint64_t v) {
        h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdULL;
        h ^= h >> 32;
        return h;
    }

public:
    std::vector<VarInfo> vars;
    std::unordered_map<std::string, const Node*> varByName;

    const Node* mk(Op op, unsigned w, const Node* a = nullptr, const Node* b = nullptr,
                   const Node* c = nullptr, uint32_t aux = 0, u128 cv = 0) {
        uint64_t h = mix(mix(mix(mix(mix(mix(op, w), a ? a->id : 0), b ? b->id : 0), c ? c->id : 0), aux),
                         (uint64_t)cv ^ (uint64_t)(cv >> 64));
        auto r = table.equal_range(h);
        for (auto it = r.first; it != r.second; ++it) {
            const Node* n = it->second;
            if (n->op == op && n->w == w && n->k[0] == a && n->k[1] == b && n->k[2] == c && n->aux == aux &&
                n->c == cv)
                return n;
        }
        Node* n = new Node();
        n->op = op; n->w = w; n->k[0] = a; n->k[1] = b; n->k[2] = c; n->aux = aux; n->c = cv;
        n->id = nextId++;
        n->undef = op == O_UNDEF || (a && a->undef) || (b && b->undef) || (c && c->undef);
        table.emplace(h, n);
        return n;
    }
    const Node* con(u128 v, unsigned w) { return mk(O_CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
    const Node* undef(unsigned w) { return mk(O_UNDEF, w); }
    const Node* var(const std::string& name, unsigned w) {
        auto it = varByName.find(name);
        if (it != varByName.end()) {
            if (it->second->w != w) throw std::runtime_error("variable width clash: " + name);
            return it->second;
        }
        const Node* n = mk(O_VAR, w, nullptr, nullptr, nullptr, (uint32_t)vars.size());
        vars.push_back({name, (uint16_t)w, n});
        varByName[name] = n;
        return n;
    }
    static bool isC(const Node* n) { return n->op == O_CONST; }
    const Node* tru() { return con(1, 1); }
    const Node* fls() { return con(0, 1); }
    const Node* lnot(const Node* a) { return bin(O_XOR, a, con(1, 1)); }

    const Node* bin(Op op, const Node* a, const Node* b) {
        unsigned kw = a->w;
        bool cmp = op >= O_EQ && op <= O_SLE;
        unsigned w = cmp ? 1 : kw;
        if (isC(a) && isC(b)) return con(foldOp(op, w == 1 && cmp ? kw : w, a->c, b->c, kw) & maskw(w), w);
        // canonical: constant on the right for commutative
        if ((op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ)) {
            if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
        }
        bool bc = isC(b);
        switch (op) {
            case O_ADD:
                if (bc && b->c == 0) return a;
                if (bc && a->op == O_ADD && isC(a->k[1])) return bin(O_ADD, a->k[0], con(a->k[1]->c + b->c, kw));
                if (bc && a->op == O_SUB && isC(a->k[1])) return bin(O_ADD, a->k[0], con(b->c - a->k[1]->c, kw));
                // m + (x - m) == x
                if (b->op == O_SUB && b->k[1] == a) return b->k[0];
                if (a->op == O_SUB && a->k[1] == b) return a->k[0];
                // (x/c)*c + x%c == x
                {
                    const Node *m = a, *r = b;
                    for (int t = 0; t < 2; t++, std::swap(m, r)) {
                        if (m->op == O_MUL && isC(m->k[1]) && (r->op == O_SREM || r->op == O_UREM) &&
                            r->k[1] == m->k[1] && m->k[0]->op == (r->op == O_SREM ? O_SDIV : O_UDIV) &&
                            m->k[0]->k[0] == r->k[0] && m->k[0]->k[1] == r->k[1])
                            return r->k[0];
                    }
                }
                break;
            case O_SUB:
                if (bc && b->c == 0) return a;
                if (a == b) return con(0, kw);
                if (bc) return bin(O_ADD, a, con(-b->c, kw));
                if (a->op == O_ADD && a->k[0] == b) return a->k[1];
                if (a->op == O_ADD && a->k[1] == b) return a->k[0];
                // (x + c) - (x + d), (x+c) - x
                if (a->op == O_ADD && b->op == O_ADD && isC(a->k[1]) && isC(b->k[1]) && a->k[0] == b->k[0])
                    return con(a->k[1]->c - b->k[1]->c, kw);
                break;
            case O_MUL:
                if (bc && b->c == 0) return b;
                if (bc && b->c == 1) return a;
                break;
            case O_UDIV: case O_SDIV:
                if (bc && b->c == 1) return a;
                break;
            case O_AND:
                if (bc && b->c == 0) return b;
                if (bc && b->c == maskw(kw)) return a;
                if (a == b) return a;
                if (bc && a->op == O_ZEXT && a->undef)
                    return ext(O_ZEXT, bin(O_AND, a->k[0], con(b->c & maskw(a->k[0]->w), a->k[0]->w)), kw);
                // a mask may select initialised bytes out of a partly initialised word
                if (bc && a->undef && a->op == O_CONCAT) {
                    unsigned lw = a->k[1]->w;
                    return concat(bin(O_AND, a->k[0], con(b->c >> lw, a->k[0]->w)),
                                  bin(O_AND, a->k[1], con(b->c & maskw(lw), lw)));
                }
                if (bc && a->op == O_ZEXT && (b->c & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
                // low mask -> zext(extract)
                if (bc && b->c != 0 && (b->c & (b->c + 1)) == 0) {
                    unsigned n = 0;
                    while (((b->c >> n) & 1) && n < kw) n++;
                    if (n < kw) return ext(O_ZEXT, extract(a, 0, n), kw);
                }
                break;
            case O_OR:
                if (bc && b->c == 0) return a;
                if (bc && b->c == maskw(kw)) return b;
                if (a == b) return a;
                // a constant or-ed into a partly initialised word: keep the parts apart
                if (bc && a->undef) {
                    const Node* r = nullptr;
                    for (unsigned lo = 0; lo < kw;) {
                        unsigned hi = lo;
                        bool one = b->c >> lo & 1;
                        while (hi < kw && (bool)(b->c >> hi & 1) == one) ++hi;
                        auto* part = one ? con(maskw(hi - lo), hi - lo) : extract(a, lo, hi - lo);
                        r = r ? concat(part, r) : part;
                        lo = hi;
                    }
                    return r;
                }
                // zext(x) | shl(zext(y), k) -> concat when disjoint
                {
                    const Node *l = a, *h = b;
                    for (int t = 0; t < 2; t++, std::swap(l, h)) {
                        if (l->op == O_ZEXT && h->op == O_SHL && isC(h->k[1]) && h->k[1]->c == l->k[0]->w) {
                            unsigned lw = l->k[0]->w;
                            return concat(extract(h->k[0], 0, kw - lw), l->k[0]);
                        }
                    }
                }
                break;
            case O_XOR:
                if (bc && b->c == 0) return a;
                if (a == b) return con(0, kw);
                if (bc && a->op == O_XOR && isC(a->k[1])) return bin(O_XOR, a->k[0], con(a->k[1]->c ^ b->c, kw));
                if (kw == 1 && bc && b->c == 1) {
                    if (a->op == O_ULT) return bin(O_ULE, a->k[1], a->k[0]);
                    if (a->op == O_ULE) return bin(O_ULT, a->k[1], a->k[0]);
                    if (a->op == O_SLT) return bin(O_SLE, a->k[1], a->k[0]);
                    if (a->op == O_SLE) return bin(O_SLT, a->k[1], a->k[0]);
                }
                break;
            case O_SHL: case O_LSHR: case O_ASHR:
                if (op == O_ASHR && bc && a->op == O_SHL && a->k[1] == b && b->c > 0 && b->c < kw)
                    return ext(O_SEXT, extract(a->k[0], 0, kw - (unsigned)b->c), kw);
                if (bc && b->c == 0) return a;
                if (bc && op == O_LSHR && b->c < kw)
                    return ext(O_ZEXT, extract(a, (unsigned)b->c, kw - (unsigned)b->c), kw);
                if (bc && op == O_SHL && b->c >= kw) return con(0, kw);
                break;
            case O_EQ:
                if (a == b) return tru();
                if (kw == 1 && bc) return b->c ? a : lnot(a);
                if (bc && a->op == O_ITE) {
                    const Node *t = a->k[1], *f = a->k[2];
                    if (isC(t) && isC(f)) {
                        if (t->c == b->c) return f->c == b->c ? tru() : a->k[0];
                        return f->c == b->c ? lnot(a->k[0]) : fls();
                    }
                }
                if (bc && a->op == O_ZEXT) {
                    if (b->c >> a->k[0]->w) return fls();
                    return bin(O_EQ, a->k[0], con(b->c, a->k[0]->w));
                }
                if (bc && a->op == O_SEXT) {
                    unsigned iw = a->k[0]->w;
                    if (((u128)sgn(b->c, iw) & maskw(kw)) != b->c) return fls();
                    return bin(O_EQ, a->k[0], con(b->c, iw));
                }
                if (bc && a->op == O_ADD && isC(a->k[1])) return bin(O_EQ, a->k[0], con(b->c - a->k[1]->c, kw));
                if (bc && a->op == O_XOR && isC(a->k[1])) return bin(O_EQ, a->k[0], con(b->c ^ a->k[1]->c, kw));
                if (a->op == O_ADD && b->op == O_ADD && a->k[0] == b->k[0]) return bin(O_EQ, a->k[1], b->k[1]);
                if (a->op == b->op && (a->op == O_ZEXT || a->op == O_SEXT) && a->k[0]->w == b->k[0]->w)
                    return bin(O_EQ, a->k[0], b->k[0]);
                break;
            case O_ULT:
                if (a == b) return fls();
                if (bc && b->c == 0) return fls();
                if (isC(a) && a->c == maskw(kw)) return fls();
                if (a->op == O_ZEXT && bc) {
                    if (b->c > maskw(a->k[0]->w)) return tru();
                    return bin(O_ULT, a->k[0], con(b->c, a->k[0]->w));
                }
                if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return bin(O_ULT, a->k[0], b->k[0]);
                break;
            case O_ULE:
                if (a == b) return tru();
                if (isC(a) && a->c == 0) return tru();
                if (bc && b->c == maskw(kw)) return tru();
                break;
            case O_SLT:
                if (a == b) return fls();
                if (a->op == O_ZEXT && bc && sgn(b->c, kw) <= 0) return fls();
                if (a->op == O_ZEXT && bc && sgn(b->c, kw) > (s128)maskw(a->k[0]->w) && a->k[0]->w < kw) return tru();
                if (b->op == O_ZEXT && isC(a) && b->k[0]->w < kw && sgn(a->c, kw) < 0) return tru();
                break;
            case O_SLE:
                if (a == b) return tru();
                if (b->op == O_ZEXT && isC(a) && sgn(a->c, kw) <= 0 && b->k[0]->w < kw) return tru();
                break;
            default: break;
        }
        // comparisons decided by the initialised high part alone
        if (cmp && op != O_EQ && (a->undef != b->undef) && (isC(a) || isC(b))) {
            bool left = isC(a), strict = op == O_ULT || op == O_SLT;
            u128 c = left ? a->c : b->c;
            if (left != strict) c = ~c; // trailing zeros decide c <= x and x < c
            unsigned k = 0;
            while (k < kw && (c >> k & 1)) ++k;
            if (k && k < kw) {
                auto* x = extract(left ? b : a, k, kw - k);
                if (!x->undef) {
                    auto* d = con((left ? a->c : b->c) >> k, kw - k);
                    return left ? bin(op, d, x) : bin(op, x, d);
                }
            }
        }
        if (cmp && kw == 1) {
            if (op == O_ULT) return bin(O_AND, lnot(a), b);
            if (op == O_ULE) return bin(O_OR, lnot(a), b);
        }
        return mk(op, w, a, b);
    }
    const Node* ite(const Node* c, const Node* t, const Node* f) {
        if (isC(c)) return c->c ? t : f;
        if (t == f) return t;
        if (t->w == 1) {
            if (isC(t) && isC(f)) return t->c ? c : lnot(c);
            if (isC(t)) return t->c ? bin(O_OR, c, f) : bin(O_AND, lnot(c), f);
            if (isC(f)) return f->c ? bin(O_OR, lnot(c), t) : bin(O_AND, c, t);
        }
        return mk(O_ITE, t->w, c, t, f);
    }
    const Node* concat(const Node* h, const Node* l) {
        unsigned w = h->w + l->w;
        if (isC(h) && isC(l)) return con((h->c << l->w) | l->c, w);
        if (isC(h) && h->c == 0) return ext(O_ZEXT, l, w);
        if (h->op == O_EXTRACT && l->op == O_EXTRACT && h->k[0] == l->k[0] && h->aux == l->aux + l->w)
            return extract(h->k[0], l->aux, w);
        // h extract of x adjacent to concat(l.h, ..)
        if (l->op == O_CONCAT && h->op == O_EXTRACT && l->k[0]->op == O_EXTRACT && h->k[0] == l->k[0]->k[0] &&
            h->aux == l->k[0]->aux + l->k[0]->w)
            return concat(extract(h->k[0], l->k[0]->aux, h->w + l->k[0]->w), l->k[1]);
        if (h->op == O_ZEXT && l->op == O_EXTRACT && h->k[0]->op == O_EXTRACT && h->k[0]->k[0] == l->k[0] &&
            h->k[0]->aux == l->aux + l->w)
            return ext(O_ZEXT, extract(l->k[0], l->aux, h->k[0]->w + l->w), w);
        if (h->op == O_UNDEF && l->op == O_UNDEF) return undef(w);
        // l is the part below h in a simplified form
        if (h->op == O_EXTRACT && h->aux >= l->w && h->k[0]->op >= O_ADD && h->k[0]->op <= O_XOR &&
            extract(h->k[0], h->aux - l->w, l->w) == l)
            return extract(h->k[0], h->aux - l->w, w);
        return mk(O_CONCAT, w, h, l);
    }
    const Node* extract(const Node* a, unsigned lo, unsigned n) {
        if (lo == 0 && n == a->w) return a;
        if (isC(a)) return con(a->c >> lo, n);
        if (a->op == O_UNDEF) return undef(n);
        if (a->op == O_EXTRACT) return extract(a->k[0], a->aux + lo, n);
        if (a->op == O_CONCAT) {
            unsigned lw = a->k[1]->w;
            if (lo + n <= lw) return extract(a->k[1], lo, n);
            if (lo >= lw) return extract(a->k[0], lo - lw, n);
            return concat(extract(a->k[0], 0, lo + n - lw), extract(a->k[1], lo, lw - lo));
        }
        if (a->op == O_ZEXT) {
            unsigned iw = a->k[0]->w;
            if (lo >= iw) return con(0, n);
            if (lo + n <= iw) return extract(a->k[0], lo, n);
            return ext(O_ZEXT, extract(a->k[0], lo, iw - lo), n);
        }
        if (a->op == O_SEXT && lo + n <= a->k[0]->w) return extract(a->k[0], lo, n);
        if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2])))
            return ite(a->k[0], extract(a->k[1], lo, n), extract(a->k[2], lo, n));
        if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_AND || a->op == O_OR || a->op == O_XOR))
            return bin(a->op, extract(a->k[0], 0, n), extract(a->k[1], 0, n));
        return mk(O_EXTRACT, n, a, nullptr, nullptr, lo);
    }
    const Node* ext(Op op, const Node* a, unsigned w) {
        if (w == a->w) return a;
        if (isC(a)) return con(op == O_ZEXT ? a->c : (u128)sgn(a->c, a->w), w);
        if (a->op == O_ZEXT) return ext(O_ZEXT, a->k[0], w);
        if (a->op == O_SEXT && op == O_SEXT) return ext(O_SEXT, a->k[0], w);
        if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2]))
            return ite(a->k[0], ext(op, a->k[1], w), ext(op, a->k[2], w));
        return mk(op, w, a);
    }

    void newEval() { ++curEpoch; }
    u128 eval(const Node* n, const Model& m) {
        if (n->op == O_CONST) return n->c;
        if (n->epoch == curEpoch) return n->ev;
        u128 r = 0;
        switch (n->op) {
            case O_VAR: { auto it = m.find(n->aux); r = it == m.end() ? 0 : it->second; break; }
            case O_UNDEF: r = 0; break;
            case O_ITE: r = eval(n->k[0], m) ? eval(n->k[1], m) : eval(n->k[2], m); break;
            case O_CONCAT: r = (eval(n->k[0], m) << n->k[1]->w) | eval(n->k[1], m); break;
            case O_EXTRACT: r = (eval(n->k[0], m) >> n->aux) & maskw(n->w); break;
            case O_ZEXT: r = eval(n->k[0], m); break;
            case O_SEXT: r = (u128)sgn(eval(n->k[0], m), n->k[0]->w) & maskw(n->w); break;
            default: {
                u128 a = eval(n->k[0], m), b = eval(n->k[1], m);
                bool cmp = n->op >= O_EQ && n->op <= O_SLE;
                r = foldOp(n->op, cmp ? n->k[0]->w : n->w, a, b, n->k[0]->w);
            }
        }
        n->epoch = curEpoch;
        n->ev = r;
        return r;
    }
    const std::vector<uint32_t>& varsOf(const Node* n) {
        if (n->vars) return *n->vars;
        auto* v = new std::vector<uint32_t>();
        if (n->op == O_VAR) v->push_back(n->aux);
        for (auto* k : n->k)
            if (k) {
                auto& s = varsOf(k);
                std::vector<uint32_t> t;
                std::set_union(v->begin(), v->end(), s.begin(), s.end(), std::back_inserter(t));
                v->swap(t);
            }
        n->vars = v;
        return *v;
    }
    std::string str(const Node* n, int d = 0) {
        static const char* nm[] = {"const","var","undef","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","concat","extract","zext","sext"};
        if (n->op == O_CONST) { char b[64]; snprintf(b, 64, "0x%llx", (unsigned long long)n->c); return b; }
        if (n->op == O_VAR) return vars[n->aux].name;
        if (d > 6) return "...";
        std::string s = std::string("(") + nm[n->op];
        for (auto* k : n->k) if (k) s += " " + str(k, d + 1);
        if (n->op == O_EXTRACT) s += "@" + std::to_string(n->aux) + ":" + std::to_string(n->w);
        return s + ")";
    }
};

struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0;
    double time = 0, maxTime = 0;
};

class Solver {
    Ctx& cx;
    Z3_context z;
    Z3_solver s;
    struct Res { bool sat; Model m; };
    std::map<std::vector<uint32_t>, Res> cache;
    int vcount = 0;

    Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(z, w); }
    Z3_ast b2v(Z3_ast b) { // bool -> bv1
        unsigned one = 1;
        (void)one;
        return Z3_mk_ite(z, b, Z3_mk_unsigned_int(z, 1, bv(1)), Z3_mk_unsigned_int(z, 0, bv(1)));
    }

public:
    SolverStats st;
    std::string dumpDir; // when set, decided queries are dumped as SMT-LIB for a second solver
    int dumpMax = 0, dumped = 0;

    Solver(Ctx& c) : cx(c) {
        Z3_config cfg = Z3_mk_config();
        z = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
        Z3_solver_inc_ref(z, s);
        Z3_params p = Z3_mk_params(z);
        Z3_params_inc_ref(z, p);
        Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), 60000);
        Z3_solver_set_params(z, s, p);
    }
    Z3_ast tr(const Node* n) {
        if (n->ast) return n->ast;
        Z3_ast r = nullptr, a = n->k[0] ? tr(n->k[0]) : nullptr, b = n->k[1] ? tr(n->k[1]) : nullptr,
               c = n->k[2] ? tr(n->k[2]) : nullptr;
        switch (n->op) {
            case O_CONST: {
                u128 v = n->c;
                std::string d;
                if (v == 0) d = "0";
                while (v) { d.insert(d.begin(), char('0' + (int)(v % 10))); v /= 10; }
                r = Z3_mk_numeral(z, d.c_str(), bv(n->w));
                break;
            }
            case O_VAR: r = Z3_mk_const(z, Z3_mk_string_symbol(z, cx.vars[n->aux].name.c_str()), bv(n->w)); break;
            case O_UNDEF: r = Z3_mk_numeral(z, "0", bv(n->w)); break;
            case O_ADD: r = Z3_mk_bvadd(z, a, b); break;
            case O_SUB: r = Z3_mk_bvsub(z, a, b); break;
            case O_MUL: r = Z3_mk_bvmul(z, a, b); break;
            case O_UDIV: r = Z3_mk_bvudiv(z, a, b); break;
            case O_SDIV: r = Z3_mk_bvsdiv(z, a, b); break;
            case O_UREM: r = Z3_mk_bvurem(z, a, b); break;
            case O_SREM: r = Z3_mk_bvsrem(z, a, b); break;
            case O_AND: r = Z3_mk_bvand(z, a, b); break;
            case O_OR: r = Z3_mk_bvor(z, a, b); break;
            case O_XOR: r = Z3_mk_bvxor(z, a, b); break;
            case O_SHL: r = Z3_mk_bvshl(z, a, b); break;
            case O_LSHR: r = Z3_mk_bvlshr(z, a, b); break;
            case O_ASHR: r = Z3_mk_bvashr(z, a, b); break;
            case O_EQ: r = b2v(Z3_mk_eq(z, a, b)); break;
            case O_ULT: r = b2v(Z3_mk_bvult(z, a, b)); break;
            case O_ULE: r = b2v(Z3_mk_bvule(z, a, b)); break;
            case O_SLT: r = b2v(Z3_mk_bvslt(z, a, b)); break;
            case O_SLE: r = b2v(Z3_mk_bvsle(z, a, b)); break;
            case O_ITE: r = Z3_mk_ite(z, Z3_mk_eq(z, a, Z3_mk_unsigned_int(z, 1, bv(1))), b, c); break;
            case O_CONCAT: r = Z3_mk_concat(z, a, b); break;
            case O_EXTRACT: r = Z3_mk_extract(z, n->aux + n->w - 1, n->aux, a); break;
            case O_ZEXT: r = Z3_mk_zero_ext(z, n->w - n->k[0]->w, a); break;
            case O_SEXT: r = Z3_mk_sign_ext(z, n->w - n->k[0]->w, a); break;
        }
        Z3_inc_ref(z, r);
        n->ast = r;
        return r;
    }
    // Is pc /\ extra satisfiable? pc is known satisfiable with model m. On sat, m is updated.
    bool check(const std::vector<const Node*>& pc, const Node* extra, Model& m) {
        if (extra->op == O_CONST) return extra->c != 0;
        cx.newEval();
        if (cx.eval(extra, m)) { st.modelHits++; return true; }
        // slice
        std::vector<uint32_t> vs = cx.varsOf(extra);
        std::vector<const Node*> sl;
        std::vector<char> used(pc.size(), 0);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++)
                if (!used[i]) {
                    auto& pv = cx.varsOf(pc[i]);
                    bool hit = false;
                    for (auto v : pv)
                        if (std::binary_search(vs.begin(), vs.end(), v)) { hit = true; break; }
                    if (hit) {
                        used[i] = 1;
                        ch = true;
                        sl.push_back(pc[i]);
                        std::vector<uint32_t> t;
                        std::set_union(vs.begin(), vs.end(), pv.begin(), pv.end(), std::back_inserter(t));
                        vs.swap(t);
                    }
                }
        }
        std::vector<uint32_t> key;
        for (auto* n : sl) key.push_back(n->id);
        key.push_back(extra->id);
        std::sort(key.begin(), key.end());
        key.erase(std::unique(key.begin(), key.end()), key.end());
        auto it = cache.find(key);
        if (it != cache.end()) {
            st.cacheHits++;
            if (it->second.sat)
                for (auto& kv : it->second.m) m[kv.first] = kv.second;
            return it->second.sat;
        }
        auto t0 = std::chrono::steady_clock::now();
        Z3_solver_push(z, s);
        Z3_ast one = Z3_mk_unsigned_int(z, 1, bv(1));
        for (auto* n : sl) Z3_solver_assert(z, s, Z3_mk_eq(z, tr(n), one));
        Z3_solver_assert(z, s, Z3_mk_eq(z, tr(extra), one));
        Z3_lbool r = Z3_solver_check(z, s);
        if (dumped < dumpMax && !dumpDir.empty() && r != Z3_L_UNDEF) {
            std::string fn = dumpDir + "/q" + std::to_string(dumped++) + (r == Z3_L_TRUE ? ".sat.smt2" : ".unsat.smt2");
            if (FILE* f = fopen(fn.c_str(), "w")) {
                fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(z, s));
                fclose(f);
            }
        }
        st.queries++;
        Res res;
        if (r == Z3_L_TRUE) {
            st.sat++;
            res.sat = true;
            Z3_model md = Z3_solver_get_model(z, s);
            Z3_model_inc_ref(z, md);
            for (auto v : vs) {
                Z3_ast out;
                if (Z3_model_eval(z, md, tr(cx.vars[v].node), true, &out)) {
                    const char* str = Z3_get_numeral_string(z, out);
                    u128 x = 0;
                    for (const char* p = str; *p; p++) x = x * 10 + (*p - '0');
                    res.m[v] = x;
                }
            }
            Z3_model_dec_ref(z, md);
        } else if (r == Z3_L_FALSE) {
            st.unsat++;
            res.sat = false;
        } else {
            st.unknown++;
            Z3_solver_pop(z, s, 1);
            throw std::runtime_error(std::string("solver gave up: ") + cx.str(extra));
        }
        Z3_solver_pop(z, s, 1);
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        st.time += dt;
        st.maxTime = std::max(st.maxTime, dt);
        if (res.sat)
            for (auto& kv : res.m) m[kv.first] = kv.second;
        bool sat = res.sat;
        cache.emplace(std::move(key), std::move(res));
        return sat;
    }
};
