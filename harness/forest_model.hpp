// Reference model of an ordered forest: the balanced sequence of leading/trailing tokens. The same edits are
// applied to the library's forest and to the token sequence; check() then compares everything observable.
#pragma once
#include "sym.h"
#include <stlab/forest.hpp>
#include <utility>

namespace fm {
struct val {
    int v;
    friend bool operator==(const val& a, const val& b) { return a.v == b.v; }
    friend bool operator!=(const val& a, const val& b) { return a.v != b.v; }
};
using vforest = stlab::forest<val>;
using iter = vforest::iterator;
using child = vforest::child_iterator;

constexpr int MAXN = 20; // nodes ever created
constexpr int MAXT = 2 * MAXN;

struct tok {
    signed char id;
    bool lead;
};

struct seq {
    tok t[MAXT];
    int n = 0;
    void ins(int p, tok k) {
        for (int i = n; i > p; --i) t[i] = t[i - 1];
        t[p] = k;
        ++n;
    }
    void del(int p) {
        for (int i = p; i + 1 < n; ++i) t[i] = t[i + 1];
        --n;
    }
    int match(int p) const {
        for (int i = 0; i < n; ++i)
            if (i != p && t[i].id == t[p].id) return i;
        return -1;
    }
    int find(int id, bool lead) const {
        for (int i = 0; i < n; ++i)
            if (t[i].id == id && t[i].lead == lead) return i;
        return -1;
    }
    // token index of the trailing edge of the parent of position p (n: the end)
    int parent_close(int p) const {
        int d = 0;
        for (int i = p; i < n; ++i) {
            if (t[i].lead) ++d;
            else if (d-- == 0) return i;
        }
        return n;
    }
    int next_sibling(int p) const { return match(p) + 1; }
};

struct pool {
    iter it[MAXN];
    int v[MAXN];
    int used = 0;
};

struct world {
    pool* p;
    vforest f;
    seq s;
    explicit world(pool& q) : p(&q) {}

    iter at(int pos) {
        if (pos == s.n) return f.end();
        iter i = p->it[s.t[pos].id];
        i.edge() = s.t[pos].lead ? stlab::forest_edge::leading : stlab::forest_edge::trailing;
        return i;
    }
    int fresh() {
        int id = p->used++;
        p->v[id] = sym::i32("v");
        return id;
    }
    // does iterator i denote token position pos
    bool is(const iter& i, int pos) { return i == at(pos); }

    void insert(int pos) {
        iter where = at(pos);
        int id = fresh();
        iter r = f.insert(where, val{p->v[id]});
        p->it[id] = r;
        CHECK(stlab::is_leading(r), "insert returns the leading edge of the new node");
        s.ins(pos, tok{(signed char)id, false});
        s.ins(pos, tok{(signed char)id, true});
        CHECK(is(r, pos), "insert returns the new node");
    }
    void erase(int pos) {
        int m = s.match(pos);
        iter r = f.erase(at(pos));
        if (m > pos) { // leading
            s.del(m);
            s.del(pos);
            CHECK(is(r, pos), "erase of a leading edge returns the next position");
        } else {
            s.del(pos);
            s.del(m);
            CHECK(is(r, pos - 1), "erase of a trailing edge returns the next position");
        }
    }
    void erase_range(int a, int b) {
        iter last = at(b);
        iter r = f.erase(at(a), last);
        bool in[MAXN] = {};
        int cnt[MAXN] = {};
        for (int i = a; i < b; ++i) ++cnt[s.t[i].id];
        for (int i = 0; i < MAXN; ++i) in[i] = cnt[i] == 2;
        seq o;
        for (int i = 0; i < s.n; ++i)
            if (!in[s.t[i].id]) o.t[o.n++] = s.t[i];
        s = o;
        CHECK(r == last, "range erase returns the end of the range");
    }
    void check(const char* = "") {
        iter i = f.begin();
        int n = 0;
        for (int k = 0; k < s.n; ++k, ++n) {
            CHECK(i != f.end(), "forest has fewer edges than intended");
            CHECK(i == at(k), "forward walk visits a wrong position");
            CHECK((i.edge() == stlab::forest_edge::leading) == s.t[k].lead, "wrong edge");
            CHECK(i->v == p->v[s.t[k].id], "node value changed");
            ++i;
        }
        CHECK(i == f.end(), "forest has more edges than intended");
        for (int k = s.n - 1; k >= 0; --k) {
            --i;
            CHECK(i == at(k), "backward walk visits a wrong position");
        }
        CHECK(i == f.begin(), "backward walk does not end at begin");
    }
    void check_size() {
        CHECK(f.empty() == (s.n == 0), "emptiness is wrong");
        if (s.n == 0) CHECK(f.size_valid(), "an empty forest has a valid size");
        bool valid = f.size_valid();
        CHECK(f.size() == (std::size_t)(s.n / 2), "size is wrong");
        CHECK(f.size_valid(), "size is valid after it was asked for");
        (void)valid;
    }
};

// an arbitrary tree shape with exactly n nodes: node by node in pre-order, each at a chosen depth
inline void any_tree(world& w, int n) {
    int depth = 0; // open ancestors of the last node + 1
    int lastpos = 0;
    for (int k = 0; k < n; ++k) {
        int d = (int)sym::choose("depth", depth + 1); // 0..depth : parent is the d-th open node
        // position of insertion: walk from the end, closing depth-d nodes
        int pos = 0;
        if (k) {
            pos = lastpos + 1;
            for (int c = depth; c > d; --c) ++pos;
        }
        w.insert(pos);
        lastpos = pos;
        depth = d + 1;
    }
}
// larger trees of five kinds
inline void grown(world& w, int kind) {
    static constexpr signed char kinds[5][9] = {
        {0, 1, 2, 3, 4, 5, 6, 7, 8}, // a chain
        {0, 0, 0, 0, 0, 0, 0, 0, 0}, // siblings
        {0, 1, 1, 1, 1, 1, 1, 1, 0}, // many children and one after
        {0, 1, 1, 2, 2, 3, 3, 4, 4}, // a comb
        {0, 1, 2, 2, 1, 2, 2, 0, 1}, // pairs
    };
    int depth = 0, lastpos = 0;
    for (int k = 0; k < 9; ++k) {
        int d = kinds[kind][k], pos = k ? lastpos + 1 + (depth - d) : 0;
        w.insert(pos);
        lastpos = pos;
        depth = d + 1;
    }
}
// every tree with a number of nodes in [from, n), or a larger one
inline void some_tree(world& w, const char* name, unsigned n, unsigned from = 0) {
    unsigned k = from + sym::choose(name, n + 5 - from);
    if (k < n) any_tree(w, (int)k);
    else grown(w, (int)(k - n));
}
// a splice of the child range [a,b) of w2 (token positions; b is the base of the last child iterator) before pos of w1
inline void model_move(seq& d, int pos, seq& src, int a, int b) {
    tok tmp[MAXT];
    int n = b - a;
    for (int i = 0; i < n; ++i) tmp[i] = src.t[a + i];
    for (int i = 0; i < n; ++i) src.del(a);
    if (&d == &src && pos >= b) pos -= n;
    for (int i = 0; i < n; ++i) d.ins(pos + i, tmp[i]);
}
} // namespace fm
