// Element types whose copies and moves may fail: whatever the point of failure, forests stay whole and nothing leaks.
#include "forest_model.hpp"
#include <stlab/forest_algorithms.hpp>
#include <optional>
#include <vector>
using namespace fm;
using stlab::is_leading;

namespace {
int budget; // copies (and, if moves_throw, moves) left before one throws; negative: never
bool moves_throw;
int alive;
void spend() {
    if (budget < 0) return;
    if (budget == 0) throw 5;
    --budget;
}
struct tv {
    int v;
    explicit tv(int x) : v(x) { ++alive; }
    tv(const tv& x) : v(x.v) {
        spend();
        ++alive;
    }
    tv(tv&& x) : v(x.v) {
        if (moves_throw) spend();
        ++alive;
    }
    tv& operator=(const tv& x) {
        spend();
        v = x.v;
        return *this;
    }
    ~tv() { --alive; }
    friend bool operator==(const tv& a, const tv& b) {
        spend();
        return a.v == b.v;
    }
    friend bool operator!=(const tv& a, const tv& b) { return !(a == b); }
};
using tforest = stlab::forest<tv>;
struct made {
    tforest f;
    seq s;
    int v[MAXN];
    tforest::iterator at(int pos) {
        auto i = f.begin();
        while (pos-- > 0) ++i;
        return i;
    }
    void build(int n) {
        for (int k = 0; k < n; ++k) {
            int pos = sym::choose("pos", s.n + 1);
            v[k] = sym::i32("v");
            f.insert(at(pos), tv(v[k]));
            s.ins(pos, tok{(signed char)k, false});
            s.ins(pos, tok{(signed char)k, true});
        }
    }
    bool same() {
        auto i = f.begin();
        for (int k = 0; k < s.n; ++k, ++i)
            if (i == f.end() || is_leading(i) != s.t[k].lead || i->v != v[s.t[k].id]) return false;
        if (i != f.end() || f.size() != std::size_t(s.n / 2) || f.empty() != (s.n == 0)) return false;
        for (int k = s.n; k-- > 0;) {
            --i;
            if (is_leading(i) != s.t[k].lead) return false;
        }
        return i == f.begin();
    }
};
// a forest in whatever state: balanced, its size right, walkable both ways
int whole(tforest& f) {
    int n = 0, d = 0;
    for (auto i = f.begin(); i != f.end(); ++i) {
        d += is_leading(i) ? 1 : -1;
        CHECK(d >= 0, "unbalanced forest after a failure");
        if (is_leading(i)) ++n;
    }
    CHECK(d == 0 && f.size() == std::size_t(n) && f.empty() == (n == 0), "size of a forest after a failure");
    auto i = f.end();
    for (int k = 0; k < 2 * n; ++k) --i;
    CHECK(i == f.begin(), "walking back after a failure");
    return n;
}
} // namespace

// copy construction and assignment, equality
ENTRY(ft_copy) { // @F07 reach=threw,done
    alive = 0;
    budget = -1;
    moves_throw = false;
    {
        made a, b;
        a.build(sym::choose("na", 4));
        b.build(sym::choose("nb", 3));
        bool threw = false;
        budget = sym::choose("fail", 5);
        moves_throw = sym::choose("moves", 2);
        int op = sym::choose("op", 3);
        try {
            if (op == 0) {
                tforest c(a.f);
                budget = -1;
                CHECK(whole(c) == a.s.n / 2, "a copy that succeeded");
            } else if (op == 1) {
                b.f = a.f;
                budget = -1;
                CHECK(whole(b.f) == a.s.n / 2, "a copy assignment that succeeded");
                b.f.clear();
                b.s.n = 0;
            } else {
                bool e = a.f == b.f;
                CHECK(e || a.s.n || b.s.n, "equality of empty forests");
            }
        } catch (int x) {
            CHECK(x == 5, "the exception of the element");
            threw = true;
        }
        budget = -1;
        CHECK(a.same(), "the source of a failed copy changed");
        CHECK(b.same(), "the target of a failed copy changed");
        CHECK(alive == a.s.n / 2 + b.s.n / 2, "an element outlived a failed copy");
        if (threw) sym::reach("threw");
        else sym::reach("done");
    }
    CHECK(alive == 0, "an element outlives its forest");
    sym::leaks();
}

// single insertions: they happen or they do not
ENTRY(ft_insert) { // @F07 reach=threw,done
    alive = 0;
    budget = -1;
    moves_throw = false;
    {
        made a;
        a.build(sym::choose("n", 4));
        int id = a.s.n / 2, n = a.s.n, ia = 0, ie = 0; // where the new node's edges go
        a.v[id] = sym::i32("new");
        tv x(a.v[id]);
        auto pos = sym::choose("where", a.s.n + 1);
        int op = sym::choose("op", 7);
        tforest::iterator where = a.at(pos);
        bool threw = false;
        budget = sym::choose("fail", 4);
        moves_throw = sym::choose("moves", 2);
        try {
            switch (op) {
                case 0: a.f.insert(where, x); ia = ie = pos; break;
                case 1: a.f.insert(where, tv(a.v[id])); ia = ie = pos; break;
                case 2: a.f.push_front(x); ia = ie = 0; break;
                case 3: a.f.push_back(x); ia = ie = n; break;
                case 4: // under a node: as its first or last child
                case 5: {
                    if (pos == n) throw 5;
                    stlab::child_adaptor<tforest> c(a.f, where);
                    int m = a.s.match(pos), l = m < pos ? m : pos, t = m < pos ? pos : m;
                    if (op == 4) {
                        c.push_front(x);
                        ia = ie = l + 1;
                    } else {
                        c.push_back(x);
                        ia = ie = t;
                    }
                    break;
                }
                case 6: { // around one child
                    if (pos == n || !a.s.t[pos].lead) throw 5;
                    tforest::child_iterator f(where), l(where);
                    ++l;
                    a.f.insert_parent(f, l, x);
                    ia = pos;
                    ie = a.s.match(pos) + 1;
                    break;
                }
            }
        } catch (int e) {
            CHECK(e == 5, "the exception of the element");
            threw = true;
        }
        budget = -1;
        if (!threw) {
            a.s.ins(ie, tok{(signed char)id, false});
            a.s.ins(ia, tok{(signed char)id, true});
        }
        CHECK(a.same(), "a failed insertion changed the forest, or a successful one is wrong");
        CHECK(alive == a.s.n / 2 + 1, "an element outlived a failed insertion");
        if (threw) sym::reach("threw");
        else sym::reach("done");
    }
    CHECK(alive == 0, "an element outlives its forest");
    sym::leaks();
}

// insertions of whole ranges: the source is untouched, the nodes that were there stay, the forest stays whole
ENTRY(ft_range) { // @F07 reach=threw,done
    alive = 0;
    budget = -1;
    moves_throw = false;
    {
        made a, b;
        a.build(sym::choose("na", 4));
        b.build(sym::choose("nb", 3));
        int nb = b.s.n / 2, op = sym::choose("op", 3);
        int pos = sym::choose("where", b.s.n + 1);
        auto where = b.at(pos);
        std::vector<std::optional<tv>> flat;
        flat.reserve(8);
        if (op == 2) stlab::forests::flatten(a.f.begin(), a.f.end(), std::back_inserter(flat));
        tforest g;
        bool threw = false;
        budget = sym::choose("fail", 6);
        moves_throw = sym::choose("moves", 2);
        try {
            using cc = tforest::const_child_iterator;
            if (op == 0) b.f.insert(where, cc(a.f.begin()), cc(a.f.end()));
            else if (op == 1) stlab::forests::transcribe(a.f, stlab::forests::transcriber(g), [](const tv& x) { return tv(x); });
            else stlab::forests::unflatten(flat.begin(), flat.end(), g);
        } catch (int e) {
            CHECK(e == 5, "the exception of the element");
            threw = true;
        }
        budget = -1;
        CHECK(a.same(), "the source of a failed insertion changed");
        int nf = whole(b.f), ng = whole(g);
        if (op == 0) CHECK(threw ? nf >= nb && nf < nb + a.s.n / 2 : nf == nb + a.s.n / 2, "number of nodes after a range insertion");
        else CHECK(nf == nb && (threw ? ng < a.s.n / 2 : ng == a.s.n / 2), "number of nodes after transcribing");
        // the nodes that were there before are still there in their order
        if (op == 0) {
            int k = 0, put = 0;
            for (auto i = b.f.begin(); i != b.f.end(); ++i) {
                if (k == pos && put < 2 * (nf - nb)) {
                    ++put;
                    continue;
                }
                CHECK(k < b.s.n && is_leading(i) == b.s.t[k].lead && i->v == b.v[b.s.t[k].id], "a node moved during a failed insertion");
                ++k;
            }
            CHECK(k == b.s.n, "a node got lost during a failed insertion");
        } else CHECK(b.same(), "an unrelated forest changed");
        int held = 0;
        for (auto& o : flat) held += o.has_value();
        CHECK(alive == a.s.n / 2 + nf + ng + held, "an element outlived a failed insertion");
        if (threw) sym::reach("threw");
        else sym::reach("done");
    }
    CHECK(alive == 0, "an element outlives its forest");
    sym::leaks();
}
