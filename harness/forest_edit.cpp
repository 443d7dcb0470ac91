#include "forest_model.hpp"
#include <stlab/forest_algorithms.hpp>
using namespace fm;
using stlab::child_iterator;

// pick a child range of w: a leading position a and the base b of a later sibling position (or the parent's close)
static bool pick_range(world& w, int& a, int& b) {
    int starts[MAXT], n = 0;
    for (int i = 0; i <= w.s.n; ++i)
        if (i == w.s.n || w.s.t[i].lead || true) starts[n++] = i;
    a = starts[sym::choose("from", n)];
    int ends[MAXT], m = 0;
    ends[m++] = a;
    int q = a;
    while (q < w.s.n && w.s.t[q].lead) {
        q = w.s.next_sibling(q);
        ends[m++] = q;
    }
    b = ends[sym::choose("to", m)];
    return true;
}

// one edit on a forest of every shape with n nodes
static void one_edit(world& w, int op) {
    switch (op) {
        case 0: w.insert(sym::choose("pos", w.s.n + 1)); break;
        case 1: if (w.s.n) w.erase(sym::choose("pos", w.s.n)); break;
        case 2: {
            int a = sym::choose("a", w.s.n + 1);
            int b = a + sym::choose("b", w.s.n + 1 - a);
            w.erase_range(a, b);
            break;
        }
        case 3: { // splice a child range inside the forest
            int a, b;
            pick_range(w, a, b);
            // destination outside (a, b)
            int k = sym::choose("dst", w.s.n + 1 - (b > a ? b - a - 1 : 0));
            int pos = k <= a ? k : k + (b > a ? b - a - 1 : 0);
            iter where = w.at(pos);
            iter first = w.at(a);
            iter r = sym::choose("counted", 2) ? w.f.splice(where, w.f, child(first), child(w.at(b)), (b - a) / 2)
                                               : w.f.splice(where, w.f, child(first), child(w.at(b)));
            if (a == b) CHECK(r == where, "empty splice returns the position");
            else CHECK(r == first, "splice returns the first moved node");
            model_move(w.s, pos, w.s, a, b);
            break;
        }
        case 4: { // splice one node (with its subtree) inside the forest
            if (!w.s.n) return;
            int q = sym::choose("node", w.s.n);
            int a = w.s.t[q].lead ? q : w.s.match(q);
            int b = w.s.next_sibling(a);
            int k = sym::choose("dst", w.s.n + 1 - (b - a - 1));
            int pos = k <= a ? k : k + (b - a - 1);
            iter r = w.f.splice(w.at(pos), w.f, w.at(q));
            CHECK(r == w.at(a), "splice returns the moved node");
            model_move(w.s, pos, w.s, a, b);
            break;
        }
        case 5: { // insert_parent
            int a, b;
            pick_range(w, a, b);
            int id = w.fresh();
            iter r = w.f.insert_parent(child(w.at(a)), child(w.at(b)), val{w.p->v[id]});
            w.p->it[id] = r;
            w.s.ins(b, tok{(signed char)id, false});
            w.s.ins(a, tok{(signed char)id, true});
            CHECK(w.is(r, a), "insert_parent returns the leading edge of the new node");
            break;
        }
        case 6: { // children of a node through child_adaptor
            if (!w.s.n) return;
            int q = sym::choose("node", w.s.n);
            int a = w.s.t[q].lead ? q : w.s.match(q);
            int e = w.s.match(a);
            iter n = w.at(q);
            stlab::child_adaptor<vforest> c(w.f, n);
            int what = sym::choose("adaptor", e > a + 1 ? 4 : 2);
            if (what < 2) {
                int id = w.fresh();
                int pos = what ? a + 1 : e;
                if (what) c.push_front(val{w.p->v[id]});
                else c.push_back(val{w.p->v[id]});
                CHECK((what ? c.front() : c.back()).v == w.p->v[id], "child front/back");
                iter it = w.at(a);
                it.edge() = stlab::forest_edge::leading;
                if (what) ++it;
                else {
                    it.edge() = stlab::forest_edge::trailing;
                    --it;
                }
                it.edge() = stlab::forest_edge::leading;
                w.p->it[id] = it;
                w.s.ins(pos, tok{(signed char)id, false});
                w.s.ins(pos, tok{(signed char)id, true});
            } else if (what == 2) { // pop_front
                CHECK(c.front().v == w.p->v[w.s.t[a + 1].id], "child front");
                c.pop_front();
                int m = w.s.match(a + 1);
                w.s.del(m);
                w.s.del(a + 1);
            } else {
                CHECK(c.back().v == w.p->v[w.s.t[e - 1].id], "child back");
                c.pop_back();
                int m = w.s.match(e - 1);
                w.s.del(e - 1);
                w.s.del(m);
            }
            break;
        }
        case 7: { // push / pop at the ends
            int what = sym::choose("end", w.s.n ? 4 : 2);
            if (what < 2) {
                int id = w.fresh();
                int pos = what ? 0 : w.s.n;
                if (what) w.f.push_front(val{w.p->v[id]});
                else w.f.push_back(val{w.p->v[id]});
                CHECK((what ? w.f.front() : w.f.back()).v == w.p->v[id], "front/back");
                iter it = what ? w.f.begin() : --w.f.end();
                it.edge() = stlab::forest_edge::leading;
                w.p->it[id] = it;
                w.s.ins(pos, tok{(signed char)id, false});
                w.s.ins(pos, tok{(signed char)id, true});
            } else if (what == 2) {
                CHECK(w.f.front().v == w.p->v[w.s.t[0].id], "front");
                w.f.pop_front();
                int m = w.s.match(0);
                w.s.del(m);
                w.s.del(0);
            } else {
                CHECK(w.f.back().v == w.p->v[w.s.t[w.s.n - 1].id], "back");
                w.f.pop_back();
                int m = w.s.match(w.s.n - 1);
                w.s.del(w.s.n - 1);
                w.s.del(m);
            }
            break;
        }
        case 8: w.f.clear(); w.s.n = 0; break;
    }
}

ENTRY(f_edit1) { // @F01,F02 time=60 reach=done
    {
        pool p;
        world w(p);
        some_tree(w, "n", 5);
        bool asked = sym::choose("ask", 2);
        one_edit(w, sym::choose("op", 9));
        if (asked) w.check_size();
        w.check();
        w.check_size();
        sym::reach("done");
    }
    sym::leaks();
}

ENTRY(f_edit2) { // @F01,F02 time=120 reach=done parts=4 weight=3 thorough.parts=8
    {
        pool p;
        world w(p);
        int n = sym::choose("n", 4);
        any_tree(w, n);
        one_edit(w, sym::choose("op1", 9));
        w.check();
        one_edit(w, sym::choose("op2", 9));
        w.check();
        w.check_size();
        sym::reach("done");
    }
    sym::leaks();
}

ENTRY(f_edit3) { // @F01,F02 tier=thorough time=3000 reach=done parts=16 weight=4
    {
        pool p;
        world w(p);
        int n = sym::choose("n", 4);
        any_tree(w, n);
        for (int k = 0; k < 3; ++k) {
            one_edit(w, sym::choose("op", 8));
            w.check();
        }
        w.check_size();
        sym::reach("done");
    }
    sym::leaks();
}

ENTRY(f_edit1_big) { // @F01,F02 tier=thorough time=3000 reach=done parts=8 weight=3
    {
        pool p;
        world w(p);
        any_tree(w, 6);
        one_edit(w, sym::choose("op", 9));
        w.check();
        w.check_size();
        sym::reach("done");
    }
    sym::leaks();
}

// two forests: splices between them with every size knowledge, then both are used further
static void cross(world& a, world& b, int kind) {
    int pos = sym::choose("dst", a.s.n + 1);
    iter where = a.at(pos);
    switch (kind) {
        case 0: { // whole forest
            iter first = b.f.begin();
            int n = b.s.n;
            iter r = a.f.splice(where, b.f);
            CHECK(r == (n ? first : where), "splice returns the first moved node");
            model_move(a.s, pos, b.s, 0, b.s.n);
            CHECK(b.f.empty(), "a forest spliced away is empty");
            break;
        }
        case 1: { // one node
            if (!b.s.n) return;
            int q = sym::choose("node", b.s.n);
            int x = b.s.t[q].lead ? q : b.s.match(q);
            int y = b.s.next_sibling(x);
            iter bx = b.at(x);
            iter r = a.f.splice(where, b.f, b.at(q));
            CHECK(r == bx, "splice returns the moved node");
            model_move(a.s, pos, b.s, x, y);
            break;
        }
        case 4: { // copies of a child range
            int x, y;
            pick_range(b, x, y);
            int m = y - x;
            if (a.p->used + m / 2 > MAXN) return;
            iter r = a.f.insert(where, vforest::const_child_iterator(child(b.at(x))), vforest::const_child_iterator(child(b.at(y))));
            CHECK(r == where, "range insert returns the position after the copies");
            tok cp[MAXT];
            int map[MAXN];
            for (int i = 0; i < m; ++i) {
                cp[i] = b.s.t[x + i];
                if (cp[i].lead) {
                    int id = a.p->used++;
                    a.p->v[id] = a.p->v[cp[i].id];
                    map[cp[i].id] = id;
                }
                cp[i].id = (signed char)map[cp[i].id];
            }
            for (int i = 0; i < m; ++i) a.s.ins(pos + i, cp[i]);
            iter it = where;
            for (int i = m - 1; i >= 0; --i) {
                --it;
                iter l = it;
                l.edge() = stlab::forest_edge::leading;
                if (cp[i].lead) a.p->it[cp[i].id] = l;
            }
            break;
        }
        default: {
            int x, y;
            pick_range(b, x, y);
            iter first = b.at(x);
            iter r = kind == 3 ? a.f.splice(where, b.f, child(first), child(b.at(y)), (y - x) / 2)
                               : a.f.splice(where, b.f, child(first), child(b.at(y)));
            CHECK(r == (x == y ? where : first), "splice returns the first moved node");
            model_move(a.s, pos, b.s, x, y);
        }
    }
}

ENTRY(f_splice) { // @F01,F02 time=120 reach=done parts=4 weight=2
    {
        pool p;
        world a(p), b(p);
        any_tree(a, sym::choose("na", 3));
        any_tree(b, sym::choose("nb", 4));
        cross(a, b, sym::choose("kind", 5));
        a.check();
        b.check();
        // sizes must agree whichever is asked first and after one more edit
        switch (sym::choose("then", 5)) {
            case 0: break;
            case 1: a.insert(sym::choose("p", a.s.n + 1)); break;
            case 2: if (a.s.n) a.erase(sym::choose("p", a.s.n)); break;
            case 3: b.insert(sym::choose("p", b.s.n + 1)); break;
            case 4: cross(b, a, 0); break;
        }
        a.check_size();
        b.check_size();
        a.check();
        b.check();
        sym::reach("done");
    }
    sym::leaks();
}

// larger forests
ENTRY(f_splice_wide) { // @F01,F02 time=150 reach=done parts=4 weight=2
    {
        pool p;
        world a(p), b(p);
        if (sym::choose("one", 2)) any_tree(a, 1);
        else grown(a, (int)sym::choose("a", 5));
        grown(b, (int)sym::choose("b", 5));
        bool asked = sym::choose("ask", 2);
        if (asked) {
            a.check_size();
            b.check_size();
        }
        cross(a, b, sym::choose("kind", 5));
        a.check();
        b.check();
        a.check_size();
        b.check_size();
        sym::reach("done");
    }
    sym::leaks();
}

ENTRY(f_splice2) { // @F02 time=150 reach=done parts=4 weight=2
    {
        pool p;
        world a(p), b(p);
        any_tree(a, sym::choose("na", 3));
        any_tree(b, sym::choose("nb", 3));
        cross(a, b, sym::choose("kind", 5));
        cross(b, a, sym::choose("kind2", 5));
        if (sym::choose("moved", 2)) {
            // move the contents out: the source is left empty and usable
            vforest g(std::move(a.f));
            CHECK(a.f.empty() && a.f.size() == 0 && a.f.size_valid(), "a moved-from forest is empty");
            CHECK(g.size() == (std::size_t)a.s.n / 2, "a moved-to forest has the whole size");
            a.s.n = 0;
            a.insert(0);
            a.check();
            a.check_size();
        }
        a.check_size();
        b.check_size();
        a.f.clear();
        CHECK(a.f.empty() && a.f.size_valid() && a.f.size() == 0, "clear leaves an empty forest");
        a.s.n = 0;
        a.insert(0);
        a.insert(1);
        a.check();
        a.check_size();
        sym::reach("done");
    }
    sym::leaks();
}
