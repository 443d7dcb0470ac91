#include "forest_model.hpp"
#include <stlab/forest_algorithms.hpp>
using namespace fm;
using namespace stlab;

// depth of token k: number of open ancestors of that node
static int depth_at(const seq& s, int k) {
    int d = 0;
    for (int i = 0; i < k; ++i) d += s.t[i].lead ? 1 : -1;
    return s.t[k].lead ? d : d - 1;
}

// pre- and post-increment and decrement agree on a position that has a successor
template <class I>
static void steps(const I& i) {
    I j = i, k = i;
    ++k;
    CHECK(!(k == i) && k != i, "increment moves");
    I old = j++;
    CHECK(old == i && j == k, "post-increment");
    I o2 = j--;
    CHECK(o2 == k && j == i, "post-decrement");
    I o3 = --k;
    CHECK(o3 == i && k == i && !(k != i), "decrement undoes increment");
    CHECK(&*k == k.operator->() && &*j == &*k, "-> and *");
}
ENTRY(fw_order) { // @F04 reach=done
    {
        pool p;
        world w(p);
        some_tree(w, "n", 7);
        const vforest& cf = w.f;
        CHECK(is_leading(forest_leading_edge) && is_trailing(forest_trailing_edge) && pivot(forest_leading_edge) == forest_trailing_edge, "edges");
        if (w.s.n) CHECK(&cf.front() == &*w.at(0) && &cf.back() == &*w.at(w.s.n - 1) && &w.f.front() == &cf.front() && &w.f.back() == &cf.back(), "front and back");
        CHECK(cf.root() == vforest::const_iterator(w.f.root()) && ++w.f.root() == w.f.begin() && trailing_of(w.f.root()) == w.f.end(), "root");
        // full order: const and non const, forward and backward
        w.check();
        {
            auto i = cf.begin();
            for (int k = 0; k < w.s.n; ++k) {
                CHECK(i != cf.end() && is_leading(i) == w.s.t[k].lead && i->v == p.v[w.s.t[k].id], "const walk");
                CHECK(is_trailing(i) != is_leading(i), "edge queries");
                auto j = i;
                ++j;
                --j;
                CHECK(j == i, "decrement undoes increment");
                steps(i);
                ++i;
            }
            CHECK(i == cf.end(), "const walk length");
        }
        // pre and post order
        {
            auto r = preorder_range(w.f);
            auto i = r.begin();
            for (int k = 0; k < w.s.n; ++k)
                if (w.s.t[k].lead) {
                    CHECK(i != r.end() && i.base() == w.at(k) && i->v == p.v[w.s.t[k].id], "pre-order");
                    steps(i);
                    ++i;
                }
            CHECK(i == r.end(), "pre-order length");
            for (int k = w.s.n; k-- > 0;)
                if (w.s.t[k].lead) {
                    --i;
                    CHECK(i.base() == w.at(k), "pre-order backwards");
                }
            CHECK(i == r.begin(), "pre-order begin");
            auto q = preorder_range(cf);
            int c = 0;
            for (auto j = q.begin(); j != q.end(); ++j) ++c;
            CHECK(c == w.s.n / 2, "const pre-order");
        }
        {
            auto r = postorder_range(w.f);
            auto i = r.begin();
            for (int k = 0; k < w.s.n; ++k)
                if (!w.s.t[k].lead) {
                    CHECK(i != r.end() && i.base() == w.at(k) && i->v == p.v[w.s.t[k].id], "post-order");
                    steps(i);
                    ++i;
                }
            CHECK(i == r.end(), "post-order length");
            for (int k = w.s.n; k-- > 0;)
                if (!w.s.t[k].lead) {
                    --i;
                    CHECK(i.base() == w.at(k), "post-order backwards");
                }
            CHECK(i == r.begin(), "post-order begin");
            auto q = postorder_range(cf);
            int c = 0;
            for (auto j = q.begin(); j != q.end(); ++j) ++c;
            CHECK(c == w.s.n / 2, "const post-order");
        }
        // depth
        {
            auto r = depth_range(w.f);
            auto i = r.begin();
            for (int k = 0; k < w.s.n; ++k, ++i) {
                CHECK(i.base() == w.at(k), "depth walk");
                // reported on the leading edge as the number of ancestors, on the trailing edge likewise
                CHECK(i.depth() == depth_at(w.s, k), "depth");
                steps(i);
                auto back = i;
                CHECK((back++).depth() == i.depth() && (--back).depth() == i.depth(), "depth of a copy that moves");
            }
            CHECK(i == r.end() && i.depth() == (w.s.n ? -1 : i.depth()), "depth at the end");
            for (int k = w.s.n; k-- > 0;) {
                --i;
                CHECK(i.depth() == depth_at(w.s, k), "depth walking back");
            }
            const vforest& cf = w.f;
            auto cr = depth_range(cf);
            auto e = r.end();
            auto ce = cr.end();
            for (int k = w.s.n; k-- > 0;) {
                --e;
                --ce;
                CHECK(e.depth() == depth_at(w.s, k) && ce.depth() == e.depth(), "depth walking back from the end of the range");
            }
        }
        sym::reach("done");
    }
    sym::leaks();
}

ENTRY(fw_reverse) { // @F04 reach=done
    {
        pool p;
        world w(p);
        some_tree(w, "n", 7);
        const vforest& cf = w.f;
        auto r = reverse_fullorder_range(w.f);
        auto i = r.begin();
        for (int k = w.s.n; k-- > 0; ++i) {
            CHECK(i != r.end() && i->v == p.v[w.s.t[k].id] && (*i).v == i->v, "reverse walk visits the wrong node");
            CHECK(is_leading(i) == !w.s.t[k].lead, "reverse walk reports the wrong edge");
            iter b = i.base();
            steps(i);
            CHECK(k + 1 == w.s.n ? b == w.f.end() : b == w.at(k + 1), "base of a reverse iterator");
        }
        CHECK(i == r.end(), "reverse walk length");
        for (int k = 0; k < w.s.n; ++k) {
            --i;
            CHECK(i->v == p.v[w.s.t[k].id] && is_leading(i) == !w.s.t[k].lead, "reverse walk backwards");
        }
        CHECK(i == r.begin(), "reverse walk begin");
        auto c = cf.rbegin();
        int n = 0;
        for (; c != cf.rend(); ++c) ++n;
        CHECK(n == w.s.n, "const reverse walk");
        // children in reverse
        if (w.s.n) {
            int q = sym::choose("node", w.s.n);
            iter x = w.at(q);
            int a = w.s.t[q].lead ? q : w.s.match(q), e = w.s.match(a);
            int kids[MAXN], m = 0;
            for (int k = a + 1; k < e; k = w.s.next_sibling(k)) kids[m++] = w.s.t[k].id;
            std::reverse_iterator<child> f{child_end(x)}, l{child_begin(x)};
            for (int k = m; k-- > 0; ++f) CHECK(f != l && (*f).v == p.v[kids[k]], "reverse children");
            CHECK(f == l, "reverse children length");
        }
        sym::reach("done");
    }
    sym::leaks();
}

// adaptors over adaptors: a reverse iterator moved to the other edge of its node, its children, parent, depth, filter
ENTRY(fw_compose) { // @F04 reach=done
    {
        using R = vforest::reverse_iterator;
        pool p;
        world w(p);
        some_tree(w, "n", 5, 1);
        vforest& f = w.f;
        auto rat = [&](int k) { return k < 0 ? f.rend() : R(k + 1 == w.s.n ? f.end() : w.at(k + 1)); };
        int q = sym::choose("node", w.s.n);
        int o = w.s.match(q), a = w.s.t[q].lead ? q : o, e = w.s.match(a);
        R r = rat(q);
        CHECK(r->v == p.v[w.s.t[q].id] && (*r).v == r->v, "reverse iterator made from a base");
        CHECK(leading_of(r) == rat(e) && trailing_of(r) == rat(a), "leading_of / trailing_of a reverse iterator");
        CHECK(pivot_of(r) == rat(o) && pivot_of(r).base() == rat(o).base(), "pivot_of a reverse iterator");
        CHECK(pivot_of(r) != r && r.equal_node(pivot_of(r)), "the two edges of a node in reverse");
        R t = trailing_of(r);
        CHECK(++t == rat(a - 1), "past the subtree in reverse");
        t = leading_of(r);
        CHECK(--t == rat(e + 1 == w.s.n ? w.s.n - 1 : e + 1) || e + 1 == w.s.n, "before the subtree in reverse");
        CHECK(has_children(r) == (e != a + 1), "has_children in reverse");
        int up = a - 1;
        for (int d = 0; up >= 0 && !(w.s.t[up].lead && d == 0); --up) d += w.s.t[up].lead ? -1 : 1;
        CHECK(find_parent(r) == rat(up), "find_parent in reverse");
        vforest::const_reverse_iterator c = r, cp = pivot_of(r);
        CHECK(c->v == r->v && c.edge() == r.edge() && c.base() == vforest::const_iterator(r.base()), "const reverse iterator");
        CHECK(cp->v == r->v && cp.edge() == pivot_of(r).edge(), "const reverse iterator of the other edge");
        {
            int kids[MAXN], m = 0, n = 0;
            for (int k = a + 1; k < e; k = w.s.next_sibling(k)) kids[m++] = k;
            auto cr = child_range(r);
            auto i = cr.begin();
            for (; n < m && i != cr.end(); ++i, ++n)
                CHECK(i.base() == rat(w.s.match(kids[m - 1 - n])) && i->v == p.v[w.s.t[kids[m - 1 - n]].id], "children of a reverse iterator");
            CHECK(n == m && i == cr.end(), "number of children of a reverse iterator");
            for (; n-- > 0;) CHECK((*--i).v == p.v[w.s.t[kids[m - 1 - n]].id], "children of a reverse iterator backwards");
            CHECK(i == cr.begin(), "first child of a reverse iterator");
        }
        auto rr = reverse_fullorder_range(f);
        {
            depth_fullorder_iterator<R> d(rr.begin()), l(rr.end());
            for (int k = w.s.n; k-- > 0; ++d) CHECK(d != l && d->v == p.v[w.s.t[k].id] && d.depth() == depth_at(w.s, k), "depth of a reverse walk");
            CHECK(d == l, "length of a reverse depth walk");
            depth_fullorder_iterator<iter> g(w.at(q), depth_at(w.s, q));
            CHECK(pivot_of(g).base() == w.at(o) && has_children(g) == (e != a + 1), "the other edge of a depth iterator");
            int n = 0;
            for (auto i = child_begin(g); i != child_end(g); ++i, ++n) CHECK(i.base().depth() == depth_at(w.s, q) + 1, "depth of the children");
            for (int k = a + 1; k < e; k = w.s.next_sibling(k)) --n;
            CHECK(n == 0, "children of a depth iterator");
            CHECK(find_parent(g).depth() == depth_at(w.s, q) - 1, "depth of the parent");
        }
        {
            edge_iterator<R, forest_edge::leading> i(rr.begin());
            // the nodes in the order of their trailing edges, last first
            for (int k = w.s.n; k-- > 0;)
                if (!w.s.t[k].lead) {
                    CHECK(i->v == p.v[w.s.t[k].id], "pre-order of a reverse walk");
                    ++i;
                }
        }
        {
            int limit = sym::i32("limit");
            auto pred = [=](const val& x) { return x.v > limit; };
            using F = filter_fullorder_iterator<R, decltype(pred)>;
            F i(rr.begin(), rr.end(), pred), l(rr.end(), rr.begin(), rr.end(), pred);
            int out[MAXT], n = 0;
            for (int k = w.s.n; k-- > 0;) {
                if (!w.s.t[k].lead && !(p.v[w.s.t[k].id] > limit)) {
                    k = w.s.match(k);
                    continue;
                }
                out[n++] = k;
            }
            for (int k = 0; k < n; ++k, ++i) CHECK(i != l && i.base() == rat(out[k]), "filtered reverse walk");
            CHECK(i == l, "length of a filtered reverse walk");
            for (int k = n; k-- > 0;) {
                --i;
                CHECK(i.base() == rat(out[k]), "filtered reverse walk backwards");
            }
        }
        sym::reach("done");
    }
    sym::leaks();
}

ENTRY(fw_nodes) { // @F04 reach=done
    {
        pool p;
        world w(p);
        some_tree(w, "n", 5, 1);
        int q = sym::choose("node", w.s.n);
        iter x = w.at(q);
        int a = w.s.t[q].lead ? q : w.s.match(q), e = w.s.match(a);
        CHECK(is_leading(x) == w.s.t[q].lead && is_trailing(x) == !w.s.t[q].lead, "edge query");
        CHECK(leading_of(x) == w.at(a) && trailing_of(x) == w.at(e), "leading_of / trailing_of");
        CHECK(pivot_of(x) == w.at(q == a ? e : a), "pivot_of");
        CHECK(x.equal_node(pivot_of(x)), "equal_node on the two edges of a node");
        iter y = x;
        pivot(y);
        CHECK(y == w.at(q == a ? e : a), "pivot");
        CHECK(has_children(x) == (e != a + 1), "has_children");
        CHECK(find_parent(x) == w.at(w.s.parent_close(e + 1)), "find_parent");
        CHECK(find_edge(x, forest_edge::leading) == x || !w.s.t[q].lead, "find_edge");
        if (w.s.t[q].lead == false) {
            int k = q;
            while (k < w.s.n && !w.s.t[k].lead) ++k;
            if (k < w.s.n) CHECK(find_edge(x, forest_edge::leading) == w.at(k), "find_edge to a leading edge");
        } else {
            int k = q;
            while (k < w.s.n && w.s.t[k].lead) ++k;
            CHECK(find_edge(x, forest_edge::trailing) == w.at(k), "find_edge to a trailing edge");
            CHECK(find_edge_reverse(x, forest_edge::leading) == x, "find_edge_reverse");
        }
        // children, both constnesses
        auto r = child_range(x);
        auto i = r.begin();
        int n = 0;
        for (int k = a + 1; k < e; k = w.s.next_sibling(k), ++i, ++n) {
            CHECK(i != r.end() && i.base() == w.at(k) && i->v == p.v[w.s.t[k].id], "child range");
            steps(i);
            auto rc = vforest::const_child_iterator(i);
            CHECK((*rc).v == i->v, "a child iterator converts to a const one");
        }
        CHECK(i == r.end(), "child range length");
        CHECK(child_begin(x).base() == w.at(a + 1) && child_end(x).base() == w.at(e), "child_begin / child_end");
        vforest::const_iterator cx = x;
        int m = 0;
        for (auto c = child_begin(cx); c != child_end(cx); ++c) ++m;
        CHECK(m == n, "const child range");
        // roots
        auto t = child_range(w.f.root());
        int k = 0;
        for (auto c = t.begin(); c != t.end(); ++c) {
            CHECK(c.base() == w.at(k), "top level children");
            k = w.s.next_sibling(k);
        }
        CHECK(k == w.s.n, "top level children length");
        sym::reach("done");
    }
    sym::leaks();
}

// a filtered walk: nodes whose (symbolic) value fails the predicate are skipped with their subtrees
ENTRY(fw_filter) { // @F04 reach=done
    {
        pool p;
        world w(p);
        some_tree(w, "n", 6);
        int limit = sym::i32("limit");
        auto pred = [=](const val& x) { return x.v > limit; };
        auto r = filter_fullorder_range(w.f, pred);
        auto i = r.begin();
        int out[MAXT], n = 0;
        for (int k = 0; k < w.s.n; ++k) {
            if (w.s.t[k].lead && !(p.v[w.s.t[k].id] > limit)) {
                k = w.s.match(k);
                continue;
            }
            out[n++] = k;
        }
        for (int k = 0; k < n; ++k, ++i) {
            CHECK(i != r.end(), "filtered walk ends early");
            CHECK(i.base() == w.at(out[k]), "filtered walk visits a wrong position");
            CHECK(i.edge() == (w.s.t[out[k]].lead ? forest_edge::leading : forest_edge::trailing), "filtered edge");
            steps(i);
            CHECK(i.equal_node(i) && i.predicate()(val{limit > 0 ? limit : 1}) == ((limit > 0 ? limit : 1) > limit), "predicate of a filtered iterator");
        }
        CHECK(i == r.end(), "filtered walk does not end");
        for (int k = n; k-- > 0;) {
            --i;
            CHECK(i.base() == w.at(out[k]), "filtered walk backwards");
        }
        auto e = r.end();
        for (int k = n; k-- > 0;) {
            --e;
            CHECK(e.base() == w.at(out[k]), "filtered walk backwards from the end of the range");
        }
        CHECK(e == r.begin(), "filtered walk backwards ends at the beginning");
        const vforest& cf = w.f;
        auto cr = filter_fullorder_range(cf, pred);
        int m = 0;
        for (auto j = cr.begin(); j != cr.end(); ++j) ++m;
        CHECK(m == n, "const filtered walk");
        auto ce = cr.end();
        for (int k = n; k-- > 0;) {
            --ce;
            CHECK(ce.base() == vforest::const_iterator(w.at(out[k])), "const filtered walk backwards from the end of the range");
        }
        sym::reach("done");
    }
    sym::leaks();
}
