#include "forest_model.hpp"
#include <stlab/algorithm/reverse.hpp>
#include <stlab/forest_algorithms.hpp>
#include <optional>
#include <vector>
using namespace fm;

ENTRY(fr_children) { // @F05 reach=done
    {
        pool p;
        world w(p);
        some_tree(w, "n", 6);
        int a = sym::choose("from", w.s.n + 1);
        // must start at a leading position (or be an empty range at any position)
        int ends[MAXT], m = 0;
        ends[m++] = a;
        for (int q = a; q < w.s.n && w.s.t[q].lead;) ends[m++] = q = w.s.next_sibling(q);
        int b = ends[sym::choose("to", m)];
        bool twice = sym::choose("twice", 2);
        seq s0 = w.s;
        auto rev = [&](int a, int b) {
            tok out[MAXT];
            int n = 0;
            int starts[MAXN], lens[MAXN], c = 0;
            for (int q = a; q < b;) {
                int e = w.s.next_sibling(q);
                starts[c] = q;
                lens[c++] = e - q;
                q = e;
            }
            while (c-- > 0)
                for (int i = 0; i < lens[c]; ++i) out[n++] = w.s.t[starts[c] + i];
            w.f.reverse(child(w.at(a)), child(w.at(b)));
            for (int i = 0; i < n; ++i) w.s.t[a + i] = out[i];
        };
        if (sym::choose("ask", 2)) w.check_size();
        rev(a, b);
        w.check();
        w.check_size();
        if (twice) {
            rev(a, b);
            for (int i = 0; i < s0.n; ++i) CHECK(w.s.t[i].id == s0.t[i].id && w.s.t[i].lead == s0.t[i].lead, "model");
            w.check();
        }
        sym::reach("done");
    }
    sym::leaks();
}

ENTRY(fr_generic) { // @F05 reach=done
    {
        std::vector<int> v;
        int n = sym::choose("n", 6);
        int x[6];
        for (int i = 0; i < n; ++i) v.push_back(x[i] = sym::i32("x"));
        int m = sym::choose("m", n + 1);
        auto f = v.begin(), mid = v.begin() + m, l = v.end();
        auto r = stlab::reverse_until(f, mid, l);
        int k = m < n - m ? m : n - m; // swaps made
        CHECK(r.first == v.begin() + k && r.second == v.end() - k, "reverse_until reports the unreversed remainder");
        CHECK(r.first == mid || r.second == mid, "the remainder ends at the limit");
        for (int i = 0; i < n; ++i) {
            int want = i < k || i >= n - k ? x[n - 1 - i] : x[i];
            CHECK(v[i] == want, "reverse_until moved a wrong element");
        }
        std::vector<int> w(x, x + n), c;
        stlab::reverse_copy(w, std::back_inserter(c));
        const std::vector<int>& cw = w;
        std::vector<int> c2;
        stlab::reverse_copy(cw, std::back_inserter(c2));
        stlab::reverse(w);
        for (int i = 0; i < n; ++i) CHECK(w[i] == x[n - 1 - i] && c[i] == w[i] && c2[i] == w[i], "reverse");
        sym::reach("done");
    }
    sym::leaks();
}

// a minimal singly linked node range for unsafe::reverse_nodes and friends
struct lnode {
    int v;
    lnode* next;
};
struct literator {
    using value_type = int;
    using difference_type = std::ptrdiff_t;
    using reference = int&;
    using pointer = int*;
    using iterator_category = std::forward_iterator_tag;
    lnode* p = nullptr;
    int& operator*() const { return p->v; }
    literator& operator++() {
        p = p->next;
        return *this;
    }
    literator operator++(int) {
        auto r = *this;
        p = p->next;
        return r;
    }
    friend bool operator==(const literator& a, const literator& b) { return a.p == b.p; }
    friend bool operator!=(const literator& a, const literator& b) { return a.p != b.p; }
};
template <>
struct stlab::unsafe::set_next_fn<literator> {
    void operator()(const literator& x, const literator& y) const { x.p->next = y.p; }
};
struct lrange {
    using iterator = literator;
    literator f, l;
    literator begin() { return f; }
    literator end() { return l; }
};

ENTRY(fr_nodes) { // @F05 reach=done
    {
        lnode nd[8];
        for (int i = 0; i < 8; ++i) nd[i] = lnode{sym::i32("v"), i < 7 ? &nd[i + 1] : nullptr};
        int v[8];
        for (int i = 0; i < 8; ++i) v[i] = nd[i].v;
        int n = sym::choose("n", 6);
        lnode tail{sym::i32("t"), nullptr};
        literator r;
        switch (sym::choose("how", 4)) {
            case 0: r = stlab::unsafe::reverse_nodes(literator{&nd[0]}, literator{&nd[n]}); break;
            case 1: {
                lrange g{literator{&nd[0]}, literator{&nd[n]}};
                r = stlab::unsafe::reverse_nodes(g);
                break;
            }
            case 2: r = stlab::unsafe::reverse_append(literator{&nd[0]}, literator{&nd[n]}, literator{&tail}); break;
            case 3: {
                lrange g{literator{&nd[0]}, literator{&nd[n]}};
                r = stlab::unsafe::reverse_append(g, literator{&tail});
                break;
            }
        }
        lnode* q = r.p;
        for (int i = n; i-- > 0;) {
            CHECK(q == &nd[i] && q->v == v[i], "reversed nodes");
            q = q->next;
        }
        CHECK(q == &nd[n] || q == &tail, "reversed range is followed by the end position");
        sym::reach("done");
    }
}

static bool shape(const seq& a, const seq& b) {
    if (a.n != b.n) return false;
    for (int i = 0; i < a.n; ++i)
        if (a.t[i].lead != b.t[i].lead) return false;
    return true;
}

ENTRY(fs_shape) { // @F06 reach=same,other
    {
        pool p;
        world a(p), b(p);
        some_tree(a, "na", 5);
        some_tree(b, "nb", 5);
        // the cached size may be unknown on either side
        vforest spare;
        auto hide = [&](world& w, const char* n) {
            if (w.s.n && sym::choose(n, 2)) {
                // move a child range out and back without a count
                iter f = w.f.begin(), after = w.at(w.s.next_sibling(0));
                spare.splice(spare.end(), w.f, child(f), child(after));
                w.f.splice(after, spare, child(spare.begin()), child(spare.end()));
            }
        };
        hide(a, "hide_a");
        hide(b, "hide_b");
        a.check();
        b.check();
        bool want = shape(a.s, b.s);
        CHECK(stlab::forests::equal_shape(a.f, b.f) == want, "equal_shape disagrees with the structures");
        if (want) sym::reach("same");
        else sym::reach("other");
    }
    sym::leaks();
}

ENTRY(fs_transcribe) { // @F06 reach=done
    {
        pool p;
        world a(p);
        some_tree(a, "n", 6);
        const vforest& cf = a.f;
        int k = sym::i32("k");
        stlab::forest<long> out;
        auto proj = [&](const val& x) { return (long)(x.v ^ k); };
        auto verify = [&](const seq& s) {
            auto i = out.begin();
            for (int j = 0; j < s.n; ++j, ++i) {
                CHECK(i != out.end() && stlab::is_leading(i) == s.t[j].lead, "transcribed shape");
                CHECK(*i == (long)(p.v[s.t[j].id] ^ k), "transcribed value");
            }
            CHECK(i == out.end(), "transcribed length");
            CHECK(out.size() == (std::size_t)s.n / 2, "transcribed size");
        };
        switch (sym::choose("how", 4)) {
            case 0: stlab::forests::transcribe(cf, stlab::forests::transcriber(out), proj); verify(a.s); break;
            case 1: stlab::forests::transcribe(cf.begin(), cf.end(), stlab::forests::transcriber(out), proj); verify(a.s); break;
            case 2: // an explicit predicate on the position
                stlab::forests::transcribe(cf, stlab::forests::transcriber(out), proj,
                                           [](const auto& i) { return stlab::is_leading(i); });
                verify(a.s);
                break;
            case 3: { // a filtered traversal
                auto r = stlab::filter_fullorder_range(cf, [&](const val& x) { return x.v > k; });
                stlab::forests::transcribe(r, stlab::forests::transcriber(out), proj);
                seq s;
                for (int j = 0; j < a.s.n; ++j) {
                    if (a.s.t[j].lead && !(p.v[a.s.t[j].id] > k)) j = a.s.match(j);
                    else s.t[s.n++] = a.s.t[j];
                }
                verify(s);
                break;
            }
        }
        sym::reach("done");
    }
    sym::leaks();
}

ENTRY(fs_flatten) { // @F06 reach=done
    {
        pool p;
        world a(p);
        some_tree(a, "n", 6);
        std::vector<std::optional<val>> flat;
        stlab::forests::flatten(a.f.begin(), a.f.end(), std::back_inserter(flat));
        CHECK((int)flat.size() == a.s.n, "flatten emits one entry per edge");
        for (int k = 0; k < a.s.n; ++k) {
            CHECK(flat[k].has_value() == a.s.t[k].lead, "flatten emits values on leading edges only");
            if (a.s.t[k].lead) CHECK(flat[k]->v == p.v[a.s.t[k].id], "flatten emits the value");
        }
        vforest g;
        stlab::forests::unflatten(flat.begin(), flat.end(), g);
        CHECK(g == a.f, "unflatten gives back an equal forest");
        CHECK(g.size() == a.f.size(), "unflatten gives the same size");
        CHECK(stlab::forests::equal_shape(g, a.f), "unflatten gives the same shape");
        sym::reach("done");
    }
    sym::leaks();
}

// what the algorithms return can be used to go on: a second forest transcribed after the first, all before what is there
ENTRY(fs_append) { // @F06 reach=done weight=2
    {
        pool p;
        world a(p), b(p);
        any_tree(a, sym::choose("na", 4));
        any_tree(b, sym::choose("nb", 3));
        bool old = sym::choose("old", 2), flat = sym::choose("flat", 2);
        vforest out;
        if (old) out.push_back(val(77));
        auto id = [](const val& x) { return x; };
        if (flat) {
            std::vector<std::optional<val>> v(a.s.n + b.s.n);
            auto o = stlab::forests::flatten(a.f.begin(), a.f.end(), v.begin());
            CHECK(o == v.begin() + a.s.n, "flatten returns the end of its output");
            o = stlab::forests::flatten(b.f.begin(), b.f.end(), o);
            CHECK(o == v.end(), "flatten returns the end of its output");
            stlab::forests::unflatten(v.begin(), v.end(), out);
        } else {
            auto o = stlab::forests::transcribe(a.f, stlab::forests::transcriber(out), id);
            stlab::forests::transcribe(b.f, o, id);
        }
        auto i = out.begin();
        auto same = [&](const seq& s) {
            for (int k = 0; k < s.n; ++k, ++i) {
                CHECK(i != out.end() && stlab::is_leading(i) == s.t[k].lead, "what is transcribed next follows");
                CHECK(i->v == p.v[s.t[k].id], "what is transcribed next follows");
            }
        };
        same(a.s);
        same(b.s);
        if (old) {
            CHECK(i != out.end() && i->v == 77, "what was there stays behind");
            i = std::next(stlab::trailing_of(i));
        }
        CHECK(i == out.end(), "transcribed length");
        CHECK(out.size() == (std::size_t)(a.s.n + b.s.n) / 2 + old, "transcribed size");
        sym::reach("done");
    }
    sym::leaks();
}
