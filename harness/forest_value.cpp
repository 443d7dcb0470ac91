#include "forest_model.hpp"
#include <thread>
using namespace fm;

static bool same_shape(const seq& a, const seq& b) {
    if (a.n != b.n) return false;
    for (int i = 0; i < a.n; ++i)
        if (a.t[i].lead != b.t[i].lead) return false;
    return true;
}
// values of a and b agree position by position, as one symbolic condition (no branching)
static bool same_values(world& a, world& b) {
    unsigned diff = 0;
    for (int i = 0; i < a.s.n; ++i) diff |= (unsigned)(a.p->v[a.s.t[i].id] ^ b.p->v[b.s.t[i].id]);
    return diff == 0;
}
// g holds exactly the tree s (values by model)
template <class F>
static void holds(F& g, const seq& s, pool& p) {
    auto i = g.begin();
    for (int k = 0; k < s.n; ++k, ++i) {
        CHECK(i != g.end(), "forest has fewer edges than intended");
        CHECK((i.edge() == stlab::forest_edge::leading) == s.t[k].lead, "wrong shape");
        CHECK(i->v == p.v[s.t[k].id], "wrong value");
    }
    CHECK(i == g.end(), "forest has more edges than intended");
    CHECK(g.empty() == (s.n == 0), "emptiness is wrong");
    CHECK(g.size() == (std::size_t)(s.n / 2), "size is wrong");
    for (int k = s.n; k-- > 0;) {
        --i;
        CHECK((i.edge() == stlab::forest_edge::leading) == s.t[k].lead, "wrong shape walking back");
    }
    CHECK(i == g.begin(), "backward walk does not end at begin");
}

ENTRY(fv_equal) { // @F03 reach=eq,ne
    {
        pool p;
        world a(p), b(p);
        some_tree(a, "na", 5);
        some_tree(b, "nb", 5);
        bool want = same_shape(a.s, b.s);
        bool got = a.f == b.f;
        if (want) CHECK(got == same_values(a, b), "equality disagrees with shape and values");
        else CHECK(!got, "forests of different shape compare equal");
        CHECK((a.f != b.f) == !got, "inequality is not the negation of equality");
        CHECK((b.f == a.f) == got, "equality is not symmetric");
        CHECK(a.f == a.f, "equality is not reflexive");
        if (got) sym::reach("eq");
        else sym::reach("ne");
    }
    sym::leaks();
}

static void edit(world& w) {
    switch (sym::choose("edit", 5)) {
        case 0: w.insert(sym::choose("pos", w.s.n + 1)); break;
        case 1: if (w.s.n) w.erase(sym::choose("pos", w.s.n)); break;
        case 2: w.f.clear(); w.s.n = 0; break;
        case 3: if (w.s.n) { // change a value in place
            int k = sym::choose("pos", w.s.n);
            iter i = w.at(k);
            int v = sym::i32("new");
            w.p->v[w.s.t[k].id] = v;
            i->v = v;
            break;
        }
        case 4: { // take everything away
            vforest g;
            g.splice(g.end(), w.f);
            w.s.n = 0;
            break;
        }
    }
}

ENTRY(fv_copy) { // @F03 reach=done parts=2
    {
        pool p;
        world a(p), b(p);
        some_tree(a, "na", 4);
        seq s0 = a.s;
        pool p0 = p;
        int how = sym::choose("how", 3);
        vforest c;
        if (how == 0) {
            vforest d(a.f);
            CHECK(d == a.f, "a copy compares equal");
            c = std::move(d);
        } else {
            if (how == 2) {
                any_tree(b, 1 + sym::choose("nb", 2));
                c = b.f; // something to be overwritten
                CHECK(c == b.f, "an assigned copy compares equal");
            }
            c = a.f;
        }
        CHECK(c == a.f, "a copy compares equal");
        holds(c, s0, p0);
        edit(a); // the copy is unaffected by edits of the source
        a.check();
        holds(c, s0, p0);
        a.check_size();
        c.insert(c.end(), val{sym::i32("x")}); // and the source by edits of the copy
        c.erase(c.begin());
        a.check();
        sym::reach("done");
    }
    sym::leaks();
}

ENTRY(fv_move) { // @F03,F02 reach=done
    {
        pool p;
        world a(p), b(p);
        some_tree(a, "na", 4);
        any_tree(b, sym::choose("nb", 3));
        switch (sym::choose("how", 6)) {
            case 0: {
                vforest g(std::move(a.f));
                holds(g, a.s, p);
                a.s.n = 0;
                break;
            }
            case 1: {
                b.f = std::move(a.f);
                holds(b.f, a.s, p);
                b.s = a.s;
                a.s.n = 0;
                break;
            }
            case 2: {
                a.f.swap(b.f);
                std::swap(a.s, b.s);
                break;
            }
            case 3: {
                std::swap(a.f, b.f);
                std::swap(a.s, b.s);
                break;
            }
            case 4: a.f.swap(a.f); break;
            case 5: {
                vforest& r = a.f;
                a.f = std::move(r);
                break;
            }
        }
        holds(a.f, a.s, p);
        holds(b.f, b.s, p);
        a.check(); // positions of nodes stay live across the transfer
        b.check();
        a.insert(sym::choose("pos", a.s.n + 1)); // usable afterwards
        a.check();
        a.check_size();
        sym::reach("done");
    }
    sym::leaks();
}

// a forest nobody edits, read by several threads: the size each of them computes and caches is right and no race
ENTRY(fv_shared) { // @F02,S01 preempt=2 reach=done
    {
        pool p;
        world a(p), b(p);
        some_tree(a, "na", 4);
        if (sym::choose("spliced", 2)) { // the size is not known any longer
            vforest g;
            if (a.s.n) {
                g.splice(g.end(), a.f, child(a.f.begin()), child(a.f.end()));
                a.f.splice(a.f.begin(), g, child(g.begin()), child(g.end()));
            }
        }
        const vforest& f = a.f;
        const auto n = (std::size_t)(a.s.n / 2);
        int what = (int)sym::choose("reader", 3);
        std::thread t([&] { CHECK(f.size() == n, "size is wrong"); CHECK(f.empty() == !n, "emptiness is wrong"); });
        if (what == 0) CHECK(f.size() == n, "size is wrong");
        else if (what == 1) {
            vforest c(f);
            CHECK(c.size() == n, "size of a copy is wrong");
        } else CHECK(f == f && f.size_valid(), "equal to itself");
        t.join();
        holds(a.f, a.s, p);
        sym::reach("done");
    }
    sym::leaks();
}
