// C07: explicit-state search over the line-search filter: every reachable filter content for a small grid
// of (cost, violation) pairs, all operations in every state, all queries in every state.
#include "common.hpp"
#include "solvers/line_search.hpp"
#include <deque>
#include <set>
#include <map>
using Pair = std::pair<double, double>;
using L = std::vector<Pair>; // newest first: the order in which entries were added

template <typename S> struct Search {
    std::vector<S> cs, vs; int depth; S beta; int maxlen; std::size_t cap; std::string nm; bool resize;
    static L content(const LSFilter<S> &f) { L r; for (auto &p : f.m_filter) r.push_back({(double)p.first, (double)p.second}); return r; }
    struct St { L l; int depth; bool operator<(const St &o) const { return depth != o.depth ? depth < o.depth : l < o.l; } };
    static std::multiset<Pair> bag(const L &l) { return std::multiset<Pair>(l.begin(), l.end()); }
    static std::string str(const L &l) { std::string s; for (auto &p : l) s += vh::fmt("(%g,%g)", p.first, p.second); return s.empty() ? "empty" : s; }

    void queries(LSFilter<S> &f, const L &ages, int dep) {
        std::vector<S> qc(cs), qv(vs);
        for (auto &p : ages) { for (double k : {-2.0, -1.0, -0.5, 0.0, 0.5}) qc.push_back(S(p.first + k * beta * p.second)); for (double k : {-2.0, -1.0, -0.5, 0.5}) qv.push_back(S(p.second + k * beta * p.second)); }
        qc.push_back(S(-100)); qc.push_back(S(100)); qv.push_back(S(100));
        for (S c : qc) for (S v : qv) {
            bool dom = false, acc = true, edge = false;
            for (auto &p : ages) { S pc = S(p.first), pv = S(p.second); dom |= pc <= c && pv <= v; if (pc - beta * pv <= c && pv - beta * pv <= v) acc = false;
                // equality of rounded margins is decided by rounding, not by the property
                if ((beta * pv != 0) && (std::abs(pc - beta * pv - c) <= 8 * std::numeric_limits<S>::epsilon() * (std::abs(pc) + beta * pv) || std::abs((1 - beta) * pv - v) <= 8 * std::numeric_limits<S>::epsilon() * pv)) edge = true; }
            vh::check(f.is_dominated(c, v) == dom, "is_dominated", vh::fmt("filter %s query (%.9g,%.9g): got %d", str(ages).c_str(), (double)c, (double)v, !dom));
            if (!edge) vh::check(f.is_acceptable(c, v) == acc, "is_acceptable", vh::fmt("filter %s beta %g query (%.9g,%.9g): got %d", str(ages).c_str(), (double)beta, (double)c, (double)v, !acc));
            vh::op(2);
        }
        vh::check(bag(content(f)) == bag(ages), "queries-do-not-modify");
    }
    void run() {
        if (!vh::begin(nm)) return;
        std::map<St, LSFilter<S>> seen; std::deque<St> q;
        LSFilter<S> f0; vh::check(f0.m_filter.empty(), "initially-empty"); f0.max_depth = depth; f0.beta = beta;
        St s0{L(), depth}; seen.emplace(s0, f0); q.push_back(s0);
        std::size_t expanded = 0; bool capped = false;
        while (!q.empty()) {
            St s = q.front(); q.pop_front(); ++expanded;
            LSFilter<S> f = seen.at(s); LSFilter<S> before = f;
            vh::Hash h; h.s(nm).i(s.depth); for (auto &p : s.l) h.d(p.first).d(p.second); vh::state(h.h);
            queries(f, s.l, s.depth);
            auto visit = [&](const L &ages, const LSFilter<S> &g, int dep) { St n{ages, dep}; if (seen.count(n)) return; if (seen.size() >= cap) { capped = true; return; } seen.emplace(n, g); q.push_back(n); };
            for (S c : cs) for (S v : vs) {
                LSFilter<S> g = before; g.add(c, v); vh::op();
                // reference: drop what the new pair dominates, then the oldest while there is no room, then insert
                L ages; for (auto &p : s.l) if (!((S)p.first >= c && (S)p.second >= v)) ages.push_back(p);
                while ((int)ages.size() >= s.depth) ages.pop_back();
                ages.insert(ages.begin(), {(double)c, (double)v});
                L got = content(g); std::string w = vh::fmt("add (%g,%g) to %s depth %d: got %s expected %s", (double)c, (double)v, str(s.l).c_str(), s.depth, str(got).c_str(), str(ages).c_str());
                vh::check(bag(got).count({(double)c, (double)v}) == 1, "added-pair-present", w);
                vh::check((int)got.size() <= s.depth, "depth-limit", w);
                bool keepsdom = false; for (auto &p : got) if (!(p.first == (double)c && p.second == (double)v) && (S)p.first >= c && (S)p.second >= v) keepsdom = true;
                vh::check(!keepsdom, "dominated-pairs-removed", w);
                if (vh::check(bag(got) == bag(ages), "content", w)) visit(ages, g, s.depth);
            }
            { LSFilter<S> g = before; g.clear(); vh::op(); vh::check(content(g).empty(), "clear"); visit(L(), g, s.depth); }
            if (!s.l.empty()) { LSFilter<S> g = before; g.remove_one(); vh::op(); L a = s.l; a.pop_back(); if (vh::check(bag(content(g)) == bag(a), "remove_one-drops-oldest", str(s.l))) visit(a, g, s.depth); }
            if (resize) for (int d = 1; d <= depth + 1; ++d) { LSFilter<S> g = before; g.max_depth = d; visit(s.l, g, d); }
        }
        if (capped) { vh::check(false, "state-cap", "raise the cap"); }
        vh::note(vh::fmt("%zu filter contents expanded", expanded));
    }
};
// long histories on an antichain: fill a filter of the default depth and beyond
static void antichain(int n, int depth) {
    for (int rot = 0; rot < n; ++rot) for (int dir : {1, -1}) for (int dompos = -1; dompos < n; ++dompos) {
        if (!vh::begin_lazy([&] { return vh::fmt("antichain/n%d/depth%d/rot%d/dir%d/dominating-at%d", n, depth, rot, dir, dompos); })) continue;
        LSFilter<double> f; if (depth > 0) f.max_depth = depth; int dep = depth > 0 ? depth : 10; L ref;
        auto add = [&](double c, double v) { f.add(c, v); vh::op(); L a; for (auto &p : ref) if (!(p.first >= c && p.second >= v)) a.push_back(p); while ((int)a.size() >= dep) a.pop_back(); a.insert(a.begin(), {c, v}); ref = a;
            vh::check(Search<double>::bag(Search<double>::content(f)) == Search<double>::bag(ref), "content", vh::fmt("after add (%g,%g): %s expected %s", c, v, Search<double>::str(Search<double>::content(f)).c_str(), Search<double>::str(ref).c_str()));
            for (int q = 0; q <= 2 * n; ++q) for (int w : {-1, 0, 1}) { double qc = q * 0.5, qv = n - q * 0.5 + 0.25 * w; bool d = false, acc = true; for (auto &p : ref) { d |= p.first <= qc && p.second <= qv; if (p.first - f.beta * p.second <= qc && p.second * (1 - f.beta) <= qv) acc = false; } vh::check(f.is_dominated(qc, qv) == d, "is_dominated"); vh::check(f.is_acceptable(qc, qv) == acc, "is_acceptable", vh::fmt("(%g,%g)", qc, qv)); vh::op(2); }
            vh::Hash h; h.i(dep); for (auto &p : ref) h.d(p.first).d(p.second); vh::state(h.h); };
        for (int k = 0; k < n; ++k) { if (k == dompos) add(((rot + dir * (k / 2)) % n + n) % n, 0.5); int i = (((rot + dir * k) % n) + n) % n; add(i, n - i); }
        vh::note(vh::fmt("%zu entries", ref.size()));
    }
}
void vh_run() {
    const bool T = vh::thorough();
    for (double beta : {1e-5, 0.0, 0.1, 0.5}) for (int depth : {1, 2, 3}) for (int g = 0; g < 3; ++g) {
        Search<double> s; s.beta = beta; s.depth = depth; s.resize = g == 2; s.cap = 400000; s.maxlen = depth;
        if (g == 0) { s.cs = {0, 1, 2}; s.vs = {0, 1, 2}; } else if (g == 1) { s.cs = {-1, 0.5, 3, 4}; s.vs = {0, 0.25, 1, 7}; } else { s.cs = {0, 1, 2}; s.vs = {0, 1}; }
        if (T && g == 0) { s.cs = {-2, 0, 1, 2, 5}; s.vs = {0, 0.5, 1, 2, 3}; }
        s.nm = vh::fmt("bfs/double/beta%g/depth%d/grid%d", beta, depth, g); s.run();
    }
    { Search<float> s; s.beta = 0.125f; s.depth = 3; s.resize = true; s.cap = 400000; s.cs = {0, 1, 2}; s.vs = {0, 1, 2}; s.nm = "bfs/float/beta0.125/depth3"; s.run(); }
    { Search<double> s; s.beta = 1e-5; s.depth = 10; s.resize = false; s.cap = 400000; s.cs = {0, 1, 2}; s.vs = {0, 1, 2}; if (T) { s.cs.push_back(3); s.vs.push_back(3); } s.nm = "bfs/double/default-depth"; s.run(); }
    antichain(14, 0); antichain(6, 4); antichain(5, 1);
}
