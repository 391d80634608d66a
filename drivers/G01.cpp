// Graph: random histories of additions and removals against a plain model (bounded).
#include "vp.hpp"
#include <powsybl/math/UndirectedGraph.hpp>
#include <powsybl/math/UndirectedGraph.hxx>
#include <powsybl/math/TraverseResult.hpp>

using namespace vp;
using namespace powsybl;
struct O { int k; };
using Gr = math::UndirectedGraph<O, O>;
struct ME { unsigned long a, b; O* o; };
struct M { std::map<unsigned long, O*> v; std::map<unsigned long, ME> e; };

static O* addr(const stdcxx::Reference<O>& r) { return r ? const_cast<O*>(&r.get()) : nullptr; }

static unsigned long count(const M& m, unsigned long a, unsigned long b) {
    unsigned long n = 0;
    for (const auto& x : m.e) n += (x.second.a == a && x.second.b == b) || (x.second.a == b && x.second.b == a) ? 1 : 0;
    return n;
}

using Paths = std::multiset<std::vector<unsigned long>>;
static void paths(const M& m, unsigned long v, const std::set<O*>& goal, const std::set<O*>& cut, std::vector<unsigned long>& p, std::set<unsigned long>& in, Paths& out) {
    in.insert(v);
    for (const auto& x : m.e) {
        if (cut.count(x.second.o) || (x.second.a != v && x.second.b != v)) continue;
        const unsigned long w = x.second.a == v ? x.second.b : x.second.a;
        if (in.count(w)) continue;
        p.push_back(x.first);
        if (goal.count(m.v.at(w))) out.insert(p); else paths(m, w, goal, cut, p, in, out);
        p.pop_back();
    }
    in.erase(v);
}

static void verify(const Gr& g, Gr& gw, const M& m, const std::vector<std::unique_ptr<O>>& os) {
    eq(g.getVertexCount(), static_cast<unsigned long>(m.v.size()), "number of vertices"); eq(g.getEdgeCount(), static_cast<unsigned long>(m.e.size()), "number of edges");
    unsigned long mx = 0; for (const auto& x : m.v) mx = std::max(mx, x.first + 1);
    check(g.getVertexCapacity() >= mx, "the capacity covers every vertex"); 
    for (unsigned long v = 0; v < g.getVertexCapacity() + 2; ++v) {
        eq(g.vertexExists(v), m.v.count(v) > 0, "vertex exists", std::to_string(v)); eq(throws([&]() { g.getVertexObject(v); }), m.v.count(v) == 0, "missing vertex throws", std::to_string(v));
        if (m.v.count(v)) check(addr(g.getVertexObject(v)) == m.v.at(v), "vertex object", std::to_string(v));
    }
    std::vector<unsigned long> vs, es, wv, we; for (const auto& v : g.getVertices()) vs.push_back(v);
    for (const auto& e : g.getEdges()) es.push_back(e);
    for (const auto& x : m.v) wv.push_back(x.first);
    for (const auto& x : m.e) we.push_back(x.first);
    check(vs == wv, "vertices listed"); check(es == we, "edges listed");
    for (unsigned long e = 0; e < (we.empty() ? 0 : we.back()) + 2; ++e) {
        const bool in = m.e.count(e) > 0;
        eq(throws([&]() { g.getEdgeObject(e); }), !in, "missing edge throws"); eq(throws([&]() { g.getVertex1(e); }), !in, "missing edge throws"); eq(throws([&]() { g.getVertex2(e); }), !in, "missing edge throws");
        if (!in) continue;
        eq(g.getVertex1(e), m.e.at(e).a, "first vertex of an edge"); eq(g.getVertex2(e), m.e.at(e).b, "second vertex of an edge"); check(addr(g.getEdgeObject(e)) == m.e.at(e).o, "edge object");
    }
    std::vector<O*> l, w; for (const auto& o : g.getEdgeObjects()) l.push_back(addr(o)); for (const auto& x : m.e) w.push_back(x.second.o);
    check(l == w, "edge objects listed"); l.clear(); for (const auto& o : gw.getEdgeObjects()) l.push_back(addr(o)); check(l == w, "edge objects listed");
    l.clear(); w.clear(); for (const auto& o : g.getVertexObjects()) l.push_back(addr(o)); for (const auto& x : m.v) w.push_back(x.second);
    check(l == w, "vertex objects listed"); l.clear(); for (const auto& o : gw.getVertexObjects()) l.push_back(addr(o)); check(l == w, "vertex objects listed");
    for (unsigned long i = 0; i < 6; ++i) {
        const unsigned long a = rnd(g.getVertexCapacity() + 1), b = rnd(g.getVertexCapacity() + 1); const bool ok = m.v.count(a) && m.v.count(b);
        unsigned long n = 0; eq(throws([&]() { for (const auto& o : g.getEdgeObjects(a, b)) { (void) o; n++; } }), !ok, "edges between missing vertices throw");
        if (ok && a != b) eq(n, count(m, a, b), "edges between two vertices", std::to_string(a) + " " + std::to_string(b));
        if (ok && a == b) eq(n > 0, count(m, a, b) > 0, "edges between two vertices");
    }
    // traversal: the walker is asked about an edge from a vertex it reached to one it did not, and reaches exactly what the answers allow
    const unsigned long s = rnd(g.getVertexCapacity() + 1); std::set<unsigned long> cut; for (unsigned long e : we) if (rnd(4) == 0) cut.insert(e);
    std::set<unsigned long> seen{s}; bool okc = true; std::set<std::pair<unsigned long, unsigned long>> asked;
    const bool th = throws([&]() { g.traverse(s, [&](unsigned long a, unsigned long e, unsigned long b) {
        okc = okc && seen.count(a) && !seen.count(b) && m.e.count(e) && ((m.e.at(e).a == a && m.e.at(e).b == b) || (m.e.at(e).a == b && m.e.at(e).b == a)) && asked.insert({e, a}).second;
        if (cut.count(e)) return math::TraverseResult::TERMINATE;
        seen.insert(b); return math::TraverseResult::CONTINUE; }); });
    eq(th, m.v.count(s) == 0, "traversal from a missing vertex throws");
    if (!th) {
        check(okc, "traversal steps"); std::set<unsigned long> want{s}; bool more = true;
        while (more) { more = false; for (const auto& x : m.e) if (!cut.count(x.first) && want.count(x.second.a) != want.count(x.second.b)) { want.insert(x.second.a); want.insert(x.second.b); more = true; } }
        check(seen == want, "vertices reached by a traversal");
        for (unsigned long e : cut) { const ME& x = m.e.at(e); for (int d = 0; d < 2; ++d) { const unsigned long a = d ? x.b : x.a, b = d ? x.a : x.b; if (want.count(a) && !want.count(b)) check(asked.count({e, a}) > 0, "a traversal asks about every edge of the vertices it reaches"); } }
    }
    // paths
    if (m.e.size() <= 14 && th == false) {
        std::set<O*> goal, cuto; for (const auto& o : os) { if (rnd(3) == 0) goal.insert(o.get()); if (rnd(6) == 0) cuto.insert(o.get()); }
        Paths want; std::vector<unsigned long> p; std::set<unsigned long> in; paths(m, s, goal, cuto, p, in, want);
        const auto& r = g.findAllPaths(s, [&](const stdcxx::Reference<O>& o) { return goal.count(addr(o)) > 0; }, [&](const stdcxx::Reference<O>& o) { return cuto.count(addr(o)) > 0; });
        check(Paths(r.begin(), r.end()) == want, "all paths", std::to_string(r.size()) + " instead of " + std::to_string(want.size()));
        check(std::is_sorted(r.begin(), r.end(), [](const std::vector<unsigned long>& x, const std::vector<unsigned long>& y) { return x.size() < y.size(); }), "shortest path first");
    }
}

void run() {
    std::vector<std::unique_ptr<O>> os; for (int i = 0; i < 12; ++i) os.emplace_back(new O{i});
    for (unsigned long h = 0, H = st().thorough ? 4000 : 400; h < H; ++h) {
        at("history " + std::to_string(h)); Gr g; M m;
        for (unsigned long i = 0, n = 5 + rnd(45); i < n; ++i) {
            const unsigned long cap = g.getVertexCapacity() + 2; O* o = rnd(5) == 0 ? nullptr : os[rnd(os.size())].get(); const auto ref = o ? stdcxx::ref(*o) : stdcxx::Reference<O>();
            switch (rnd(m.e.size() > 16 ? 14 : 12)) {
            case 0: case 1: { const auto v = g.addVertex(); check(!m.v.count(v), "a new vertex has an unused identifier"); m.v[v] = nullptr; break; }
            case 2: { const unsigned long v = rnd(12); g.addVertexIfNotPresent(v); if (!m.v.count(v)) m.v[v] = nullptr; break; }
            case 3: case 4: case 5: case 6: {
                const unsigned long a = rnd(cap), b = rnd(cap); unsigned long e = 0; const bool ok = m.v.count(a) && m.v.count(b);
                eq(throws([&]() { e = g.addEdge(a, b, ref); }), !ok, "an edge needs two vertices"); if (ok) { check(!m.e.count(e), "a new edge has an unused identifier"); m.e[e] = ME{a, b, o}; } break; }
            case 7: case 12: case 13: {
                const unsigned long e = rnd(2 + (m.e.empty() ? 0 : m.e.rbegin()->first)); const bool ok = m.e.count(e) > 0; O* r = nullptr;
                eq(throws([&]() { r = addr(g.removeEdge(e)); }), !ok, "a missing edge cannot be removed"); if (ok) { check(r == m.e[e].o, "the object of a removed edge"); m.e.erase(e); } break; }
            case 8: case 9: {
                const unsigned long v = rnd(cap); bool ok = m.v.count(v) > 0; for (const auto& x : m.e) ok = ok && x.second.a != v && x.second.b != v; O* r = nullptr;
                eq(throws([&]() { r = addr(g.removeVertex(v)); }), !ok, "a vertex with an edge cannot be removed"); if (ok) { check(r == m.v[v], "the object of a removed vertex"); m.v.erase(v); } break; }
            case 10: {
                const unsigned long v = rnd(cap); eq(throws([&]() { g.setVertexObject(v, ref); }), m.v.count(v) == 0, "object of a missing vertex"); if (m.v.count(v)) m.v[v] = o; break; }
            default:
                if (rnd(8) == 0) { g.removeAllEdges(); m.e.clear(); if (rnd(2)) { g.removeAllVertices(); m.v.clear(); } }
                else if (!m.e.empty() && rnd(4) == 0) check(throws([&]() { g.removeAllVertices(); }), "vertices stay while there are edges");
                else if (rnd(3) == 0) { g.removeIsolatedVertices(); for (auto it = m.v.begin(); it != m.v.end();) { bool used = it->second != nullptr; for (const auto& x : m.e) used = used || x.second.a == it->first || x.second.b == it->first; it = used ? std::next(it) : m.v.erase(it); } }
            }
            if (i % 3 == 0 || h % 5 == 0) verify(g, g, m, os);
        }
        verify(g, g, m, os);
    }
}
