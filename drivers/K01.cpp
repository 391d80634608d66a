// Component numbering of random graphs and networks against a breadth first search.
#include <powsybl/math/ConnectedComponentsComputationResult.hpp>
#include <powsybl/math/GraphUtil.hpp>

#include "topo.hpp"

using namespace vp;

static void graph(unsigned long n, unsigned long m, unsigned long groups) {
    std::vector<std::vector<unsigned long>> adj(n);
    for (unsigned long i = 0; i < m && n > 0; ++i) {
        const unsigned long a = rnd(n), g = groups == 0 ? 1 : groups;
        const unsigned long b = g == 1 ? rnd(n) : (a + g * rnd(n / g + 1)) % n;
        adj[a].push_back(b); adj[b].push_back(a);
    }
    std::vector<long> comp(n, -1); std::vector<unsigned long> size;
    for (unsigned long v = 0; v < n; ++v) {
        if (comp[v] >= 0) { continue; }
        std::vector<unsigned long> todo(1, v); comp[v] = static_cast<long>(size.size()); unsigned long k = 0;
        while (!todo.empty()) { const unsigned long x = todo.back(); todo.pop_back(); ++k; for (unsigned long y : adj[x]) { if (comp[y] < 0) { comp[y] = comp[v]; todo.push_back(y); } } }
        size.push_back(k);
    }
    std::vector<unsigned long> order(size.size()), rank(size.size());
    for (unsigned long i = 0; i < order.size(); ++i) { order[i] = i; }
    std::stable_sort(order.begin(), order.end(), [&size](unsigned long a, unsigned long b) { return size[a] > size[b]; });
    for (unsigned long i = 0; i < order.size(); ++i) { rank[order[i]] = i; }
    const auto r = powsybl::math::GraphUtil::computeConnectedComponents(adj);
    const auto& num = r.getComponentNumber(); const auto& sz = r.getComponentSize();
    const std::string w = str(n) + " vertices " + str(m) + " edges";
    if (!eq(num.size(), n, "one number for each vertex", w) || !eq(sz.size(), size.size(), "one size for each component", w)) { return; }
    for (unsigned long i = 0; i < sz.size(); ++i) { eq(sz[i], size[order[i]], "sizes, largest first", w); }
    std::map<unsigned long, std::set<unsigned long>> to;
    for (unsigned long v = 0; v < n; ++v) {
        if (!check(static_cast<bool>(num[v]), "every vertex has a number", w)) { continue; }
        to[static_cast<unsigned long>(comp[v])].insert(*num[v]);
        if (check(*num[v] < sz.size(), "a number of a component", w)) { eq(sz[*num[v]], size[static_cast<unsigned long>(comp[v])], "the size of the component of the vertex", w); }
        eq(*num[v], rank[static_cast<unsigned long>(comp[v])], "components of the same size are numbered in order of discovery", w);
    }
    std::set<unsigned long> used;
    for (const auto& e : to) { eq(e.second.size(), 1UL, "one number for each component", w); for (unsigned long x : e.second) { check(used.insert(x).second, "distinct numbers for distinct components", w); } }
}

void run() {
    at("graphs");
    graph(0, 0, 1); graph(1, 0, 1); graph(1, 1, 1); graph(40, 0, 1);
    for (int i = 0; i < (st().thorough ? 20000 : 3000); ++i) { const unsigned long n = rnd(i % 10 == 0 ? 200 : 24); graph(n, rnd(n + 2), 1 + rnd(12)); }
    for (const auto& f : networks()) { at(f.first); Network n = f.second(); checkComponents(n, true); checkComponents(n, false); }
    for (int i = 0; i < (st().thorough ? 2500 : 250); ++i) {
        at("random network " + str(i));
        Network n = randomNetwork("r" + str(i), 1 + rnd(12));
        checkComponents(n, true); checkComponents(n, false);
        for (Switch& w : n.getSwitches()) { if (rnd(3) == 0) { w.setOpen(!w.isOpen()); } }
        checkComponents(n, false); checkComponents(n, true);
    }
}
