// Connections, switch positions and topology changes along random histories over several variants: exact effect, and no stale topology afterwards.
#include "topo.hpp"

using namespace vp;

static std::vector<std::string> variants(Network& n) { std::vector<std::string> r; for (const auto& v : n.getVariantManager().getVariantIds()) { r.push_back(v); } return r; }

// positions that a connection may change, in one variant
static Dump positions(Network& n) {
    Dump d;
    for (const Switch& s : n.getSwitches()) { d["open " + s.getId()] = str(s.isOpen()); d["retained " + s.getId()] = str(s.isRetained()); d["fictitious " + s.getId()] = str(s.isFictitious()); }
    for (VoltageLevel& v : n.getVoltageLevels()) {
        if (v.getTopologyKind() != TopologyKind::BUS_BREAKER) { continue; }
        for (const Terminal& t : levelTerminals(v)) {
            const std::string k = Dumper::where(t);
            d["connected " + k] = str(t.isConnected()); d["connectable " + k] = t.getBusBreakerView().getConnectableBus().get().getId();
        }
    }
    return d;
}
static std::map<std::string, Dump> all(Network& n) {
    std::map<std::string, Dump> r; const std::string w = n.getVariantManager().getWorkingVariantId();
    for (const auto& v : variants(n)) { n.getVariantManager().setWorkingVariant(v); r[v] = positions(n); }
    n.getVariantManager().setWorkingVariant(w);
    return r;
}

static void expectOnly(Network& n, const std::map<std::string, Dump>& before, const std::string& what, const std::function<bool(const std::string&)>& allowed) {
    const auto after = all(n); const std::string w = n.getVariantManager().getWorkingVariantId();
    for (const auto& e : before) {
        const std::string d = diff(e.second, after.at(e.first), [&](const std::string& k) { return e.first == w && allowed(k); });
        check(d.empty(), what + (e.first == w ? " changes nothing else" : " changes nothing in another variant"), d);
    }
}

static void queries(Network& n) {  // fills the caches of the working variant
    for (const Bus& b : n.getBusView().getBuses()) { b.getConnectedComponent(); b.getSynchronousComponent(); }
    for (const Bus& b : n.getBusBreakerView().getBuses()) { b.getConnectedTerminalCount(); }
}

static void allFresh(Network& n) {
    const std::string w = n.getVariantManager().getWorkingVariantId();
    for (const auto& v : variants(n)) { n.getVariantManager().setWorkingVariant(v); checkTopology(n); }
    n.getVariantManager().setWorkingVariant(w);
}

static std::vector<std::reference_wrapper<Terminal>> terminals(Network& n) {
    std::vector<std::reference_wrapper<Terminal>> r;
    for (VoltageLevel& v : n.getVoltageLevels()) { for (const Terminal& t : levelTerminals(v)) { r.emplace_back(const_cast<Terminal&>(t)); } }
    return r;
}

// is a busbar section reached from the node along closed switches, breakers being allowed to be open when any is set
static bool reachesBar(const VoltageLevel& v, unsigned long node) {
    std::set<unsigned long> seen{node}; std::vector<unsigned long> todo{node};
    const auto& nb = v.getNodeBreakerView();
    while (!todo.empty()) {
        const unsigned long k = todo.back(); todo.pop_back();
        const auto go = [&](unsigned long a, unsigned long b) { if (a == k && seen.insert(b).second) { todo.push_back(b); } if (b == k && seen.insert(a).second) { todo.push_back(a); } };
        for (const Switch& s : nb.getSwitches()) { if (!s.isOpen()) { go(nb.getNode1(s.getId()), nb.getNode2(s.getId())); } }
        for (const auto& ic : nb.getInternalConnections()) { go(ic.getNode1(), ic.getNode2()); }
    }
    for (const BusbarSection& b : nb.getBusbarSections()) { if (seen.count(b.getTerminal().getNodeBreakerView().getNode()) > 0 && b.getTerminal().getNodeBreakerView().getNode() != node) { return true; } }
    return false;
}

std::string& at_();

static void step(Network& n, int& serial) {
    const auto ts = terminals(n); if (ts.empty()) { return; }
    std::vector<std::reference_wrapper<Switch>> sw; for (Switch& s : n.getSwitches()) { sw.emplace_back(s); }
    Terminal& t = pick(ts).get(); const std::string k = Dumper::where(t);
    VoltageLevel& v = t.getVoltageLevel();
    const bool node = v.getTopologyKind() == TopologyKind::NODE_BREAKER;
    const auto before = all(n); const std::string w = n.getVariantManager().getWorkingVariantId();
    switch (rnd(12)) {
        case 0: case 1: case 2: case 3: {
            const bool on = rnd(2) == 0; const std::string what = on ? "connect" : "disconnect"; at(at_() + " " + what + " " + k);
            const bool was = t.isConnected();
            const bool r = on ? t.connect() : t.disconnect();
            if (!node) {
                eq(t.isConnected(), on, what + " sets the connection state"); eq(r, was != on, what + " reports whether the state changed");
                expectOnly(n, before, what, [&](const std::string& x) { return x == "connected " + k; });
            } else {
                unsigned long changed = 0;
                const auto after = all(n);
                for (const auto& e : before.at(w)) {
                    if (after.at(w).at(e.first) == e.second) { continue; }
                    ++changed;
                    const Switch& s = n.getSwitch(e.first.compare(0, 5, "open ") == 0 ? e.first.substr(5) : std::string("none"));
                    check(s.getKind() == SwitchKind::BREAKER && &s.getVoltageLevel() == &v && s.isOpen() == !on, what + " moves breakers of the level only", e.first);
                }
                if (was == on) { eq(changed, 0UL, what + " does nothing when already in the state"); check(!r, what + " reports no change"); }
                if (on) { eq(r, changed > 0, "connect reports whether a breaker was closed"); }
                else { if (r) { check(!reachesBar(v, t.getNodeBreakerView().getNode()), "a disconnected terminal reaches no busbar section", k); } if (changed > 0 && !r) { check(true, "partial"); } }
                expectOnly(n, before, what, [&](const std::string& x) { return x.compare(0, 5, "open ") == 0; });
            }
            break; }
        case 4: case 5: { if (sw.empty()) { break; } Switch& s = pick(sw).get(); const bool o = rnd(2) == 0; at(at_() + " open " + s.getId()); s.setOpen(o); eq(s.isOpen(), o, "setOpen"); expectOnly(n, before, "setOpen", [&](const std::string& x) { return x == "open " + s.getId(); }); break; }
        case 6: { if (sw.empty()) { break; } Switch& s = pick(sw).get(); if (s.getVoltageLevel().getTopologyKind() != TopologyKind::NODE_BREAKER) { break; } const bool o = rnd(2) == 0; at(at_() + " retained " + s.getId()); s.setRetained(o); expectOnly(n, before, "setRetained", [&](const std::string& x) { return x == "retained " + s.getId(); }); break; }
        case 7: case 8: { if (node) { break; } std::vector<std::string> bs; for (const Bus& b : v.getBusBreakerView().getBuses()) { bs.push_back(b.getId()); } const std::string b = pick(bs); at(at_() + " connectable bus " + k + " " + b);
            t.getBusBreakerView().setConnectableBus(b); eq(t.getBusBreakerView().getConnectableBus().get().getId(), b, "setConnectableBus"); expectOnly(n, before, "setConnectableBus", [&](const std::string& x) { return x == "connectable " + k; }); break; }
        case 9: {
            const std::string id = "added" + str(++serial); at(at_() + " add " + id);
            if (node) { v.getNodeBreakerView().newSwitch().setId(id).setKind(SwitchKind::BREAKER).setNode1(rnd(12)).setNode2(rnd(12)).setOpen(rnd(4) == 0).setRetained(rnd(2) == 0).add(); }
            else { std::vector<std::string> bs; for (const Bus& b : v.getBusBreakerView().getBuses()) { bs.push_back(b.getId()); } v.getBusBreakerView().newSwitch().setId(id).setBus1(pick(bs)).setBus2(pick(bs)).setOpen(rnd(4) == 0).add(); }
            break; }
        case 10: { if (sw.empty()) { break; } Switch& s = pick(sw).get(); const std::string id = s.getId(); at(at_() + " remove " + id);
            if (s.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) { VoltageLevel& l = s.getVoltageLevel(); l.getNodeBreakerView().removeSwitch(id); } else { VoltageLevel& l = s.getVoltageLevel(); l.getBusBreakerView().removeSwitch(id); } break; }
        default: {
            if (rnd(3) == 0) {
                const std::string id = "new" + str(++serial); at(at_() + " add load " + id);
                if (node) { unsigned long f = 50 + static_cast<unsigned long>(serial); v.newLoad().setId(id).setNode(f).setP0(1.0).setQ0(1.0).add(); v.getNodeBreakerView().newInternalConnection().setNode1(f).setNode2(t.getNodeBreakerView().getNode()).add(); }
                else { v.newLoad().setId(id).setConnectableBus(t.getBusBreakerView().getConnectableBus().get().getId()).setBus(t.getBusBreakerView().getConnectableBus().get().getId()).setP0(1.0).setQ0(1.0).add(); }
            } else if (rnd(3) == 0) { const Connectable& c = t.getConnectable().get(); if (c.getType() != ConnectableType::HVDC_CONVERTER_STATION) { at(at_() + " remove " + c.getId()); t.getConnectable().get().remove(); } }
            break; }
    }
}

static std::string history;
std::string& at_() { return history; }

void run() {
    for (int i = 0; i < (st().thorough ? 1500 : 60); ++i) {
        Network n = i % 7 == 0 ? everything() : randomNetwork("r" + str(i), 1 + rnd(5));
        VariantManager& m = n.getVariantManager(); int serial = 0;
        for (const char* v : {"a", "b"}) { m.cloneVariant(m.getInitialVariantId(), v); }
        for (int k = 0; k < 14; ++k) {
            history = "history " + str(i) + " step " + str(k); at(history);
            m.setWorkingVariant(pick(variants(n)));
            for (const auto& v : variants(n)) { if (rnd(2) == 0) { const std::string w = m.getWorkingVariantId(); m.setWorkingVariant(v); queries(n); m.setWorkingVariant(w); } }
            step(n, serial);
            allFresh(n);
            if (rnd(8) == 0) { m.removeVariant("b"); m.cloneVariant(pick(variants(n)), "b"); }
        }
    }
}
