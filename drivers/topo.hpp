// Expected buses of a voltage level, computed from switch positions, connections and types only.
#pragma once
#include "nets.hpp"

namespace vp {

struct Sets {  // union-find
    std::map<std::string, std::string> up;
    std::string find(const std::string& a) { auto it = up.emplace(a, a).first; return it->second == a ? a : (it->second = find(it->second)); }
    void join(const std::string& a, const std::string& b) { up[find(a)] = find(b); }
};

inline bool isBranch(const Connectable& c) {
    switch (c.getType()) { case ConnectableType::LINE: case ConnectableType::TWO_WINDINGS_TRANSFORMER: case ConnectableType::THREE_WINDINGS_TRANSFORMER: case ConnectableType::HVDC_CONVERTER_STATION: case ConnectableType::DANGLING_LINE: return true; default: return false; }
}

using Group = std::set<const Terminal*>;

inline std::vector<std::reference_wrapper<const Terminal>> levelTerminals(const VoltageLevel& v) {
    std::vector<std::reference_wrapper<const Terminal>> r; std::set<const Connectable*> seen;
    for (const Connectable& c : v.getConnectables()) {
        if (!seen.insert(&c).second) { continue; }
        for (const Terminal& t : c.getTerminals()) { if (&t.getVoltageLevel() == &v) { r.emplace_back(t); } }
    }
    return r;
}

// expected: for each electrical bus, its connected terminals; merged: configured bus or node -> index, or absent
struct Expected { std::vector<Group> buses; std::map<std::string, long> of; };

inline std::vector<std::pair<unsigned long, const Terminal*>> nodeTerminals(const VoltageLevel& v) {
    std::vector<std::pair<unsigned long, const Terminal*>> r;
    for (unsigned long k : v.getNodeBreakerView().getNodes()) { const auto& t = v.getNodeBreakerView().getTerminal(k); if (t) { r.emplace_back(k, &t.get()); } }
    return r;
}

// retained: the bus/breaker view of a node/breaker level, where closed retained switches separate buses
inline Expected expectedBuses(const VoltageLevel& v, bool retained) {
    Expected e; Sets s; std::map<std::string, Group> terms; std::set<std::string> nodes;
    if (v.getTopologyKind() == TopologyKind::NODE_BREAKER) {
        const auto& nb = v.getNodeBreakerView();
        for (const Switch& w : nb.getSwitches()) {
            const std::string a = str(nb.getNode1(w.getId())), b = str(nb.getNode2(w.getId()));
            nodes.insert(a); nodes.insert(b);
            if (!w.isOpen() && !(retained && w.isRetained())) { s.join(a, b); }
        }
        for (const auto& ic : nb.getInternalConnections()) { const std::string a = str(ic.getNode1()), b = str(ic.getNode2()); nodes.insert(a); nodes.insert(b); s.join(a, b); }
        for (const auto& t : nodeTerminals(v)) { if (nodes.count(str(t.first)) > 0) { terms[s.find(str(t.first))].insert(t.second); } }  // a node without any switch or connection belongs to no bus
    } else {
        for (const Bus& b : v.getBusBreakerView().getBuses()) { nodes.insert(b.getId()); }
        for (const Switch& w : v.getBusBreakerView().getSwitches()) { if (!w.isOpen()) { s.join(v.getBusBreakerView().getBus1(w.getId()).get().getId(), v.getBusBreakerView().getBus2(w.getId()).get().getId()); } }
        for (const Terminal& t : levelTerminals(v)) { if (t.isConnected()) { terms[s.find(t.getBusBreakerView().getConnectableBus().get().getId())].insert(&t); } }
    }
    std::map<std::string, long> num;
    for (const auto& k : nodes) {
        const std::string r = s.find(k);
        if (num.count(r) == 0) {
            unsigned long branches = 0, feeders = 0, bars = 0;
            for (const Terminal* t : terms[r]) { const Connectable& c = t->getConnectable().get(); if (c.getType() == ConnectableType::BUSBAR_SECTION) { ++bars; } else { ++feeders; branches += isBranch(c) ? 1 : 0; } }
            const bool valid = v.getTopologyKind() == TopologyKind::NODE_BREAKER ? (retained || (bars >= 1 && feeders >= 1) || (branches >= 1 && feeders >= 2)) : branches >= 1;
            num[r] = valid ? static_cast<long>(e.buses.size()) : -1;
            if (valid) { e.buses.push_back(terms[r]); }
        }
        e.of[k] = num[r];
    }
    return e;
}

inline Group group(const Bus& b) { Group g; for (const Terminal& t : b.getConnectedTerminals()) { g.insert(&t); } return g; }

template <typename B> void checkBuses(const VoltageLevel& v, const Expected& e, const B& buses, const std::string& view, const std::function<stdcxx::CReference<Bus>(const std::string&)>& byId) {
    std::multiset<Group> got, want(e.buses.begin(), e.buses.end());
    std::set<std::string> ids; std::set<const Terminal*> seen;
    for (const Bus& b : buses) {
        const Group g = group(b); got.insert(g);
        check(ids.insert(b.getId()).second, view + " identifiers of buses are distinct", v.getId() + " " + b.getId());
        for (const Terminal* t : g) { check(seen.insert(t).second, view + " a terminal is in one bus at most", v.getId()); }
        eq(b.getConnectedTerminalCount(), static_cast<unsigned long>(g.size()), view + " number of connected terminals", b.getId());
        check(&b.getVoltageLevel() == &v, view + " bus of the voltage level");
        const auto& r = byId(b.getId());
        check(r && &r.get() == &b, view + " bus found by its identifier", b.getId());
    }
    check(got == want, view + " the buses are the sets joined by closed switches", v.getId() + " got " + str(got.size()) + " expected " + str(want.size()));
    check(!byId("no such bus"), view + " unknown identifier");
}

inline void checkLevel(Network& n, VoltageLevel& v) {
    const Expected e = expectedBuses(v, false);
    const VoltageLevel& cv = v;
    checkBuses(v, e, cv.getBusView().getBuses(), "bus view:", [&cv](const std::string& id) { return cv.getBusView().getBus(id); });
    const auto one = [&](const stdcxx::CReference<Bus>& b, long w, const std::string& what, const std::string& at) {
        if (!check(static_cast<bool>(b) == (w >= 0), what + " is in a bus exactly when its set qualifies", v.getId() + " " + at) || w < 0) { return; }
        check(group(b.get()) == e.buses[static_cast<unsigned long>(w)], what + " is in the bus of its set", v.getId() + " " + at);
        const auto& again = cv.getBusView().getBus(b.get().getId());
        check(again && &again.get() == &b.get(), what + " the same bus object by identifier", at);
    };
    if (v.getTopologyKind() == TopologyKind::NODE_BREAKER) {
        for (const auto& t : nodeTerminals(v)) {
            const auto& f = e.of.find(str(t.first));
            one(t.second->getBusView().getBus(), f == e.of.end() ? -1 : f->second, "terminal", str(t.first));
            eq(t.second->isConnected(), f != e.of.end() && f->second >= 0, "a node terminal is connected exactly when it is in a bus", str(t.first));
        }
        for (const BusbarSection& b : v.getNodeBreakerView().getBusbarSections()) { const auto& f = e.of.find(str(b.getTerminal().getNodeBreakerView().getNode())); one(cv.getBusView().getMergedBus(b.getId()), f == e.of.end() ? -1 : f->second, "busbar section", b.getId()); }
        const Expected k = expectedBuses(v, true);
        checkBuses(v, k, cv.getBusBreakerView().getBuses(), "bus/breaker view:", [&cv](const std::string& id) { return cv.getBusBreakerView().getBus(id); });
        for (const auto& t : nodeTerminals(v)) {
            const auto& f = k.of.find(str(t.first)); const auto& b = t.second->getBusBreakerView().getBus();
            if (check(static_cast<bool>(b) == (f != k.of.end() && f->second >= 0), "bus/breaker view: terminal in a bus", v.getId() + " " + str(t.first)) && b) { check(group(b.get()) == k.buses[static_cast<unsigned long>(f->second)], "bus/breaker view: terminal in the bus of its set", str(t.first)); }
        }
        unsigned long c = 0;
        for (const Switch& w : v.getNodeBreakerView().getSwitches()) {
            if (!w.isRetained()) { check(throws([&]() { cv.getBusBreakerView().getBus1(w.getId()); }), "bus/breaker view: no end of a switch that is not retained"); continue; }
            ++c;
            for (int side = 1; side <= 2; ++side) {
                const auto& b = side == 1 ? cv.getBusBreakerView().getBus1(w.getId()) : cv.getBusBreakerView().getBus2(w.getId());
                const long f = k.of.at(str(side == 1 ? v.getNodeBreakerView().getNode1(w.getId()) : v.getNodeBreakerView().getNode2(w.getId())));
                if (check(static_cast<bool>(b) == (f >= 0), "bus/breaker view: end of a switch", w.getId()) && b) { check(group(b.get()) == k.buses[static_cast<unsigned long>(f)], "bus/breaker view: bus at the end of a switch", w.getId()); }
            }
        }
        eq(cv.getBusBreakerView().getSwitchCount(), c, "bus/breaker view: number of retained switches", v.getId());
        unsigned long c2 = 0; for (const Switch& w : cv.getBusBreakerView().getSwitches()) { ++c2; check(w.isRetained(), "bus/breaker view: retained switches only"); }
        eq(c2, c, "bus/breaker view: retained switches listed", v.getId());
    } else {
        for (const Bus& b : cv.getBusBreakerView().getBuses()) {
            one(cv.getBusView().getMergedBus(b.getId()), e.of.at(b.getId()), "configured bus", b.getId());
            Group want; for (const Terminal& t : levelTerminals(cv)) { if (t.isConnected() && &t.getBusBreakerView().getConnectableBus().get() == &b) { want.insert(&t); } }
            check(group(b) == want, "configured bus: connected terminals", b.getId()); eq(b.getConnectedTerminalCount(), static_cast<unsigned long>(want.size()), "configured bus: number of connected terminals", b.getId());
        }
        for (const Terminal& t : levelTerminals(cv)) {
            const std::string c = t.getBusBreakerView().getConnectableBus().get().getId();
            one(t.getBusView().getBus(), t.isConnected() ? e.of.at(c) : -1, "terminal", c);
            one(t.getBusView().getConnectableBus(), e.of.at(c), "connectable", c);
            const auto& b = t.getBusBreakerView().getBus();
            check(static_cast<bool>(b) == t.isConnected() && (!b || b.get().getId() == c), "bus/breaker view: bus of a terminal", c);
        }
    }
    (void)n;
}

// expected components over the buses of the bus view; dc: converter stations joined by their line count
inline void checkComponents(Network& n, bool dc) {
    Sets s; std::vector<const Bus*> buses;
    const std::string kind = dc ? "connected component: " : "synchronous component: ";
    for (const VoltageLevel& v : n.getVoltageLevels()) { for (const Bus& b : v.getBusView().getBuses()) { buses.push_back(&b); s.find(b.getId()); } }
    std::set<std::string> ids; for (const Bus& b : n.getBusView().getBuses()) { ids.insert(b.getId()); }
    eq(ids.size(), buses.size(), "the buses of the network are those of its levels");
    const auto join = [&s](const Terminal& a, const Terminal& b) { const auto& x = a.getBusView().getBus(); const auto& y = b.getBusView().getBus(); if (x && y) { s.join(x.get().getId(), y.get().getId()); } };
    for (const Line& l : static_cast<const Network&>(n).getLines()) { join(l.getTerminal1(), l.getTerminal2()); }
    for (const TwoWindingsTransformer& l : static_cast<const Network&>(n).getTwoWindingsTransformers()) { join(l.getTerminal1(), l.getTerminal2()); }
    for (const ThreeWindingsTransformer& l : static_cast<const Network&>(n).getThreeWindingsTransformers()) { join(l.getLeg1().getTerminal(), l.getLeg2().getTerminal()); join(l.getLeg1().getTerminal(), l.getLeg3().getTerminal()); join(l.getLeg2().getTerminal(), l.getLeg3().getTerminal()); }
    if (dc) { for (const HvdcLine& l : static_cast<const Network&>(n).getHvdcLines()) { join(l.getConverterStation1().get().getTerminal(), l.getConverterStation2().get().getTerminal()); } }
    std::map<std::string, unsigned long> size; for (const Bus* b : buses) { ++size[s.find(b->getId())]; }
    std::map<std::string, unsigned long> num; std::map<unsigned long, unsigned long> sizes; std::set<unsigned long> used;
    for (const Bus* b : buses) {
        const auto& c = dc ? b->getConnectedComponent() : b->getSynchronousComponent();
        if (!check(static_cast<bool>(c), kind + "every bus has one", b->getId())) { continue; }
        const std::string r = s.find(b->getId()); const unsigned long k = c.get().getNum();
        const auto& it = num.emplace(r, k);
        if (it.second) { check(used.insert(k).second, kind + "different number when no path joins", b->getId()); }
        eq(k, it.first->second, kind + "same number when a path joins", b->getId());
        eq(c.get().getSize(), size[r], kind + "size", b->getId());
        sizes[k] = size[r];
        if (dc) { eq(b->isInMainConnectedComponent(), k == 0, "main connected component", b->getId()); } else { eq(b->isInMainSynchronousComponent(), k == 0, "main synchronous component", b->getId()); }
    }
    for (const VoltageLevel& v : static_cast<const Network&>(n).getVoltageLevels()) {
        if (v.getTopologyKind() != TopologyKind::BUS_BREAKER) { continue; }
        for (const Bus& b : v.getBusBreakerView().getBuses()) {
            const auto& m = v.getBusView().getMergedBus(b.getId()); const auto& c = dc ? b.getConnectedComponent() : b.getSynchronousComponent();
            if (check(static_cast<bool>(c) == static_cast<bool>(m), kind + "a configured bus has one exactly when it is in a bus of the bus view", b.getId()) && c) { const auto& d = dc ? m.get().getConnectedComponent() : m.get().getSynchronousComponent(); check(d && d.get().getNum() == c.get().getNum(), kind + "a configured bus has the one of its bus", b.getId()); }
        }
    }
    unsigned long last = ~0UL, k = 0;
    for (const auto& e : sizes) { eq(e.first, k, kind + "numbered from zero"); ++k; check(e.second <= last, kind + "by decreasing size", str(e.first)); last = e.second; }
}

// the buses found by identifier in the views of the network are those of its levels
template <typename V> void checkNetworkView(Network& n, const V& view, const std::string& name) {
    std::map<std::string, const Bus*> buses;
    for (const Bus& b : view.getBuses()) { buses[b.getId()] = &b; }
    std::set<std::string> ids{"no such bus"};
    for (const auto& b : buses) { ids.insert(b.first); }
    for (const VoltageLevel& v : const_cast<const Network&>(n).getVoltageLevels()) { for (int k = 0; k < 8; ++k) { ids.insert(v.getId() + "_" + str(k)); } }
    for (const auto& id : ids) {
        const auto& f = buses.find(id); const stdcxx::CReference<Bus> r = view.getBus(id);
        check(f == buses.end() ? !r : (r && &r.get() == f->second), name + ": the buses found by identifier are those of the network", id);
    }
}

inline void checkTopology(Network& n, bool components = true) {
    checkNetworkView(n, const_cast<const Network&>(n).getBusView(), "bus view"); checkNetworkView(n, const_cast<const Network&>(n).getBusBreakerView(), "bus/breaker view");
    for (VoltageLevel& v : n.getVoltageLevels()) { checkLevel(n, v); }
    if (components) { checkComponents(n, true); checkComponents(n, false); }
}

// a network of random levels joined by random branches
inline Network randomNetwork(const std::string& id, unsigned long levels) {
    Network n(id, "test");
    Substation& s = n.newSubstation().setId("S").add();
    std::vector<std::string> nb; std::map<std::string, std::vector<unsigned long>> free; int serial = 0;
    for (unsigned long i = 0; i < levels; ++i) {
        const std::string v = "L" + str(i); const bool isNode = rnd(3) != 0;
        VoltageLevel& l = s.newVoltageLevel().setId(v).setNominalV(100.0).setTopologyKind(isNode ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER).add();
        if (isNode) {
            const unsigned long k = 2 + rnd(9);
            std::vector<unsigned long> nodes; for (unsigned long j = 0; j < k; ++j) { nodes.push_back(j * (1 + (i % 2)) ); }
            for (unsigned long j = 0; j < k + rnd(4); ++j) {
                const unsigned long a = pick(nodes), b = pick(nodes);
                if (a == b && rnd(4) != 0) { continue; }
                if (rnd(4) == 0) { l.getNodeBreakerView().newInternalConnection().setNode1(a).setNode2(b).add(); continue; }
                l.getNodeBreakerView().newSwitch().setId(v + "_SW" + str(j)).setKind(pick(std::vector<SwitchKind>{SwitchKind::BREAKER, SwitchKind::BREAKER, SwitchKind::DISCONNECTOR, SwitchKind::LOAD_BREAK_SWITCH})).setNode1(a).setNode2(b).setOpen(rnd(3) == 0).setRetained(rnd(3) == 0).add();
            }
            for (unsigned long j = nodes.size(); j > 1; --j) { std::swap(nodes[j - 1], nodes[rnd(j)]); }
            if (rnd(8) != 0) { l.getNodeBreakerView().newBusbarSection().setId(v + "_BBS").setNode(nodes.back()).add(); nodes.pop_back(); }
            free[v] = nodes;
        } else {
            const unsigned long k = 1 + rnd(5);
            for (unsigned long j = 0; j < k; ++j) { l.getBusBreakerView().newBus().setId(v + "_B" + str(j)).add(); free[v].push_back(j); }
            for (unsigned long j = 0; j < k; ++j) { l.getBusBreakerView().newSwitch().setId(v + "_SW" + str(j)).setBus1(v + "_B" + str(rnd(k))).setBus2(v + "_B" + str(rnd(k))).setOpen(rnd(2) == 0).add(); }
        }
    }
    const auto level = [&]() { return "L" + str(rnd(levels)); };
    const auto isNode = [&](const std::string& v) { return n.getVoltageLevel(v).getTopologyKind() == TopologyKind::NODE_BREAKER; };
    const auto take = [&](const std::string& v) -> long { auto& f = free[v]; if (f.empty()) { return -1; } const unsigned long k = isNode(v) ? f.size() - 1 : rnd(f.size()); const long r = static_cast<long>(f[k]); if (isNode(v)) { f.pop_back(); } return r; };
#define VP_SIDE(ad, v, k, SN, SB, SC) if (isNode(v)) { ad.SN(static_cast<unsigned long>(k)); } else { const std::string bus_ = v + "_B" + str(k); ad.SC(bus_); if (rnd(4) != 0) { ad.SB(bus_); } }
    for (unsigned long i = 0; i < levels * 4; ++i) {
        const std::string v = level(), w = level(), x = level(); const long a = take(v); if (a < 0) { continue; }
        const std::string name = "E" + str(++serial); VoltageLevel& l = n.getVoltageLevel(v);
        switch (rnd(9)) {
            case 0: { auto ad = l.newLoad(); ad.setId(name).setP0(1.0).setQ0(1.0); VP_SIDE(ad, v, a, setNode, setBus, setConnectableBus) ad.add(); break; }
            case 1: { auto ad = l.newGenerator(); ad.setId(name).setMinP(0.0).setMaxP(1.0).setTargetP(1.0).setTargetV(1.0).setVoltageRegulatorOn(true); VP_SIDE(ad, v, a, setNode, setBus, setConnectableBus) ad.add(); break; }
            case 2: { auto ad = l.newShuntCompensator(); ad.setId(name).setSectionCount(0); ad.newLinearModel().setBPerSection(1.0).setMaximumSectionCount(1).add(); VP_SIDE(ad, v, a, setNode, setBus, setConnectableBus) ad.add(); break; }
            case 3: { auto ad = l.newDanglingLine(); ad.setId(name).setP0(0.0).setQ0(0.0).setR(1.0).setX(1.0).setG(0.0).setB(0.0); VP_SIDE(ad, v, a, setNode, setBus, setConnectableBus) ad.add(); break; }
            case 4: { const long b = take(w); if (b < 0) { break; } auto ad = s.newTwoWindingsTransformer(); ad.setId(name).setVoltageLevel1(v).setVoltageLevel2(w).setR(1.0).setX(1.0).setG(0.0).setB(0.0).setRatedU1(1.0).setRatedU2(1.0); VP_SIDE(ad, v, a, setNode1, setBus1, setConnectableBus1) VP_SIDE(ad, w, b, setNode2, setBus2, setConnectableBus2) ad.add(); break; }
            case 5: { const long b = take(w); if (b < 0) { break; } const long c = take(x); if (c < 0) { break; }
                auto ad = s.newThreeWindingsTransformer(); ad.setId(name).setRatedU0(1.0);
                auto l1 = ad.newLeg1(); l1.setVoltageLevel(v).setR(1.0).setX(1.0).setG(0.0).setB(0.0).setRatedU(1.0); VP_SIDE(l1, v, a, setNode, setBus, setConnectableBus) l1.add();
                auto l2 = ad.newLeg2(); l2.setVoltageLevel(w).setR(1.0).setX(1.0).setRatedU(1.0); VP_SIDE(l2, w, b, setNode, setBus, setConnectableBus) l2.add();
                auto l3 = ad.newLeg3(); l3.setVoltageLevel(x).setR(1.0).setX(1.0).setRatedU(1.0); VP_SIDE(l3, x, c, setNode, setBus, setConnectableBus) l3.add(); ad.add(); break; }
            case 6: { const long b = take(w); if (b < 0) { break; }
                auto a1 = l.newVscConverterStation(); a1.setId(name + "_1").setLossFactor(1.0).setVoltageSetpoint(1.0).setVoltageRegulatorOn(true); VP_SIDE(a1, v, a, setNode, setBus, setConnectableBus) a1.add();
                auto a2 = n.getVoltageLevel(w).newVscConverterStation(); a2.setId(name + "_2").setLossFactor(1.0).setVoltageSetpoint(1.0).setVoltageRegulatorOn(true); VP_SIDE(a2, w, b, setNode, setBus, setConnectableBus) a2.add();
                n.newHvdcLine().setId(name).setConverterStationId1(name + "_1").setConverterStationId2(name + "_2").setR(1.0).setNominalV(1.0).setMaxP(1.0).setActivePowerSetpoint(1.0).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER).add(); break; }
            default: { const long b = take(w); if (b < 0) { break; } auto ad = n.newLine(); ad.setId(name).setVoltageLevel1(v).setVoltageLevel2(w).setR(1.0).setX(1.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0); VP_SIDE(ad, v, a, setNode1, setBus1, setConnectableBus1) VP_SIDE(ad, w, b, setNode2, setBus2, setConnectableBus2) ad.add(); break; }
        }
    }
    return n;
}

}  // namespace vp
