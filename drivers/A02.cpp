// Adders, with random combinations of given, missing, valid and invalid values: either one object with exactly the values given, or nothing changed.
#include "nets.hpp"

using namespace vp;

static const double INF = std::numeric_limits<double>::infinity();
static const std::vector<std::string> VARIANTS = {"InitialVariant", "other", "third"};
static int serial = 0;

static Dump state(Network& n) {
    Dump r;
    VariantManager& m = n.getVariantManager();
    const std::string w = m.getWorkingVariantId();
    for (const auto& v : VARIANTS) {
        m.setWorkingVariant(v);
        for (auto& e : dump(n)) { r[v + "/" + e.first] = e.second; }
    }
    m.setWorkingVariant(w);
    for (const VoltageLevel& v : n.getVoltageLevels()) {
        unsigned long c = 0;
        for (const Connectable& x : v.getConnectables()) { ++c; r["connectable " + v.getId() + "/" + x.getId()] = "1"; }
        r["connectables of " + v.getId()] = str(c) + " " + str(v.getConnectableCount());
        if (v.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            for (unsigned long k : v.getNodeBreakerView().getNodes()) { r["node " + v.getId() + "/" + str(k)] = str(static_cast<bool>(v.getNodeBreakerView().getTerminal(k))); }
        } else {
            for (const Bus& b : v.getBusBreakerView().getBuses()) { r["bus " + v.getId() + "/" + b.getId()] = str(b.getConnectedTerminalCount()); }
        }
    }
    for (const Substation& s : n.getSubstations()) { for (const VoltageLevel& v : s.getVoltageLevels()) { r["level " + s.getId() + "/" + v.getId()] = "1"; } }
    return r;
}

// what must hold of the created object: each attribute given, and the setter accepting it again
template <typename T> struct Want {
    using Obj = T;
    std::vector<std::pair<std::string, std::function<bool(T&)>>> eqs;
    std::vector<std::pair<std::string, std::function<void(T&)>>> again;
};

static bool maybe() { return rnd(8) != 0; }
static double num() {
    static const std::vector<double> bad = {0.0, -1.0, INF, -INF, std::nan(""), -1e6, 1e6};
    if (rnd(14) == 0) { return pick(bad); }
    return 1.0 + 0.25 * static_cast<double>(rnd(400)) + 1000.0 * static_cast<double>(rnd(8) == 0);
}
static bool sameV(double a, double b) { return same(a, b); }
template <typename X> bool sameV(const X& a, const X& b) { return a == b; }

#define SET(S, V, G) if (maybe()) { const auto x = V; ad.S(x); w.eqs.emplace_back(#S, [x](decltype(w)::Obj& o) { return sameV(o.G, decltype(o.G)(x)); }); }
#define SETR(S, V, G, B) if (maybe()) { const auto x = V; ad.S(x); w.eqs.emplace_back(#S, [x](decltype(w)::Obj& o) { return sameV(o.G, decltype(o.G)(x)); }); w.again.emplace_back(#S, [x](decltype(w)::Obj& o) { o.B(x); }); }

static const std::vector<std::string> BUSES = {"V1_B1", "V1_B2", "", "V2_B1", "none"};

// places a terminal; s is the suffix of the side
struct Place { bool node; unsigned long n; std::string b, c; };
static Place place(bool node) {
    Place p{node, 0, "", ""};
    if (rnd(12) == 0) { p.node = !node; }
    p.n = rnd(6) == 0 ? rnd(9) : 40 + static_cast<unsigned long>(serial) * 7 + rnd(5);
    p.c = rnd(10) == 0 ? pick(BUSES) : "";
    p.b = rnd(10) == 0 ? pick(BUSES) : "";
    return p;
}
static std::string busOf(const std::string& v) { return v + (rnd(2) == 0 ? "_B1" : "_B2"); }
#define PUT(SN, SB, SC, V, NODE) { Place p = place(NODE); if (p.node) { if (rnd(16) != 0) { ad.SN(p.n); } } else { if (p.c.empty() && rnd(10) != 0) { p.c = busOf(V); } if (p.b.empty() && rnd(3) != 0) { p.b = p.c; } if (!p.c.empty()) { ad.SC(p.c); } if (!p.b.empty()) { ad.SB(p.b); } } }

template <typename T, typename A> void ident(A& ad, const std::string& id, Want<T>& w) {
    if (!id.empty()) { ad.setId(id); }
    if (rnd(2) == 0) { const std::string nm = "name of " + id; ad.setName(nm); w.eqs.emplace_back("setName", [nm](T& o) { return o.getOptionalName() == nm && o.getNameOrId() == nm; }); }
    if (rnd(4) == 0) { ad.setFictitious(true); w.eqs.emplace_back("setFictitious", [](T& o) { return o.isFictitious(); }); }
    else { w.eqs.emplace_back("not fictitious", [](T& o) { return !o.isFictitious(); }); }
    if (rnd(6) == 0) { ad.setEnsureIdUnicity(true); }
}

static unsigned long created = 0, refused = 0;

template <typename T, typename A> void attempt(Network& n, const std::string& kind, A& ad, const std::string& id, const Want<T>& w, const std::string& what = "") {
    const Dump before = state(n);
    T* o = nullptr;
    const std::string th = outcome([&]() { o = &ad.add(); });
    const Dump after = state(n);
    if (!th.empty()) {
        ++refused;
        check(th.find("terminate") == std::string::npos, kind + " refusal is an exception");
        check(diff(before, after).empty(), kind + " nothing changes when add() throws" + what, th + ": " + diff(before, after));
        return;
    }
    ++created;
    VariantManager& m = n.getVariantManager();
    for (const auto& e : w.eqs) {
        for (const auto& v : VARIANTS) { m.setWorkingVariant(v); check(e.second(*o), kind + " has the value given", e.first + " in " + v); }
    }
    m.setWorkingVariant(VARIANTS[0]);
    const std::string oid = o->getId();
    if (before.count("InitialVariant/" + id) == 0) { check(oid == id || before.count("x") == 0, kind + " has the id given"); }
    check(stdcxx::isInstanceOf<T>(n.get<Identifiable>(oid)) && &n.get<Identifiable>(oid) == static_cast<const Identifiable*>(o), kind + " is registered under its id", oid);
    // nothing else changed
    std::string d;
    for (const auto& e : before) {
        const auto& it = after.find(e.first);
        if (it == after.end()) { d = e.first + " is missing"; break; }
        if (it->second != e.second && e.first.find("connectables of") == std::string::npos && e.first.compare(0, 4, "bus ") != 0 && e.first.compare(0, 5, "node ") != 0 && e.first.find("/BBS") == std::string::npos && !(kind == "hvdc line" && e.first.find(".hvdcLine") != std::string::npos) && !(kind == "node/breaker switch" && e.first.find(".connected") != std::string::npos)) { d = e.first + " = " + e.second + " became " + it->second; }
    }
    check(d.empty(), kind + " leaves the other objects unchanged", d);
    for (const auto& e : w.again) { const std::string r = outcome([&]() { e.second(*o); }); check(r.empty(), kind + " created with a value its setter rejects", e.first + " " + r); }
}

static Network base() {
    Network n = everything();
    n.getVariantManager().cloneVariant("InitialVariant", "other");
    n.getVariantManager().cloneVariant("InitialVariant", "third");
    n.getVariantManager().removeVariant("other");
    n.getVariantManager().cloneVariant("third", "other");
    return n;
}

static std::string newId() { ++serial; if (rnd(20) == 0) { return pick(std::vector<std::string>{"", "G1", "V1", "S1", "LINE", "V1_B1", "alias-G1"}); } return "new" + str(serial); }

template <typename T, typename A> void injection(A& ad, const std::string& id, Want<T>& w, const std::string& vl) {
    ident<T>(ad, id, w);
    PUT(setNode, setBus, setConnectableBus, vl, vl == "N1");
}

static stdcxx::Reference<Terminal> regulated(Network& n, Network& other) {
    switch (rnd(8)) {
        case 0: return stdcxx::ref(other.getGenerator("G1").getTerminal());
        case 1: return stdcxx::ref(n.getLoad("L1").getTerminal());
        default: return stdcxx::ref(n.getGenerator("G1").getTerminal());
    }
}

static void random(Network& n, Network& other) {
    const std::string id = newId();
    const std::vector<std::string> levels = {"V1", "V2", "V4", "N1"};
    const std::string vl = pick(levels);
    VoltageLevel& v = n.getVoltageLevel(vl);
    switch (rnd(19)) {
        case 0: { auto ad = v.newLoad(); Want<Load> w; injection(ad, id, w, vl); SETR(setP0, num(), getP0(), setP0) SETR(setQ0, num(), getQ0(), setQ0) SETR(setLoadType, pick(std::vector<LoadType>{LoadType::AUXILIARY, LoadType::FICTITIOUS}), getLoadType(), setLoadType) attempt<Load>(n, "load", ad, id, w); break; }
        case 1: { auto ad = v.newBattery(); Want<Battery> w; injection(ad, id, w, vl); SETR(setP0, num(), getP0(), setP0) SETR(setQ0, num(), getQ0(), setQ0) SETR(setMinP, -num(), getMinP(), setMinP) SETR(setMaxP, num(), getMaxP(), setMaxP) attempt<Battery>(n, "battery", ad, id, w); break; }
        case 2: { auto ad = v.newGenerator(); Want<Generator> w; injection(ad, id, w, vl); SETR(setMinP, -num(), getMinP(), setMinP) SETR(setMaxP, num(), getMaxP(), setMaxP) SETR(setTargetP, num(), getTargetP(), setTargetP) SETR(setTargetQ, num(), getTargetQ(), setTargetQ) SETR(setTargetV, num(), getTargetV(), setTargetV) SETR(setVoltageRegulatorOn, rnd(2) == 0, isVoltageRegulatorOn(), setVoltageRegulatorOn)
            SETR(setRatedS, num(), getRatedS(), setRatedS) SETR(setEnergySource, pick(std::vector<EnergySource>{EnergySource::HYDRO, EnergySource::WIND}), getEnergySource(), setEnergySource)
            if (rnd(3) == 0) { const auto t = regulated(n, other); ad.setRegulatingTerminal(t); w.eqs.emplace_back("setRegulatingTerminal", [t](Generator& g) { return &g.getRegulatingTerminal() == &t.get(); }); }
            else { w.eqs.emplace_back("regulates itself", [](Generator& g) { return &g.getRegulatingTerminal() == &g.getTerminal(); }); }
            attempt<Generator>(n, "generator", ad, id, w); break; }
        case 3: { auto ad = v.newStaticVarCompensator(); Want<StaticVarCompensator> w; injection(ad, id, w, vl); SETR(setBmin, -num(), getBmin(), setBmin) SETR(setBmax, num(), getBmax(), setBmax) SETR(setVoltageSetpoint, num(), getVoltageSetpoint(), setVoltageSetpoint) SETR(setReactivePowerSetpoint, num(), getReactivePowerSetpoint(), setReactivePowerSetpoint)
            SETR(setRegulationMode, pick(std::vector<StaticVarCompensator::RegulationMode>{StaticVarCompensator::RegulationMode::VOLTAGE, StaticVarCompensator::RegulationMode::REACTIVE_POWER, StaticVarCompensator::RegulationMode::OFF}), getRegulationMode(), setRegulationMode)
            if (rnd(3) == 0) { const auto t = regulated(n, other); ad.setRegulatingTerminal(t); w.eqs.emplace_back("setRegulatingTerminal", [t](StaticVarCompensator& g) { return &g.getRegulatingTerminal() == &t.get(); }); }
            attempt<StaticVarCompensator>(n, "static var compensator", ad, id, w); break; }
        case 4: { auto ad = v.newLccConverterStation(); Want<LccConverterStation> w; injection(ad, id, w, vl); SETR(setLossFactor, num(), getLossFactor(), setLossFactor) SETR(setPowerFactor, num() / 1000.0, getPowerFactor(), setPowerFactor) attempt<LccConverterStation>(n, "LCC station", ad, id, w); break; }
        case 5: { auto ad = v.newVscConverterStation(); Want<VscConverterStation> w; injection(ad, id, w, vl); SETR(setLossFactor, num() / 200.0, getLossFactor(), setLossFactor) SETR(setVoltageSetpoint, num(), getVoltageSetpoint(), setVoltageSetpoint) SETR(setReactivePowerSetpoint, num(), getReactivePowerSetpoint(), setReactivePowerSetpoint) SETR(setVoltageRegulatorOn, rnd(2) == 0, isVoltageRegulatorOn(), setVoltageRegulatorOn) attempt<VscConverterStation>(n, "VSC station", ad, id, w); break; }
        case 6: { auto ad = n.newLine(); Want<Line> w; ident<Line>(ad, id, w); const std::string o = pick(levels); ad.setVoltageLevel1(vl); if (maybe()) { ad.setVoltageLevel2(rnd(10) == 0 ? std::string("none") : o); }
            ad.setNode1(0); PUT(setNode1, setBus1, setConnectableBus1, vl, vl == "N1") PUT(setNode2, setBus2, setConnectableBus2, o, o == "N1")
            SETR(setR, num(), getR(), setR) SETR(setX, num(), getX(), setX) SETR(setG1, num(), getG1(), setG1) SETR(setB1, num(), getB1(), setB1) SETR(setG2, num(), getG2(), setG2) SETR(setB2, num(), getB2(), setB2) attempt<Line>(n, "line", ad, id, w); break; }
        case 7: { auto ad = n.newLine(); Want<Line> w; ident<Line>(ad, id, w); const std::string o = pick(levels); ad.setVoltageLevel1(vl).setVoltageLevel2(o);
            PUT(setNode1, setBus1, setConnectableBus1, vl, vl == "N1") PUT(setNode2, setBus2, setConnectableBus2, o, o == "N1")
            SETR(setR, num(), getR(), setR) SETR(setX, num(), getX(), setX) SETR(setG1, num(), getG1(), setG1) SETR(setB1, num(), getB1(), setB1) SETR(setG2, num(), getG2(), setG2) SETR(setB2, num(), getB2(), setB2) attempt<Line>(n, "line", ad, id, w); break; }
        case 8: { auto ad = v.newDanglingLine(); Want<DanglingLine> w; injection(ad, id, w, vl); SETR(setP0, num(), getP0(), setP0) SETR(setQ0, num(), getQ0(), setQ0) SETR(setR, num(), getR(), setR) SETR(setX, num(), getX(), setX) SETR(setG, num(), getG(), setG) SETR(setB, num(), getB(), setB) SET(setUcteXnodeCode, std::string("X") + id, getUcteXnodeCode())
            attempt<DanglingLine>(n, "dangling line", ad, id, w); break; }
        case 9: { auto dl = v.newDanglingLine(); Want<DanglingLine> w; injection(dl, id, w, vl); dl.setP0(1.5).setQ0(2.5).setR(3.5).setX(4.5).setG(5.5).setB(6.5);
            auto ad = dl.newGeneration(); 
#define GEN(S, V, G, B) if (maybe()) { const auto x = V; ad.S(x); w.eqs.emplace_back("generation " #S, [x](DanglingLine& o) { return sameV(o.getGeneration().get().G, decltype(o.getGeneration().get().G)(x)); }); w.again.emplace_back("generation " #S, [x](DanglingLine& o) { o.getGeneration().get().B(x); }); }
            const double mn = -num(); ad.setMinP(std::isinf(mn) ? -1.5 : mn); GEN(setMaxP, num(), getMaxP(), setMaxP) GEN(setTargetP, num(), getTargetP(), setTargetP) GEN(setTargetQ, num(), getTargetQ(), setTargetQ) GEN(setTargetV, num(), getTargetV(), setTargetV) GEN(setVoltageRegulationOn, rnd(2) == 0, isVoltageRegulationOn(), setVoltageRegulationOn)
            const Dump b = state(n); DanglingLineAdder* a2 = nullptr; const std::string r = outcome([&]() { a2 = &ad.add(); });
            if (!r.empty()) { check(diff(b, state(n)).empty(), "generation nothing changes when add() throws", r); } else { attempt<DanglingLine>(n, "dangling line with generation", *a2, id, w); } break; }
        case 10: { auto ad = n.getSubstation("S1").newTwoWindingsTransformer(); Want<TwoWindingsTransformer> w; ident<TwoWindingsTransformer>(ad, id, w); const std::vector<std::string> lv = {"V1", "V2", "V3", "V4"}; const std::string a = rnd(8) == 0 ? vl : pick(std::vector<std::string>{"V1", "V2", "V3"}), c = rnd(8) == 0 ? pick(lv) : pick(std::vector<std::string>{"V1", "V2", "V3"}); ad.setVoltageLevel1(a).setVoltageLevel2(c);
            PUT(setNode1, setBus1, setConnectableBus1, a, a == "N1") PUT(setNode2, setBus2, setConnectableBus2, c, false)
            SETR(setR, num(), getR(), setR) SETR(setX, num(), getX(), setX) SETR(setG, num(), getG(), setG) SETR(setB, num(), getB(), setB) SETR(setRatedU1, num(), getRatedU1(), setRatedU1) SETR(setRatedU2, num(), getRatedU2(), setRatedU2) SETR(setRatedS, num(), getRatedS(), setRatedS) attempt<TwoWindingsTransformer>(n, "two windings transformer", ad, id, w); break; }
        case 11: { auto ad = v.newShuntCompensator(); Want<ShuntCompensator> w; injection(ad, id, w, vl); SETR(setSectionCount, rnd(6), getSectionCount(), setSectionCount) SETR(setTargetV, num(), getTargetV(), setTargetV) SETR(setTargetDeadband, num(), getTargetDeadband(), setTargetDeadband) SETR(setVoltageRegulatorOn, rnd(2) == 0, isVoltageRegulatorOn(), setVoltageRegulatorOn)
            const Dump b = state(n); std::string r;
            if (rnd(2) == 0) { auto l = ad.newLinearModel(); const double bb = num(), gg = num(); const unsigned long mx = rnd(5); if (maybe()) { l.setBPerSection(bb); } if (maybe()) { l.setGPerSection(gg); w.eqs.emplace_back("setGPerSection", [gg](ShuntCompensator& o) { return same(o.getModel<ShuntCompensatorLinearModel>().getGPerSection(), gg) || std::isnan(gg); }); } l.setMaximumSectionCount(mx);
                w.eqs.emplace_back("setBPerSection", [bb](ShuntCompensator& o) { return same(o.getModel<ShuntCompensatorLinearModel>().getBPerSection(), bb); }); w.eqs.emplace_back("setMaximumSectionCount", [mx](ShuntCompensator& o) { return o.getMaximumSectionCount() == mx; }); r = outcome([&]() { l.add(); }); }
            else { auto l = ad.newNonLinearModel(); const unsigned long k = rnd(4); std::vector<double> bs; for (unsigned long i = 0; i < k && r.empty(); ++i) { const double bb = num(); bs.push_back(bb); r = outcome([&]() { l.beginSection().setB(bb).setG(bb + 0.5).endSection(); }); }
                w.eqs.emplace_back("sections", [bs](ShuntCompensator& o) { for (unsigned long i = 0; i < bs.size(); ++i) { if (!same(o.getB(i + 1), bs[i]) || !same(o.getG(i + 1), bs[i] + 0.5)) { return false; } } return o.getMaximumSectionCount() == bs.size(); }); if (r.empty()) { r = outcome([&]() { l.add(); }); } }
            if (!r.empty()) { check(diff(b, state(n)).empty(), "shunt model nothing changes when add() throws", r); }
            else { attempt<ShuntCompensator>(n, "shunt", ad, id, w); } break; }
        case 12: { auto ad = n.newHvdcLine(); Want<HvdcLine> w; ident<HvdcLine>(ad, id, w); const std::vector<std::string> st = {"VSC1", "VSC2", "LCC1", "LCC2", "none", "G1"}; const std::string a = rnd(8) == 0 ? pick(st) : rnd(2) == 0 ? std::string("VSC1") : std::string("LCC1"), c = rnd(8) == 0 ? pick(st) : a == "VSC1" ? "VSC2" : "LCC2";
            (void)a; ad.setConverterStationId1(rnd(3) == 0 ? a : std::string("freeA")); ad.setConverterStationId2(rnd(3) == 0 ? c : std::string("freeB"));
            SETR(setR, num(), getR(), setR) SETR(setNominalV, num(), getNominalV(), setNominalV) SETR(setMaxP, num(), getMaxP(), setMaxP) SETR(setActivePowerSetpoint, num(), getActivePowerSetpoint(), setActivePowerSetpoint) SETR(setConvertersMode, pick(std::vector<HvdcLine::ConvertersMode>{HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER, HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER}), getConvertersMode(), setConvertersMode)
            attempt<HvdcLine>(n, "hvdc line", ad, id, w); break; }
        case 13: { auto ad = n.newSubstation(); Want<Substation> w; ident<Substation>(ad, id, w); SET(setTso, std::string("tso") + id, getTso()) if (maybe()) { ad.setCountry(Country::ES); w.eqs.emplace_back("setCountry", [](Substation& o) { return static_cast<bool>(o.getCountry()) && *o.getCountry() == Country::ES; }); } else { w.eqs.emplace_back("no country", [](Substation& o) { return !o.getCountry(); }); } attempt<Substation>(n, "substation", ad, id, w); break; }
        case 14: { auto ad = n.getSubstation("S1").newVoltageLevel(); Want<VoltageLevel> w; ident<VoltageLevel>(ad, id, w); SETR(setNominalV, num(), getNominalV(), setNominalV) if (maybe()) { const auto k = rnd(2) == 0 ? TopologyKind::BUS_BREAKER : TopologyKind::NODE_BREAKER; ad.setTopologyKind(k); w.eqs.emplace_back("setTopologyKind", [k](VoltageLevel& o) { return o.getTopologyKind() == k; }); }
            SETR(setLowVoltageLimit, num() / 2, getLowVoltageLimit(), setLowVoltageLimit) SETR(setHighVoltageLimit, num() + 100, getHighVoltageLimit(), setHighVoltageLimit) attempt<VoltageLevel>(n, "voltage level", ad, id, w); break; }
        case 15: { auto ad = n.getVoltageLevel("N1").getNodeBreakerView().newSwitch(); Want<Switch> w; ident<Switch>(ad, id, w); const unsigned long a = rnd(30), c = rnd(30); if (maybe()) { ad.setNode1(a); } if (maybe()) { ad.setNode2(c); } SET(setKind, pick(std::vector<SwitchKind>{SwitchKind::BREAKER, SwitchKind::DISCONNECTOR}), getKind()) SET(setOpen, rnd(2) == 0, isOpen()) SET(setRetained, rnd(2) == 0, isRetained())
            w.eqs.emplace_back("ends", [a, c](Switch& o) { const auto& nb = o.getVoltageLevel().getNodeBreakerView(); return nb.getNode1(o.getId()) == a && nb.getNode2(o.getId()) == c; }); attempt<Switch>(n, "node/breaker switch", ad, id, w); break; }
        case 16: { auto ad = n.getVoltageLevel("V1").getBusBreakerView().newSwitch(); Want<Switch> w; ident<Switch>(ad, id, w); const std::string a = pick(BUSES), c = pick(BUSES); if (!a.empty()) { ad.setBus1(a); } if (!c.empty()) { ad.setBus2(c); } SET(setOpen, rnd(2) == 0, isOpen())
            w.eqs.emplace_back("ends", [a, c](Switch& o) { const auto& bb = o.getVoltageLevel().getBusBreakerView(); return bb.getBus1(o.getId()).get().getId() == a && bb.getBus2(o.getId()).get().getId() == c; }); attempt<Switch>(n, "bus/breaker switch", ad, id, w); break; }
        case 17: { auto ad = n.newTieLine(); Want<TieLine> w; ident<TieLine>(ad, id, w); const std::string o = pick(std::vector<std::string>{"V1", "V2", "V4"}); ad.setVoltageLevel1(vl).setVoltageLevel2(o); PUT(setNode1, setBus1, setConnectableBus1, vl, vl == "N1") PUT(setNode2, setBus2, setConnectableBus2, o, false) SET(setUcteXnodeCode, std::string("U") + id, getUcteXnodeCode())
            const double b1 = num(), b2 = num(), r1 = num(), r2 = num();
            const Dump b = state(n);
            const auto half = [&](TieLineAdder::HalfLineAdder& h, const std::string& s, double r, double bb) { if (maybe()) { h.setId(id + s); } h.setName(id + s); if (maybe()) { h.setR(r); } h.setX(r + 1).setG1(r + 2).setG2(r + 3).setB1(bb); if (maybe()) { h.setB2(bb + 1); } return outcome([&]() { h.add(); }); };
            auto h1 = ad.newHalfLine1(); std::string r; if (maybe()) { r = half(h1, "_1", r1, b1); }
            auto h2 = ad.newHalfLine2(); if (r.empty() && maybe()) { r = half(h2, "_2", r2, b2); }
            if (!r.empty()) { check(diff(b, state(n)).empty(), "half line nothing changes when add() throws", r); break; }
            w.eqs.emplace_back("half lines", [=](TieLine& t) { return same(t.getHalf1().getR(), r1) && same(t.getHalf2().getR(), r2) && same(t.getHalf1().getX(), r1 + 1) && same(t.getHalf2().getX(), r2 + 1) && same(t.getHalf1().getG1(), r1 + 2) && same(t.getHalf1().getG2(), r1 + 3) && same(t.getHalf2().getB1(), b2) && same(t.getHalf2().getB2(), b2 + 1) && same(t.getHalf1().getB1(), b1) && same(t.getHalf1().getB2(), b1 + 1) && t.getHalf1().getId() == id + "_1" && t.getHalf2().getId() == id + "_2"; });
            attempt<TieLine>(n, "tie line", ad, id, w); break; }
        default: { auto ad = n.getSubstation("S1").newThreeWindingsTransformer(); Want<ThreeWindingsTransformer> w; ident<ThreeWindingsTransformer>(ad, id, w); SET(setRatedU0, num(), getRatedU0())
            std::string r; const Dump b = state(n);
            const std::vector<std::string> lv = {"V1", "V2", "V3"};
            for (int k = 0; k < 3 && r.empty(); ++k) {
                auto l = k == 0 ? ad.newLeg1() : k == 1 ? ad.newLeg2() : ad.newLeg3();
                if (rnd(16) == 0) { continue; }
                const double rr = num(), u = num(), s = num(), g = num();
                const auto leg = [k](ThreeWindingsTransformer& t) -> ThreeWindingsTransformer::Leg& { return k == 0 ? t.getLeg1() : k == 1 ? t.getLeg2() : t.getLeg3(); };
                const std::string lvl = rnd(12) == 0 ? pick(std::vector<std::string>{"V4", "none", "N1"}) : lv[static_cast<unsigned long>(k)];
                l.setVoltageLevel(lvl); if (maybe()) { l.setConnectableBus(lvl + "_B1"); if (maybe()) { l.setBus(lvl + "_B1"); } }
                if (maybe()) { l.setR(rr); } l.setX(rr + 1).setG(g).setB(g + 1); if (maybe()) { l.setRatedU(u); }
                if (maybe()) { l.setRatedS(s); w.eqs.emplace_back("leg ratedS", [=](ThreeWindingsTransformer& t) { return same(leg(t).getRatedS(), s); }); }
                w.eqs.emplace_back("leg", [=](ThreeWindingsTransformer& t) { return same(leg(t).getR(), rr) && same(leg(t).getX(), rr + 1) && same(leg(t).getG(), g) && same(leg(t).getB(), g + 1) && same(leg(t).getRatedU(), u) && leg(t).getTerminal().getVoltageLevel().getId() == lvl; });
                r = outcome([&]() { l.add(); });
            }
            if (!r.empty()) { check(diff(b, state(n)).empty(), "leg nothing changes when add() throws", r); break; }
            attempt<ThreeWindingsTransformer>(n, "three windings transformer", ad, id, w); break; }
    }
}

static void fixed() {
    {   Network n = base(); auto ad = n.newLine(); ad.setId("same").setVoltageLevel1("N1").setVoltageLevel2("N1").setNode1(60).setNode2(60).setR(1.0).setX(1.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0);
        at("a line with its two terminals on the same node"); attempt<Line>(n, "line", ad, "same", Want<Line>(), " because two terminals are on the same node"); }
    {   Network n = base(); auto ad = n.getVoltageLevel("N1").getNodeBreakerView().newBusbarSection(); ad.setId("occupied").setNode(3);
        at("a busbar section at an occupied node"); attempt<BusbarSection>(n, "busbar section", ad, "occupied", Want<BusbarSection>()); }
    {   Network n = base(); auto ad = n.getVoltageLevel("V1").newDanglingLine(); at("a generation with maxP = -infinity and no minP");
        const std::string r = outcome([&]() { ad.setId("DLG").setConnectableBus("V1_B1").setP0(1.0).setQ0(1.0).setR(1.0).setX(1.0).setG(0.0).setB(0.0).newGeneration().setTargetP(1.0).setTargetQ(1.0).setMaxP(-INF).setVoltageRegulationOn(false).add().add(); });
        check(!r.empty() || n.getDanglingLine("DLG").getGeneration().get().getMinP() <= n.getDanglingLine("DLG").getGeneration().get().getMaxP(), "generation with an infinite limit: minP <= maxP"); }
}

void run() {
    fixed();
    Network other = everything("other network");
    for (int r = 0; r < (st().thorough ? 60 : 12); ++r) {
        Network n = base();
        n.getVoltageLevel("V1").newVscConverterStation().setId("freeA").setConnectableBus("V1_B1").setLossFactor(1.0).setVoltageSetpoint(1.0).setVoltageRegulatorOn(true).add();
        n.getVoltageLevel("V4").newVscConverterStation().setId("freeB").setConnectableBus("V4_B1").setLossFactor(1.0).setVoltageSetpoint(1.0).setVoltageRegulatorOn(true).add();
        serial = 0;
        for (int k = 0; k < 60; ++k) { at("network " + str(r) + " add " + str(k)); random(n, other); }
    }
    check(created > 100 && refused > 100, "both outcomes explored", str(created) + " " + str(refused));
    std::cout << "created " << created << " refused " << refused << "\n";
}
