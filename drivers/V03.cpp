// Variant manager against a model (set of ids), with every attribute of every object compared.
#include "nets.hpp"

using namespace vp;

static std::string ids(const std::vector<std::string>& v) { std::string s; for (const auto& x : v) { s += x + " "; } return s; }

// different values in the working variant
static void perturb(Network& n, unsigned long salt) {
    const double k = static_cast<double>(salt % 17 + 1);
    for (Generator& g : n.getGenerators()) { g.setTargetP(10.0 + k); g.setTargetQ(k); g.setTargetV(200.0 + k); g.setVoltageRegulatorOn(salt % 2 == 0); }
    for (Load& l : n.getLoads()) { l.setP0(k * 3).setQ0(k * 5); }
    for (Switch& s : n.getSwitches()) { s.setOpen((salt + s.getId().size()) % 3 == 0); if (s.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) { s.setRetained((salt + s.getId().size()) % 4 == 0); } }
    for (ShuntCompensator& s : n.getShuntCompensators()) { s.setSectionCount(salt % (s.getMaximumSectionCount() + 1)); s.setTargetV(60.0 + k); s.setTargetDeadband(k); s.setVoltageRegulatorOn(salt % 2 == 0); }
    const auto ratio = [&](RatioTapChanger& r) {
        r.setTapPosition(r.getLowTapPosition() + static_cast<long>(salt % r.getStepCount()));
        if (r.hasLoadTapChangingCapabilities()) { r.setRegulating(false); r.setTargetV(100.0 + k); r.setTargetDeadband(k); }
    };
    const auto phase = [&](PhaseTapChanger& r) { r.setTapPosition(r.getLowTapPosition() + static_cast<long>(salt % r.getStepCount())); r.setRegulating(false); r.setRegulationValue(k); r.setTargetDeadband(k + 1.0); };
    for (TwoWindingsTransformer& t : n.getTwoWindingsTransformers()) { if (t.hasRatioTapChanger()) { ratio(t.getRatioTapChanger()); } if (t.hasPhaseTapChanger()) { phase(t.getPhaseTapChanger()); } }
    for (ThreeWindingsTransformer& t : n.getThreeWindingsTransformers()) { for (auto* l : {&t.getLeg1(), &t.getLeg2(), &t.getLeg3()}) { if (l->hasRatioTapChanger()) { ratio(l->getRatioTapChanger()); } if (l->hasPhaseTapChanger()) { phase(l->getPhaseTapChanger()); } } }
    for (HvdcLine& h : n.getHvdcLines()) { h.setActivePowerSetpoint(k); h.setConvertersMode(salt % 2 == 0 ? HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER : HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER); }
    for (VscConverterStation& v : n.getVscConverterStations()) { v.setVoltageSetpoint(300.0 + k); v.setReactivePowerSetpoint(k); v.setVoltageRegulatorOn(salt % 2 == 0); }
    for (Battery& b : n.getBatteries()) { b.setP0(k).setQ0(-k); }
    for (DanglingLine& d : n.getDanglingLines()) { d.setP0(k).setQ0(-k); if (d.getGeneration()) { auto& g = d.getGeneration().get(); g.setTargetP(k + 5); g.setTargetQ(k + 6); g.setTargetV(100.0 + k); g.setVoltageRegulationOn(salt % 2 == 0); } }
    for (StaticVarCompensator& s : n.getStaticVarCompensators()) { s.setVoltageSetpoint(100.0 + k); s.setReactivePowerSetpoint(k); s.setRegulationMode(salt % 2 == 0 ? StaticVarCompensator::RegulationMode::OFF : StaticVarCompensator::RegulationMode::REACTIVE_POWER); }
    for (Bus& b : n.getBusBreakerView().getBuses()) { b.setV(100.0 + k); b.setAngle(k); }
    for (VoltageLevel& v : n.getVoltageLevels()) { if (v.getTopologyKind() == TopologyKind::NODE_BREAKER) { for (Bus& b : v.getBusView().getBuses()) { b.setV(100.0 + k); b.setAngle(-k); } } }
    double x = k;
    for (Connectable& c : n.getConnectables()) {
        for (Terminal& t : c.getTerminals()) {
            x += 1.0;
            if (c.getType() != ConnectableType::BUSBAR_SECTION) { if (c.getType() != ConnectableType::SHUNT_COMPENSATOR && c.getType() != ConnectableType::STATIC_VAR_COMPENSATOR) { t.setP(x); } t.setQ(-x); }
            if (t.getVoltageLevel().getTopologyKind() == TopologyKind::BUS_BREAKER && (salt + static_cast<unsigned long>(x)) % 5 == 0) { if (t.isConnected()) { t.disconnect(); } else { t.connect(); } }
        }
    }
}

static void compare(Network& n, const std::map<std::string, Dump>& model, const std::string& label) {
    for (const auto& e : model) {
        n.getVariantManager().setWorkingVariant(e.first);
        const std::string df = diff(e.second, dump(n));
        check(df.empty(), label, e.first + ": " + df);
    }
}

static void scenario(const std::string& name, const std::function<Network()>& make, int steps, unsigned long run_) {
    Network n = make();
    VariantManager& m = n.getVariantManager();
    std::map<std::string, Dump> model{{"InitialVariant", dump(n)}};
    std::string working = "InitialVariant";
    std::string hist;
    const std::vector<std::string> pool{"a", "b", "c", "d", "e", "f"};
    for (int i = 0; i < steps; ++i) {
        const unsigned long op = rnd(10);
        std::vector<std::string> known; for (const auto& e : model) { known.push_back(e.first); }
        const auto any = [&]() { return rnd(5) == 0 ? std::string("unknown") : pick(known); };
        std::string desc; std::string out; bool reject = false;
        auto next = model; std::string nextWorking = working;
        const auto before = [&]() {
            if (!reject || i == 0) { return; }
            compare(n, model, "attributes of variant preserved");
            if (!working.empty()) { m.setWorkingVariant(working); } else { working = nextWorking = model.begin()->first; m.setWorkingVariant(working); hist += "setWorkingVariant(" + working + "); "; }
        };
        if (op < 4) {
            std::vector<std::string> t; const unsigned long k = rnd(12) == 0 ? 0 : 1 + rnd(3);
            for (unsigned long j = 0; j < k; ++j) { t.push_back(pick(pool)); }
            const bool ow = rnd(2) == 0; const std::string src = any();
            desc = "cloneVariant(" + src + ", " + ids(t) + (ow ? ", overwrite)" : ")");
            reject = model.count(src) == 0 || t.empty();
            std::set<std::string> seen;
            for (const auto& x : t) { if (!ow && (model.count(x) != 0 || !seen.insert(x).second)) { reject = true; } }
            if (!reject) { const Dump d = model[src]; for (const auto& x : t) { next[x] = d; } }
            before();
            at(name + ": " + hist + desc);
            out = outcome([&]() {
                switch (t.size()) {
                    case 0: m.cloneVariant(src, std::initializer_list<std::string>{}, ow); break;
                    case 1: if (rnd(2) == 0) { m.cloneVariant(src, t[0], ow); } else { m.cloneVariant(src, {t[0]}, ow); } break;
                    case 2: m.cloneVariant(src, {t[0], t[1]}, ow); break;
                    default: m.cloneVariant(src, {t[0], t[1], t[2]}, ow); break;
                }
            });
        } else if (op < 6) {
            const std::string v = rnd(6) == 0 ? std::string("InitialVariant") : any(); desc = "removeVariant(" + v + ")";
            reject = v == "InitialVariant" || model.count(v) == 0;
            if (!reject) { next.erase(v); if (v == working) { nextWorking = ""; } }
            before();
            at(name + ": " + hist + desc);
            out = outcome([&]() { m.removeVariant(v); });
        } else if (op < 8) {
            const std::string v = any(); desc = "setWorkingVariant(" + v + ")";
            reject = model.count(v) == 0;
            if (!reject) { nextWorking = v; }
            before();
            at(name + ": " + hist + desc);
            out = outcome([&]() { m.setWorkingVariant(v); });
        } else if (op < 9 || working.empty()) {
            const bool a = rnd(2) == 0; desc = std::string("allowVariantMultiThreadAccess(") + (a ? "true)" : "false)");
            const bool was = m.isVariantMultiThreadAccessAllowed();
            if (!a && was && working.empty()) { nextWorking = "InitialVariant"; }
            before();
            at(name + ": " + hist + desc);
            out = outcome([&]() { m.allowVariantMultiThreadAccess(a); });
            check(m.isVariantMultiThreadAccessAllowed() == a, "access mode as requested");
        } else {
            const unsigned long salt = 1 + rnd(1000); desc = "perturb(" + std::to_string(salt) + ")";
            at(name + ": " + hist + desc);
            perturb(n, salt);
            next[working] = dump(n);
        }
        hist += desc + "; ";
        check(out.empty() != reject, reject ? "invalid request is rejected" : "valid request is accepted", out);
        if (!reject) { model = next; working = nextWorking; }
        // observers
        const auto got = m.getVariantIds();
        std::set<std::string> want; for (const auto& e : model) { want.insert(e.first); }
        check(std::set<std::string>(got.begin(), got.end()) == want, "variant ids");
        std::string w;
        const std::string o = outcome([&]() { w = m.getWorkingVariantId(); });
        if (working.empty()) { check(!o.empty(), "no working variant after its removal", w); }
        else { check(o.empty() && w == working, "working variant kept", o + w); }
        check(m.getVariantArraySize() >= model.size(), "array size covers the variants");
        check(m.getVariantIndices().size() == model.size(), "ids and slots one to one");
        // contents of every variant
        if (reject || i % 3 == 2 || i + 1 == steps) {
            compare(n, model, reject ? "rejected call changes no attribute" : "attributes of variant preserved");
            if (!working.empty()) { m.setWorkingVariant(working); } else { working = model.begin()->first; m.setWorkingVariant(working); hist += "setWorkingVariant(" + working + "); "; }
        }
        if (!st().failed.empty()) { return; }
    }
    (void) run_;
}

void run() {
    const auto nets = networks();
    const unsigned long rounds = st().thorough ? 60 : 6;
    for (unsigned long r = 0; r < rounds; ++r) {
        for (const auto& e : nets) { scenario(e.first, e.second, 40, r); if (!st().failed.empty()) { return; } }
    }
    // forEachVariant visits every variant once and restores the working one
    Network n = everything(); VariantManager& m = n.getVariantManager();
    m.cloneVariant("InitialVariant", {"a", "b"}); m.setWorkingVariant("b");
    at("forEachVariant");
    std::multiset<unsigned long> seen;
    m.forEachVariant([&]() { seen.insert(n.getVariantManager().getVariantIndex()); });
    check(seen == std::multiset<unsigned long>({0, 1, 2}), "forEachVariant visits every variant once");
    check(m.getWorkingVariantId() == "b", "forEachVariant restores the working variant");
    // the working variants of two networks used by the same thread are independent
    Network n2 = networks().front().second();
    m.allowVariantMultiThreadAccess(true); n2.getVariantManager().allowVariantMultiThreadAccess(true);
    at("two networks with multi-thread access: clone b in the first, set working variant b in the first and InitialVariant in the second");
    m.setWorkingVariant("b"); n2.getVariantManager().setWorkingVariant("InitialVariant");
    check(m.getWorkingVariantId() == "b", "working variant of a network unchanged by another network");
}
