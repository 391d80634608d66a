// Every setter of every equipment, with valid and invalid values, in each of several variants with different contents:
// accepted exactly when the value is admissible, read back, nothing else changed, other variants untouched.
#include "nets.hpp"

using namespace vp;

using Obs = std::map<std::string, double>;
struct Attr { std::string name; std::function<double()> get; std::function<void(double)> set; char pv; std::vector<double> values; };   // pv: 'v' per variant, 's' shared, 'n' never accepted
using Inv = std::function<bool(const Obs&)>;
struct Obj {
    std::string name; std::vector<Attr> attrs; Inv inv; bool tap; std::function<void(Obs&)> extra;
    Obj(const std::string& n, const std::vector<Attr>& a, const Inv& i = [](const Obs&) { return true; }) : name(n), attrs(a), inv(i), tap(false), extra([](Obs&) {}) {}
};

static const double NaN = std::numeric_limits<double>::quiet_NaN();
static const double INF = std::numeric_limits<double>::infinity();
static const std::vector<double> REALS = {NaN, -INF, -1000.5, -100.0, -1.0, -0.5, -1e-9, 0.0, 1e-9, 0.5, 1.0, 1.5, 99.0, 100.0, 100.5, 250.25, 400.0, 5000.0};
static const std::vector<double> BOOLS = {0.0, 1.0};
static std::vector<double> upto(int n) { std::vector<double> v; for (int i = 0; i < n; ++i) { v.push_back(i); } return v; }

template <typename T> struct Conv { static T to(double v) { return static_cast<T>(v); } };
template <> struct Conv<bool> { static bool to(double v) { return v != 0.0; } };
template <typename T> double num(const T& v) { return static_cast<double>(v); }

#define ATTR(o, g, s, pv, vals) Attr{#s, [&o]() { return num(o.g()); }, [&o](double v_) { o.s(Conv<typename std::decay<decltype(o.g())>::type>::to(v_)); }, pv, vals}
#define FICT(o) ATTR(o, isFictitious, setFictitious, 's', BOOLS)

static bool def(double v) { return !std::isnan(v); }
static bool pos(double v) { return v > 0; }
static bool undefOr0(double v) { return std::isnan(v) || v >= 0; }
static bool undefOrPos(double v) { return std::isnan(v) || v > 0; }

template <typename L> void limits(std::vector<Obj>& out, const std::string& id, L l) {
    if (!l) { return; }
    auto& x = l.get();
    out.push_back(Obj{id, {ATTR(x, getPermanentLimit, setPermanentLimit, 's', REALS)}, [](const Obs& o) { return undefOrPos(o.at("setPermanentLimit")); }});
}

template <typename T> void tapCommon(Obj& o, T& t) {
    o.tap = true;
    std::vector<double> ps; for (long p = t.getLowTapPosition() - 3; p <= t.getHighTapPosition() + 3; ++p) { ps.push_back(p); }
    o.attrs.push_back(ATTR(t, getTapPosition, setTapPosition, 'v', ps));
    o.attrs.push_back(ATTR(t, getTargetDeadband, setTargetDeadband, 'v', REALS));
    o.attrs.push_back(ATTR(t, isRegulating, setRegulating, 'v', BOOLS));
    o.extra = [&t](Obs& m) { m["low"] = t.getLowTapPosition(); m["high"] = t.getHighTapPosition(); m["steps"] = t.getStepCount(); m["terminal"] = t.getRegulationTerminal() ? 1 : 0; };
}
static bool tapInv(const Obs& o) {
    return o.at("setTapPosition") >= o.at("low") && o.at("setTapPosition") <= o.at("high") && o.at("high") == o.at("low") + o.at("steps") - 1 && undefOr0(o.at("setTargetDeadband")) && (o.at("setRegulating") == 0 || def(o.at("setTargetDeadband")));
}
template <typename S> void step(std::vector<Obj>& out, const std::string& id, S& s) {
    out.push_back(Obj{id, {ATTR(s, getR, setR, 's', REALS), ATTR(s, getX, setX, 's', REALS), ATTR(s, getG, setG, 's', REALS), ATTR(s, getB, setB, 's', REALS), ATTR(s, getRho, setRho, 's', REALS)}});
}
static void ratio(std::vector<Obj>& out, const std::string& id, RatioTapChanger& t) {
    Obj o{id + " ratio tap changer", {ATTR(t, getTargetV, setTargetV, 'v', REALS), ATTR(t, hasLoadTapChangingCapabilities, setLoadTapChangingCapabilities, 's', BOOLS)}};
    tapCommon(o, t);
    o.inv = [](const Obs& m) { return tapInv(m) && (m.at("setRegulating") == 0 || m.at("setLoadTapChangingCapabilities") == 0 || (pos(m.at("setTargetV")) && m.at("terminal") == 1)); };
    out.push_back(o);
    for (long p = t.getLowTapPosition(); p <= t.getHighTapPosition(); ++p) { step(out, id + " ratio step", t.getStep(p)); }
}
static void phase(std::vector<Obj>& out, const std::string& id, PhaseTapChanger& t) {
    Obj o{id + " phase tap changer", {ATTR(t, getRegulationValue, setRegulationValue, 'v', REALS), ATTR(t, getRegulationMode, setRegulationMode, 's', upto(3))}};
    tapCommon(o, t);
    o.inv = [](const Obs& m) { return tapInv(m) && (m.at("setRegulating") == 0 || (m.at("setRegulationMode") != static_cast<double>(PhaseTapChanger::RegulationMode::FIXED_TAP) && def(m.at("setRegulationValue")) && m.at("terminal") == 1)); };
    out.push_back(o);
    for (long p = t.getLowTapPosition(); p <= t.getHighTapPosition(); ++p) {
        auto& s = t.getStep(p);
        step(out, id + " phase step", s);
        out.push_back(Obj{id + " phase step", {ATTR(s, getAlpha, setAlpha, 's', REALS)}});
    }
}

static std::vector<Obj> objects(Network& n) {
    std::vector<Obj> out;
    const auto regV = [](const char* on, const char* v, const char* q) { return [on, v, q](const Obs& o) { return o.at(on) != 0 ? pos(o.at(v)) : def(o.at(q)); }; };
    const auto band = [](const Obs& o) { return def(o.at("setMinP")) && def(o.at("setMaxP")) && o.at("setMinP") <= o.at("setMaxP"); };
    for (Battery& b : n.getBatteries()) {
        out.push_back(Obj{b.getId(), {ATTR(b, getP0, setP0, 'v', REALS), ATTR(b, getQ0, setQ0, 'v', REALS), ATTR(b, getMinP, setMinP, 's', REALS), ATTR(b, getMaxP, setMaxP, 's', REALS), FICT(b)}, [band](const Obs& o) { return band(o) && def(o.at("setP0")) && def(o.at("setQ0")); }});
    }
    for (Generator& g : n.getGenerators()) {
        const auto rv = regV("setVoltageRegulatorOn", "setTargetV", "setTargetQ");
        out.push_back(Obj{g.getId(), {ATTR(g, getTargetP, setTargetP, 'v', REALS), ATTR(g, getTargetQ, setTargetQ, 'v', REALS), ATTR(g, getTargetV, setTargetV, 'v', REALS), ATTR(g, isVoltageRegulatorOn, setVoltageRegulatorOn, 'v', BOOLS),
            ATTR(g, getMinP, setMinP, 's', REALS), ATTR(g, getMaxP, setMaxP, 's', REALS), ATTR(g, getRatedS, setRatedS, 's', REALS), ATTR(g, getEnergySource, setEnergySource, 's', upto(6)), FICT(g)},
            [band, rv](const Obs& o) { return band(o) && rv(o) && def(o.at("setTargetP")) && undefOrPos(o.at("setRatedS")); }});
    }
    for (DanglingLine& d : n.getDanglingLines()) {
        out.push_back(Obj{d.getId(), {ATTR(d, getP0, setP0, 'v', REALS), ATTR(d, getQ0, setQ0, 'v', REALS), ATTR(d, getR, setR, 's', REALS), ATTR(d, getX, setX, 's', REALS), ATTR(d, getG, setG, 's', REALS), ATTR(d, getB, setB, 's', REALS), FICT(d)},
            [](const Obs& o) { for (const auto& e : o) { if (!def(e.second)) { return false; } } return true; }});
        limits(out, d.getId() + " current limits", d.getCurrentLimits());
        if (d.getGeneration()) {
            auto& g = d.getGeneration().get();
            const auto rv = regV("setVoltageRegulationOn", "setTargetV", "setTargetQ");
            out.push_back(Obj{d.getId() + " generation", {ATTR(g, getTargetP, setTargetP, 'v', REALS), ATTR(g, getTargetQ, setTargetQ, 'v', REALS), ATTR(g, getTargetV, setTargetV, 'v', REALS), ATTR(g, isVoltageRegulationOn, setVoltageRegulationOn, 'v', BOOLS),
                ATTR(g, getMinP, setMinP, 's', REALS), ATTR(g, getMaxP, setMaxP, 's', REALS)}, [band, rv](const Obs& o) { return band(o) && rv(o) && def(o.at("setTargetP")); }});
        }
    }
    for (HvdcLine& h : n.getHvdcLines()) {
        out.push_back(Obj{h.getId(), {ATTR(h, getActivePowerSetpoint, setActivePowerSetpoint, 'v', REALS), ATTR(h, getConvertersMode, setConvertersMode, 'v', upto(2)), ATTR(h, getMaxP, setMaxP, 's', REALS), ATTR(h, getNominalV, setNominalV, 's', REALS), ATTR(h, getR, setR, 's', REALS), FICT(h)},
            [](const Obs& o) { return o.at("setActivePowerSetpoint") >= 0 && o.at("setMaxP") >= 0 && o.at("setNominalV") > 0 && def(o.at("setR")); }});
    }
    for (LccConverterStation& c : n.getLccConverterStations()) {
        out.push_back(Obj{c.getId(), {ATTR(c, getLossFactor, setLossFactor, 's', REALS), ATTR(c, getPowerFactor, setPowerFactor, 's', REALS), FICT(c)}, [](const Obs& o) { return o.at("setLossFactor") >= 0 && o.at("setLossFactor") <= 100 && std::abs(o.at("setPowerFactor")) <= 1; }});
    }
    for (VscConverterStation& c : n.getVscConverterStations()) {
        const auto rv = regV("setVoltageRegulatorOn", "setVoltageSetpoint", "setReactivePowerSetpoint");
        out.push_back(Obj{c.getId(), {ATTR(c, getLossFactor, setLossFactor, 's', REALS), ATTR(c, getReactivePowerSetpoint, setReactivePowerSetpoint, 'v', REALS), ATTR(c, getVoltageSetpoint, setVoltageSetpoint, 'v', REALS), ATTR(c, isVoltageRegulatorOn, setVoltageRegulatorOn, 'v', BOOLS), FICT(c)},
            [rv](const Obs& o) { return o.at("setLossFactor") >= 0 && o.at("setLossFactor") <= 100 && rv(o); }});
    }
    for (Line& l : n.getLines()) {
        const char k = l.isTieLine() ? 'n' : 's';
        out.push_back(Obj{l.getId(), {ATTR(l, getR, setR, k, REALS), ATTR(l, getX, setX, k, REALS), ATTR(l, getG1, setG1, k, REALS), ATTR(l, getG2, setG2, k, REALS), ATTR(l, getB1, setB1, k, REALS), ATTR(l, getB2, setB2, k, REALS), FICT(l)},
            [](const Obs& o) { for (const auto& e : o) { if (!def(e.second)) { return false; } } return true; }});
        limits(out, l.getId() + " current limits 1", l.getCurrentLimits1()); limits(out, l.getId() + " active limits 1", l.getActivePowerLimits1()); limits(out, l.getId() + " apparent limits 2", l.getApparentPowerLimits2());
    }
    for (Load& l : n.getLoads()) {
        out.push_back(Obj{l.getId(), {ATTR(l, getP0, setP0, 'v', REALS), ATTR(l, getQ0, setQ0, 'v', REALS), ATTR(l, getLoadType, setLoadType, 's', upto(3)), FICT(l)}, [](const Obs& o) { return def(o.at("setP0")) && def(o.at("setQ0")); }});
    }
    for (ShuntCompensator& s : n.getShuntCompensators()) {
        const double m = s.getMaximumSectionCount();
        out.push_back(Obj{s.getId(), {ATTR(s, getSectionCount, setSectionCount, 'v', upto(static_cast<int>(m) + 4)), ATTR(s, getTargetV, setTargetV, 'v', REALS), ATTR(s, getTargetDeadband, setTargetDeadband, 'v', REALS), ATTR(s, isVoltageRegulatorOn, setVoltageRegulatorOn, 'v', BOOLS), FICT(s)},
            [m](const Obs& o) { return o.at("setSectionCount") <= m && undefOr0(o.at("setTargetDeadband")) && (o.at("setVoltageRegulatorOn") == 0 || (pos(o.at("setTargetV")) && def(o.at("setTargetDeadband")))); }});
        if (s.getModelType() == ShuntCompensatorModelType::LINEAR) {
            auto& l = s.getModel<ShuntCompensatorLinearModel>();
            out.push_back(Obj{s.getId() + " model", {ATTR(l, getBPerSection, setBPerSection, 's', REALS), ATTR(l, getGPerSection, setGPerSection, 's', REALS)}, [](const Obs& o) { return def(o.at("setBPerSection")); }});
        }
    }
    for (StaticVarCompensator& s : n.getStaticVarCompensators()) {
        out.push_back(Obj{s.getId(), {ATTR(s, getBmin, setBmin, 's', REALS), ATTR(s, getBmax, setBmax, 's', REALS), ATTR(s, getVoltageSetpoint, setVoltageSetpoint, 'v', REALS), ATTR(s, getReactivePowerSetpoint, setReactivePowerSetpoint, 'v', REALS), ATTR(s, getRegulationMode, setRegulationMode, 'v', upto(3)), FICT(s)},
            [](const Obs& o) {
                const auto m = static_cast<StaticVarCompensator::RegulationMode>(static_cast<int>(o.at("setRegulationMode")));
                return def(o.at("setBmin")) && def(o.at("setBmax")) && (m != StaticVarCompensator::RegulationMode::VOLTAGE || def(o.at("setVoltageSetpoint"))) && (m != StaticVarCompensator::RegulationMode::REACTIVE_POWER || def(o.at("setReactivePowerSetpoint")));
            }});
    }
    for (Switch& s : n.getSwitches()) {
        Obj o{s.getId(), {ATTR(s, isOpen, setOpen, 'v', BOOLS), FICT(s)}};
        o.attrs.push_back(ATTR(s, isRetained, setRetained, (s.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER ? 'v' : 'n'), BOOLS));
        out.push_back(o);
    }
    for (TwoWindingsTransformer& t : n.getTwoWindingsTransformers()) {
        out.push_back(Obj{t.getId(), {ATTR(t, getR, setR, 's', REALS), ATTR(t, getX, setX, 's', REALS), ATTR(t, getG, setG, 's', REALS), ATTR(t, getB, setB, 's', REALS), ATTR(t, getRatedU1, setRatedU1, 's', REALS), ATTR(t, getRatedU2, setRatedU2, 's', REALS), ATTR(t, getRatedS, setRatedS, 's', REALS), FICT(t)},
            [](const Obs& o) { for (const auto& e : o) { if (e.first == "setRatedS" ? !undefOrPos(e.second) : !def(e.second)) { return false; } } return true; }});
        if (t.hasRatioTapChanger()) { ratio(out, t.getId(), t.getRatioTapChanger()); }
        if (t.hasPhaseTapChanger()) { phase(out, t.getId(), t.getPhaseTapChanger()); }
        limits(out, t.getId() + " current limits 1", t.getCurrentLimits1());
    }
    for (ThreeWindingsTransformer& t : n.getThreeWindingsTransformers()) {
        for (auto* p : {&t.getLeg1(), &t.getLeg2(), &t.getLeg3()}) {
            auto& l = *p;
            out.push_back(Obj{t.getId() + " leg", {ATTR(l, getR, setR, 's', REALS), ATTR(l, getX, setX, 's', REALS), ATTR(l, getG, setG, 's', REALS), ATTR(l, getB, setB, 's', REALS), ATTR(l, getRatedU, setRatedU, 's', REALS), ATTR(l, getRatedS, setRatedS, 's', REALS)},
                [](const Obs& o) { for (const auto& e : o) { if (e.first == "setRatedS" ? !undefOrPos(e.second) : !def(e.second)) { return false; } } return true; }});
            if (l.hasRatioTapChanger()) { ratio(out, t.getId() + " leg", l.getRatioTapChanger()); }
            if (l.hasPhaseTapChanger()) { phase(out, t.getId() + " leg", l.getPhaseTapChanger()); }
            limits(out, t.getId() + " leg current limits", l.getCurrentLimits()); limits(out, t.getId() + " leg active limits", l.getActivePowerLimits());
        }
    }
    for (VoltageLevel& v : n.getVoltageLevels()) {
        out.push_back(Obj{v.getId(), {ATTR(v, getNominalV, setNominalV, 's', REALS), ATTR(v, getLowVoltageLimit, setLowVoltageLimit, 's', REALS), ATTR(v, getHighVoltageLimit, setHighVoltageLimit, 's', REALS), FICT(v)},
            [](const Obs& o) { const double a = o.at("setLowVoltageLimit"), b = o.at("setHighVoltageLimit"); return pos(o.at("setNominalV")) && undefOr0(a) && undefOr0(b) && !(a > b); }});
    }
    for (Bus& b : n.getBusBreakerView().getBuses()) {
        if (b.getVoltageLevel().getTopologyKind() != TopologyKind::BUS_BREAKER) { continue; }
        out.push_back(Obj{b.getId(), {ATTR(b, getV, setV, 'v', REALS), ATTR(b, getAngle, setAngle, 'v', REALS)}, [](const Obs& o) { return undefOr0(o.at("setV")); }});
    }
    for (Connectable& c : n.getConnectables()) {
        const bool bbs = c.getType() == ConnectableType::BUSBAR_SECTION, sh = c.getType() == ConnectableType::SHUNT_COMPENSATOR;
        for (Terminal& t : c.getTerminals()) {
            out.push_back(Obj{c.getId() + " terminal", {ATTR(t, getP, setP, (bbs ? 'n' : 'v'), REALS), ATTR(t, getQ, setQ, (bbs ? 'n' : 'v'), REALS)}, [sh](const Obs& o) { return !sh || std::isnan(o.at("setP")); }});
        }
    }
    out.push_back(Obj{n.getId(), {ATTR(n, getForecastDistance, setForecastDistance, 's', (std::vector<double>{-5, -1, 0, 1, 60})), FICT(n)}, [](const Obs& o) { return o.at("setForecastDistance") >= 0; }});
    return out;
}

static Obs observe(const Obj& o) { Obs m; for (const auto& a : o.attrs) { m[a.name] = a.get(); } o.extra(m); return m; }
static bool sameObs(const Obs& a, const Obs& b, const std::string& but = "") { for (const auto& e : a) { if (e.first != but && !same(e.second, b.at(e.first))) { return false; } } return true; }

static void exercise(Network& n, const std::vector<std::string>& variants) {
    auto& vm = n.getVariantManager();
    std::vector<Obj> objs = objects(n);
    for (const auto& w : variants) {
        std::map<std::string, Dump> before;
        for (const auto& v : variants) { vm.setWorkingVariant(v); before[v] = dump(n); }
        for (const Obj& o : objs) {
            const std::string kind = o.tap ? "tap changer" : "setter";
            for (const Attr& a : o.attrs) {
                at(w + " " + o.name + "." + a.name);
                vm.setWorkingVariant(w);
                const double initial = a.get();
                std::vector<double> vals = a.values; for (unsigned long i = 0; i < 6 && a.values.size() > 6; ++i) { vals.push_back(pick(a.values)); }
                vals.push_back(initial);
                for (double x : vals) {
                    std::map<std::string, Obs> pre, post;
                    for (const auto& v : variants) { vm.setWorkingVariant(v); pre[v] = observe(o); }
                    bool valid = a.pv != 'n', elsewhere = true;
                    for (const auto& v : variants) { Obs m = pre[v]; if (v == w || a.pv == 's') { m[a.name] = x; if (!o.inv(m)) { (v == w ? valid : elsewhere) = false; } } }
                    if (!elsewhere && valid) { continue; }     // recorded: shared attributes are validated in the working variant only
                    vm.setWorkingVariant(w);
                    const std::string r = outcome([&]() { a.set(x); });
                    for (const auto& v : variants) { vm.setWorkingVariant(v); post[v] = observe(o); }
                    vm.setWorkingVariant(w);
                    const std::string d = o.name + "." + a.name + "(" + str(x) + ")";
                    check(r.empty() == valid, kind + ": accepts exactly the admissible values", d + (valid ? " is admissible but " + r : " is not admissible but was accepted"));
                    if (r.empty()) { check(same(post[w].at(a.name), x), kind + ": accepted value read back", d + " reads back " + str(post[w].at(a.name))); }
                    if (r.empty() && a.pv == 'v') { check(same(post[w].at(a.name), x), "isolation: attribute read back in the variant it was set in", d + " reads back " + str(post[w].at(a.name))); }
                    if (!r.empty()) { for (const auto& v : variants) { check(sameObs(pre[v], post[v]), kind + ": a rejected value changes nothing", d + " variant " + v); } }
                    if (r.empty()) { check(sameObs(pre[w], post[w], a.name), kind + ": other attributes unchanged", d); }
                    if (r.empty()) {
                        for (const auto& v : variants) {
                            if (v == w) { continue; }
                            if (a.pv == 's') { check(same(post[v].at(a.name), x), kind + ": shared attribute set for every variant", d + " variant " + v); }
                            else { check(same(post[v].at(a.name), pre[v].at(a.name)), "isolation: attribute unchanged in every other variant", d + " variant " + v); }
                            check(sameObs(pre[v], post[v], a.name), "isolation: other attributes unchanged in every other variant", d + " variant " + v);
                            if (o.tap) { check(o.inv(post[v]), "tap changer: invariant in every other variant", d + " variant " + v); }
                        }
                    }
                    if (!r.empty() != !valid) { outcome([&]() { a.set(initial); }); }
                }
                vm.setWorkingVariant(w);
                outcome([&]() { a.set(initial); });
            }
        }
        for (const auto& v : variants) {
            vm.setWorkingVariant(v);
            const std::string d = diff(before[v], dump(n));
            check(d.empty(), v == w ? "setter: attributes of every other object unchanged" : "isolation: attributes of every object unchanged in every other variant", "after setting and restoring every attribute in " + w + ", in " + v + ": " + d);
        }
    }
}

// the lowest tap position may be moved: positions of every variant follow
template <typename T> void lowTap(Network& n, T& t, const std::string& id, const std::vector<std::string>& variants) {
    auto& vm = n.getVariantManager();
    for (long shift : {3L, -5L, 0L, 2L}) {
        std::map<std::string, long> off, pos;
        for (const auto& v : variants) { vm.setWorkingVariant(v); off[v] = t.getTapPosition() - t.getLowTapPosition(); }
        const std::string w = pick(variants);
        vm.setWorkingVariant(w);
        at(id + " low tap position shifted by " + std::to_string(shift) + " in " + w);
        t.setLowTapPosition(t.getLowTapPosition() + shift);
        for (const auto& v : variants) {
            vm.setWorkingVariant(v);
            eq(t.getTapPosition() - t.getLowTapPosition(), off[v], "tap changer: moving the lowest position keeps the current step", "variant " + v);
            eq(t.getHighTapPosition(), t.getLowTapPosition() + static_cast<long>(t.getStepCount()) - 1, "tap changer: high = low + steps - 1");
        }
    }
    for (const auto& v : variants) {
        vm.setWorkingVariant(v);
        for (long p = t.getLowTapPosition(); p <= t.getHighTapPosition(); ++p) {
            t.setTapPosition(p);
            check(&t.getCurrentStep() == &t.getStep(p), "tap changer: the current step is the step of the position", id + " " + std::to_string(p));
        }
        for (long p : {t.getLowTapPosition() - 1, t.getHighTapPosition() + 1}) { check(throws([&]() { t.getStep(p); }), "tap changer: no step outside the range", id + " " + std::to_string(p)); }
    }
}

void run() {
    const std::vector<std::string> variants = {VariantManager::getInitialVariantId(), "a", "b"};
    for (const auto& f : networks()) {
        if (!st().thorough && f.first != "everything" && f.first != "eurostag") { continue; }
        Network n = f.second();
        auto& vm = n.getVariantManager();
        vm.cloneVariant(variants[0], "a"); vm.cloneVariant(variants[0], "b");
        unsigned long k = 1;
        for (const auto& v : {std::string("a"), std::string("b")}) {
            ++k; vm.setWorkingVariant(v);
            for (Load& l : n.getLoads()) { l.setP0(10.0 * k).setQ0(k); }
            for (Generator& g : n.getGenerators()) { g.setTargetP(3.0 * k); g.setTargetV(390.0 + k); g.setTargetQ(k); g.setVoltageRegulatorOn(k % 2 == 0); }
            for (Switch& s : n.getSwitches()) { if (s.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) { s.setRetained(!s.isRetained()); } s.setOpen(k == 2 ? !s.isOpen() : s.isOpen()); }
            for (ShuntCompensator& s : n.getShuntCompensators()) { s.setSectionCount(k % (s.getMaximumSectionCount() + 1)); }
            for (TwoWindingsTransformer& t : n.getTwoWindingsTransformers()) { if (t.hasRatioTapChanger()) { auto& r = t.getRatioTapChanger(); r.setTapPosition(k == 2 ? r.getHighTapPosition() : r.getLowTapPosition()); } if (t.hasPhaseTapChanger()) { auto& r = t.getPhaseTapChanger(); r.setTapPosition(k == 2 ? r.getLowTapPosition() : r.getHighTapPosition()); } }
            for (HvdcLine& h : n.getHvdcLines()) { h.setActivePowerSetpoint(11.0 * k); }
        }
        exercise(n, variants);
        for (TwoWindingsTransformer& t : n.getTwoWindingsTransformers()) { if (t.hasRatioTapChanger()) { lowTap(n, t.getRatioTapChanger(), t.getId(), variants); } if (t.hasPhaseTapChanger()) { lowTap(n, t.getPhaseTapChanger(), t.getId(), variants); } }
        for (ThreeWindingsTransformer& t : n.getThreeWindingsTransformers()) { for (auto* l : {&t.getLeg1(), &t.getLeg2(), &t.getLeg3()}) { if (l->hasRatioTapChanger()) { lowTap(n, l->getRatioTapChanger(), t.getId(), variants); } if (l->hasPhaseTapChanger()) { lowTap(n, l->getPhaseTapChanger(), t.getId(), variants); } } }
    }
}
