// Complete observable state of a network in the working variant: key -> value.
#pragma once
#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/Branch.hpp>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/Country.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/InternalConnection.hpp>
#include <powsybl/iidm/LccConverterStation.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/LoadingLimits.hpp>
#include <powsybl/iidm/MinMaxReactiveLimits.hpp>
#include <powsybl/iidm/Network.hpp>
#include <powsybl/iidm/PhaseTapChanger.hpp>
#include <powsybl/iidm/RatioTapChanger.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurve.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/ShuntCompensatorLinearModel.hpp>
#include <powsybl/iidm/ShuntCompensatorNonLinearModel.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/Terminal.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/ThreeWindingsTransformerLeg.hpp>
#include <powsybl/iidm/TieLine.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/VoltageLevel.hpp>
#include <powsybl/iidm/VscConverterStation.hpp>
#include <powsybl/iidm/Extension.hpp>
#include <powsybl/iidm/Boundary.hpp>
#include <powsybl/iidm/VariantManager.hpp>
#include <powsybl/stdcxx/instanceof.hpp>

#include "vp.hpp"

namespace vp {
using namespace powsybl;
using namespace powsybl::iidm;

using Dump = std::map<std::string, std::string>;

struct Dumper {
    Dump d;
    bool names = true;

    static std::string num(double v) { if (std::isnan(v)) { return "nan"; } std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }
    void put(const std::string& k, double v) { d[k] = num(v); }
    void put(const std::string& k, bool v) { d[k] = v ? "true" : "false"; }
    void put(const std::string& k, const std::string& v) { d[k] = v; }
    void put(const std::string& k, const char* v) { d[k] = v; }
    template <typename T, typename = typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type> void put(const std::string& k, T v, int = 0) { d[k] = std::to_string(static_cast<long>(v)); }

    // where a terminal sits (works for any terminal of the network)
    static std::string where(const Terminal& t) {
        const auto& c = t.getConnectable().get();
        unsigned long i = 0, n = 0;
        for (const Terminal& x : c.getTerminals()) { if (&x == &t) { n = i; } ++i; }
        return c.getId() + "#" + std::to_string(n);
    }
    static std::string where(const stdcxx::CReference<Terminal>& t) { return t ? where(t.get()) : "-"; }

    void terminal(const std::string& k, const Terminal& t) {
        put(k + ".vl", t.getVoltageLevel().getId());
        put(k + ".p", t.getP()); put(k + ".q", t.getQ());
        put(k + ".connected", t.isConnected());
        if (t.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) { put(k + ".node", t.getNodeBreakerView().getNode()); }
        else {
            const auto& b = t.getBusBreakerView().getConnectableBus();
            put(k + ".connectableBus", b ? b.get().getId() : std::string("-"));
            const auto& c = t.getBusBreakerView().getBus();
            put(k + ".bus", c ? c.get().getId() : std::string("-"));
        }
    }

    template <typename L> void limits(const std::string& k, const stdcxx::CReference<L>& l) {
        put(k, static_cast<bool>(l));
        if (!l) { return; }
        put(k + ".permanent", l.get().getPermanentLimit());
        unsigned long i = 0;
        for (const LoadingLimits::TemporaryLimit& t : l.get().getTemporaryLimits()) {
            const std::string x = k + ".t" + std::to_string(i++);
            put(x, t.getName()); put(x + ".value", t.getValue()); put(x + ".duration", t.getAcceptableDuration()); put(x + ".fictitious", t.isFictitious());
        }
    }
    template <typename H> void limits1(const std::string& k, const H& h) {
        limits(k + ".current", h.getCurrentLimits()); limits(k + ".active", h.getActivePowerLimits()); limits(k + ".apparent", h.getApparentPowerLimits());
    }
    void limits2(const std::string& k, const Branch& b) {
        limits(k + ".1.current", b.getCurrentLimits1()); limits(k + ".1.active", b.getActivePowerLimits1()); limits(k + ".1.apparent", b.getApparentPowerLimits1());
        limits(k + ".2.current", b.getCurrentLimits2()); limits(k + ".2.active", b.getActivePowerLimits2()); limits(k + ".2.apparent", b.getApparentPowerLimits2());
    }
    template <typename TC> void tap(const std::string& k, const TC& t) {
        put(k + ".low", t.getLowTapPosition()); put(k + ".high", t.getHighTapPosition()); put(k + ".steps", t.getStepCount());
        put(k + ".position", t.getTapPosition()); put(k + ".regulating", t.isRegulating()); put(k + ".deadband", t.getTargetDeadband());
        put(k + ".terminal", where(t.getRegulationTerminal()));
        for (long p = t.getLowTapPosition(); p <= t.getHighTapPosition(); ++p) {
            const auto& s = t.getStep(p); const std::string x = k + ".step" + std::to_string(p);
            put(x + ".rho", s.getRho()); put(x + ".r", s.getR()); put(x + ".x", s.getX()); put(x + ".g", s.getG()); put(x + ".b", s.getB());
        }
    }
    void ptc(const std::string& k, const PhaseTapChanger& t) {
        tap(k, t); put(k + ".mode", t.getRegulationMode()); put(k + ".value", t.getRegulationValue());
        for (long p = t.getLowTapPosition(); p <= t.getHighTapPosition(); ++p) { put(k + ".step" + std::to_string(p) + ".alpha", t.getStep(p).getAlpha()); }
    }
    void rtc(const std::string& k, const RatioTapChanger& t) { tap(k, t); put(k + ".targetV", t.getTargetV()); put(k + ".ltc", t.hasLoadTapChangingCapabilities()); }

    template <typename H> void reactive(const std::string& k, const H& h) {
        const ReactiveLimits& l = h.template getReactiveLimits<ReactiveLimits>();
        put(k + ".kind", l.getKind());
        if (l.getKind() == ReactiveLimitsKind::MIN_MAX) {
            const auto& m = h.template getReactiveLimits<MinMaxReactiveLimits>();
            put(k + ".minQ", m.getMinQ()); put(k + ".maxQ", m.getMaxQ());
        } else {
            const auto& c = h.template getReactiveLimits<ReactiveCapabilityCurve>();
            unsigned long i = 0;
            for (const auto& p : c.getPoints()) {
                const std::string x = k + ".point" + std::to_string(i++);
                put(x + ".p", p.getP()); put(x + ".minQ", p.getMinQ()); put(x + ".maxQ", p.getMaxQ());
            }
        }
    }

    void identifiable(const std::string& k, const Identifiable& i) {
        put(k + ".name", i.getOptionalName()); put(k + ".fictitious", i.isFictitious());
        for (const std::string& a : i.getAliases()) {
            put(k + ".alias." + a, "type " + i.getAliasType(a));
        }
        for (const std::string& n : i.getPropertyNames()) { put(k + ".property." + n, i.getProperty(n)); }
        for (const Extension& e : i.getExtensions()) { put(k + ".extension." + e.getName(), true); }
    }
    template <typename C> void terminals(const std::string& k, const C& c) {
        unsigned long i = 0;
        for (const Terminal& t : c.getTerminals()) { terminal(k + ".T" + std::to_string(i++), t); }
    }
    void half(const std::string& k, const tie_line::HalfLine& h) {
        put(k + ".id", h.getId()); put(k + ".name", h.getName()); put(k + ".fictitious", h.isFictitious());
        put(k + ".r", h.getR()); put(k + ".x", h.getX()); put(k + ".g1", h.getG1()); put(k + ".g2", h.getG2()); put(k + ".b1", h.getB1()); put(k + ".b2", h.getB2());
    }

    void object(const Identifiable& o) {
        const std::string k = o.getId();
        identifiable(k, o);
        if (const auto* c = dynamic_cast<const Connectable*>(&o)) { put(k + ".type", c->getType()); terminals(k, *c); }
        if (const auto* x = dynamic_cast<const Battery*>(&o)) { put(k + ".p0", x->getP0()); put(k + ".q0", x->getQ0()); put(k + ".minP", x->getMinP()); put(k + ".maxP", x->getMaxP()); reactive(k + ".reactive", *x); }
        if (const auto* x = dynamic_cast<const Generator*>(&o)) {
            put(k + ".targetP", x->getTargetP()); put(k + ".targetQ", x->getTargetQ()); put(k + ".targetV", x->getTargetV()); put(k + ".on", x->isVoltageRegulatorOn());
            put(k + ".minP", x->getMinP()); put(k + ".maxP", x->getMaxP()); put(k + ".ratedS", x->getRatedS()); put(k + ".source", x->getEnergySource()); put(k + ".regulating", where(x->getRegulatingTerminal()));
            reactive(k + ".reactive", *x);
        }
        if (const auto* x = dynamic_cast<const Load*>(&o)) { put(k + ".p0", x->getP0()); put(k + ".q0", x->getQ0()); put(k + ".loadType", x->getLoadType()); }
        if (const auto* x = dynamic_cast<const DanglingLine*>(&o)) {
            put(k + ".p0", x->getP0()); put(k + ".q0", x->getQ0()); put(k + ".r", x->getR()); put(k + ".x", x->getX()); put(k + ".g", x->getG()); put(k + ".b", x->getB()); put(k + ".ucte", x->getUcteXnodeCode());
            limits1(k, *x);
            put(k + ".generation", static_cast<bool>(x->getGeneration()));
            if (x->getGeneration()) {
                const auto& g = x->getGeneration().get();
                put(k + ".generation.targetP", g.getTargetP()); put(k + ".generation.targetQ", g.getTargetQ()); put(k + ".generation.targetV", g.getTargetV()); put(k + ".generation.on", g.isVoltageRegulationOn());
                put(k + ".generation.minP", g.getMinP()); put(k + ".generation.maxP", g.getMaxP()); reactive(k + ".generation.reactive", g);
            }
        }
        if (const auto* x = dynamic_cast<const HvdcLine*>(&o)) {
            put(k + ".setpoint", x->getActivePowerSetpoint()); put(k + ".mode", x->getConvertersMode()); put(k + ".maxP", x->getMaxP()); put(k + ".nominalV", x->getNominalV()); put(k + ".r", x->getR());
            put(k + ".station1", x->getConverterStation1() ? x->getConverterStation1().get().getId() : std::string("-"));
            put(k + ".station2", x->getConverterStation2() ? x->getConverterStation2().get().getId() : std::string("-"));
        }
        if (const auto* x = dynamic_cast<const HvdcConverterStation*>(&o)) { put(k + ".loss", x->getLossFactor()); put(k + ".hvdcType", x->getHvdcType()); put(k + ".hvdcLine", x->getHvdcLine() ? x->getHvdcLine().get().getId() : std::string("-")); }
        if (const auto* x = dynamic_cast<const LccConverterStation*>(&o)) { put(k + ".powerFactor", x->getPowerFactor()); }
        if (const auto* x = dynamic_cast<const VscConverterStation*>(&o)) { put(k + ".q", x->getReactivePowerSetpoint()); put(k + ".v", x->getVoltageSetpoint()); put(k + ".on", x->isVoltageRegulatorOn()); reactive(k + ".reactive", *x); }
        if (const auto* x = dynamic_cast<const Line*>(&o)) { put(k + ".r", x->getR()); put(k + ".x", x->getX()); put(k + ".g1", x->getG1()); put(k + ".g2", x->getG2()); put(k + ".b1", x->getB1()); put(k + ".b2", x->getB2()); put(k + ".tie", x->isTieLine()); }
        if (const auto* x = dynamic_cast<const TieLine*>(&o)) { put(k + ".ucte", x->getUcteXnodeCode()); half(k + ".half1", x->getHalf1()); half(k + ".half2", x->getHalf2()); }
        if (const auto* x = dynamic_cast<const Branch*>(&o)) { limits2(k, *x); }
        if (const auto* x = dynamic_cast<const TwoWindingsTransformer*>(&o)) {
            put(k + ".r", x->getR()); put(k + ".x", x->getX()); put(k + ".g", x->getG()); put(k + ".b", x->getB()); put(k + ".ratedU1", x->getRatedU1()); put(k + ".ratedU2", x->getRatedU2()); put(k + ".ratedS", x->getRatedS());
            put(k + ".hasRtc", x->hasRatioTapChanger()); put(k + ".hasPtc", x->hasPhaseTapChanger());
            if (x->hasRatioTapChanger()) { rtc(k + ".rtc", x->getRatioTapChanger()); }
            if (x->hasPhaseTapChanger()) { ptc(k + ".ptc", x->getPhaseTapChanger()); }
        }
        if (const auto* x = dynamic_cast<const ThreeWindingsTransformer*>(&o)) {
            put(k + ".ratedU0", x->getRatedU0());
            unsigned long i = 0;
            for (const auto* l : {&x->getLeg1(), &x->getLeg2(), &x->getLeg3()}) {
                const std::string y = k + ".leg" + std::to_string(++i);
                put(y + ".r", l->getR()); put(y + ".x", l->getX()); put(y + ".g", l->getG()); put(y + ".b", l->getB()); put(y + ".ratedU", l->getRatedU()); put(y + ".ratedS", l->getRatedS());
                limits1(y, *l);
                put(y + ".hasRtc", l->hasRatioTapChanger()); put(y + ".hasPtc", l->hasPhaseTapChanger());
                if (l->hasRatioTapChanger()) { rtc(y + ".rtc", l->getRatioTapChanger()); }
                if (l->hasPhaseTapChanger()) { ptc(y + ".ptc", l->getPhaseTapChanger()); }
            }
        }
        if (const auto* x = dynamic_cast<const ShuntCompensator*>(&o)) {
            put(k + ".sections", x->getSectionCount()); put(k + ".maximum", x->getMaximumSectionCount()); put(k + ".targetV", x->getTargetV()); put(k + ".deadband", x->getTargetDeadband()); put(k + ".on", x->isVoltageRegulatorOn());
            put(k + ".regulating", where(x->getRegulatingTerminal())); put(k + ".model", x->getModelType());
            for (unsigned long s = 0; s <= x->getMaximumSectionCount(); ++s) { put(k + ".b" + std::to_string(s), x->getB(s)); put(k + ".g" + std::to_string(s), x->getG(s)); }
        }
        if (const auto* x = dynamic_cast<const StaticVarCompensator*>(&o)) {
            put(k + ".bmin", x->getBmin()); put(k + ".bmax", x->getBmax()); put(k + ".v", x->getVoltageSetpoint()); put(k + ".q", x->getReactivePowerSetpoint()); put(k + ".mode", x->getRegulationMode()); put(k + ".regulating", where(x->getRegulatingTerminal()));
        }
        if (const auto* x = dynamic_cast<const Switch*>(&o)) {
            put(k + ".kind", x->getKind()); put(k + ".open", x->isOpen()); put(k + ".retained", x->isRetained()); put(k + ".vl", x->getVoltageLevel().getId());
            if (x->getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) { put(k + ".node1", x->getVoltageLevel().getNodeBreakerView().getNode1(k)); put(k + ".node2", x->getVoltageLevel().getNodeBreakerView().getNode2(k)); }
            else { put(k + ".bus1", x->getVoltageLevel().getBusBreakerView().getBus1(k).get().getId()); put(k + ".bus2", x->getVoltageLevel().getBusBreakerView().getBus2(k).get().getId()); }
        }
        if (const auto* x = dynamic_cast<const Substation*>(&o)) {
            put(k + ".country", x->getCountry() ? std::to_string(static_cast<int>(*x->getCountry())) : std::string("-")); put(k + ".tso", x->getTso());
            unsigned long i = 0;
            for (const auto& g : x->getGeographicalTags()) { put(k + ".tag." + g, true); ++i; }
            for (const VoltageLevel& v : x->getVoltageLevels()) { put(k + ".level." + v.getId(), true); }
        }
        if (const auto* x = dynamic_cast<const VoltageLevel*>(&o)) {
            put(k + ".nominalV", x->getNominalV()); put(k + ".low", x->getLowVoltageLimit()); put(k + ".high", x->getHighVoltageLimit()); put(k + ".topology", x->getTopologyKind()); put(k + ".substation", x->getSubstation().getId());
            if (x->getTopologyKind() == TopologyKind::NODE_BREAKER) {
                unsigned long i = 0;
                std::multiset<std::string> ics;
                for (const auto& ic : x->getNodeBreakerView().getInternalConnections()) { ics.insert(std::to_string(ic.getNode1()) + "-" + std::to_string(ic.getNode2())); }
                for (const auto& s : ics) { put(k + ".internal" + std::to_string(i++), s); }
            }
        }
        if (const auto* x = dynamic_cast<const Bus*>(&o)) { put(k + ".v", x->getV()); put(k + ".angle", x->getAngle()); put(k + ".vl", x->getVoltageLevel().getId()); }
    }

    void network(const Network& n) {
        put("network", n.getId()); put("network.forecast", n.getForecastDistance()); put("network.format", n.getSourceFormat()); put("network.date", n.getCaseDate().toString());
        for (const Identifiable& i : n.getIdentifiables()) { object(i); }
        // calculated voltages of node/breaker buses
        for (const VoltageLevel& v : n.getVoltageLevels()) {
            if (v.getTopologyKind() != TopologyKind::NODE_BREAKER) { continue; }
            for (const BusbarSection& b : v.getNodeBreakerView().getBusbarSections()) { put(b.getId() + ".v", b.getV()); put(b.getId() + ".angle", b.getAngle()); }
        }
    }
};

inline Dump dump(const Network& n) { Dumper d; d.network(n); return d.d; }

// first difference between two dumps, empty when equal; keys for which skip holds are ignored
inline std::string diff(const Dump& a, const Dump& b, const std::function<bool(const std::string&)>& skip = [](const std::string&) { return false; }) {
    for (const auto& e : a) {
        if (skip(e.first)) { continue; }
        const auto& it = b.find(e.first);
        if (it == b.end()) { return e.first + " = " + e.second + " is missing"; }
        if (it->second != e.second) { return e.first + " = " + e.second + " became " + it->second; }
    }
    for (const auto& e : b) { if (!skip(e.first) && a.find(e.first) == a.end()) { return e.first + " = " + e.second + " appeared"; } }
    return "";
}

}  // namespace vp
