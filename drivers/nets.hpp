// Networks with every kind of equipment.
#pragma once
#include <powsybl/iidm/BatteryAdder.hpp>
#include <powsybl/iidm/BusAdder.hpp>
#include <powsybl/iidm/BusbarSectionAdder.hpp>
#include <powsybl/iidm/ActivePowerLimitsAdder.hpp>
#include <powsybl/iidm/ApparentPowerLimitsAdder.hpp>
#include <powsybl/iidm/CurrentLimitsAdder.hpp>
#include <powsybl/iidm/DanglingLineAdder.hpp>
#include <powsybl/iidm/DanglingLineGenerationAdder.hpp>
#include <powsybl/iidm/GeneratorAdder.hpp>
#include <powsybl/iidm/HalfLineAdder.hpp>
#include <powsybl/iidm/HvdcLineAdder.hpp>
#include <powsybl/iidm/InternalConnectionAdder.hpp>
#include <powsybl/iidm/LccConverterStationAdder.hpp>
#include <powsybl/iidm/LineAdder.hpp>
#include <powsybl/iidm/LoadAdder.hpp>
#include <powsybl/iidm/MinMaxReactiveLimitsAdder.hpp>
#include <powsybl/iidm/PhaseTapChangerAdder.hpp>
#include <powsybl/iidm/RatioTapChangerAdder.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurveAdder.hpp>
#include <powsybl/iidm/ShuntCompensatorAdder.hpp>
#include <powsybl/iidm/ShuntCompensatorLinearModelAdder.hpp>
#include <powsybl/iidm/ShuntCompensatorNonLinearModelAdder.hpp>
#include <powsybl/iidm/StaticVarCompensatorAdder.hpp>
#include <powsybl/iidm/SubstationAdder.hpp>
#include <powsybl/iidm/SwitchAdder.hpp>
#include <powsybl/iidm/ThreeWindingsTransformerAdder.hpp>
#include <powsybl/iidm/ThreeWindingsTransformerLegAdder.hpp>
#include <powsybl/iidm/TieLineAdder.hpp>
#include <powsybl/iidm/TwoWindingsTransformerAdder.hpp>
#include <powsybl/iidm/VoltageLevelAdder.hpp>
#include <powsybl/iidm/VscConverterStationAdder.hpp>
#include <powsybl/network/BatteryNetworkFactory.hpp>
#include <powsybl/network/EurostagFactory.hpp>
#include <powsybl/network/FictitiousSwitchFactory.hpp>
#include <powsybl/network/FourSubstationsNodeBreakerFactory.hpp>
#include <powsybl/network/ThreeWindingsTransformerNetworkFactory.hpp>

#include "dump.hpp"

namespace vp {

template <typename A> void currentLimits(A adder, double p) {
    adder.setPermanentLimit(p).beginTemporaryLimit().setName("20'").setAcceptableDuration(1200).setValue(p * 1.2).endTemporaryLimit()
        .beginTemporaryLimit().setName("10'").setAcceptableDuration(600).setValue(p * 1.5).setFictitious(true).endTemporaryLimit().add();
}

// Two substations, bus/breaker voltage levels with two coupled buses each, every kind of injection and branch.  Identifiers are prefixed.
inline void addBusBreaker(Network& n, const std::string& p = "") {
    Substation& s1 = n.newSubstation().setId(p + "S1").setName("first").setCountry(Country::FR).setTso("RTE").add();
    Substation& s2 = n.newSubstation().setId(p + "S2").setCountry(Country::BE).setTso("ELIA").add();
    s1.addGeographicalTag("north"); s1.addGeographicalTag("sea");
    const auto level = [&](Substation& s, const std::string& id, double u) -> VoltageLevel& {
        VoltageLevel& v = s.newVoltageLevel().setId(p + id).setNominalV(u).setTopologyKind(TopologyKind::BUS_BREAKER).setLowVoltageLimit(0.9 * u).setHighVoltageLimit(1.1 * u).add();
        v.getBusBreakerView().newBus().setId(p + id + "_B1").add();
        v.getBusBreakerView().newBus().setId(p + id + "_B2").setName(id + " second").add();
        v.getBusBreakerView().newSwitch().setId(p + id + "_SW").setBus1(p + id + "_B1").setBus2(p + id + "_B2").setOpen(false).add();
        return v;
    };
    VoltageLevel& v1 = level(s1, "V1", 400.0);
    VoltageLevel& v2 = level(s1, "V2", 225.0);
    VoltageLevel& v3 = level(s1, "V3", 63.0);
    VoltageLevel& v4 = level(s2, "V4", 400.0);
    Generator& g = v1.newGenerator().setId(p + "G1").setName("generator").setBus(p + "V1_B1").setConnectableBus(p + "V1_B1").setMinP(-10.5).setMaxP(250.25).setTargetP(100.5).setTargetQ(20.25).setTargetV(401.5).setVoltageRegulatorOn(true).setRatedS(300.0).setEnergySource(EnergySource::NUCLEAR).add();
    g.newReactiveCapabilityCurve().beginPoint().setP(0.0).setMinQ(-50.0).setMaxQ(60.0).endPoint().beginPoint().setP(100.0).setMinQ(-40.0).setMaxQ(45.0).endPoint().beginPoint().setP(200.0).setMinQ(-30.0).setMaxQ(20.0).endPoint().add();
    Generator& g2 = v2.newGenerator().setId(p + "G2").setBus(p + "V2_B2").setConnectableBus(p + "V2_B2").setMinP(0.0).setMaxP(100.0).setTargetP(50.0).setTargetQ(5.0).setTargetV(226.0).setVoltageRegulatorOn(false).setEnergySource(EnergySource::WIND).setRegulatingTerminal(stdcxx::ref(g.getTerminal())).add();
    g2.newMinMaxReactiveLimits().setMinQ(-12.0).setMaxQ(13.0).add();
    Battery& b = v1.newBattery().setId(p + "BAT").setBus(p + "V1_B2").setConnectableBus(p + "V1_B2").setMinP(-100.0).setMaxP(100.0).setP0(10.0).setQ0(5.5).add();
    b.newMinMaxReactiveLimits().setMinQ(-7.0).setMaxQ(9.0).add();
    v2.newLoad().setId(p + "L1").setBus(p + "V2_B1").setConnectableBus(p + "V2_B1").setLoadType(LoadType::AUXILIARY).setP0(33.5).setQ0(-4.25).add();
    v4.newLoad().setId(p + "L2").setConnectableBus(p + "V4_B2").setLoadType(LoadType::FICTITIOUS).setP0(1.5).setQ0(2.5).add();
    v3.newShuntCompensator().setId(p + "SH1").setBus(p + "V3_B1").setConnectableBus(p + "V3_B1").setSectionCount(2).setTargetV(63.5).setTargetDeadband(1.5).setVoltageRegulatorOn(true)
        .newLinearModel().setBPerSection(1e-4).setGPerSection(2e-5).setMaximumSectionCount(4).add().add();
    v3.newShuntCompensator().setId(p + "SH2").setBus(p + "V3_B2").setConnectableBus(p + "V3_B2").setSectionCount(1)
        .newNonLinearModel().beginSection().setB(1e-3).setG(1e-5).endSection().beginSection().setB(3e-3).setG(4e-5).endSection().beginSection().setB(2e-3).endSection().add().add();
    v2.newStaticVarCompensator().setId(p + "SVC").setBus(p + "V2_B1").setConnectableBus(p + "V2_B1").setBmin(0.0002).setBmax(0.0008).setRegulationMode(StaticVarCompensator::RegulationMode::VOLTAGE).setVoltageSetpoint(224.5).setReactivePowerSetpoint(15.0).add();
    DanglingLine& d = v4.newDanglingLine().setId(p + "DL").setBus(p + "V4_B1").setConnectableBus(p + "V4_B1").setR(10.5).setX(20.5).setG(1e-5).setB(2e-5).setP0(50.0).setQ0(30.0).setUcteXnodeCode("XCODE")
        .newGeneration().setTargetP(440.0).setMaxP(900.0).setMinP(1.0).setTargetV(101.0).setTargetQ(5.0).setVoltageRegulationOn(true).add().add();
    d.getGeneration().get().newMinMaxReactiveLimits().setMinQ(-200.0).setMaxQ(200.0).add();
    currentLimits(d.newCurrentLimits(), 100.0);
    Line& l = n.newLine().setId(p + "LINE").setVoltageLevel1(p + "V1").setBus1(p + "V1_B1").setConnectableBus1(p + "V1_B1").setVoltageLevel2(p + "V4").setBus2(p + "V4_B1").setConnectableBus2(p + "V4_B1")
        .setR(3.5).setX(33.5).setG1(1e-6).setB1(193e-6).setG2(2e-6).setB2(194e-6).add();
    currentLimits(l.newCurrentLimits1(), 500.0); currentLimits(l.newCurrentLimits2(), 600.0);
    currentLimits(l.newActivePowerLimits1(), 300.0); currentLimits(l.newApparentPowerLimits2(), 350.0);
    n.newTieLine().setId(p + "TIE").setName("tie").setVoltageLevel1(p + "V1").setBus1(p + "V1_B2").setConnectableBus1(p + "V1_B2").setVoltageLevel2(p + "V4").setBus2(p + "V4_B2").setConnectableBus2(p + "V4_B2").setUcteXnodeCode("UCTE")
        .newHalfLine1().setId(p + "H1").setR(1.5).setX(2.5).setG1(1e-3).setG2(2e-3).setB1(3e-3).setB2(4e-3).add()
        .newHalfLine2().setId(p + "H2").setName("second half").setFictitious(true).setR(5.5).setX(6.5).setG1(5e-3).setG2(6e-3).setB1(7e-3).setB2(8e-3).add().add();
    TwoWindingsTransformer& t = s1.newTwoWindingsTransformer().setId(p + "T2").setVoltageLevel1(p + "V1").setBus1(p + "V1_B1").setConnectableBus1(p + "V1_B1").setVoltageLevel2(p + "V2").setBus2(p + "V2_B1").setConnectableBus2(p + "V2_B1")
        .setR(1.25).setX(20.5).setG(1e-5).setB(-2e-5).setRatedU1(400.5).setRatedU2(225.5).setRatedS(350.0).add();
    t.newRatioTapChanger().setLowTapPosition(-1).setTapPosition(0).setLoadTapChangingCapabilities(true).setRegulating(true).setTargetV(225.0).setTargetDeadband(2.5).setRegulationTerminal(stdcxx::ref(t.getTerminal2()))
        .beginStep().setRho(0.9).setR(1.0).setX(2.0).setG(3.0).setB(4.0).endStep().beginStep().setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().beginStep().setRho(1.1).setR(-1.0).setX(-2.0).setG(-3.0).setB(-4.0).endStep().add();
    t.newPhaseTapChanger().setLowTapPosition(1).setTapPosition(2).setRegulating(false).setRegulationMode(PhaseTapChanger::RegulationMode::CURRENT_LIMITER).setRegulationValue(930.5).setTargetDeadband(50.0).setRegulationTerminal(stdcxx::ref(t.getTerminal1()))
        .beginStep().setAlpha(-20.0).setRho(1.0).setR(0.5).setX(0.25).setG(0.0).setB(0.0).endStep().beginStep().setAlpha(0.5).setRho(0.95).setR(0.0).setX(1.0).setG(2.0).setB(3.0).endStep().beginStep().setAlpha(20.0).setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().add();
    currentLimits(t.newCurrentLimits1(), 700.0);
    ThreeWindingsTransformer& w = s1.newThreeWindingsTransformer().setId(p + "T3").setRatedU0(400.0)
        .newLeg1().setR(17.5).setX(1.5).setG(0.01).setB(0.02).setRatedU(400.0).setRatedS(30.0).setVoltageLevel(p + "V1").setConnectableBus(p + "V1_B2").setBus(p + "V1_B2").add()
        .newLeg2().setR(1.75).setX(0.15).setG(0.0).setB(0.0).setRatedU(225.0).setRatedS(20.0).setVoltageLevel(p + "V2").setConnectableBus(p + "V2_B2").setBus(p + "V2_B2").add()
        .newLeg3().setR(0.175).setX(0.015).setG(0.03).setB(0.04).setRatedU(63.0).setVoltageLevel(p + "V3").setConnectableBus(p + "V3_B1").setBus(p + "V3_B1").add().add();
    w.getLeg2().newRatioTapChanger().setLowTapPosition(0).setTapPosition(1).setLoadTapChangingCapabilities(false).setRegulating(false)
        .beginStep().setRho(0.9).setR(0.5).setX(0.25).setG(0.0).setB(0.0).endStep().beginStep().setRho(1.05).setR(0.1).setX(0.2).setG(0.3).setB(0.4).endStep().add();
    w.getLeg3().newPhaseTapChanger().setLowTapPosition(0).setTapPosition(0).setRegulating(false).setRegulationMode(PhaseTapChanger::RegulationMode::FIXED_TAP)
        .beginStep().setAlpha(-5.0).setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().beginStep().setAlpha(5.0).setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().add();
    currentLimits(w.getLeg1().newCurrentLimits(), 800.0);
    currentLimits(w.getLeg3().newActivePowerLimits(), 90.0);
    VscConverterStation& c1 = v1.newVscConverterStation().setId(p + "VSC1").setBus(p + "V1_B1").setConnectableBus(p + "V1_B1").setLossFactor(0.011).setVoltageSetpoint(405.0).setReactivePowerSetpoint(12.5).setVoltageRegulatorOn(true).add();
    c1.newReactiveCapabilityCurve().beginPoint().setP(5.0).setMinQ(1.0).setMaxQ(10.0).endPoint().beginPoint().setP(10.0).setMinQ(-10.0).setMaxQ(1.0).endPoint().add();
    v4.newVscConverterStation().setId(p + "VSC2").setBus(p + "V4_B1").setConnectableBus(p + "V4_B1").setLossFactor(0.012).setReactivePowerSetpoint(123.0).setVoltageRegulatorOn(false).add();
    n.newHvdcLine().setId(p + "HVDC1").setConverterStationId1(p + "VSC1").setConverterStationId2(p + "VSC2").setR(1.0).setNominalV(400.0).setMaxP(300.0).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER).setActivePowerSetpoint(280.0).add();
    v1.newLccConverterStation().setId(p + "LCC1").setBus(p + "V1_B2").setConnectableBus(p + "V1_B2").setLossFactor(0.02).setPowerFactor(0.6).add();
    v4.newLccConverterStation().setId(p + "LCC2").setBus(p + "V4_B2").setConnectableBus(p + "V4_B2").setLossFactor(0.03).setPowerFactor(-0.7).add();
    n.newHvdcLine().setId(p + "HVDC2").setConverterStationId1(p + "LCC1").setConverterStationId2(p + "LCC2").setR(2.0).setNominalV(401.0).setMaxP(301.0).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER).setActivePowerSetpoint(81.0).add();
    g.addAlias(p + "alias-G1"); g.addAlias(p + "typed-G1", "TYPE"); g.setProperty("prop", "value"); v1.setProperty("region", "west");
    l.addAlias(p + "alias-LINE");
}

// One substation, node/breaker: two busbar sections, a coupler and feeders, an internal connection, a second level behind a transformer.
inline void addNodeBreaker(Network& n, const std::string& p = "") {
    Substation& s = n.newSubstation().setId(p + "NS").setCountry(Country::DE).add();
    VoltageLevel& v = s.newVoltageLevel().setId(p + "N1").setNominalV(400.0).setTopologyKind(TopologyKind::NODE_BREAKER).add();
    VoltageLevel& u = s.newVoltageLevel().setId(p + "N2").setNominalV(225.0).setTopologyKind(TopologyKind::NODE_BREAKER).add();
    const auto sw = [&](VoltageLevel& l, const std::string& id, SwitchKind k, unsigned long a, unsigned long b, bool open, bool retained) {
        l.getNodeBreakerView().newSwitch().setId(p + id).setKind(k).setNode1(a).setNode2(b).setOpen(open).setRetained(retained).add();
    };
    v.getNodeBreakerView().newBusbarSection().setId(p + "BBS1").setNode(0).add();
    v.getNodeBreakerView().newBusbarSection().setId(p + "BBS2").setName("second bar").setNode(1).add();
    sw(v, "COUPLER", SwitchKind::BREAKER, 0, 1, false, true);
    sw(v, "D1", SwitchKind::DISCONNECTOR, 0, 2, false, false);
    sw(v, "BR1", SwitchKind::BREAKER, 2, 3, false, true);
    v.newLoad().setId(p + "NL1").setNode(3).setP0(10.0).setQ0(3.0).add();
    sw(v, "D2", SwitchKind::DISCONNECTOR, 1, 4, false, false);
    sw(v, "BR2", SwitchKind::BREAKER, 4, 5, true, true);
    v.newGenerator().setId(p + "NG1").setNode(5).setMinP(0.0).setMaxP(10.0).setTargetP(5.0).setTargetV(400.0).setVoltageRegulatorOn(true).add();
    sw(v, "D3", SwitchKind::DISCONNECTOR, 0, 6, false, false);
    sw(v, "BR3", SwitchKind::LOAD_BREAK_SWITCH, 6, 7, false, false);
    v.getNodeBreakerView().newInternalConnection().setNode1(7).setNode2(8).add();
    TwoWindingsTransformer& t = s.newTwoWindingsTransformer().setId(p + "NT").setVoltageLevel1(p + "N1").setNode1(8).setVoltageLevel2(p + "N2").setNode2(1).setR(0.5).setX(14.0).setG(0.0).setB(1e-6).setRatedU1(400.0).setRatedU2(225.0).add();
    t.newRatioTapChanger().setLowTapPosition(0).setTapPosition(1).setLoadTapChangingCapabilities(true).setRegulating(false).setTargetV(230.0)
        .beginStep().setRho(0.85).setR(1.0).setX(1.0).setG(0.0).setB(0.0).endStep().beginStep().setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().add();
    u.getNodeBreakerView().newBusbarSection().setId(p + "BBS3").setNode(0).add();
    sw(u, "BR4", SwitchKind::BREAKER, 0, 1, false, false);
    sw(u, "BR5", SwitchKind::BREAKER, 0, 2, false, true);
    u.newShuntCompensator().setId(p + "NSH").setNode(2).setSectionCount(1).newLinearModel().setBPerSection(1e-5).setMaximumSectionCount(3).add().add();
    sw(u, "BR6", SwitchKind::BREAKER, 0, 3, false, false);
    u.newStaticVarCompensator().setId(p + "NSVC").setNode(3).setBmin(-0.1).setBmax(0.1).setRegulationMode(StaticVarCompensator::RegulationMode::OFF).setVoltageSetpoint(224.0).setReactivePowerSetpoint(1.0).add();
}

inline Network everything(const std::string& id = "net") {
    Network n(id, "test");
    addBusBreaker(n);
    addNodeBreaker(n);
    n.newLine().setId("MIX").setVoltageLevel1("V4").setBus1("V4_B2").setConnectableBus1("V4_B2").setVoltageLevel2("N1").setNode2(20).setR(1.0).setX(10.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0).add();
    n.getVoltageLevel("N1").getNodeBreakerView().newSwitch().setId("BRM").setKind(SwitchKind::BREAKER).setNode1(1).setNode2(20).setOpen(false).setRetained(false).add();
    return n;
}

inline std::vector<std::pair<std::string, std::function<Network()>>> networks() {
    return {
        {"everything", []() { return everything(); }},
        {"four substations", []() { return powsybl::network::FourSubstationsNodeBreakerFactory::create(); }},
        {"eurostag", []() { return powsybl::network::EurostagFactory::createTutorial1Network(); }},
        {"three windings", []() { return powsybl::network::ThreeWindingsTransformerNetworkFactory::create(); }},
        {"battery", []() { return powsybl::network::BatteryNetworkFactory::create(); }},
        {"fictitious switches", []() { return powsybl::network::FictitiousSwitchFactory::create(); }},
    };
}

}  // namespace vp
