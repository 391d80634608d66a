// Every enumeration with a textual form: all declared values there and back, no two texts alike, unknown texts rejected. (links the extension libraries: VP_EXTENSIONS)
#include "vp.hpp"
#include <powsybl/iidm/Branch.hpp>
#include <powsybl/iidm/ConnectableType.hpp>
#include <powsybl/iidm/Country.hpp>
#include <powsybl/iidm/EnergySource.hpp>
#include <powsybl/iidm/Enum.hpp>
#include <powsybl/iidm/HvdcConverterStation.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/LimitType.hpp>
#include <powsybl/iidm/LoadType.hpp>
#include <powsybl/iidm/PhaseTapChanger.hpp>
#include <powsybl/iidm/ShuntCompensatorModelType.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/SwitchKind.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/TopologyKind.hpp>
#include <powsybl/iidm/TopologyLevel.hpp>
#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeGeographicalCode.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurement.hpp>
#include <powsybl/iidm/extensions/iidm/Measurement.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatus.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePosition.hpp>
#include <set>

using namespace vp;
using namespace powsybl::iidm;

template <typename E> void all(const std::string& what, unsigned long count) {
    std::set<std::string> seen;
    for (unsigned long i = 0; i < count; ++i) {
        std::string s;
        if (throws([&]() { s = Enum::toString(static_cast<E>(i)); })) { check(false, "every declared value has a text", what + " value " + std::to_string(i)); continue; }
        check(seen.insert(s).second, "distinct values have distinct texts", what + " " + s);
        check(!throws([&]() { check(Enum::fromString<E>(s) == static_cast<E>(i), "the text converts back to the value", what + " " + s); }), "a declared text is accepted", what + " " + s);
        for (const std::string& u : {s + "x", s + " ", " " + s, s.substr(1), s.substr(0, s.size() - 1), std::string(1, static_cast<char>(s[0] ^ 32)) + s.substr(1)}) {
            bool known = false;
            for (const std::string& k : Enum::getNames<E>()) known = known || k == u;
            if (!known) check(throws([&]() { Enum::fromString<E>(u); }), "an unknown text is rejected", what + " '" + u + "'");
        }
    }
    check(throws([&]() { Enum::toString(static_cast<E>(count)); }), "an undeclared value has no text", what);
    for (const std::string& u : {"", "?", "UNKNOWN_", "0"}) check(throws([&]() { Enum::fromString<E>(u); }), "an unknown text is rejected", what + " '" + u + "'");
}

void run() {
    all<Branch::Side>("Branch::Side", static_cast<unsigned long>(Branch::Side::TWO) + 1);
    all<ConnectableType>("ConnectableType", static_cast<unsigned long>(ConnectableType::HVDC_CONVERTER_STATION) + 1);
    all<Country>("Country", static_cast<unsigned long>(Country::ZW) + 1);
    all<EnergySource>("EnergySource", static_cast<unsigned long>(EnergySource::OTHER) + 1);
    all<HvdcConverterStation::HvdcType>("HvdcConverterStation::HvdcType", static_cast<unsigned long>(HvdcConverterStation::HvdcType::LCC) + 1);
    all<HvdcLine::ConvertersMode>("HvdcLine::ConvertersMode", static_cast<unsigned long>(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER) + 1);
    all<LimitType>("LimitType", static_cast<unsigned long>(LimitType::VOLTAGE) + 1);
    all<LoadType>("LoadType", static_cast<unsigned long>(LoadType::FICTITIOUS) + 1);
    all<PhaseTapChanger::RegulationMode>("PhaseTapChanger::RegulationMode", static_cast<unsigned long>(PhaseTapChanger::RegulationMode::FIXED_TAP) + 1);
    all<ShuntCompensatorModelType>("ShuntCompensatorModelType", static_cast<unsigned long>(ShuntCompensatorModelType::NON_LINEAR) + 1);
    all<StaticVarCompensator::RegulationMode>("StaticVarCompensator::RegulationMode", static_cast<unsigned long>(StaticVarCompensator::RegulationMode::OFF) + 1);
    all<SwitchKind>("SwitchKind", static_cast<unsigned long>(SwitchKind::LOAD_BREAK_SWITCH) + 1);
    all<ThreeWindingsTransformer::Side>("ThreeWindingsTransformer::Side", static_cast<unsigned long>(ThreeWindingsTransformer::Side::THREE) + 1);
    all<TopologyKind>("TopologyKind", static_cast<unsigned long>(TopologyKind::BUS_BREAKER) + 1);
    all<TopologyLevel>("TopologyLevel", static_cast<unsigned long>(TopologyLevel::BUS_BRANCH) + 1);
    all<converter::ExportOptions::IidmVersionIncompatibilityBehavior>("converter::ExportOptions::IidmVersionIncompatibilityBehavior", static_cast<unsigned long>(converter::ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR) + 1);
    all<extensions::iidm::DiscreteMeasurement::Type>("extensions::iidm::DiscreteMeasurement::Type", static_cast<unsigned long>(extensions::iidm::DiscreteMeasurement::Type::OTHER) + 1);
    all<extensions::iidm::DiscreteMeasurement::TapChanger>("extensions::iidm::DiscreteMeasurement::TapChanger", static_cast<unsigned long>(extensions::iidm::DiscreteMeasurement::TapChanger::PHASE_TAP_CHANGER_3) + 1);
    all<extensions::iidm::DiscreteMeasurement::ValueType>("extensions::iidm::DiscreteMeasurement::ValueType", static_cast<unsigned long>(extensions::iidm::DiscreteMeasurement::ValueType::STRING) + 1);
    all<extensions::iidm::Measurement::Side>("extensions::iidm::Measurement::Side", static_cast<unsigned long>(extensions::iidm::Measurement::Side::THREE) + 1);
    all<extensions::iidm::Measurement::Type>("extensions::iidm::Measurement::Type", static_cast<unsigned long>(extensions::iidm::Measurement::Type::OTHER) + 1);
    all<extensions::entsoe::EntsoeGeographicalCode>("extensions::entsoe::EntsoeGeographicalCode", static_cast<unsigned long>(extensions::entsoe::EntsoeGeographicalCode::UX) + 1);
    all<extensions::sld::BranchStatus::Status>("extensions::sld::BranchStatus::Status", static_cast<unsigned long>(extensions::sld::BranchStatus::Status::FORCED_OUTAGE) + 1);
    all<extensions::sld::ConnectablePosition::Direction>("extensions::sld::ConnectablePosition::Direction", static_cast<unsigned long>(extensions::sld::ConnectablePosition::Direction::UNDEFINED) + 1);
}
