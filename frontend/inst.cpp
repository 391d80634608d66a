// Explicit instantiations: makes clang emit the bodies of template members no core TU uses, so that they can be put under contract.
#include <powsybl/iidm/ActivePowerLimitsAdder.hpp>
#include <powsybl/iidm/ApparentPowerLimitsAdder.hpp>
#include <powsybl/iidm/CurrentLimitsAdder.hpp>
#include <powsybl/iidm/PhaseTapChanger.hpp>
#include <powsybl/iidm/PhaseTapChangerHolder.hpp>
#include <powsybl/iidm/RatioTapChanger.hpp>
#include <powsybl/iidm/RatioTapChangerHolder.hpp>
#include <powsybl/iidm/TapChanger.hxx>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/Extendable.hpp>
#include <powsybl/network/LoadBarExt.hpp>
#include <powsybl/network/LoadFooExt.hpp>
#include <powsybl/math/UndirectedGraph.hpp>
#include <powsybl/iidm/LoadAdder.hpp>
#include <powsybl/iidm/BatteryAdder.hpp>
#include <powsybl/iidm/GeneratorAdder.hpp>
#include <powsybl/iidm/StaticVarCompensatorAdder.hpp>
#include <powsybl/iidm/LccConverterStationAdder.hpp>
#include <powsybl/iidm/VscConverterStationAdder.hpp>
#include <powsybl/iidm/DanglingLineAdder.hpp>
#include <powsybl/iidm/ShuntCompensatorAdder.hpp>
#include <powsybl/iidm/LineAdder.hpp>
#include <powsybl/iidm/TieLineAdder.hpp>
#include <powsybl/iidm/TwoWindingsTransformerAdder.hpp>
#include <powsybl/iidm/HvdcLineAdder.hpp>
#include <powsybl/iidm/SubstationAdder.hpp>
#include <powsybl/iidm/VoltageLevelAdder.hpp>
#include <powsybl/iidm/ThreeWindingsTransformerAdder.hpp>
#include <powsybl/iidm/BusbarSectionAdder.hpp>
#include <powsybl/iidm/BusAdder.hpp>
#include <powsybl/iidm/SwitchAdder.hpp>
#include "iidm/ConfiguredBus.hpp"
#include "iidm/NodeTerminal.hpp"

template class powsybl::iidm::TapChangerStep<powsybl::iidm::PhaseTapChangerStep>;
template class powsybl::iidm::TapChangerStep<powsybl::iidm::RatioTapChangerStep>;
template class powsybl::iidm::TapChanger<powsybl::iidm::PhaseTapChangerHolder, powsybl::iidm::PhaseTapChanger, powsybl::iidm::PhaseTapChangerStep>;
template class powsybl::iidm::TapChanger<powsybl::iidm::RatioTapChangerHolder, powsybl::iidm::RatioTapChanger, powsybl::iidm::RatioTapChangerStep>;
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::addEdge(unsigned long, unsigned long, const stdcxx::Reference<powsybl::iidm::Switch>&);
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::addVertex();
template void powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::addVertexIfNotPresent(unsigned long);
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::getEdgeCount() const;
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::getMaxVertex() const;
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::getVertex1(unsigned long) const;
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::getVertex2(unsigned long) const;
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::getVertexCapacity() const;
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::getVertexCount() const;
template const stdcxx::Reference<powsybl::iidm::ConfiguredBus>& powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::getVertexObject(unsigned long) const;
template const stdcxx::Reference<powsybl::iidm::Switch>& powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::getEdgeObject(unsigned long) const;
template void powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::removeAllEdges();
template void powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::removeAllVertices();
template stdcxx::Reference<powsybl::iidm::Switch> powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::removeEdge(unsigned long);
template void powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::removeIsolatedVertices();
template stdcxx::Reference<powsybl::iidm::ConfiguredBus> powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::removeVertex(unsigned long);
template void powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::setVertexObject(unsigned long, const stdcxx::Reference<powsybl::iidm::ConfiguredBus>&);
template bool powsybl::math::UndirectedGraph<powsybl::iidm::ConfiguredBus, powsybl::iidm::Switch>::vertexExists(unsigned long) const;
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::addEdge(unsigned long, unsigned long, const stdcxx::Reference<powsybl::iidm::Switch>&);
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::addVertex();
template void powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::addVertexIfNotPresent(unsigned long);
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::getEdgeCount() const;
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::getMaxVertex() const;
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::getVertex1(unsigned long) const;
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::getVertex2(unsigned long) const;
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::getVertexCapacity() const;
template unsigned long powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::getVertexCount() const;
template const stdcxx::Reference<powsybl::iidm::NodeTerminal>& powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::getVertexObject(unsigned long) const;
template const stdcxx::Reference<powsybl::iidm::Switch>& powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::getEdgeObject(unsigned long) const;
template void powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::removeAllEdges();
template void powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::removeAllVertices();
template stdcxx::Reference<powsybl::iidm::Switch> powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::removeEdge(unsigned long);
template void powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::removeIsolatedVertices();
template stdcxx::Reference<powsybl::iidm::NodeTerminal> powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::removeVertex(unsigned long);
template void powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::setVertexObject(unsigned long, const stdcxx::Reference<powsybl::iidm::NodeTerminal>&);
template bool powsybl::math::UndirectedGraph<powsybl::iidm::NodeTerminal, powsybl::iidm::Switch>::vertexExists(unsigned long) const;
template class powsybl::iidm::LoadingLimitsAdder<powsybl::iidm::ActivePowerLimits, powsybl::iidm::ActivePowerLimitsAdder>;
template class powsybl::iidm::LoadingLimitsAdder<powsybl::iidm::ApparentPowerLimits, powsybl::iidm::ApparentPowerLimitsAdder>;
template class powsybl::iidm::LoadingLimitsAdder<powsybl::iidm::CurrentLimits, powsybl::iidm::CurrentLimitsAdder>;
template stdcxx::CReference<powsybl::network::LoadFooExt> powsybl::iidm::Extendable::findExtension<powsybl::network::LoadFooExt, void>() const;
template stdcxx::Reference<powsybl::network::LoadFooExt> powsybl::iidm::Extendable::findExtension<powsybl::network::LoadFooExt, void>();
template const powsybl::network::LoadFooExt& powsybl::iidm::Extendable::getExtension<powsybl::network::LoadFooExt, void>() const;
template powsybl::network::LoadFooExt& powsybl::iidm::Extendable::getExtension<powsybl::network::LoadFooExt, void>();
template stdcxx::CReference<powsybl::network::LoadFooExt> powsybl::iidm::Extendable::getExtensionByName<powsybl::network::LoadFooExt, void>(const std::string&) const;
template stdcxx::Reference<powsybl::network::LoadFooExt> powsybl::iidm::Extendable::getExtensionByName<powsybl::network::LoadFooExt, void>(const std::string&);
template void powsybl::iidm::Extendable::removeExtension<powsybl::network::LoadFooExt, void>();
template stdcxx::CReference<powsybl::network::LoadBarExt> powsybl::iidm::Extendable::findExtension<powsybl::network::LoadBarExt, void>() const;
template stdcxx::Reference<powsybl::network::LoadBarExt> powsybl::iidm::Extendable::findExtension<powsybl::network::LoadBarExt, void>();
template const powsybl::network::LoadBarExt& powsybl::iidm::Extendable::getExtension<powsybl::network::LoadBarExt, void>() const;
template powsybl::network::LoadBarExt& powsybl::iidm::Extendable::getExtension<powsybl::network::LoadBarExt, void>();
template stdcxx::CReference<powsybl::network::LoadBarExt> powsybl::iidm::Extendable::getExtensionByName<powsybl::network::LoadBarExt, void>(const std::string&) const;
template stdcxx::Reference<powsybl::network::LoadBarExt> powsybl::iidm::Extendable::getExtensionByName<powsybl::network::LoadBarExt, void>(const std::string&);
template void powsybl::iidm::Extendable::removeExtension<powsybl::network::LoadBarExt, void>();

// adders: the setters inherited from the adder bases
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::LoadAdder>;
template class powsybl::iidm::InjectionAdder<powsybl::iidm::LoadAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::BatteryAdder>;
template class powsybl::iidm::InjectionAdder<powsybl::iidm::BatteryAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::GeneratorAdder>;
template class powsybl::iidm::InjectionAdder<powsybl::iidm::GeneratorAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::StaticVarCompensatorAdder>;
template class powsybl::iidm::InjectionAdder<powsybl::iidm::StaticVarCompensatorAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::LccConverterStationAdder>;
template class powsybl::iidm::InjectionAdder<powsybl::iidm::LccConverterStationAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::VscConverterStationAdder>;
template class powsybl::iidm::InjectionAdder<powsybl::iidm::VscConverterStationAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::DanglingLineAdder>;
template class powsybl::iidm::InjectionAdder<powsybl::iidm::DanglingLineAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::ShuntCompensatorAdder>;
template class powsybl::iidm::InjectionAdder<powsybl::iidm::ShuntCompensatorAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::LineAdder>;
template class powsybl::iidm::BranchAdder<powsybl::iidm::LineAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::TieLineAdder>;
template class powsybl::iidm::BranchAdder<powsybl::iidm::TieLineAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::TwoWindingsTransformerAdder>;
template class powsybl::iidm::BranchAdder<powsybl::iidm::TwoWindingsTransformerAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::HvdcLineAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::SubstationAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::VoltageLevelAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::ThreeWindingsTransformerAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::BusbarSectionAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::BusAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::bus_breaker_view::SwitchAdder>;
template class powsybl::iidm::IdentifiableAdder<powsybl::iidm::node_breaker_view::SwitchAdder>;
template class powsybl::iidm::AbstractSwitchAdder<powsybl::iidm::bus_breaker_view::SwitchAdder>;
template class powsybl::iidm::AbstractSwitchAdder<powsybl::iidm::node_breaker_view::SwitchAdder>;
