#!/usr/bin/env python3
# source of /verif/properties.jsonl (python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

p('V01','Per-variant attributes are isolated between variants',
 "For every network object with per-variant attributes (loads, generators, batteries, shunts, SVCs, HVDC stations and lines, dangling lines, tap changers, switches, terminals, configured buses, per-variant extensions), setting an attribute changes the value read in the working variant to exactly the value set and leaves the value of that attribute in every other variant, and every other independent per-variant attribute in all variants, unchanged. Reading an attribute returns the value of the working variant and changes nothing.",
 ['inputs','histories'],"for every object state, every number of variants, every working variant and every other variant, every attribute and every value accepted by the setter",
 "tests set one or two hand-picked values in two or three variants per class; nothing checks that a setter never touches another variant or another attribute for all states and values",
 ['src/iidm','include/powsybl/iidm','extensions/iidm','extensions/sld'],
 [('per-variant std::vector indexed by the working variant index','src/iidm/{Load,Generator,Battery,ShuntCompensator,StaticVarCompensator,VscConverterStation,LccConverterStation,HvdcLine,DanglingLine,Switch,Terminal,ConfiguredBus,BusTerminal,NodeTerminal}.cpp, include/powsybl/iidm/TapChanger.hxx'),
  ('working variant index','src/iidm/VariantManager.cpp getVariantIndex, src/iidm/Network.cpp')])
p('V02','Creating and removing variants preserves every attribute of every object',
 "When variants are created from a source variant, every per-variant attribute of every network object has, in each new or overwritten variant, the value it had in the source variant, and keeps its value in all other variants. Removing a variant leaves every attribute of all remaining variants unchanged, and after any such operation each attribute is stored for exactly the number of variants of the network.",
 ['inputs','histories'],"for every object class with per-variant state, every state, every source index, every set of recycled or overwritten indexes, every number of added or removed variants",
 "tests clone one or two variants of sample networks and look at a few attributes; an attribute forgotten in one of the lifecycle callbacks of one class is only visible for particular index patterns",
 ['src/iidm','include/powsybl/iidm/TapChanger.hxx','extensions/iidm','extensions/sld'],
 [('allocate/extend/reduce/deleteVariantArrayElement callbacks of every MultiVariantObject','src/iidm/*.cpp, include/powsybl/iidm/TapChanger.hxx, extensions/*/src/*.cpp'),
  ('dispatch of callbacks to owned sub-objects (terminals, tap changers, extensions, nodes)','src/iidm/{Connectable,Switch,TwoWindingsTransformer,ThreeWindingsTransformer,NodeBreakerVoltageLevel,BusBreakerVoltageLevel}.cpp'),
  ('VariantArray of network and voltage-level caches','include/powsybl/iidm/VariantArray.hxx')])
p('V03','Variant ids map one-to-one onto live variants and failed calls change nothing',
 "After any sequence of variant operations the known variant ids and the live variants are in one-to-one correspondence, the initial variant always exists, and getVariantIds, getWorkingVariantId and the number of stored variants agree with the history of clone, overwrite, remove and setWorkingVariant calls. A variant operation that throws (unknown source or id, existing target without overwrite, empty target list, removal of the initial variant) leaves the set of variants, the working variant and all attribute storage unchanged.",
 ['inputs','histories'],"for every reachable manager state (any ids, any set of free indexes), every source, target list, overwrite flag and removed id",
 "tests run short fixed sequences; index recycling, trailing-index compaction and partially processed target lists need particular histories",
 ['src/iidm/VariantManager.cpp','include/powsybl/iidm/VariantManager.hpp','src/iidm/MultipleVariantContext.cpp','src/iidm/ThreadLocalMultipleVariantContext.cpp','src/iidm/VariantContextGuard.cpp'],
 [('m_variantsById / m_unusedIndexes / m_variantArraySize bookkeeping','src/iidm/VariantManager.cpp'),
  ('variant contexts','src/iidm/MultipleVariantContext.cpp, src/iidm/ThreadLocalMultipleVariantContext.cpp')])
p('A01','Setters accept exactly valid values, store them, and reject without side effect',
 "For every equipment, limit and tap-changer setter, a value violating the documented constraint (NaN where a number is required, negative or zero quantities that must be positive, inverted min/max, power factor outside [-1,1], out-of-range section or tap, missing set point of an active regulation) makes the setter throw a validation error and leaves the object exactly as it was. A value satisfying the constraints is accepted without error and is then returned by the corresponding getter, the other attributes being unchanged.",
 ['inputs'],"for every object state satisfying its invariant and every argument value, including NaN, infinities, zeros and boundary values",
 "tests try a few invalid values per class and rarely compare the object state after the rejection; boundary values and combinations with the current state are unsampled",
 ['src/iidm','include/powsybl/iidm/ValidationUtils.hpp','src/iidm/ValidationUtils.cpp'],
 [('check* functions','src/iidm/ValidationUtils.cpp'),('setters calling the check before the write','src/iidm/*.cpp, include/powsybl/iidm/TapChanger.hxx')])
p('A02','Adders create objects with exactly the given attributes or nothing at all',
 "A successful add() creates exactly one object whose getters return, in every existing variant, the values given to the adder, and registers it under its id. An add() that throws a validation error leaves the network, its index and every existing object unchanged, and an object is never created from values that the corresponding setter would reject.",
 ['inputs'],"for every adder state (any combination of set and unset values) of every equipment adder and every network state satisfying the invariants",
 "tests build valid objects with distinctive values and try a handful of invalid ones; field mix-ups between same-typed attributes, and partial registration before a late check, are sampled only for some classes",
 ['src/iidm'],
 [('XxxAdder::add: validate, construct, register','src/iidm/*Adder.cpp'),('constructors','src/iidm/{Load,Generator,Battery,Line,TieLine,DanglingLine,TwoWindingsTransformer,ThreeWindingsTransformer,ShuntCompensator,StaticVarCompensator,VscConverterStation,LccConverterStation,HvdcLine}.cpp')])
p('I01','Ids and aliases identify at most one object and lookups are consistent',
 "In a network every id and alias refers to at most one object: adding an object whose id (or one of its aliases) is already in use, or an alias already used by another object, is rejected and changes nothing, and lookup by id or alias returns exactly the object registered under it and not yet removed. Object counts and enumerations by type contain each registered object exactly once, and removing an object (or alias) frees exactly its id and aliases and leaves all other lookups unchanged.",
 ['inputs','histories'],"for every index state satisfying the invariant, every id, alias and object",
 "tests register a few objects with distinct names; conflicts between ids and aliases, failed registrations followed by lookups, and removals of aliased objects are not enumerated",
 ['src/iidm/NetworkIndex.cpp','src/iidm/NetworkIndex.hpp','include/powsybl/iidm/NetworkIndex.hxx','src/iidm/Identifiable.cpp','src/iidm/Network.cpp'],
 [('m_objectsById, m_objectsByType, m_idByAlias','src/iidm/NetworkIndex.cpp'),('addAlias/removeAlias','src/iidm/Identifiable.cpp')])
p('T01','Tap changers: position stays in range and selects the matching step',
 "For every ratio or phase tap changer the high position is low + number of steps - 1, a position is accepted exactly when it lies within [low, high], getStep(p) returns the step declared p - low places after the first one, and the current step is the step of the current position. Changing the low position shifts the current position of every variant by the same amount so that the selected step does not change, and a regulating ratio tap changer with load tap changing capabilities always has a regulation terminal and a positive target voltage, and a regulating phase tap changer a mode other than fixed tap, a regulation value and a regulation terminal.",
 ['inputs'],"for every low position, number of steps, tap position, regulation state and variant",
 "tests use three-step tap changers with low position 0 or 1 and mostly one variant",
 ['include/powsybl/iidm/TapChanger.hxx','src/iidm/RatioTapChanger.cpp','src/iidm/PhaseTapChanger.cpp','src/iidm/ValidationUtils.cpp','src/iidm/RatioTapChangerAdder.cpp','src/iidm/PhaseTapChangerAdder.cpp'],
 [('checkTapPosition','src/iidm/ValidationUtils.cpp'),('TapChanger template','include/powsybl/iidm/TapChanger.hxx')])
p('R01','Reactive limits bracket and interpolate correctly',
 "Min/max reactive limits return the declared bounds for every active power and never have min above max. A reactive capability curve returns the declared bounds at a declared point, the linear interpolation of the two enclosing points between them, and the end point's bounds outside the declared range; its points are strictly ordered and there are at least two.",
 ['inputs'],"for every number of points, every point set and every active power",
 "tests evaluate curves of two or three points at a few powers",
 ['src/iidm/ReactiveCapabilityCurve.cpp','src/iidm/ReactiveCapabilityCurveAdder.cpp','src/iidm/MinMaxReactiveLimits.cpp','src/iidm/MinMaxReactiveLimitsAdder.cpp','src/iidm/ReactiveLimitsHolder.cpp'],
 [('getReactiveLimit interpolation','src/iidm/ReactiveCapabilityCurve.cpp'),('addPoint/add checks','src/iidm/ReactiveCapabilityCurveAdder.cpp')])
p('L01','Loading limits: overload detection returns the tightest exceeded limit',
 "For a limit set whose temporary limits are sorted by increasing value, a value is reported as a permanent-limit violation exactly when the permanent limit is defined and value >= permanent * reduction, and an overload names the temporary limit band whose previous limit is reached and whose own value is not, with its acceptable duration. Only valid limit sets can be built: a permanent limit that is defined is > 0, temporary values are > 0, every duration and every name is unique, and the violation predicates of a branch combine its two sides so that the branch is overloaded exactly when one side is.",
 ['inputs'],"for every number of temporary limits, every limit value, current and reduction factor, on each side",
 "tests use the Eurostag sample with three temporary limits and a handful of currents; equality at a boundary, absent permanent limits and per-side mix-ups are unsampled",
 ['src/iidm/util/LimitViolationUtils.cpp','src/iidm/LoadingLimits.cpp','src/iidm/Branch.cpp','include/powsybl/iidm/LoadingLimitsAdder.hxx','src/iidm/FlowsLimitsHolder.cpp'],
 [('checkTemporaryLimits / checkPermanentLimit','src/iidm/util/LimitViolationUtils.cpp'),('Branch::checkTemporaryLimits, isOverloaded, getOverloadDuration','src/iidm/Branch.cpp'),('LoadingLimitsAdder::add','include/powsybl/iidm/LoadingLimitsAdder.hxx')])
p('E01','Electrical formulas: flows, admittances and boundary values match the model',
 "The branch flow and voltage computations (state at the other side of a line, dangling line or transformer; link flows; boundary values; terminal current) equal the pi-model equations of the branch for all parameters, are invertible (other side of the other side is the identity), and treat both sides symmetrically. Total tap-changer and shunt quantities (ratio, admittance of active sections, B and G) equal the sums and products defined by the declared steps and sections.",
 ['inputs'],"for all real branch parameters, voltages and flows with non-zero series impedance and voltage, all section counts",
 "tests compare a few numeric cases with tolerance; a swapped side or a missing ratio is invisible when g1 == g2, or ratio == 1",
 ['src/iidm/util/SV.cpp','src/iidm/util/LinkData.cpp','src/iidm/DanglingLineBoundary.cpp','src/iidm/HalfLineBoundary.cpp','src/iidm/Terminal.cpp','src/iidm/ShuntCompensator*.cpp','src/iidm/TieLine.cpp'],
 [('SV::otherSide','src/iidm/util/SV.cpp'),('LinkData::calculateBranchAdmittance, flowBothEnds','src/iidm/util/LinkData.cpp'),('Terminal::getI','src/iidm/Terminal.cpp')])
p('G01','Graph add/remove/lookup keep vertices, edges and adjacency consistent',
 "After any sequence of vertex and edge additions and removals on a graph, every edge's end vertices exist, an edge is reported as incident to exactly its two end vertices, edge and vertex counts and enumerations contain exactly the elements added and not removed, and identifiers of removed elements are only reused for new elements. Operations on a missing vertex or edge, and removal of a vertex that still has edges, throw and change nothing.",
 ['histories','inputs'],"for every graph reachable by any sequence of operations and every vertex and edge number",
 "tests build one small graph per operation; recycling of identifiers after removals in different orders is unsampled",
 ['include/powsybl/math/UndirectedGraph.hxx','include/powsybl/math/UndirectedGraph.hpp','include/powsybl/math/Edge.hpp','include/powsybl/math/Vertex.hpp'],
 [('m_vertices, m_edges, m_availableVertices, m_removedEdges, adjacency list cache','include/powsybl/math/UndirectedGraph.hxx')])
p('C01','Connecting and disconnecting equipment has exactly its topological effect',
 "In a bus/breaker voltage level connecting or disconnecting a terminal sets exactly that terminal's connection state in the working variant and reports whether it changed; in a node/breaker voltage level only breakers of the terminal's own voltage level in the working variant change state. Any change of a switch position, terminal connection or connectable bus is reflected by the next bus, connected-component or synchronous-component query of the same variant (no stale topology).",
 ['inputs','histories'],"for every voltage level, switch configuration, terminal, variant and preceding queries",
 "tests query after a handful of changes on fixed small networks; a missed cache invalidation only shows when the topology was queried before the change",
 ['src/iidm/Terminal.cpp','src/iidm/BusTerminal.cpp','src/iidm/NodeTerminal.cpp','src/iidm/BusBreakerVoltageLevel.cpp','src/iidm/NodeBreakerVoltageLevel.cpp','src/iidm/Switch.cpp','src/iidm/HvdcLine.cpp'],
 [('invalidateCache chain','src/iidm/{BusBreakerVoltageLevel,NodeBreakerVoltageLevel,BusTerminal,Switch}.cpp'),('connect/disconnect','src/iidm/{BusBreakerVoltageLevel,NodeBreakerVoltageLevel}.cpp')])
p('B01','Calculated buses partition the connected terminals of a voltage level',
 "For every topology, the buses computed for a voltage level are the connected sets of nodes (or configured buses) joined by closed switches that qualify as electrical buses (a node without any switch or internal connection belongs to none); each terminal belongs to at most one of them, and two terminals share a bus exactly when a path of closed switches and internal connections joins them. The bus found from a terminal, from a node or configured bus and from the bus's own terminal list agree.",
 ['inputs'],"for every node/breaker and bus/breaker graph, every switch state",
 "tests use a dozen fixed small topologies",
 ['src/iidm/BusBreakerVoltageLevelTopology.cpp','src/iidm/NodeBreakerVoltageLevelTopology.cpp','src/iidm/CalculatedBus.cpp','src/iidm/MergedBus.cpp'],
 [('traverse + busesByNode','src/iidm/NodeBreakerVoltageLevelTopology.cpp'),('mergedBus computation','src/iidm/BusBreakerVoltageLevelTopology.cpp')])
p('K01','Component numbering is a partition ordered by decreasing size',
 "The connected-component computation assigns to every vertex exactly one component number, the same number to two vertices exactly when a path joins them, numbers components 0..n-1 by decreasing size (ties by discovery order), and reports the exact size of each. Bus components of a network report these numbers.",
 ['inputs'],"for every adjacency list",
 "tests use one graph of a dozen vertices",
 ['src/math/GraphUtil.cpp','src/math/ConnectedComponentsComputationResult.cpp','src/iidm/AbstractComponentsManager.cpp','src/iidm/ConnectedComponentsManager.cpp','src/iidm/SynchronousComponentsManager.cpp'],
 [('GraphUtil::computeConnectedComponents','src/math/GraphUtil.cpp')])
p('X01','Every equipment attribute survives XML export and import',
 "Writing an equipment to XML and reading it back yields an equipment with the same attribute values: every attribute name written is read back into the attribute it came from, optional attributes are omitted only when reading restores the same value, and enumerations use the same text in both directions.",
 ['inputs'],"for every attribute value of every equipment type and every IIDM-XML version in which it exists",
 "round-trip tests cover the values in reference files; a swapped or omitted attribute is invisible where the values are equal or defaulted",
 ['src/iidm/converter/xml','extensions/iidm','extensions/entsoe','extensions/sld'],
 [('writeRootElementAttributes / readRootElementAttributes pairs','src/iidm/converter/xml/*Xml.cpp')])
p('X02','Anonymization is a stable, invertible one-to-one renaming',
 "Anonymizing the same string always gives the same pseudonym, different strings get different pseudonyms, and deanonymizing a pseudonym gives back the original string, also after the mapping has been written to and read from a file. Names unknown to the mapping are rejected when deanonymizing.",
 ['inputs','histories'],"for every sequence of strings and every existing mapping",
 "tests anonymize a couple of strings",
 ['src/iidm/converter/SimpleAnonymizer.cpp','src/iidm/converter/FakeAnonymizer.cpp','include/powsybl/iidm/converter/SimpleAnonymizer.hpp'],
 [('bimap and sequential names','src/iidm/converter/SimpleAnonymizer.cpp')])
p('X03','Enumeration names are unique and convert back to the same value',
 "For every enumeration with a textual form, converting a declared value to text and back gives the same value, distinct values have distinct texts, and an unknown text is rejected.",
 ['inputs'],"for every enumeration, every declared value and every text",
 "tests convert some values of some enumerations",
 ['src/iidm/*.cpp','include/powsybl/stdcxx/enum.hpp','extensions/*/src'],
 [('Enum::getNames<> tables','src/iidm/{Country,EnergySource,LoadType,SwitchKind,TopologyKind,TopologyLevel,ConnectableType,...}.cpp'),('fromString/toString','include/powsybl/stdcxx/enum.hxx')])
p('D01','Removing an equipment leaves no reference to it',
 "Removing a connectable, HVDC line, switch, bus, substation or tap changer makes it unreachable: no lookup, enumeration, terminal list, or regulating terminal of another object returns it or part of it, and everything unrelated to it is unchanged. A removal that is not allowed (bus or converter station in use, linked substation) throws and changes nothing.",
 ['histories'],"for every network containing the equipment",
 "tests remove equipment from small fixed networks and look at one or two lists",
 ['src/iidm/Connectable.cpp','src/iidm/HvdcLine.cpp','src/iidm/VoltageLevel.cpp','src/iidm/Substation.cpp','src/iidm/BusBreakerVoltageLevel.cpp','src/iidm/NodeBreakerVoltageLevel.cpp','src/iidm/VscConverterStation.cpp','src/iidm/LccConverterStation.cpp'],
 [('remove methods','src/iidm/*.cpp')])
p('S01','Shunt compensators report the susceptance of the sections in service',
 "For a linear shunt model B and G are the per-section values times the number of sections in service (zero G when unset); for a non-linear model they are the values declared for that section number, zero sections meaning zero. A section count is accepted exactly when it is between zero and the maximum declared, and the maximum is the declared number of sections.",
 ['inputs'],"for every model, every number of sections and every section count",
 "tests use models of one to three sections",
 ['src/iidm/ShuntCompensator.cpp','src/iidm/ShuntCompensatorLinearModel.cpp','src/iidm/ShuntCompensatorNonLinearModel.cpp','src/iidm/ShuntCompensatorAdder.cpp','src/iidm/ShuntCompensatorLinearModelAdder.cpp','src/iidm/ShuntCompensatorNonLinearModelAdder.cpp'],
 [('getB/getG','src/iidm/ShuntCompensator*Model.cpp'),('setSectionCount','src/iidm/ShuntCompensator.cpp')])
p('N01','Extensions and properties: one per name, retrievable until removed',
 "An object holds at most one extension per extension type and name: adding one makes it retrievable by name and by type, removing it makes both lookups fail, and no other extension or attribute changes. Looking up an extension or property that is absent is reported as absent and never creates it; a property set is the property read until it is removed.",
 ['inputs','histories'],"for every object, extension and property name",
 "tests add and remove one or two extensions",
 ['src/iidm/Extendable.cpp','include/powsybl/iidm/Extendable.hxx','src/iidm/Identifiable.cpp','src/stdcxx/Properties.cpp'],
 [('m_extensionsByName, m_extensionsByType','src/iidm/Extendable.cpp'),('m_properties','src/iidm/Identifiable.cpp')])
for x in P: print(json.dumps(x))
