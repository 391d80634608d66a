#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
T = 'contracts on the real functions, obligations generated from the clang AST of /repo and discharged by z3'
CLAIM = {
 'V01': 'Proof: every setter and observer contract is discharged for all states and all variant indexes. Doubles are exact reals plus NaN; containers and strings follow the library contracts in vc/lib.py; the working variant index is a ghost variable (discharged in V03).',
 'A01': 'Proof: acceptance, post-state and exception-safety of every setter, for all argument values and all states satisfying the class invariant. Five listed known findings (cross-variant validation). Same trusted base as V01.',
 'A02': 'Proof: for every adder state, add() of every equipment, level, bus, switch and busbar section adder either registers and attaches exactly one new object whose getters return the values given in every variant and which satisfies the conditions its setters enforce, or throws with nothing registered or attached. Registration, id check and attach by their contracts (I01, G01); the listings of the network by the bounded driver. Three listed known findings. Same trusted base as V01.',
 'T01': 'Proof: step selection, range checks, tap position and low-position shift contracts for all states (loops by invariants); four known findings shared with A01. Same trusted base as V01.',
 'V02': 'Proof: extend, reduce, allocate and delete of every multi-variant class against slot-wise contracts, and the dispatch of VariantManager::cloneVariant/removeVariant to every object, for all sizes, slots and contents. Same trusted base as V01.',
 'V03': 'Proof: every public operation of VariantManager for all id sets and all target lists, including that a rejected call changes nothing. forEachVariant (calls user code while holding the mutex) is not under contract; thread interleavings are not explored: the mutex is trusted to exclude.',
 'S01': 'Proof: B, G and section count contracts of both shunt models for all numbers of sections (loop over sections by invariant). One listed known finding (maximum lowered below the count of another variant). Same trusted base as V01.',
 'E01': 'Proof: the formulas equal the pi model as identities of rational functions over the reals (polynomial normal form modulo sin^2+cos^2=1); floating point rounding is treated as mathematical; polar, abs, arg, hypot are uninterpreted up to their defining identities. One listed known finding (Terminal::getI).',
 'R01': 'Proof: interpolation, range and adder contracts for every point set (ordered map with first/last/neighbour contracts of std::map) and every active power. Same trusted base as V01.',
 'L01': 'Proof: overload band, permanent limit, per-side and per-type forwarding, getters and adders for every number of temporary limits, value and reduction; name unicity check of the adder assumed (bounded driver). Same trusted base as V01.',
 'I01': 'Proof: lookup, registration, removal, alias and listing contracts of the index, of every lookup, count and listing of Network, and of the alias functions of Identifiable, for every index state and every string; strings are an uninterpreted sort with concatenation as a function. registration assumes the object has no aliases yet and its id is not an alias (what the adders check). Same trusted base as V01.',
 'N01': 'Proof: the two extension tables and the property map, for every state, name and type; names and types of the extension classes of the repository. Assumes an extension class has one name and one type. Same trusted base as V01.',
 'X02': 'Proof: pseudonym, inverse, registration and reading of a mapping, for every mapping and every string; the text written for a mapping (and its reading back) by the bounded driver (boost::bimap by a contract of two mutually inverse maps; the base-26 name of a number is injective by the loop contract of getAlpha, over a ghost digit function with stated axioms). One listed known finding (names with the separator). Same trusted base as V01.',
 'X03': 'Proof: names of every enumeration of the network, extension and XML parts: distinct, total, inverse of each other, for every value and every text. Same trusted base as V01.',
 'G01': 'Proof: add, remove, set and lookup of both graph instantiations (configured buses and node terminals), the listings of vertices, edges and objects, that failures change nothing and that the adjacency lists are invalidated, for every graph. Traversal, paths, adjacency rebuild and removal of isolated vertices: bounded driver only. Same trusted base as V01.',
 'K01': 'Proof: the recursive search, the numbering and ordering loop and the adjacency lists of computeConnectedComponents, for every adjacency list (reachability as a ghost equivalence, component sizes as a ghost count; std::stable_sort by its contract), and the components manager that reports the numbers. Which equipment joins which buses is decided by the driver (random networks, bounded). Recursion depth and stack use are not modelled. Same trusted base as V01.',
 'C01': 'Proof: connect and disconnect of both kinds of voltage level, switch setters, connectable bus changes and the invalidation of every cache of the working variant, for every level, terminal, variant and state (the paths of a node graph by contract: findAllPaths is not proved here). Consequences at the level of queries (no stale bus or component) are also exercised by a bounded driver. Same trusted base as V01.',
 'B01': 'Proof for node/breaker levels: adjacency lists, recursive traversal (any graph, any visitor), the visitor, the bus of a node, the partition computed by updateCache, which sets qualify, the two switch predicates - for every graph and every switch state (reachability as a ghost relation; distinct identifiers for disjoint sets of nodes assumed). For bus/breaker levels the traversal is proved and the merging itself is decided by the driver on random networks (bounded), as are the bus objects found from terminals. Same trusted base as V01.',
}
NA = {
 'D01': 'the statement ranges over every reference held anywhere in a network (lists of other classes, regulating terminals); the per-function contracts built so far cover the parts (index removal in I01, graph removal in G01, cache invalidation in C01), not the whole',
 'X01': 'the XML reader and writer are libxml2 state machines driven by callbacks through virtual template bases; no contract of the pairs of functions has been built',
}
try: exec(open(V + '/tools/claims.py').read())
except FileNotFoundError: pass
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[], notes='See DESIGN.md. Known findings: known_findings.json.')
for i in ids:
    if i in CLAIM:
        m['checks'].append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i, technique=T, level='proof', level_note=CLAIM[i]))
    else: m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'contracts not built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
