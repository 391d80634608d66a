// Identifiers and aliases: registration, lookups, listings and removal against a model, along random histories.
#include "nets.hpp"

using namespace vp;

struct Model { std::map<std::string, const Identifiable*> ids; std::map<std::string, std::string> al; std::map<std::string, std::map<std::string, std::string>> typed; };

static Model read(const Network& n) {
    Model m;
    for (const Identifiable& i : n.getIdentifiables()) {
        m.ids[i.getId()] = &i;
        for (const std::string& a : i.getAliases()) { m.al[a] = i.getId(); const std::string t = i.getAliasType(a); if (!t.empty()) { m.typed[i.getId()][t] = a; } }
    }
    return m;
}

static const Identifiable* lookup(const Model& m, const std::string& s) {
    const auto a = m.al.find(s);
    const auto i = m.ids.find(a == m.al.end() ? s : a->second);
    return i == m.ids.end() ? nullptr : i->second;
}

template <typename T> using Get = std::function<const T&(const Network&, const std::string&)>;

template <typename T> void kind(const Network& n, const Model& m, const std::vector<std::string>& names, const char* tn, const Get<T>& get, unsigned long count, const stdcxx::const_range<T>& all) {
    std::set<const Identifiable*> want, got;
    for (const auto& x : m.ids) { if (dynamic_cast<const T*>(x.second) != nullptr) { want.insert(x.second); } }
    unsigned long k = 0;
    for (const T& x : all) { got.insert(&dynamic_cast<const Identifiable&>(x)); ++k; }
    eq(k, static_cast<unsigned long>(want.size()), std::string("number listed ") + tn); check(got == want, std::string("listing ") + tn);
    eq(count, static_cast<unsigned long>(want.size()), std::string("count ") + tn);
    for (const auto& s : names) {
        const Identifiable* w = lookup(m, s); const T* t = dynamic_cast<const T*>(w);
        const T* r = nullptr;
        const bool th = throws([&]() { r = &get(n, s); });
        check(th == (t == nullptr), std::string("lookup succeeds exactly for a known object of the kind ") + tn, s);
        if (!th) { check(r == t, std::string("lookup returns the object ") + tn, s); }
    }
}

#define KIND(T, S) kind<T>(n, m, names, #T, [](const Network& x, const std::string& s) -> const T& { return x.get##T(s); }, n.get##T##Count(), n.get##S())

static void verify(const Network& n, const Model& m, const std::vector<std::string>& names, bool deep) {
    unsigned long k = 0;
    for (const Identifiable& i : n.getIdentifiables()) { ++k; const auto it = m.ids.find(i.getId()); check(it != m.ids.end() && it->second == &i, "listed under its own id", i.getId()); }
    eq(k, static_cast<unsigned long>(m.ids.size()), "number of identifiables");
    for (const auto& s : names) {
        const Identifiable* w = lookup(m, s);
        if (s.empty() && w == nullptr) { check(throws([&]() { n.find(s); }), "the empty id is rejected"); continue; }
        const auto r = n.find(s);
        check(r ? &r.get() == w : w == nullptr, "find", s);
        check(throws([&]() { n.getIdentifiable(s); }) == (w == nullptr), "getIdentifiable", s);
    }
    for (const auto& x : m.ids) {
        std::set<std::string> got, want;
        unsigned long c = 0;
        for (const std::string& a : x.second->getAliases()) { got.insert(a); ++c; }
        for (const auto& a : m.al) { if (a.second == x.first) { want.insert(a.first); } }
        check(got == want && c == want.size(), "aliases of the object", x.first); eq(x.second->hasAliases(), !want.empty(), "has aliases", x.first);
        const auto ty = m.typed.find(x.first);
        for (const std::string& a : got) {
            std::string t;
            if (ty != m.typed.end()) { for (const auto& e : ty->second) { if (e.second == a) { t = e.first; } } }
            eq(x.second->getAliasType(a), t, "type of alias", x.first + " " + a);
            if (!t.empty()) { const auto o = x.second->getAliasFromType(t); check(o && *o == a, "alias by type", x.first + " " + t); }
        }
    }
    if (!deep) { return; }
    KIND(Battery, Batteries); KIND(Branch, Branches); KIND(BusbarSection, BusbarSections); KIND(DanglingLine, DanglingLines); KIND(Generator, Generators);
    KIND(HvdcConverterStation, HvdcConverterStations); KIND(HvdcLine, HvdcLines); KIND(LccConverterStation, LccConverterStations); KIND(Line, Lines); KIND(Load, Loads);
    KIND(ShuntCompensator, ShuntCompensators); KIND(StaticVarCompensator, StaticVarCompensators); KIND(Substation, Substations); KIND(Switch, Switches);
    KIND(ThreeWindingsTransformer, ThreeWindingsTransformers); KIND(TwoWindingsTransformer, TwoWindingsTransformers); KIND(VoltageLevel, VoltageLevels); KIND(VscConverterStation, VscConverterStations);
}

static Identifiable* someone(Network& n, Model& m, const std::string& id) { return m.ids.count(id) != 0 ? &n.getIdentifiable(id) : nullptr; }

static Network history(Network n, unsigned long steps, unsigned long h) {
    Model m = read(n);
    std::vector<std::string> names{"", "x", "free#0", "nobody", n.getId()};
    for (const auto& x : m.ids) { names.push_back(x.first); }
    for (const auto& x : m.al) { names.push_back(x.first); }
    for (int i = 0; i < 12; ++i) { names.push_back("new" + str(i)); names.push_back("al" + str(i)); names.push_back("al" + str(i) + "#0"); names.push_back("al" + str(i) + "#1"); }
    at("history " + str(h) + " start"); verify(n, m, names, true);
    std::vector<std::string> types{"", "", "T1", "T2"};
    for (unsigned long s = 0; s < steps; ++s) {
        std::vector<std::string> ids; for (const auto& x : m.ids) { ids.push_back(x.first); }
        const std::string who = pick(ids); std::string name = pick(names); const std::string type = pick(types);
        const unsigned long op = rnd(100);
        bool deep = false;
        if (op < 40) {   // alias
            Identifiable& o = *someone(n, m, who); const bool unique = rnd(3) == 0;
            if (name.empty()) { name = "al0"; }
            at("history " + str(h) + " step " + str(s) + ": addAlias(" + name + ", " + type + (unique ? ", unique" : "") + ") on " + who);
            std::string a = name;
            if (unique && lookup(m, a) != nullptr) { unsigned long i = 0; do { a = name + "#" + str(i++); } while (lookup(m, a) != nullptr); }
            const bool used = !type.empty() && m.typed[who].count(type) != 0; const Identifiable* w = lookup(m, a);
            const bool ok = !used && (w == nullptr || w == &o);
            const bool th = throws([&]() { if (type.empty()) { o.addAlias(name, unique); } else { o.addAlias(name, type, unique); } });
            check(th == !ok, "alias accepted exactly when it is free");
            if (ok && w == nullptr) { m.al[a] = who; if (!type.empty()) { m.typed[who][type] = a; } names.push_back(a); }
        } else if (op < 60) {   // remove an alias
            Identifiable& o = *someone(n, m, who);
            std::string who2 = who;
            if (rnd(2) == 0 && !m.al.empty()) { auto it = m.al.begin(); std::advance(it, static_cast<long>(rnd(m.al.size()))); name = it->first; if (rnd(4) != 0) { who2 = it->second; } }
            Identifiable& o2 = who2 == who ? o : *someone(n, m, who2);
            at("history " + str(h) + " step " + str(s) + ": removeAlias(" + name + ") on " + who2);
            const auto it = m.al.find(name); const bool ok = it != m.al.end() && it->second == who2;
            const bool th = throws([&]() { o2.removeAlias(name); });
            check(th == !ok, "alias removed exactly when it is the object's");
            if (ok) { m.al.erase(name); auto& t = m.typed[who2]; for (auto e = t.begin(); e != t.end();) { if (e->second == name) { e = t.erase(e); } else { ++e; } } }
        } else if (op < 80) {   // add an object
            deep = true;
            const unsigned long what = rnd(6);
            at("history " + str(h) + " step " + str(s) + ": add object " + str(what) + " with id " + name);
            const bool ok = !name.empty() && lookup(m, name) == nullptr;
            const Identifiable* made = nullptr;
            std::vector<VoltageLevel*> bb; for (VoltageLevel& v : n.getVoltageLevels()) { if (v.getTopologyKind() == TopologyKind::BUS_BREAKER && !boost::empty(v.getBusBreakerView().getBuses())) { bb.push_back(&v); } }
            std::vector<VoltageLevel*> nb; for (VoltageLevel& v : n.getVoltageLevels()) { if (v.getTopologyKind() == TopologyKind::NODE_BREAKER) { nb.push_back(&v); } }
            bool tried = true;
            const bool th = throws([&]() {
                if (what == 0) { made = &n.newSubstation().setId(name).add(); }
                else if (what == 1 && n.getSubstationCount() > 0) { made = &n.getSubstations().begin()->newVoltageLevel().setId(name).setNominalV(20.0).setTopologyKind(rnd(2) == 0 ? TopologyKind::BUS_BREAKER : TopologyKind::NODE_BREAKER).add(); }
                else if (what == 2 && !bb.empty()) { VoltageLevel& v = *pick(bb); made = &v.newLoad().setId(name).setConnectableBus(v.getBusBreakerView().getBuses().begin()->getId()).setP0(1.0).setQ0(1.0).add(); }
                else if (what == 3 && !bb.empty()) { made = &pick(bb)->getBusBreakerView().newBus().setId(name).add(); }
                else if (what == 4 && !bb.empty()) { VoltageLevel& v = *pick(bb); made = &v.newGenerator().setId(name).setConnectableBus(v.getBusBreakerView().getBuses().begin()->getId()).setMinP(0.0).setMaxP(1.0).setTargetP(0.5).setTargetV(1.0).setVoltageRegulatorOn(true).add(); }
                else if (what == 5 && !nb.empty()) { VoltageLevel& v = *pick(nb); made = &v.getNodeBreakerView().newBusbarSection().setId(name).setNode(1000 + s).add(); }
                else { tried = false; }
            });
            if (tried) { check(th == !ok, "object accepted exactly when its id is free"); if (made != nullptr) { m.ids[name] = made; } }
        } else if (op < 97) {   // remove an object
            deep = true;
            Identifiable* o = someone(n, m, who); std::string id = who;
            at("history " + str(h) + " step " + str(s) + ": remove " + who);
            bool done = false;
            const bool th = throws([&]() {
                if (auto* c = dynamic_cast<Connectable*>(o)) { c->remove(); done = true; }
                else if (auto* l = dynamic_cast<HvdcLine*>(o)) { l->remove(); done = true; }
                else if (auto* w = dynamic_cast<Switch*>(o)) { VoltageLevel& v = w->getVoltageLevel(); if (v.getTopologyKind() == TopologyKind::BUS_BREAKER) { v.getBusBreakerView().removeSwitch(id); } else { v.getNodeBreakerView().removeSwitch(id); } done = true; }
            });
            if (done && !th) {
                m.ids.erase(id); m.typed.erase(id);
                for (auto e = m.al.begin(); e != m.al.end();) { if (e->second == id) { e = m.al.erase(e); } else { ++e; } }
            }
        } else {   // move the network
            deep = true;
            at("history " + str(h) + " step " + str(s) + ": move the network");
            const std::string id = n.getId();
            Network k(std::move(n));
            m.ids[id] = &k; verify(k, m, names, true);
            return k;   // the returned network is another object: the history ends here
        }
        verify(n, m, names, deep);
    }
    return n;
}

void run() {
    for (unsigned long h = 0; h < (st().thorough ? 150 : 12); ++h) {
        Network n = everything("net");
        n.addAlias("alias of the network");
        history(std::move(n), 60, h);
    }
}
