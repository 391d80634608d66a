// Extensions and properties: one per name, retrievable until removed, along random histories.
#include "nets.hpp"
#include <powsybl/AssertionError.hpp>
#include <powsybl/iidm/Extension.hpp>
#include <powsybl/stdcxx/instanceof.hpp>

using namespace vp;

template <int K> class Ext : public Extension {
public:
    Ext(Extendable& e, int tag) : Extension(e), m_tag(tag) {}
    const std::string& getName() const override { static std::string s = "ext" + std::to_string(K); return s; }
    const std::type_index& getType() const override { static std::type_index s = typeid(Ext<K>); return s; }
    int tag() const { return m_tag; }
private:
    void assertExtendable(const stdcxx::Reference<Extendable>& e) const override { if (e && !stdcxx::isInstanceOf<Identifiable>(e.get())) { throw powsybl::AssertionError("unexpected extendable"); } }
    int m_tag;
};

struct Model { std::map<int, int> ext; std::map<std::string, std::string> prop; };

template <int K> void verifyOne(Identifiable& o, const Model& m) {
    const std::string name = "ext" + std::to_string(K);
    const bool has = m.ext.count(K) != 0;
    const Identifiable& c = o;
    const auto a = o.findExtension<Ext<K>>(); const auto b = c.findExtension<Ext<K>>(); const auto d = o.getExtensionByName<Ext<K>>(name); const auto e = c.getExtensionByName<Extension>(name);
    check(static_cast<bool>(a) == has && static_cast<bool>(b) == has && static_cast<bool>(d) == has && static_cast<bool>(e) == has, "extension found exactly while present", name);
    check(throws([&]() { o.getExtension<Ext<K>>(); }) == !has, "getExtension of the type succeeds exactly while present", name);
    check(!o.getExtensionByName<Ext<99>>(name), "no extension of another type under the name", name);
    if (has && a && d) {
        check(&a.get() == &d.get() && &b.get() == &a.get() && &e.get() == &a.get() && &o.getExtension<Ext<K>>() == &a.get(), "the same extension by name and by type", name);
        eq(a.get().tag(), m.ext.at(K), "the extension added last", name);
        const auto x = a.get().template getExtendable<Extendable>();
        check(x && &x.get() == static_cast<Extendable*>(&o), "the extension knows the object it extends", name);
    }
}

static void verify(Identifiable& o, const Model& m) {
    verifyOne<0>(o, m); verifyOne<1>(o, m); verifyOne<2>(o, m);
    std::set<std::string> names; unsigned long n = 0;
    for (const Extension& e : o.getExtensions()) { names.insert(e.getName()); ++n; }
    std::set<std::string> want; for (const auto& x : m.ext) { want.insert("ext" + std::to_string(x.first)); }
    check(n == want.size() && names == want, "enumeration of the extensions");
    eq(o.hasProperty(), !m.prop.empty(), "has properties");
    std::set<std::string> keys; n = 0;
    for (const std::string& k : o.getPropertyNames()) { keys.insert(k); ++n; }
    std::set<std::string> wk; for (const auto& x : m.prop) { wk.insert(x.first); }
    check(n == wk.size() && keys == wk, "names of the properties");
    for (const std::string k : {"", "a", "b", "c", "d", "prop", "region", "?"}) {
        const auto it = m.prop.find(k); const bool has = it != m.prop.end();
        eq(o.hasProperty(k), has, "has property", k);
        check(throws([&]() { o.getProperty(k); }) == !has, "a property is read exactly when it is set", k);
        if (has) { eq(o.getProperty(k), it->second, "value of the property", k); }
        eq(o.getProperty(k, "default"), has ? it->second : std::string("default"), "value of the property or the default", k);
    }
}

template <int K> void mutate(Identifiable& o, Model& m, int what, int tag) {
    if (what == 0) { o.addExtension(stdcxx::make_unique<Ext<K>>(o, tag)); m.ext[K] = tag; } else { o.removeExtension<Ext<K>>(); m.ext.erase(K); }
}

void run() {
    for (unsigned long h = 0; h < (st().thorough ? 60 : 8); ++h) {
        Network n = everything("net");
        std::vector<Identifiable*> os; std::vector<Model> ms;
        for (Identifiable& i : n.getIdentifiables()) { if (&i == static_cast<Identifiable*>(&n) || rnd(6) == 0) { os.push_back(&i); Model m; for (const std::string& k : i.getPropertyNames()) { m.prop[k] = i.getProperty(k); } ms.push_back(m); } }
        for (unsigned long s = 0; s < 150; ++s) {
            const unsigned long w = rnd(os.size()); Identifiable& o = *os[w]; Model& m = ms[w]; const unsigned long op = rnd(10); const int tag = static_cast<int>(s);
            at("history " + str(h) + " step " + str(s) + ": operation " + str(op) + " on " + o.getId());
            if (op < 6) {
                const int what = rnd(3) == 0 ? 1 : 0;
                switch (rnd(3)) { case 0: mutate<0>(o, m, what, tag); break; case 1: mutate<1>(o, m, what, tag); break; default: mutate<2>(o, m, what, tag); }
            } else {
                const std::string k = pick(std::vector<std::string>{"", "a", "b", "c", "d", "prop", "region"}); const std::string v = "v" + str(rnd(5));
                const auto it = m.prop.find(k);
                const auto old = o.setProperty(k, v);
                check(static_cast<bool>(old) == (it != m.prop.end()) && (!old || *old == it->second), "the previous value is returned", k);
                m.prop[k] = v;
            }
            for (size_t i = 0; i < os.size(); ++i) { verify(*os[i], ms[i]); }
        }
        if (h % 2 == 1) {
            at("history " + str(h) + ": the network is moved");
            Model m = ms[0]; size_t at0 = 0;
            for (size_t i = 0; i < os.size(); ++i) { if (os[i] == static_cast<Identifiable*>(&n)) { m = ms[i]; at0 = i; } }
            n.removeExtension<Ext<2>>(); m.ext.erase(2);
            n.addExtension(stdcxx::make_unique<Ext<2>>(n, -5)); m.ext[2] = -5;
            Network k(std::move(n));
            os[at0] = &k; ms[at0] = m;
            for (size_t i = 0; i < os.size(); ++i) { verify(*os[i], ms[i]); }
        }
    }
}
