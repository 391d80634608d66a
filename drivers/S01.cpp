// Shunt compensators: susceptance and conductance of the sections in service, accepted section counts.
#include "nets.hpp"

using namespace vp;

static const double NAN_ = std::numeric_limits<double>::quiet_NaN();

struct Decl { bool linear; double b, g; unsigned long max; std::vector<std::pair<double, double>> sections; };

static double wantB(const Decl& d, unsigned long n) { return d.linear ? d.b * static_cast<double>(n) : n == 0 ? 0.0 : d.sections[n - 1].first; }
static double wantG(const Decl& d, unsigned long n) {
    if (d.linear) { return std::isnan(d.g) ? 0.0 : d.g * static_cast<double>(n); }
    if (n == 0) { return 0.0; }
    double last = 0.0;
    for (unsigned long i = 0; i < n; ++i) { if (!std::isnan(d.sections[i].second)) { last = d.sections[i].second; } }
    return last;
}

static std::string show(const Decl& d) {
    std::string s = d.linear ? "linear b=" + str(d.b) + " g=" + str(d.g) + " max=" + str(d.max) : "non linear";
    for (const auto& x : d.sections) { s += " (" + str(x.first) + "," + str(x.second) + ")"; }
    return s;
}

static void one(const Decl& d, unsigned long id) {
    Network n("n", "test");
    VoltageLevel& v = n.newSubstation().setId("S").add().newVoltageLevel().setId("V").setNominalV(100.0).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    v.getBusBreakerView().newBus().setId("B").add();
    const unsigned long max = d.linear ? d.max : d.sections.size();
    for (unsigned long start = 0; start <= max + 1; start += (max > 6 ? 1 + rnd(max) : 1)) {
        const std::string sid = "SH" + std::to_string(id) + "_" + std::to_string(start);
        at(show(d) + " added with " + std::to_string(start) + " sections");
        ShuntCompensator* s = nullptr;
        const std::string o = outcome([&]() {
            auto a = v.newShuntCompensator(); a.setId(sid).setBus("B").setConnectableBus("B").setSectionCount(start);
            if (d.linear) { a.newLinearModel().setBPerSection(d.b).setGPerSection(d.g).setMaximumSectionCount(d.max).add(); }
            else {
                auto m = a.newNonLinearModel();
                for (const auto& x : d.sections) { auto se = m.beginSection(); se.setB(x.first); if (!std::isnan(x.second)) { se.setG(x.second); } se.endSection(); }
                m.add();
            }
            s = &a.add();
        });
        check(o.empty() == (start <= max), "section count accepted exactly between 0 and the maximum", o);
        if (!o.empty() || s == nullptr) { continue; }
        eq(s->getMaximumSectionCount(), max, "maximum section count");
        nearly(s->getB(), wantB(d, start), "B of the sections in service"); nearly(s->getG(), wantG(d, start), "G of the sections in service");
        n.getVariantManager().cloneVariant("InitialVariant", "v", true);
        for (unsigned long k = 0; k <= max + 2; ++k) {
            const std::string det = "setSectionCount(" + std::to_string(k) + ")";
            const unsigned long before = s->getSectionCount();
            const bool th = throws([&]() { s->setSectionCount(k); });
            check(th == (k > max), "section count accepted exactly between 0 and the maximum", det);
            eq(s->getSectionCount(), th ? before : k, "section count stored", det);
            const bool tb = throws([&]() { nearly(s->getB(k), k <= max ? wantB(d, k) : 0.0, "B of a number of sections", det); });
            const bool tg = throws([&]() { nearly(s->getG(k), k <= max ? wantG(d, k) : 0.0, "G of a number of sections", det); });
            check(tb == (k > max) && tg == (k > max), "B and G exist exactly up to the maximum", det);
            if (!th) { nearly(s->getB(), wantB(d, k), "B of the sections in service", det); nearly(s->getG(), wantG(d, k), "G of the sections in service", det); }
        }
        n.getVariantManager().setWorkingVariant("v");
        nearly(s->getB(), wantB(d, start), "B of the sections in service in another variant");
        n.getVariantManager().setWorkingVariant("InitialVariant");
        n.getVariantManager().removeVariant("v");
    }
}

void run() {
    unsigned long id = 0;
    const std::vector<double> bs{1e-5, -2.5e-4, 0.0, 3.0, 12.75}, gs{NAN_, 0.0, 1e-6, -4.0, 7.5};
    for (double b : bs) { for (double g : gs) { for (unsigned long m : {1UL, 2UL, 3UL, 5UL, 40UL}) { one(Decl{true, b, g, m, {}}, ++id); } } }
    for (unsigned long r = 0; r < (st().thorough ? 3000UL : 150UL); ++r) {
        Decl d{false, 0, 0, 0, {}};
        for (unsigned long k = 1 + rnd(7); k > 0; --k) { d.sections.emplace_back(pick(bs) + static_cast<double>(k), pick(gs)); }
        one(d, ++id);
    }
    at("model adders");
    Network n("n", "test");
    VoltageLevel& v = n.newSubstation().setId("S").add().newVoltageLevel().setId("V").setNominalV(100.0).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    auto a = v.newShuntCompensator();
    check(throws([&]() { a.newLinearModel().setMaximumSectionCount(2).add(); }), "linear model without b is rejected");
    check(throws([&]() { a.newLinearModel().setBPerSection(1.0).add(); }), "linear model without maximum is rejected");
    check(throws([&]() { a.newLinearModel().setBPerSection(1.0).setMaximumSectionCount(0).add(); }), "linear model without section is rejected");
    check(throws([&]() { a.newNonLinearModel().add(); }), "non linear model without section is rejected");
    check(throws([&]() { a.newNonLinearModel().beginSection().setG(1.0).endSection(); }), "section without b is rejected");
}
