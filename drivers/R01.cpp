// Reactive limits: bounds, interpolation, validation of the adders.
#include "nets.hpp"
#include <powsybl/iidm/MinMaxReactiveLimits.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurve.hpp>

using namespace vp;
static const double NAN_ = std::numeric_limits<double>::quiet_NaN();
struct Pt { double p, lo, hi; };

static double want(std::vector<Pt> v, double p, bool lo) {
    std::sort(v.begin(), v.end(), [](const Pt& a, const Pt& b) { return a.p < b.p; });
    const auto q = [lo](const Pt& x) { return lo ? x.lo : x.hi; };
    for (const auto& x : v) { if (x.p == p) { return q(x); } }
    if (p < v.front().p) { return q(v.front()); }
    if (p > v.back().p) { return q(v.back()); }
    size_t i = 0;
    while (v[i + 1].p < p) { ++i; }
    return q(v[i]) + (q(v[i + 1]) - q(v[i])) * ((p - v[i].p) / (v[i + 1].p - v[i].p));
}

static std::string show(const std::vector<Pt>& v) { std::string s; for (const auto& x : v) { s += "(" + str(x.p) + "," + str(x.lo) + "," + str(x.hi) + ")"; } return s; }

static void curve(ReactiveLimitsHolder& h, const std::vector<Pt>& v) {
    at("curve " + show(v));
    auto a = h.newReactiveCapabilityCurve();
    std::vector<Pt> in; std::set<double> seen;
    for (const auto& x : v) {
        const bool ok = !std::isnan(x.p) && !std::isnan(x.lo) && !std::isnan(x.hi) && seen.count(x.p) == 0;
        const bool th = throws([&]() { a.beginPoint().setP(x.p).setMinQ(x.lo).setMaxQ(x.hi).endPoint(); });
        check(th == !ok, "point accepted exactly when complete and new", "(" + str(x.p) + "," + str(x.lo) + "," + str(x.hi) + ")");
        if (!th) { in.push_back(x); seen.insert(x.p); }
    }
    h.newMinMaxReactiveLimits().setMinQ(-1.5).setMaxQ(2.5).add();
    const std::string o = outcome([&]() { a.add(); });
    check(o.empty() == (in.size() >= 2), "curve accepted exactly with two points", o);
    if (!o.empty()) {
        check(!throws([&]() { const auto& m = h.getReactiveLimits<MinMaxReactiveLimits>(); eqd(m.getMinQ(), -1.5, "limits unchanged after a rejected curve"); eqd(m.getMaxQ(), 2.5, "limits unchanged after a rejected curve"); }), "limits unchanged after a rejected curve");
        return;
    }
    const auto& c = h.getReactiveLimits<ReactiveCapabilityCurve>();
    eq(c.getPointCount(), static_cast<unsigned long>(in.size()), "number of points");
    check(c.getKind() == ReactiveLimitsKind::CURVE, "kind");
    auto s = in; std::sort(s.begin(), s.end(), [](const Pt& x, const Pt& y) { return x.p < y.p; });
    eqd(c.getMinP(), s.front().p, "lowest active power"); eqd(c.getMaxP(), s.back().p, "highest active power");
    size_t i = 0;
    for (const auto& x : c.getPoints()) { if (i < s.size()) { eqd(x.getP(), s[i].p, "points ordered by active power"); eqd(x.getMinQ(), s[i].lo, "points as given"); eqd(x.getMaxQ(), s[i].hi, "points as given"); } ++i; }
    eq(i, s.size(), "number of points enumerated");
    std::vector<double> q{-1e9, 1e9, 0.0, std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest()};
    for (const auto& x : in) { for (double d : {0.0, 0.125, -0.125, 1.0, -1.0, 7.5, -33.25}) { q.push_back(x.p + d); } q.push_back(std::nextafter(x.p, 1e9)); q.push_back(std::nextafter(x.p, -1e9)); }
    for (double p : q) {
        nearly(c.getMinQ(p), want(in, p, true), "minimum reactive power", "at " + str(p)); nearly(c.getMaxQ(p), want(in, p, false), "maximum reactive power", "at " + str(p));
        const ReactiveLimits& r = c;
        nearly(r.getMinQ(p), want(in, p, true), "minimum reactive power", "at " + str(p)); nearly(r.getMaxQ(p), want(in, p, false), "maximum reactive power", "at " + str(p));
    }
}

static void minmax(ReactiveLimitsHolder& h) {
    h.newReactiveCapabilityCurve().beginPoint().setP(0.0).setMinQ(-3.0).setMaxQ(3.0).endPoint().beginPoint().setP(1.0).setMinQ(-3.0).setMaxQ(3.0).endPoint().add();
    for (double a : {NAN_, -10.5, 0.0, 3.25, 1e300}) {
        for (double b : {NAN_, -10.5, 0.0, 3.25, 1e300}) {
            at("min " + str(a) + " max " + str(b));
            const bool ok = a <= b;
            const std::string o = outcome([&]() { h.newMinMaxReactiveLimits().setMinQ(a).setMaxQ(b).add(); });
            check(o.empty() == ok, "bounds accepted exactly when both are numbers and min <= max", o);
            if (ok) {
                const auto& m = h.getReactiveLimits<MinMaxReactiveLimits>();
                check(m.getKind() == ReactiveLimitsKind::MIN_MAX, "kind");
                eqd(m.getMinQ(), a, "min Q"); eqd(m.getMaxQ(), b, "max Q");
                for (double p : {-1e9, 0.0, 12.5, NAN_}) { eqd(static_cast<const ReactiveLimits&>(m).getMinQ(p), a, "min Q for every active power"); eqd(static_cast<const ReactiveLimits&>(m).getMaxQ(p), b, "max Q for every active power"); }
                h.newReactiveCapabilityCurve().beginPoint().setP(0.0).setMinQ(-3.0).setMaxQ(3.0).endPoint().beginPoint().setP(1.0).setMinQ(-3.0).setMaxQ(3.0).endPoint().add();
            } else { check(!throws([&]() { eqd(h.getReactiveLimits<ReactiveCapabilityCurve>().getMinQ(0.5), -3.0, "limits unchanged after rejected bounds"); }), "limits unchanged after rejected bounds"); }
        }
    }
}

void run() {
    Network n = everything();
    std::vector<std::pair<std::string, ReactiveLimitsHolder*>> hs;
    for (auto& g : n.getGenerators()) { hs.emplace_back(g.getId(), &g); }
    for (auto& b : n.getBatteries()) { hs.emplace_back(b.getId(), &b); }
    for (auto& c : n.getVscConverterStations()) { hs.emplace_back(c.getId(), &c); }
    for (auto& d : n.getDanglingLines()) { if (d.getGeneration()) { hs.emplace_back(d.getId(), &d.getGeneration().get()); } }
    const auto some = []() { return static_cast<double>(static_cast<long>(rnd(4001)) - 2000) / 8.0; };
    for (auto& h : hs) {
        at(h.first);
        minmax(*h.second);
        curve(*h.second, {}); curve(*h.second, {{1, -1, 1}}); curve(*h.second, {{1, -1, 1}, {1, -2, 2}}); curve(*h.second, {{NAN_, -1, 1}, {1, NAN_, 2}, {2, -1, NAN_}});
        curve(*h.second, {{0, -1, 1}, {-0.5, -7, 2}, {100, -3, 9}, {NAN_, 1, 2}, {100, 5, 6}});
        for (int i = 0; i < (st().thorough ? 300 : 30); ++i) {
            std::vector<Pt> v;
            for (unsigned long k = rnd(9); k > 0; --k) { const double a = some(), b = some(); v.push_back({rnd(25) == 0 ? NAN_ : rnd(6) == 0 && !v.empty() ? v[0].p : some(), std::min(a, b), std::max(a, b)}); }
            curve(*h.second, v);
        }
    }
}
