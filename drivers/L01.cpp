// Loading limits: violation predicates, validation of the adders.
#include "nets.hpp"
#include <powsybl/iidm/ActivePowerLimits.hpp>
#include <powsybl/iidm/ActivePowerLimitsAdder.hpp>
#include <powsybl/iidm/ApparentPowerLimits.hpp>
#include <powsybl/iidm/ApparentPowerLimitsAdder.hpp>
#include <powsybl/iidm/CurrentLimits.hpp>
#include <powsybl/iidm/CurrentLimitsAdder.hpp>

using namespace vp;
static const double NAN_ = std::numeric_limits<double>::quiet_NaN();
struct Tl { std::string name; double value; unsigned long duration; bool fictitious; };
struct Set { bool defined; double permanent; std::vector<Tl> limits; };   // limits in decreasing order of duration

static std::string show(const Set& s) { std::string r = !s.defined ? "none" : "perm " + str(s.permanent); for (const auto& l : s.limits) { r += " " + l.name + ":" + str(l.value) + "@" + str(l.duration); } return r; }

template <typename A> static bool build(A adder, const Set& s, bool shuffle) {
    auto l = s.limits; if (shuffle) { std::reverse(l.begin(), l.end()); }
    adder.setPermanentLimit(s.permanent);
    bool dup = false; std::set<std::string> names;
    for (const auto& x : l) {
        const bool ok = x.value > 0 && !x.name.empty();
        const bool th = throws([&]() { adder.beginTemporaryLimit().setName(x.name).setValue(x.value).setAcceptableDuration(x.duration).setFictitious(x.fictitious).endTemporaryLimit(); });
        check(th == !ok, "temporary limit accepted exactly when value > 0 and named", show(s));
        if (!th && !names.insert(x.name).second) { dup = true; }
    }
    const bool ok = !dup && !(s.permanent <= 0);
    const std::string o = outcome([&]() { adder.add(); });
    check(o.empty() == ok, "limits accepted exactly when names are distinct and the permanent limit is not <= 0", show(s) + " " + o);
    return o.empty();
}

static LoadingLimits* get(Branch& b, const Branch::Side& s, const LimitType& t) { auto r = b.getLimits(t, s); return r ? &r.get() : nullptr; }

static double loading(const Branch& b, const Branch::Side& s, const LimitType& t) {
    const Terminal& x = b.getTerminal(s);
    if (t == LimitType::ACTIVE_POWER) { return x.getP(); }
    if (t == LimitType::APPARENT_POWER) { return std::sqrt(x.getP() * x.getP() + x.getQ() * x.getQ()); }
    return x.getI();
}

static bool wantPerm(const Set& s, double red, double i) { return s.defined && !std::isnan(s.permanent) && !std::isnan(i) && i >= s.permanent * red; }

// index of the band, -1 when none
static int wantBand(const Set& s, double red, double i) {
    if (!s.defined || std::isnan(s.permanent) || std::isnan(i)) { return -1; }
    double prev = s.permanent;
    for (size_t k = 0; k < s.limits.size(); ++k) { if (i >= prev * red && i < s.limits[k].value * red) { return static_cast<int>(k); } prev = s.limits[k].value; }
    return -1;
}

static void overload(const std::unique_ptr<Branch::Overload>& o, const Set& s, double red, double i, const std::string& what) {
    const int k = wantBand(s, red, i);
    if (!check(static_cast<bool>(o) == (k >= 0), "overload reported exactly in a band", what)) { return; }
    if (k < 0) { return; }
    const auto& l = s.limits[static_cast<size_t>(k)];
    eq(o->getTemporaryLimit().getName(), l.name, "overload names the band reached", what);
    eq(o->getTemporaryLimit().getAcceptableDuration(), l.duration, "duration of the band", what); eqd(o->getTemporaryLimit().getValue(), l.value, "value of the band", what); eq(o->getTemporaryLimit().isFictitious(), l.fictitious, "fictitious flag of the band", what);
    eqd(o->getPreviousLimit(), k == 0 ? s.permanent : s.limits[static_cast<size_t>(k - 1)].value, "previous limit", what);
    eq(o->getPreviousLimitName(), k == 0 ? std::string() : s.limits[static_cast<size_t>(k - 1)].name, "name of the previous limit", what);
}

static const std::vector<LimitType> TYPES{LimitType::CURRENT, LimitType::ACTIVE_POWER, LimitType::APPARENT_POWER};

static void query(Branch& b, const std::map<std::pair<int, int>, Set>& sets, double red, const std::string& what) {
    bool over = false, over1 = false; unsigned long dur = std::numeric_limits<unsigned long>::max();
    for (int s = 0; s < 2; ++s) {
        const auto side = s == 0 ? Branch::Side::ONE : Branch::Side::TWO;
        for (const auto& t : TYPES) {
            const Set& x = sets.at({s, static_cast<int>(t)});
            const double i = loading(b, side, t);
            const std::string w = what + " side " + str(s + 1) + " type " + str(static_cast<int>(t)) + " loading " + str(i) + " reduction " + str(red) + " limits " + show(x);
            check((get(b, side, t) != nullptr) == x.defined, "limits of the side and type", w);
            check(b.checkPermanentLimit(side, red, t) == wantPerm(x, red, i), "permanent limit reached", w); check(b.checkPermanentLimit(side, t) == wantPerm(x, 1.0, i), "permanent limit reached", w);
            check((s == 0 ? b.checkPermanentLimit1(red, t) : b.checkPermanentLimit2(red, t)) == wantPerm(x, red, i), "permanent limit reached", w); check((s == 0 ? b.checkPermanentLimit1(t) : b.checkPermanentLimit2(t)) == wantPerm(x, 1.0, i), "permanent limit reached", w);
            overload(b.checkTemporaryLimits(side, red, t), x, red, i, w); overload(b.checkTemporaryLimits(side, t), x, 1.0, i, w);
            overload(s == 0 ? b.checkTemporaryLimits1(red, t) : b.checkTemporaryLimits2(red, t), x, red, i, w); overload(s == 0 ? b.checkTemporaryLimits1(t) : b.checkTemporaryLimits2(t), x, 1.0, i, w);
            if (t == LimitType::CURRENT) { over = over || wantPerm(x, red, i); over1 = over1 || wantPerm(x, 1.0, i); const int k = wantBand(x, 1.0, i); if (k >= 0) { dur = std::min(dur, x.limits[static_cast<size_t>(k)].duration); } }
        }
    }
    check(b.isOverloaded(red) == over, "overloaded exactly when one side is", what); check(b.isOverloaded() == over1, "overloaded exactly when one side is", what);
    eq(b.getOverloadDuration(), dur, "overload duration is the smaller of both sides", what);
}

static Set randomSet() {
    Set s; s.defined = rnd(5) != 0; s.permanent = rnd(6) == 0 ? NAN_ : 1.0 + static_cast<double>(rnd(40));
    double v = std::isnan(s.permanent) ? 5.0 : s.permanent; unsigned long d = 4000;
    for (unsigned long k = rnd(5); k > 0; --k) { v += 1.0 + static_cast<double>(rnd(30)); d -= 1 + rnd(900); s.limits.push_back({"TL" + str(k), rnd(12) == 0 ? std::numeric_limits<double>::max() : v, d, rnd(2) == 0}); if (s.limits.back().value > 1e300) { break; } }
    if (!s.defined) { s.limits.clear(); s.permanent = NAN_; }
    return s;
}

static void branch(Branch& b, const std::string& name) {
    std::map<std::pair<int, int>, Set> sets;
    for (int s = 0; s < 2; ++s) {
        for (const auto& t : TYPES) {
            const Set x = randomSet(); sets[{s, static_cast<int>(t)}] = x;
            auto r = b.getLimits(t, s == 0 ? Branch::Side::ONE : Branch::Side::TWO);
            if (r) { r.get().remove(); }
            check(!b.getLimits(t, s == 0 ? Branch::Side::ONE : Branch::Side::TWO), "removed limits are gone", name);
            if (!x.defined) { continue; }
            const bool sh = rnd(2) == 0;
            if (t == LimitType::CURRENT) { if (s == 0) { build(b.newCurrentLimits1(), x, sh); } else { build(b.newCurrentLimits2(), x, sh); } }
            if (t == LimitType::ACTIVE_POWER) { if (s == 0) { build(b.newActivePowerLimits1(), x, sh); } else { build(b.newActivePowerLimits2(), x, sh); } }
            if (t == LimitType::APPARENT_POWER) { if (s == 0) { build(b.newApparentPowerLimits1(), x, sh); } else { build(b.newApparentPowerLimits2(), x, sh); } }
        }
    }
    for (const auto& e : sets) {
        const auto* l = get(b, e.first.first == 0 ? Branch::Side::ONE : Branch::Side::TWO, static_cast<LimitType>(e.first.second));
        if (l == nullptr) { continue; }
        eqd(l->getPermanentLimit(), e.second.permanent, "permanent limit as given", name);
        size_t k = 0;
        for (const auto& x : l->getTemporaryLimits()) { if (k < e.second.limits.size()) { eq(x.getName(), e.second.limits[k].name, "temporary limits in decreasing order of duration", name); } ++k; }
        eq(k, e.second.limits.size(), "number of temporary limits", name);
        for (const auto& x : e.second.limits) { eqd(l->getTemporaryLimitValue(x.duration), x.value, "value by duration", name); eqd(l->getTemporaryLimit(x.duration).getValue(), x.value, "limit by duration", name); eqd(l->getTemporaryLimitValue(x.duration + 100000), NAN_, "undefined for an unknown duration", name); }
    }
    for (int k = 0; k < 12; ++k) {
        const double red = std::vector<double>{1.0, 1.0, 0.5, 0.25, 2.0, 0.75}[rnd(6)];
        for (const auto& side : {Branch::Side::ONE, Branch::Side::TWO}) {
            const Set& x = sets.at({side == Branch::Side::ONE ? 0 : 1, static_cast<int>(LimitType::ACTIVE_POWER)});
            std::vector<double> c{0.0, NAN_, -5.0, 1e6, static_cast<double>(rnd(100))};
            if (!std::isnan(x.permanent)) { c.push_back(x.permanent); c.push_back(x.permanent * red); c.push_back(std::nextafter(x.permanent * red, 0.0)); }
            for (const auto& l : x.limits) { if (l.value < 1e6) { c.push_back(l.value * red); c.push_back(std::nextafter(l.value * red, 0.0)); c.push_back(l.value * red + 0.5); } }
            Terminal& t = b.getTerminal(side);
            t.setP(c[rnd(c.size())]); t.setQ(rnd(3) == 0 ? c[rnd(c.size())] : 0.0);
        }
        query(b, sets, red, name);
    }
}

static void rejected(Branch& b) {
    at("rejected limits");
    b.newCurrentLimits1().setPermanentLimit(7.0).beginTemporaryLimit().setName("a").setValue(9.0).setAcceptableDuration(60).endTemporaryLimit().beginTemporaryLimit().setName("b").setValue(8.0).setAcceptableDuration(600).endTemporaryLimit();
    auto& l = b.newCurrentLimits1().setPermanentLimit(7.0).add();
    for (double v : {NAN_, 0.0, -1.0, 3.5, 1e300, std::numeric_limits<double>::min()}) {
        const double old = l.getPermanentLimit(); const bool th = throws([&]() { l.setPermanentLimit(v); });
        check(th == (v <= 0), "permanent limit accepted exactly when undefined or > 0", str(v)); eqd(l.getPermanentLimit(), th ? old : v, "permanent limit stored or unchanged", str(v));
    }
    l.setPermanentLimit(7.0);
    for (double v : {0.0, -1.0}) { check(throws([&]() { b.newCurrentLimits1().setPermanentLimit(v).add(); }), "limits with a permanent limit <= 0 are rejected", str(v)); eqd(b.getCurrentLimits1().get().getPermanentLimit(), 7.0, "limits unchanged when rejected"); }
    for (double v : {NAN_, 0.0, -1.0}) { auto a = b.newCurrentLimits1(); check(throws([&]() { a.beginTemporaryLimit().setName("x").setValue(v).setAcceptableDuration(1).endTemporaryLimit(); }), "temporary value missing or <= 0 is rejected", str(v)); check(!a.hasTemporaryLimits(), "no limit added when rejected"); }
    { auto a = b.newCurrentLimits1(); check(throws([&]() { a.beginTemporaryLimit().setName("x").setValue(1).endTemporaryLimit(); }), "temporary limit without duration is rejected"); check(throws([&]() { a.beginTemporaryLimit().setAcceptableDuration(1).setValue(1).endTemporaryLimit(); }), "temporary limit without name is rejected"); check(!a.hasTemporaryLimits(), "no limit added when rejected"); }
    {
        auto a = b.newCurrentLimits1(); a.setPermanentLimit(1.0);
        for (unsigned long d : {10UL, 20UL, 30UL}) { a.beginTemporaryLimit().setName("n").setValue(static_cast<double>(d)).setAcceptableDuration(d).ensureNameUnicity().endTemporaryLimit(); }
        check(!throws([&]() { a.add(); }), "names made unique on request");
        std::set<std::string> s; for (const auto& x : b.getCurrentLimits1().get().getTemporaryLimits()) { s.insert(x.getName()); } eq(s.size(), static_cast<size_t>(3), "distinct names on request");
    }
    {
        auto a = b.newCurrentLimits1(); a.setPermanentLimit(1.0);
        for (unsigned long d : {10UL, 20UL}) { a.beginTemporaryLimit().setName("n").setValue(static_cast<double>(d)).setAcceptableDuration(d).endTemporaryLimit(); }
        check(throws([&]() { a.add(); }), "two limits of the same name are rejected"); 
        auto c = b.newCurrentLimits1(); c.setPermanentLimit(1.0);
        c.beginTemporaryLimit().setName("p").setValue(2.0).setAcceptableDuration(10).endTemporaryLimit(); 
        check(!throws([&]() { c.add(); }), "one limit is accepted");
    }
    check(throws([&]() { b.getLimits(LimitType::VOLTAGE, Branch::Side::ONE); }), "voltage limits are refused");
}

template <typename H> static void holder(H& h, const std::string& name) {
    at(name);
    const Set a{true, 10.0, {{"A", 20.0, 60, false}}}, b{true, 11.0, {{"B", 21.0, 50, true}}}, c{true, 12.0, {}};
    build(h.newCurrentLimits(), a, false); build(h.newActivePowerLimits(), b, false); build(h.newApparentPowerLimits(), c, false);
    eqd(h.getCurrentLimits().get().getPermanentLimit(), 10.0, "current limits of the holder"); eqd(h.getActivePowerLimits().get().getPermanentLimit(), 11.0, "active power limits of the holder"); eqd(h.getApparentPowerLimits().get().getPermanentLimit(), 12.0, "apparent power limits of the holder");
    h.getActivePowerLimits().get().remove();
    check(!h.getActivePowerLimits(), "removed limits are gone"); check(static_cast<bool>(h.getCurrentLimits()) && static_cast<bool>(h.getApparentPowerLimits()), "other limits are kept");
    const Set bad{true, -1.0, {}};
    build(h.newCurrentLimits(), bad, false); eqd(h.getCurrentLimits().get().getPermanentLimit(), 10.0, "limits unchanged when rejected");
}

void run() {
    Network n = everything();
    const int rounds = st().thorough ? 4000 : 250;
    std::vector<Branch*> bs;
    for (auto& l : n.getLines()) { bs.push_back(&l); }
    for (auto& t : n.getTwoWindingsTransformers()) { bs.push_back(&t); }
    for (int r = 0; r < rounds; ++r) { Branch& b = *bs[rnd(bs.size())]; at("branch " + b.getId() + " round " + str(r)); 
        for (const auto& s : {Branch::Side::ONE, Branch::Side::TWO}) { auto bus = b.getTerminal(s).getBusView().getBus(); if (bus) { bus.get().setV(rnd(4) == 0 ? NAN_ : 100.0 + static_cast<double>(rnd(300))); } }
        branch(b, b.getId()); }
    rejected(*bs[0]);
    for (auto& d : n.getDanglingLines()) { holder(d, "dangling line " + d.getId()); }
    for (auto& t : n.getThreeWindingsTransformers()) { holder(t.getLeg1(), "leg 1"); holder(t.getLeg2(), "leg 2"); holder(t.getLeg3(), "leg 3"); }
}
