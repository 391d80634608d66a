// Electrical formulas against the pi model computed with complex numbers.
#include "nets.hpp"
#include <complex>
#include <powsybl/iidm/Boundary.hpp>
#include <powsybl/iidm/util/LinkData.hpp>
#include <powsybl/iidm/util/SV.hpp>

using namespace vp;
using C = std::complex<double>;

static const double DEG = 57.295779513082320877;
static bool close(double a, double b) { return near(a, b, 1e-6) || std::abs(a - b) < 1e-6; }
static bool closeAngle(double a, double b) { const double d = std::fmod(std::abs(a - b), 360.0); return close(a, b) || d < 1e-6 || 360.0 - d < 1e-6; }

struct Par { double r, x, g1, b1, g2, b2, rho, alpha; };
static std::string show(const Par& p) { return "(r=" + str(p.r) + " x=" + str(p.x) + " g1=" + str(p.g1) + " b1=" + str(p.b1) + " g2=" + str(p.g2) + " b2=" + str(p.b2) + " rho=" + str(p.rho) + " alpha=" + str(p.alpha) + ")"; }
struct VS { C v, s; };

// ideal transformer of ratio rho, shift alpha at end 1, series impedance, a shunt at each end
struct Pi {
    explicit Pi(const Par& p) {
        const C y = p.r == 0.0 && p.x == 0.0 ? C(0, 0) : 1.0 / C(p.r, p.x);
        const C k = std::polar(p.rho, p.alpha);
        y11 = (y + C(p.g1, p.b1)) * std::norm(k); y12 = -y * std::conj(k); y21 = -y * k; y22 = y + C(p.g2, p.b2);
    }
    VS other(int side, const VS& k) const {
        const C i = std::conj(k.s / k.v);
        const C v = side == 1 ? (i - y11 * k.v) / y12 : (i - y22 * k.v) / y21;
        const C j = side == 1 ? y21 * k.v + y22 * v : y11 * v + y12 * k.v;
        return {v, v * std::conj(j)};
    }
    C y11, y12, y21, y22;
};

static void same(const std::string& label, double p, double q, double u, double a, const VS& w, const std::string& det) {
    check(close(p, w.s.real()), label + ": active power", det + " got " + str(p) + " expected " + str(w.s.real()));
    check(close(q, w.s.imag()), label + ": reactive power", det + " got " + str(q) + " expected " + str(w.s.imag()));
    check(close(u, std::abs(w.v)), label + ": voltage", det + " got " + str(u) + " expected " + str(std::abs(w.v)));
    check(closeAngle(a, std::arg(w.v) * DEG), label + ": angle", det + " got " + str(a) + " expected " + str(std::arg(w.v) * DEG));
}
static void same(const std::string& label, const SV& s, const VS& w, const std::string& det) { same(label, s.getP(), s.getQ(), s.getU(), s.getA(), w, det); }

static Branch::Side other(Branch::Side s) { return s == Branch::Side::ONE ? Branch::Side::TWO : Branch::Side::ONE; }
static VS state(const SV& s) { return {std::polar(s.getU(), s.getA() / DEG), C(s.getP(), s.getQ())}; }
static double uni(double a, double b) { return a + (b - a) * static_cast<double>(rnd(10001)) / 10000.0; }
static double maybe(double v) { return rnd(4) == 0 ? 0.0 : v; }
static SV anySV(Branch::Side s) { return SV(uni(-300, 300), maybe(uni(-200, 200)), uni(50, 420), maybe(uni(-60, 60)), s); }

static void rawParameters() {
    for (int i = 0; i < (st().thorough ? 4000 : 600); ++i) {
        Par p{maybe(uni(0.01, 20)), uni(0.1, 60), maybe(uni(-1e-3, 1e-3)), maybe(uni(-1e-3, 1e-3)), maybe(uni(-1e-3, 1e-3)), maybe(uni(-1e-3, 1e-3)), rnd(3) == 0 ? 1.0 : uni(0.5, 1.5), maybe(uni(-0.5, 0.5))};
        at("parameters " + show(p));
        for (const auto side : {Branch::Side::ONE, Branch::Side::TWO}) {
            const SV sv = anySV(side);
            const std::string det = "from side " + str(side == Branch::Side::ONE ? 1 : 2) + " p=" + str(sv.getP()) + " q=" + str(sv.getQ()) + " u=" + str(sv.getU()) + " a=" + str(sv.getA());
            const SV o = sv.otherSide(p.r, p.x, p.g1, p.b1, p.g2, p.b2, p.rho, p.alpha);
            const VS w = Pi(p).other(side == Branch::Side::ONE ? 1 : 2, state(sv));
            same("other side", o, w, det);
            same("other side components", sv.otherSideP(p.r, p.x, p.g1, p.b1, p.g2, p.b2, p.rho, p.alpha), sv.otherSideQ(p.r, p.x, p.g1, p.b1, p.g2, p.b2, p.rho, p.alpha), sv.otherSideU(p.r, p.x, p.g1, p.b1, p.g2, p.b2, p.rho, p.alpha), sv.otherSideA(p.r, p.x, p.g1, p.b1, p.g2, p.b2, p.rho, p.alpha), w, det);
            check(o.getSide() == other(side), "side of the other side", det);
            same("other side of the other side", o.otherSide(p.r, p.x, p.g1, p.b1, p.g2, p.b2, p.rho, p.alpha), state(sv), det);
        }
        const double t2 = uni(0.5, 1.5), a2 = maybe(uni(-0.5, 0.5)), a1 = p.alpha, t1 = p.rho;
        const bool zero = rnd(10) == 0;
        const auto m = LinkData::calculateBranchAdmittance(zero ? 0.0 : p.r, zero ? 0.0 : p.x, t1, a1, t2, a2, C(p.g1, p.b1), C(p.g2, p.b2));
        const C y = zero ? C(0, 0) : 1.0 / C(p.r, p.x);
        const C v1 = std::polar(uni(50, 400), uni(-1, 1)), v2 = std::polar(uni(50, 400), uni(-1, 1));
        const C u1 = v1 / std::polar(t1, a1), u2 = v2 / std::polar(t2, a2);               // voltages behind the ideal transformers
        const C i1 = (y * (u1 - u2) + C(p.g1, p.b1) * u1) / std::conj(std::polar(t1, a1)), i2 = (y * (u2 - u1) + C(p.g2, p.b2) * u2) / std::conj(std::polar(t2, a2));
        const C j1 = m.y11 * v1 + m.y12 * v2, j2 = m.y21 * v1 + m.y22 * v2;
        check(std::abs(i1 - j1) < 1e-7 * (1 + std::abs(i1)) && std::abs(i2 - j2) < 1e-7 * (1 + std::abs(i2)), "branch admittance", "ratio2=" + str(t2) + " angle2=" + str(a2));
    }
}

static void equipment(Network& n) {
    for (const auto side : {Branch::Side::ONE, Branch::Side::TWO}) {
        const int k = side == Branch::Side::ONE ? 1 : 2;
        for (int i = 0; i < 5; ++i) {
            const SV sv = anySV(side);
            for (const Line& l : const_cast<const Network&>(n).getLines()) {
                at("line " + l.getId());
                same("other side of a line", sv.otherSide(l), Pi({l.getR(), l.getX(), l.getG1(), l.getB1(), l.getG2(), l.getB2(), 1.0, 0.0}).other(k, state(sv)), "");
                if (l.isTieLine()) {
                    const auto& t = dynamic_cast<const TieLine&>(l);
                    for (const TieLine::HalfLine* h : {&t.getHalf1(), &t.getHalf2()}) {
                        same("other side of a half line", sv.otherSideP(*h), sv.otherSideQ(*h), sv.otherSideU(*h), sv.otherSideA(*h), Pi({h->getR(), h->getX(), h->getG1(), h->getB1(), h->getG2(), h->getB2(), 1.0, 0.0}).other(k, state(sv)), "");
                    }
                }
            }
            for (const DanglingLine& d : const_cast<const Network&>(n).getDanglingLines()) {
                at("dangling line " + d.getId());
                const VS w = Pi({d.getR(), d.getX(), d.getG(), d.getB(), 0, 0, 1, 0}).other(k, state(sv));
                const VS s = Pi({d.getR(), d.getX(), d.getG() / 2, d.getB() / 2, d.getG() / 2, d.getB() / 2, 1, 0}).other(k, state(sv));
                same("other side of a dangling line", sv.otherSide(d), w, "");
                same("other side of a dangling line", sv.otherSide(d, false), w, "not split");
                same("other side of a dangling line", sv.otherSide(d, true), s, "split");
                same("other side components of a dangling line", sv.otherSideP(d), sv.otherSideQ(d), sv.otherSideU(d), sv.otherSideA(d), w, "");
                same("other side components of a dangling line", sv.otherSideP(d, false), sv.otherSideQ(d, false), sv.otherSideU(d, false), sv.otherSideA(d, false), w, "not split");
                same("other side components of a dangling line", sv.otherSideP(d, true), sv.otherSideQ(d, true), sv.otherSideU(d, true), sv.otherSideA(d, true), s, "split");
            }
            for (TwoWindingsTransformer& t : n.getTwoWindingsTransformers()) {
                if (t.hasRatioTapChanger()) { auto& c = t.getRatioTapChanger(); c.setTapPosition(c.getLowTapPosition() + static_cast<long>(rnd(static_cast<unsigned long>(c.getStepCount())))); }
                if (t.hasPhaseTapChanger()) { auto& c = t.getPhaseTapChanger(); c.setTapPosition(c.getLowTapPosition() + static_cast<long>(rnd(static_cast<unsigned long>(c.getStepCount())))); }
                double r = t.getR(), x = t.getX(), g = t.getG(), b = t.getB(), rho = t.getRatedU2() / t.getRatedU1(), alpha = 0.0;
                if (t.hasRatioTapChanger()) { const auto& s = t.getRatioTapChanger().getCurrentStep(); r *= 1 + s.getR() / 100; x *= 1 + s.getX() / 100; g *= 1 + s.getG() / 100; b *= 1 + s.getB() / 100; rho *= s.getRho(); }
                if (t.hasPhaseTapChanger()) { const auto& s = t.getPhaseTapChanger().getCurrentStep(); r *= 1 + s.getR() / 100; x *= 1 + s.getX() / 100; g *= 1 + s.getG() / 100; b *= 1 + s.getB() / 100; rho *= s.getRho(); alpha = s.getAlpha() / DEG; }
                at("transformer " + t.getId());
                if (r == 0.0 && x == 0.0) { continue; }
                same("other side of a transformer", sv.otherSide(t), Pi({r, x, g, b, 0, 0, rho, alpha}).other(k, state(sv)), "");
                same("other side of a transformer", sv.otherSide(t, false), Pi({r, x, g, b, 0, 0, rho, alpha}).other(k, state(sv)), "not split");
                same("other side of a transformer", sv.otherSide(t, true), Pi({r, x, g / 2, b / 2, g / 2, b / 2, rho, alpha}).other(k, state(sv)), "split");
            }
        }
    }
}

static void setState(Network& n) {
    for (Terminal& t : [&]() { std::vector<std::reference_wrapper<Terminal>> v; for (Connectable& c : n.getConnectables()) { for (Terminal& x : c.getTerminals()) { v.push_back(x); } } return v; }()) {
        if (t.getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION) { continue; }
        try { t.setP(uni(-200, 200)); } catch (const std::exception&) {}
        try { t.setQ(uni(-100, 100)); } catch (const std::exception&) {}
        const auto b = t.getBusView().getBus();
        if (b) { b.get().setV(uni(50, 420)); b.get().setAngle(uni(-40, 40)); }
    }
}

static void measured(Network& n) {
    for (Terminal& t : [&]() { std::vector<std::reference_wrapper<Terminal>> v; for (Connectable& c : n.getConnectables()) { for (Terminal& x : c.getTerminals()) { v.push_back(x); } } return v; }()) {
        at("terminal of " + t.getConnectable().get().getId());
        const auto b = t.getBusView().getBus();
        const double v = b ? b.get().getV() : std::nan("");
        if (t.getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION) { eqd(t.getI(), 0.0, "no current at a busbar section"); continue; }
        const double s = std::hypot(t.getP(), t.getQ());
        nearly(t.getI(), s / (std::sqrt(3.0) * v / 1000.0), near(t.getI(), s / std::sqrt(3.0) * v / 1000.0) ? "terminal current: hypot(P, Q) / sqrt(3) * V / 1000" : "terminal current");
    }
    for (const DanglingLine& d : const_cast<const Network&>(n).getDanglingLines()) {
        const auto& t = d.getTerminal(); const auto b = t.getBusView().getBus();
        at("boundary of " + d.getId());
        if (!b) { continue; }
        const VS w = Pi({d.getR(), d.getX(), d.getG() / 2, d.getB() / 2, d.getG() / 2, d.getB() / 2, 1, 0}).other(1, {std::polar(b.get().getV(), b.get().getAngle() / DEG), C(t.getP(), t.getQ())});
        const Boundary& o = d.getBoundary();
        same("boundary of a dangling line", o.getP(), o.getQ(), o.getV(), o.getAngle(), w, "");
    }
    for (const Line& l : const_cast<const Network&>(n).getLines()) {
        if (!l.isTieLine()) { continue; }
        const auto& t = dynamic_cast<const TieLine&>(l);
        at("tie line " + l.getId());
        const auto& h1 = t.getHalf1(); const auto& h2 = t.getHalf2();
        nearly(l.getR(), h1.getR() + h2.getR(), "tie line R"); nearly(l.getX(), h1.getX() + h2.getX(), "tie line X");
        nearly(l.getG1(), h1.getG1() + h2.getG1(), "tie line G1"); nearly(l.getG2(), h1.getG2() + h2.getG2(), "tie line G2");
        nearly(l.getB1(), h1.getB1() + h2.getB1(), "tie line B1"); nearly(l.getB2(), h1.getB2() + h2.getB2(), "tie line B2");
        check(&t.getHalf(Branch::Side::ONE) == &h1 && &t.getHalf(Branch::Side::TWO) == &h2, "half line of a side");
        for (int k = 1; k <= 2; ++k) {
            const auto& h = k == 1 ? h1 : h2; const Terminal& e = k == 1 ? l.getTerminal1() : l.getTerminal2();
            const auto b = e.getBusView().getBus();
            if (!b) { continue; }
            const VS w = Pi({h.getR(), h.getX(), h.getG1(), h.getB1(), h.getG2(), h.getB2(), 1, 0}).other(k, {std::polar(b.get().getV(), b.get().getAngle() / DEG), C(e.getP(), e.getQ())});
            const Boundary& o = h.getBoundary();
            same("boundary of a half line", o.getP(), o.getQ(), o.getV(), o.getAngle(), w, "side " + str(k));
        }
    }
}

void run() {
    rawParameters();
    for (const auto& f : networks()) {
        Network n = f.second();
        equipment(n);
        for (int i = 0; i < (st().thorough ? 20 : 4); ++i) { setState(n); measured(n); }
    }
}
