// C14: Sturm-Liouville eigenvalues are the true eigenvalues of (p, q, w)
#include "sl.h"

using namespace sl;

constexpr double FIT = 1e-7;

struct Setup {
    Problem s;
    std::unique_ptr<SL> sl;
    BC l, r;
    double tol, X, Vmin;
    ref::Coeff co;
    double unit = 1; // the library gets unit * p and unit * q, its eigenvalues are unit times those of the reference

    double scale(double E) const { return std::max({1., std::abs(E), E - Vmin, 1 / X / X}); }

    // the size of the terms in the transformed problem: the energy and the logarithmic slopes of (p w)^(1/4) at the ends
    double rough(double E) const {
        double g = 0;
        for (double e: {s.a, s.b}) {
            Jet m = jpow(s.p.jet(e) * s.w.jet(e), .25L);
            double k = (double) (m.d / m.v / s.xdr(e));
            g = std::max(g, k * k);
        }
        return std::max(scale(E), g);
    }

    long below(R E) const {
        return ref::countEigenvalues(co, E, l.y, (R) l.dy * s.p((R) s.a), r.y, (R) r.dy * s.p((R) s.b));
    }
};

static Setup setup(Ctx &c) {
    Setup q;
    q.s = genProblem(c);
    auto s = q.s;
    c.note("problem", s.text());
    q.tol = genTol(c);
    q.X = (double) integral([&](R r) { return s.xdr(r); }, s.a, s.b);
    q.Vmin = 1e300;
    for (int i = 0; i <= 200; ++i) q.Vmin = std::min(q.Vmin, (double) s.V(s.a + (R) s.length() * i / 200));
    // conditions on (z, z'), sensible in the x-variable
    for (int side = 0; side < 2; ++side) {
        BC b = genBC(c, q.X);
        R e = side ? s.b : s.a;
        Jet m = jpow(s.p.jet(e) * s.w.jet(e), .25L);
        if (b.y != 0 && (b.dy != 0 || c.chance(.5))) { // from (y, y') to (z, z')
            R z = b.y / m.v, dz = (b.dy * s.xdr(e) - m.d * z) / m.v;
            b = {(double) z, (double) dz};
        }
        // z' = 0 is kept as it is half of the time
        (side ? q.r : q.l) = b;
    }
    c.note("tol", q.tol);
    c.note("left (z, z')", q.l.text());
    c.note("right (z, z')", q.r.text());
    q.co = s.coeff();
    if (c.chance(.3)) {
        q.unit = c.logreal(1e-2, std::max(1., 1e10 * q.X * q.X));
        c.label(q.unit > 1e6 ? "p and q multiplied by more than 1e6" : "p and q multiplied");
    }
    const double unit = q.unit;
    c.note("p and q are multiplied by", unit);
    q.sl = std::make_unique<SL>([s, unit](double r) { return unit * s.p(r); }, [s, unit](double r) { return unit * s.q(r); }, [s](double r) { return s.w(r); },
                                matslise::Domain<double>{s.a, s.b}, q.tol);
    c.nontrivial(!s.p.factors.empty() || !s.w.factors.empty());
    return q;
}

static void spectra(Ctx &c) {
    Setup q = setup(c);
    int i0 = (int) (c.chance(.5) ? 0 : c.integer(0, 40)), n = (int) c.integer(1, 6);
    c.note("indices", str("[", i0, ", ", i0 + n, ")"));
    // states so far below the potential that solutions leave the range of double are out of scope
    if (q.below(-std::pow(450 / (R) q.X, 2)) > 0) c.discard();
    auto ev = q.sl->eigenvaluesByIndex(i0, i0 + n, toY(q.l), toY(q.r));
    if ((int) ev.size() != n) c.fail(str("returned ", ev.size(), " eigenvalues instead of ", n));
    for (int j = 0; j < n; ++j) {
        double E = ev[j].second / q.unit;
        if (ev[j].first != i0 + j) c.fail(str("entry ", j, " carries index ", ev[j].first, " instead of ", i0 + j));
        if (!std::isfinite(E)) c.fail("eigenvalue is not finite");
        if (j && !(ev[j].second >= ev[j - 1].second)) c.fail("eigenvalues are out of order");
        // the transformation itself is a piecewise polynomial fit, which limits the accuracy whatever the tolerance
        auto good = [&](double d) { return q.below((R) E - d) <= i0 + j && q.below((R) E + d) > i0 + j; };
        double base = q.tol * std::max(q.scale(E), 1 / q.unit), floor = FIT * q.rough(E), factor = 25;
        for (double f: {1., 5.})
            if (good(f * base)) {
                factor = f;
                break;
            }
        if (factor == 25 && !good(25 * base)) {
            double g = 1e9;
            for (double f: {.03, .1, .3, 1.})
                if (good(25 * base + f * floor)) {
                    g = f;
                    break;
                }
            c.metric("share of the fit allowance", g);
            if (g > 1) {
                double d = 25 * base + floor;
                c.fail(str("eigenvalue ", i0 + j, " = ", E, ": there are ", q.below((R) E - d), " below E-d and ", q.below((R) E + d),
                           " below E+d, d=", d));
            }
            factor = 100;
        }
        c.metric("factor", factor);
    }
    c.count("eigenvalues judged", n);
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C14", "p or w is not 1",
                                 {{"spectra", 9000, 90000, spectra}},
                                 {"p and w are positive and smooth", "the reference integrator"}});
}
