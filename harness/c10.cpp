// C10: declared discontinuities do not cost accuracy
#include "lib.h"
#include "prop.h"
#include "spectrum.h"
#include "efun.h"

using namespace lib;

// Piecewise smooth potentials: steps, periodic steps, jumps in special places.
static Pot genJumpy(Ctx &c) {
    PotOptions o;
    o.maxJumps = 1;
    Pot p;
    genInterval(c, p.a, p.b);
    double L = p.length();
    std::set<double> js;
    auto add = [&](double x) {
        bool apart = p.a + 1e-6 * L < x && x < p.b - 1e-6 * L;
        for (double j: js) apart = apart && std::abs(j - x) > 1e-6 * L;
        if (apart) js.insert(x);
    };
    int layout = (int) c.draw(6);
    switch (layout) {
        case 0: for (int i = (int) c.integer(1, 3); i > 0; --i) add(p.a + L * c.real(.01, .99)); break;
        case 1: { // a regular comb
            int n = (int) c.integer(2, 12);
            for (int i = 1; i < n; ++i) add(p.a + L * i / n);
            c.label("comb");
            break;
        }
        case 2: // around the place where the forward and backward sectors meet
            add(.4956864123 * p.b + .5043135877 * p.a);
            for (int i = (int) c.integer(0, 3); i > 0; --i)
                add(p.a + L * (.4956864123 + (c.chance(.5) ? 1 : -1) * c.logreal(1e-6, .1)));
            c.label("near the middle");
            break;
        case 3: // near the ends
            for (int i = (int) c.integer(1, 4); i > 0; --i) {
                double d = L * c.logreal(2e-6, .1);
                add(c.chance(.5) ? p.a + d : p.b - d);
            }
            c.label("near an end");
            break;
        case 4: { // close pairs: narrow barriers and wells
            for (int i = (int) c.integer(1, 3); i > 0; --i) {
                double x = p.a + L * c.real(.05, .95), d = L * c.logreal(1e-5, 3e-2);
                add(x);
                add(x + d);
            }
            c.label("close pair");
            break;
        }
        default: for (int i = (int) c.integer(4, 15); i > 0; --i) add(p.a + L * c.real(.01, .99));
    }
    p.jumps.assign(js.begin(), js.end());
    double S = genStrength(c, 3000) / (L * L);
    int kind = (int) c.draw(3);
    for (size_t i = 0; i <= p.jumps.size(); ++i) {
        Smooth s;
        s.x0 = p.a;
        s.L = L;
        double width = (i < p.jumps.size() ? p.jumps[i] : p.b) - (i ? p.jumps[i - 1] : p.a);
        Term T;
        T.kind = 0;
        // a narrow piece may be much higher or deeper
        T.amp = S * c.real(-1, 1) * std::min(30., std::max(1., c.chance(.3) ? .2 * L / width : 1));
        if (kind == 0) s.terms.push_back(T);
        else {
            if (kind == 1) s.terms.push_back(T);
            int n = (int) c.integer(0, 2);
            for (int k = 0; k < n; ++k) s.terms.push_back(genTerm(c, S));
        }
        p.pieces.push_back(s);
    }
    return p;
}

struct Problem {
    Pot p;
    double tol;
    BC l, r;
    std::unique_ptr<Matslise<double>> m;
    std::vector<std::pair<double, double>> mesh;
    double extra = 0;
};

static Problem problem(Ctx &c) {
    Problem q;
    q.p = genJumpy(c);
    q.tol = genTol(c);
    q.l = genBC(c, q.p.length());
    q.r = genBC(c, q.p.length());
    c.note("V", q.p.text());
    c.note("tol", q.tol);
    c.note("left", q.l.text());
    c.note("right", q.r.text());
    q.m = build(q.p, q.tol);
    for (auto &s: q.m->sectors) q.mesh.push_back({s->min, s->max});
    c.note("mesh", str(q.m->sectorCount, " sectors, match ", q.m->matchIndex));
    q.extra = 2 * prop::unresolved(q.p, q.mesh);
    return q;
}

// are the pieces really different at a jump?
static bool discontinuous(const Pot &p) {
    for (size_t i = 0; i < p.jumps.size(); ++i)
        if (std::abs(p.at(p.jumps[i], (int) i) - p.at(p.jumps[i], (int) i + 1)) * p.length() * p.length() > 1) return true;
    return false;
}

static void spectra(Ctx &c) {
    Problem q = problem(c);
    int i0 = (int) (c.chance(.5) ? 0 : c.integer(0, 30)), n = (int) c.integer(1, 6);
    c.note("indices", str("[", i0, ", ", i0 + n, ")"));
    auto l = toY(q.l), r = toY(q.r);
    auto ev = q.m->eigenvaluesByIndex(i0, i0 + n, l, r);
    if ((int) ev.size() != n) c.fail(str("returned ", ev.size(), " eigenvalues instead of ", n));
    spectrum::Judge judge(q.p, q.l, q.r, q.tol);
    for (int j = 0; j < n; ++j) {
        if (ev[j].first != i0 + j) c.fail(str("entry ", j, " carries index ", ev[j].first, " instead of ", i0 + j));
        if (j && !(ev[j].second >= ev[j - 1].second)) c.fail("eigenvalues are out of order");
        judge.require(c, i0 + j, ev[j].second, q.extra);
    }
    // by interval: everything between two energies
    double d = 25 * q.tol * judge.scale(ev.back().second) + q.extra;
    double e0 = ev.front().second - 3 * d - c.real(0, 1) * judge.scale(ev.front().second), e1 = ev.back().second + 3 * d;
    long lo0 = judge.below((ref::R) e0 - d), lo1 = judge.below((ref::R) e0 + d), hi0 = judge.below((ref::R) e1 - d), hi1 = judge.below((ref::R) e1 + d);
    auto in = q.m->eigenvalues(e0, e1, l, r);
    if ((long) in.size() < hi0 - lo1 || (long) in.size() > hi1 - lo0)
        c.fail(str("eigenvalues(", e0, ", ", e1, ") gives ", in.size(), ", there are between ", hi0 - lo1, " and ", hi1 - lo0));
    for (size_t j = 0; j < in.size(); ++j) {
        if (j && in[j].first != in[j - 1].first + 1) c.fail("indices of the interval query are not consecutive");
        judge.require(c, in[j].first, in[j].second, q.extra);
    }
    c.count("eigenvalues judged", n + (long) in.size());
    c.nontrivial(discontinuous(q.p));
}

static void propagation(Ctx &c) {
    prop::Case q;
    q.p = genJumpy(c);
    q.tol = genTol(c);
    q.m = build(q.p, q.tol);
    prop::genEnergy(c, q);
    c.note("V", q.p.text());
    c.note("tol", q.tol);
    c.note("mesh", str(q.m->sectorCount, " sectors, match ", q.m->matchIndex));
    c.note("E", q.E);
    auto point = [&]() {
        if (!c.chance(.4)) return prop::genPoint(c, q);
        double x = c.pick(q.p.jumps);
        if (c.chance(.4)) x = std::nextafter(x, c.chance(.5) ? 1e300 : -1e300);
        else if (c.chance(.4)) x += (c.chance(.5) ? 1 : -1) * q.L() * c.logreal(1e-12, 1e-3);
        return std::min(q.p.b, std::max(q.p.a, x));
    };
    double a = point(), b = point();
    BC y0 = prop::genInitial(c, q);
    c.note("from", a);
    c.note("to", b);
    c.note("y", y0.text());
    auto co = q.p.coeff();
    ref::Path path(co, q.E, prop::route(q, a, b), q.om);
    double L = q.L();
    Y<double> Y0 = toY(y0);
    auto y = q.m->propagate(q.E, Y0, a, b).first;
    ref::State z = path.total * ref::State{y0.y, y0.dy, 0, 0};
    double n0 = prop::norm(y0, q.om);
    double err = std::hypot(q.om * (double) (y.data[0] - z[0]), (double) (y.data[1] - z[1])) / n0;
    // narrow pieces may be far above the rest
    double unit = prop::accuracy(q) * (double) path.kappa;
    c.metric("err/unit", err / unit);
    bool crossed = false;
    for (double j: q.p.jumps) crossed = crossed || (std::min(a, b) < j && j < std::max(a, b));
    c.nontrivial(crossed && discontinuous(q.p));
    if (!(err <= prop::FACTOR * unit))
        c.fail(str("propagate gives (", y.data[0], ", ", y.data[1], "), the solution is (", (double) z[0], ", ", (double) z[1],
                   "): scaled error ", err, ", allowed ", prop::FACTOR * unit));
    // the energy derivative
    double derr = std::hypot(q.om * (double) (y.data[2] - z[2]), (double) (y.data[3] - z[3])) / n0;
    double dunit = prop::accuracy(q) * (double) path.kappa3 * L / q.om * (1 + 1 / (q.om * L));
    c.metric("derivative err/unit", derr / dunit);
    if (!(derr <= 10 * prop::FACTOR * dunit))
        c.fail(str("the energy derivative is (", y.data[2], ", ", y.data[3], "), expected (", (double) z[2], ", ", (double) z[3],
                   "): scaled error ", derr, ", allowed ", 10 * prop::FACTOR * dunit));
}

static void functions(Ctx &c) {
    Problem q = problem(c);
    int k = (int) (c.chance(.5) ? c.integer(0, 3) : c.integer(0, 25));
    c.note("index", k);
    auto l = toY(q.l), r = toY(q.r);
    auto ep = q.m->eigenpairsByIndex(k, k + 1, l, r);
    if (ep.size() != 1 || std::get<0>(ep[0]) != k) c.fail("eigenpairsByIndex does not return the one pair");
    double E = std::get<1>(ep[0]);
    c.note("E", E);
    auto *f = std::get<2>(ep[0]).get();
    auto mesh = efun::meshOf(*q.m);
    double lo, hi;
    q.p.range(lo, hi);
    double om = std::max(1 / q.p.length(), std::sqrt(std::max(std::abs(E - lo), std::abs(E - hi))));
    auto xs = efun::samples(c, q.p, mesh, om);
    for (double j: q.p.jumps) {
        xs.push_back(std::nextafter(j, -1e300));
        xs.push_back(std::nextafter(j, 1e300));
    }
    efun::Subject sub{q.p, mesh, q.tol, E, k, &q.l, &q.r, [f](double x) {
        auto v = (*f)(x);
        return efun::V2{v[0], v[1]};
    }};
    for (auto &e: q.m->eigenvaluesByIndex(std::max(0, k - 1), k + 2, l, r))
        if (e.first != k) sub.gap = std::min(sub.gap, std::abs(e.second - E));
    auto res = efun::judge(c, sub, xs);
    c.nontrivial(!res.ill && discontinuous(q.p));
}

// The half-range solver with jumps, declared on the positive half
static void half(Ctx &c) {
    Pot h = genJumpy(c);
    double X = h.length();
    Pot p;
    p.a = -X;
    p.b = X;
    // mirror: pieces are in t = (|x| - 0)/X
    for (auto &s: h.pieces) s.x0 = 0;
    double shift = h.a;
    std::vector<double> js;
    for (double j: h.jumps) js.push_back(j - shift);
    auto V = [h, js](double x) {
        x = std::abs(x);
        int i = 0;
        while (i < (int) js.size() && x >= js[i]) ++i;
        return h.pieces[i](x);
    };
    double tol = genTol(c);
    BC r = genBC(c, X), l{r.y, -r.dy};
    c.note("half of V", h.text());
    c.note("shift", shift);
    c.note("tol", tol);
    c.note("side", r.text());
    Auto sb(tol);
    sb.jumps = js;
    MatsliseHalf<double> m(V, X, tol, sb);
    int i0 = (int) c.integer(0, 20), n = (int) c.integer(1, 4);
    c.note("indices", str("[", i0, ", ", i0 + n, ")"));
    // reference on [0, X]: even and odd eigenvalues alternate
    std::vector<ref::R> br{0};
    for (double j: js) br.push_back(j);
    br.push_back(X);
    ref::Coeff co{[h](ref::R x, int piece, ref::R &P, ref::R &Q, ref::R &w) {
        P = w = 1;
        Q = h.pieces[piece](x);
    }, br};
    double lo = 1e300, hi = -1e300;
    for (size_t i = 0; i < h.pieces.size(); ++i)
        for (int k = 0; k <= 100; ++k) {
            double x = (double) (br[i] + (br[i + 1] - br[i]) * k / 100), v = h.pieces[i](x);
            lo = std::min(lo, v);
            hi = std::max(hi, v);
        }
    auto ev = m.eigenvaluesByIndex(i0, i0 + n, toY(r));
    if ((int) ev.size() != n) c.fail(str("returned ", ev.size(), " eigenvalues instead of ", n));
    Pot hh = h;
    hh.a = 0;
    hh.b = X;
    hh.jumps = js;
    std::vector<std::pair<double, double>> mesh;
    for (auto &s: m.ms->sectors) mesh.push_back({s->min, s->max});
    double extra = 4 * prop::unresolved(hh, mesh);
    for (int j = 0; j < n; ++j) {
        if (ev[j].first != i0 + j) c.fail("wrong index");
        double E = ev[j].second, d = 25 * tol * std::max({1., std::abs(E), E - lo, 1 / X / X}) + extra;
        auto below = [&](ref::R e) {
            return ref::countEigenvalues(co, e, 1, 0, r.y, r.dy) + ref::countEigenvalues(co, e, 0, 1, r.y, r.dy);
        };
        long n0 = below((ref::R) E - d), n1 = below((ref::R) E + d);
        if (n0 > i0 + j || n1 <= i0 + j)
            c.fail(str("half-range eigenvalue ", i0 + j, " = ", E, ": there are ", n0, " below E-d and ", n1, " below E+d, d=", d));
    }
    c.nontrivial(discontinuous(hh));
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C10",
                                 "the potential really jumps (by more than 1/L^2); propagation: a jump is crossed; functions: not ill-conditioned",
                                 {{"spectra", 5000, 100000, spectra},
                                  {"propagation", 8000, 150000, propagation},
                                  {"functions", 4000, 60000, functions},
                                  {"half", 3000, 40000, half}},
                                 {"declared jumps are sorted, distinct and inside the domain",
                                  "the reference integrator"}});
}
