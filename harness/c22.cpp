// C22: the same problem in several scalar types.
#include "lib.h"
#include "prop.h"
#include "spectrum.h"
#include "periodic.h"
#include "sl.h"
#include "coupled.h"
#include <boost/multiprecision/float128.hpp>
using namespace lib;
typedef boost::multiprecision::float128 Q;
typedef long double LD;

template<class S>
static const char *name() { return std::is_same_v<S, LD> ? "long double" : std::is_same_v<S, Q> ? "quadruple" : "double"; }

// the narrowest type that still holds what is of interest
template<class S>
static LD down(const S &x) { return (LD) x; }

template<class S>
static S tolerance(Ctx &c) {
    static const std::vector<double> t = {1e-10, 1e-12, 1e-14, 1e-9, 1e-8, 1e-13, 1e-15, 1e-16}, u = {1e-12, 1e-14, 1e-16, 1e-18, 1e-20, 1e-22, 1e-25, 1e-8};
    return S(c.pick(std::is_same_v<S, Q> ? u : t));
}

template<class S>
static std::unique_ptr<Matslise<S>> make(const Pot &p, const S &tol, int uniform = 0) {
    auto f = [p](S x) { return p(x); };
    if (uniform) return std::make_unique<Matslise<S>>(f, S(p.a), S(p.b), tol, matslise::sector_builder::UniformSectorBuilder<Matslise<S>>(uniform));
    matslise::sector_builder::AutomaticSectorBuilder<Matslise<S>> sb(tol);
    for (double j: p.jumps) sb.jumps.push_back(S(j));
    return std::make_unique<Matslise<S>>(f, S(p.a), S(p.b), tol, sb);
}

template<class M>
static double unresolved(const Pot &p, const M &m) {
    std::vector<std::pair<double, double>> mesh;
    for (auto &s: m.sectors) mesh.push_back({(double) s->min, (double) s->max});
    return prop::unresolved(p, mesh) * 2 / p.length();
}

static PotOptions options(Ctx &c) {
    PotOptions o;
    o.maxJumps = c.chance(.25) ? 2 : 0;
    o.maxStrength = 1000;
    o.maxLength = 10;
    return o;
}

// eigenvalues and eigenfunctions
template<class S>
static void spectrumOf(Ctx &c) {
    Pot p = genPot(c, options(c));
    double L = p.length(), lo, hi;
    p.range(lo, hi);
    BC l = genBC(c, L), r = genBC(c, L);
    S tol = tolerance<S>(c);
    double tolD = std::max(1e-10, (double) tol);
    int i0 = (int) (c.chance(.7) ? c.integer(0, 4) : c.integer(5, 60)), n = (int) c.integer(1, 4);
    c.note("V", p.text());
    c.note("tol", (double) tol);
    c.note("left", l.text());
    c.note("right", r.text());
    c.note("indices", str(i0, " ", n));
    auto m = make<S>(p, tol);
    auto d = make<double>(p, tolD);
    c.note("sectors", str(m->sectorCount, " ", d->sectorCount));
    auto e = m->eigenvaluesByIndex(i0, i0 + n, toY<S>(l), toY<S>(r));
    auto f = d->eigenvaluesByIndex(i0, i0 + n, toY(l), toY(r));
    if ((int) e.size() != n) c.fail(str(name<S>(), ": ", e.size(), " eigenvalues instead of ", n));
    if ((int) f.size() != n) c.fail(str("double: ", f.size(), " eigenvalues instead of ", n));
    double uS = unresolved(p, *m), uD = unresolved(p, *d);
    auto scale = [&](double E) { return std::max({1., std::abs(E), E - lo, 1 / L / L}); };
    spectrum::Judge judge(p, l, r, (double) tol);
    double worst = 0;
    for (int i = 0; i < n; ++i) {
        LD E = down(e[i].second);
        double s = scale((double) E);
        if (e[i].first != i0 + i || f[i].first != i0 + i) c.fail(str("entry ", i, " carries the index ", e[i].first, ", and ", f[i].first, " in double"));
        double diff = (double) std::abs(E - f[i].second), allowed = ((double) tol + tolD) * s + uS + uD;
        worst = std::max(worst, diff / allowed);
        if (!(diff <= allowed)) c.fail(str("eigenvalue ", i0 + i, " is ", (double) E, " in ", name<S>(), " and ", f[i].second, " in double, allowed ", allowed));
        // the reference knows no more than 1e-16
        LD dd = 3 * (double) tol * s + uS + 4e-15 * s;
        long n0 = judge.below(E - dd), n1 = judge.below(E + dd);
        if (n0 > i0 + i || n1 <= i0 + i)
            c.fail(str(name<S>(), ": eigenvalue ", i0 + i, " = ", (double) E, ": there are ", n0, " eigenvalues below E-d and ", n1, " below E+d, d = ", (double) dd));
    }
    c.metric(str(name<S>(), ": difference with double / allowed"), worst);
    int k = (int) c.draw(n);
    S E = e[k].second;
    S err = m->eigenvalueError(E, toY<S>(l), toY<S>(r));
    if (!(err >= 0 && down(err) <= 60 * (double) tol * scale((double) E) + uS + 1e-14 * scale((double) E))) c.fail(str(name<S>(), ": error estimate ", (double) err, " of eigenvalue ", i0 + k));

    // eigenvalue and eigenfunction against those on another, finer, mesh in quadruple precision
    if (uS > .1 * (double) tol * scale((double) E) && !(uS < 1e-15)) c.label("not resolved");
    else if (!std::is_same_v<S, LD> || c.chance(.2)) {
        double gap = 1e300, Ed = (double) E;
        for (auto &x: d->eigenvaluesByIndex(std::max(0, i0 + k - 1), i0 + k + 2, toY(l), toY(r)))
            if (x.first != i0 + k) gap = std::min(gap, std::abs(x.second - Ed));
        Pot q = p;
        double extra = p.a + L * c.real(.2, .8); // a jump of nothing makes another mesh
        int piece = p.pieceOf(extra);
        q.jumps.insert(q.jumps.begin() + piece, extra);
        q.pieces.insert(q.pieces.begin() + piece, q.pieces[piece]);
        auto m2 = make<Q>(q, Q(tol) / 10);
        auto e2 = m2->eigenvaluesByIndex(i0 + k, i0 + k + 1, toY<Q>(l), toY<Q>(r));
        if (e2.size() != 1) c.fail("no eigenvalue on the other mesh in quadruple precision");
        Q diffE = Q(E) - e2[0].second;
        double eps = (double) std::numeric_limits<S>::epsilon();
        double allowedE = (.5 * (double) tol + 100 * eps) * scale(Ed);
        c.metric(str(name<S>(), ": difference with another mesh / allowed"), std::abs((double) diffE) / allowedE);
        if (!(std::abs((double) diffE) <= allowedE))
            c.fail(str(name<S>(), ": eigenvalue ", i0 + k, " = ", Ed, " differs by ", (double) diffE, " from the one in quadruple precision on another mesh, allowed ", allowedE));
        double sens = (5 * (double) tol + 100 * eps) * scale(Ed) / gap;
        if (sens < 1e-3) {
            auto y = m->eigenfunction(E, toY<S>(l), toY<S>(r), i0 + k);
            auto z = m2->eigenfunction(e2[0].second, toY<Q>(l), toY<Q>(r), i0 + k);
            double om = std::max(1 / L, std::sqrt(std::max(std::abs(Ed - lo), std::abs(Ed - hi))));
            std::vector<S> xs{S(p.a), S(p.b)};
            for (int i = 0; i < 8; ++i) xs.push_back(S(p.a) + S(L) * S(c.real(0, 1)));
            for (int i = 0; i < 4; ++i) {
                // close to a mesh point
                auto &s = *m->sectors[c.draw(m->sectorCount)];
                S off = S(c.logreal(1e-14, 1e-6)) * (s.max - s.min);
                xs.push_back(c.chance(.5) ? s.min + off : s.max - off);
            }
            double top = 0, sign = 1, w = 0, where = 0;
            std::vector<std::array<Q, 4>> v;
            for (auto &x: xs) {
                auto Y = (*y)(x);
                auto Z = (*z)(Q(x));
                v.push_back({Q(Y[0]), Q(Y[1]), Z[0], Z[1]});
                double s = std::hypot(om * (double) Y[0], (double) Y[1]);
                if (s > top) {
                    top = s;
                    sign = om * om * (double) Y[0] * (double) Z[0] + (double) Y[1] * (double) Z[1] > 0 ? 1 : -1;
                }
            }
            for (size_t i = 0; i < v.size(); ++i) {
                double diff = std::hypot(om * (double) (v[i][0] - Q(sign) * v[i][2]), (double) (v[i][1] - Q(sign) * v[i][3])) / top;
                if (!(diff <= w)) {
                    w = diff;
                    where = i;
                }
            }
            double growth = std::exp(2 * std::sqrt(std::max(0., hi - Ed)) * (double) (m->sectors[0]->h + m->sectors.back()->h));
            double allowed = 10 * sens + 100 * (double) tol + 100 * eps * growth;
            c.metric(str(name<S>(), ": eigenfunctions, difference / allowed"), w / allowed);
            c.label("eigenfunction");
            if (!(w <= allowed))
                c.fail(str(name<S>(), ": eigenfunction ", i0 + k, " (E = ", Ed, ") on two meshes at ", (double) xs[(size_t) where], ": (", (double) v[(size_t) where][0], ", ", (double) v[(size_t) where][1], ") and (", sign * (double) v[(size_t) where][2],
                           ", ", sign * (double) v[(size_t) where][3], "), relative difference ", w, ", allowed ", allowed));
        }
    }
    c.nontrivial(!p.pieces[0].terms.empty());
}

// Piecewise constant potentials: the boundary condition at b is an elementary function of E
template<class S>
static void exact(Ctx &c) {
    using std::sqrt;
    using std::cos;
    using std::sin;
    using std::cosh;
    using std::sinh;
    double a, b;
    genInterval(c, a, b, 10);
    double L = b - a, F = c.logreal(.1, 300) / L / L;
    std::vector<double> jumps, v;
    for (int i = (int) c.integer(0, 3); i > 0; --i) jumps.push_back(a + L * c.real(.05, .95));
    std::sort(jumps.begin(), jumps.end());
    for (size_t i = 0; i <= jumps.size(); ++i) v.push_back(c.real(-F, F));
    BC l = genBC(c, L), r = genBC(c, L);
    S tol = tolerance<S>(c);
    int i0 = (int) (c.chance(.7) ? c.integer(0, 6) : c.integer(7, 100));
    c.note("interval", str("[", a, ", ", b, "]"));
    std::string t;
    for (size_t i = 0; i < v.size(); ++i) t += str(v[i], i < jumps.size() ? str(" until ", jumps[i], ", ") : "");
    c.note("V", t);
    c.note("tol", (double) tol);
    c.note("left", l.text());
    c.note("right", r.text());
    c.note("index", str(i0));
    matslise::sector_builder::AutomaticSectorBuilder<Matslise<S>> sb(tol);
    for (double j: jumps) sb.jumps.push_back(S(j));
    matslise::Matslise<S> m([=](S x) {
        size_t i = 0;
        while (i < jumps.size() && x > S(jumps[i])) ++i;
        return S(v[i]);
    }, S(a), S(b), tol, sb);
    auto e = m.eigenvaluesByIndex(i0, i0 + 1, toY<S>(l), toY<S>(r));
    if (e.size() != 1 || e[0].first != i0) c.fail("the eigenvalue is missing");
    double lo = *std::min_element(v.begin(), v.end());
    // value and energy derivative
    auto solve = [&](Q E, Q &dy, long &zeros) -> std::array<Q, 2> {
        std::array<Q, 2> y{Q(l.y), Q(l.dy)};
        zeros = 0;
        Q x = a;
        for (size_t i = 0; i < v.size(); ++i) {
            Q end = i < jumps.size() ? jumps[i] : b, h = end - x, u = Q(v[i]) - E, k = sqrt(u < 0 ? -u : u);
            Q C = u < 0 ? Q(cos(k * h)) : Q(cosh(k * h)), Sn = k * h == 0 ? h : (u < 0 ? Q(sin(k * h)) : Q(sinh(k * h))) / k;
            std::array<Q, 2> z{C * y[0] + Sn * y[1], u * Sn * y[0] + C * y[1]};
            if (u < 0) {
                double p0 = std::atan2((double) (k * y[0]), (double) y[1]), p1 = p0 + (double) (k * h);
                zeros += (long) std::floor(p1 / M_PI) - (long) std::floor(p0 / M_PI);
            } else if ((y[0] > 0 && z[0] < 0) || (y[0] < 0 && z[0] > 0)) ++zeros;
            y = z;
            x = end;
        }
        return y;
    };
    Q E = e[0].second, dy;
    long zeros;
    // the residual y(b) r.dy - y'(b) r.y ... toY conditions: (y, y')(b) is parallel to (r.y, r.dy)
    auto residual = [&](Q E) {
        long z;
        Q d;
        auto y = solve(E, d, z);
        return Q(y[0] * r.dy - y[1] * r.y);
    };
    solve(E, dy, zeros);
    double s = std::max({1., std::abs((double) E), (double) E - lo, 1 / L / L}), eps = (double) std::numeric_limits<S>::epsilon();
    // the true eigenvalue lies within d of E: the residual changes its sign
    double d = (.5 * (double) tol + 100 * eps) * s;
    Q f0 = residual(E - d), f1 = residual(E + d), f = residual(E);
    double newton = std::abs((double) (f * 2 * d / (f1 - f0)));
    c.metric(str(name<S>(), ": piecewise constant, error / allowed"), newton / d);
    if ((f0 > 0) == (f1 > 0)) c.fail(str(name<S>(), ": eigenvalue ", i0, " = ", (double) E, " has no sign change within ", d, ", residuals ", (double) f0, " ", (double) f, " ", (double) f1));
    // the number of zeros in (a, b): one in b itself does not count
    bool near = false;
    long n0, n1;
    solve(E - 1e-3 * s, dy, n0);
    solve(E + 1e-3 * s, dy, n1);
    near = n0 != n1;
    if (!near && zeros != i0 + (0)) c.fail(str(name<S>(), ": eigenvalue ", i0, " = ", (double) E, " has an eigenfunction with ", zeros, " zeros"));
    c.label(near ? "zero close to the end" : "zeros counted");
    c.nontrivial(!jumps.empty());
}

// propagation of initial values against the reference
template<class S>
static void propagation(Ctx &c) {
    Pot p = genPot(c, options(c));
    double L = p.length(), lo, hi;
    p.range(lo, hi);
    S tol = tolerance<S>(c);
    double k = c.real(0, 20);
    double E = lo + k * k / L / L * (c.chance(.15) ? -.1 : 1), om = std::max(1 / L, std::sqrt(std::max(std::abs(E - lo), std::abs(E - hi))));
    c.note("V", p.text());
    c.note("tol", (double) tol);
    c.note("E", E);
    auto m = make<S>(p, tol);
    auto point = [&](double &base) -> S {
        switch (c.draw(4)) {
            case 0: return c.chance(.5) ? S(p.a) : S(p.b);
            case 1: {
                auto &s = *m->sectors[c.draw(m->sectorCount)];
                S off = (s.max - s.min) * S(c.logreal(1e-14, 1e-3));
                base = (double) (s.max - s.min);
                return c.chance(.5) ? s.min + off : s.max - off;
            }
            default: return S(p.a + L * c.real(0, 1));
        }
    };
    double unused = 0;
    S a = point(unused), b = point(unused);
    if (a < S(p.a) || a > S(p.b) || b < S(p.a) || b > S(p.b)) c.discard();
    c.note("from", (double) a);
    c.note("to", (double) b);
    // solutions propagate through the base points of the sectors of a and b
    auto base = [&](const S &x) -> LD {
        for (auto &s: m->sectors)
            if (x <= s->max) return down(s->direction == matslise::forward ? s->min : s->max);
        return down(b);
    };
    std::vector<ref::R> route{down(a)};
    LD ba = base(a), bb = base(b);
    route.push_back(ba);
    for (auto &s: m->sectors) {
        (void) s;
    }
    route.push_back(bb);
    route.push_back(down(b));
    auto co = p.coeff();
    ref::Path path(co, E, route, om);
    double y0[2] = {c.real(-1, 1), om * c.real(-1, 1)};
    if (y0[0] == 0 && y0[1] == 0) y0[0] = 1;
    Y<S> Y0;
    Y0.data[0] = S(y0[0]);
    Y0.data[1] = S(y0[1]);
    auto res = m->template propagate<1>(S(E), Y0, a, b);
    ref::Mat t = ref::transfer(co, E, down(a), down(b));
    LD r0 = t.m[0][0] * y0[0] + t.m[0][1] * y0[1], r1 = t.m[1][0] * y0[0] + t.m[1][1] * y0[1];
    LD n0 = std::hypot(om * (LD) y0[0], (LD) y0[1]);
    LD err = std::hypot(om * (down(res.first.data[0]) - r0), down(res.first.data[1]) - r1) / n0;
    LD scale = std::max({1., std::abs(E), E - lo, 1 / L / L});
    LD allowed = (5 * (double) tol * scale / om * std::max(1., L) / 1 + 3e-15L * (1 + om * L) + unresolved(p, *m) * L / om) * path.kappa;
    c.metric(str(name<S>(), ": propagation / allowed"), (double) (err / allowed));
    if (!(err <= allowed))
        c.fail(str(name<S>(), ": (y, y') = (", (double) down(res.first.data[0]), ", ", (double) down(res.first.data[1]), ") instead of (", (double) r0, ", ", (double) r1, "), error ", (double) err, ", allowed ", (double) allowed));
    c.nontrivial(!p.pieces[0].terms.empty());
}

// The other kinds of problems, against double
template<class S>
static void half(Ctx &c) {
    Pot p = genEvenPot(c, 1000);
    double L = p.length(), lo, hi;
    p.range(lo, hi);
    S tol = tolerance<S>(c);
    double tolD = std::max(1e-10, (double) tol);
    BC side = genBC(c, L);
    int i0 = (int) c.integer(0, 12), n = (int) c.integer(1, 4);
    c.note("V", p.text());
    c.note("tol", (double) tol);
    c.note("side", side.text());
    matslise::MatsliseHalf<S> m([p](S x) { return p(x); }, S(p.b), tol, matslise::sector_builder::AutomaticSectorBuilder<Matslise<S>>(tol));
    matslise::MatsliseHalf<double> d([p](double x) { return p(x); }, p.b, tolD, Auto(tolD));
    auto e = m.eigenvaluesByIndex(i0, i0 + n, toY<S>(side));
    auto f = d.eigenvaluesByIndex(i0, i0 + n, toY(side));
    if ((int) e.size() != n || (int) f.size() != n) c.fail("the number of eigenvalues is wrong");
    double u = prop::unresolved(p, [&] {
        std::vector<std::pair<double, double>> r;
        for (auto &s: d.ms->sectors) r.push_back({s->min, s->max});
        for (auto &s: m.ms->sectors) r.push_back({(double) s->min, (double) s->max});
        return r;
    }()) * 2 / L;
    for (int i = 0; i < n; ++i) {
        double E = (double) e[i].second, s = std::max({1., std::abs(E), E - lo, 4 / L / L});
        if (e[i].first != i0 + i) c.fail(str("index ", e[i].first, " instead of ", i0 + i));
        double allowed = ((double) tol + tolD) * s + u;
        c.metric(str(name<S>(), ": half range, difference / allowed"), std::abs(E - f[i].second) / allowed);
        if (!(std::abs(E - f[i].second) <= allowed)) c.fail(str(name<S>(), ": eigenvalue ", i0 + i, " is ", E, ", in double ", f[i].second));
    }
    auto y = m.eigenfunction(e[0].second, toY<S>(side), i0);
    S x = S(p.b) * S(c.real(0, 1));
    auto v = (*y)(x), w = (*y)(-x);
    S sg = i0 % 2 ? S(-1) : S(1);
    if (!(v[0] == sg * w[0] && v[1] == -sg * w[1])) c.fail(str(name<S>(), ": eigenfunction ", i0, " does not have its parity"));
    c.nontrivial(!p.pieces[0].terms.empty());
}

template<class S>
static void coupledConditions(Ctx &c) {
    Pot p = genPot(c, options(c));
    double L = p.length(), lo, hi;
    p.range(lo, hi);
    int kind;
    auto K = periodic::genK(c, L, kind);
    S tol = tolerance<S>(c);
    double tolD = std::max(1e-9, (double) tol);
    int i0 = (int) c.integer(0, 6), n = (int) c.integer(1, 4);
    c.note("V", p.text());
    c.note("tol", (double) tol);
    c.note("K", str(K[0], " ", K[1], " ", K[2], " ", K[3]));
    // the inverse of the unit determinant as exact as it gets
    Eigen::Matrix<S, 2, 2> KS;
    KS << S(K[0]), S(K[1]), S(K[2]), S(K[3]);
    matslise::sector_builder::AutomaticSectorBuilder<Matslise<S>> sb(tol);
    for (double j: p.jumps) sb.jumps.push_back(S(j));
    Auto sd(tolD);
    sd.jumps = p.jumps;
    matslise::PeriodicMatslise<S> m([p](S x) { return p(x); }, S(p.a), S(p.b), tol, sb, KS);
    matslise::PeriodicMatslise<double> d([p](double x) { return p(x); }, p.a, p.b, tolD, sd, periodic::toEigen(K));
    double bound = 450 / L;
    double form = K[1] == 0 ? std::abs(K[2] * K[0]) : (std::abs(K[0]) + std::abs(K[3]) + 2) / std::abs(K[1]);
    if (form > .2 * bound) c.discard();
    std::map<int, double> e, f;
    for (auto &t: m.eigenvaluesByIndex(i0, i0 + n)) for (int j = 0; j < std::get<2>(t); ++j) e[std::get<0>(t) + j] = (double) std::get<1>(t);
    for (auto &t: d.eigenvaluesByIndex(i0, i0 + n)) for (int j = 0; j < std::get<2>(t); ++j) f[std::get<0>(t) + j] = std::get<1>(t);
    double u = unresolved(p, m.matslise) + unresolved(p, d.matslise);
    for (int i = i0; i < i0 + n; ++i) {
        if (!e.count(i) || !f.count(i)) c.fail(str(name<S>(), ": eigenvalue ", i, " is missing"));
        double s = std::max({1., std::abs(e[i]), e[i] - lo, 1 / L / L}), allowed = 5 * (tolD + (double) tol) * s + u + 1e-8 * s;
        c.metric(str(name<S>(), ": coupled conditions, difference / allowed"), std::abs(e[i] - f[i]) / allowed);
        if (!(std::abs(e[i] - f[i]) <= allowed)) c.fail(str(name<S>(), ": eigenvalue ", i, " is ", e[i], ", in double ", f[i], ", allowed ", allowed));
    }
    // (y, y')(b) = K (y, y')(a)
    auto ps = m.eigenpairsByIndex(i0, i0 + 1);
    for (auto &t: ps)
        for (auto &g: std::get<2>(t)) {
            auto ya = (*g)(S(p.a)), yb = (*g)(S(p.b));
            double E = (double) std::get<1>(t), om = std::max(1 / L, std::sqrt(std::max(std::abs(E - lo), std::abs(E - hi))));
            auto size = [&](const S &y, const S &dy) { return std::hypot(om * (double) y, (double) dy); };
            double err = size(yb[0] - S(K[0]) * ya[0] - S(K[1]) * ya[1], yb[1] - S(K[2]) * ya[0] - S(K[3]) * ya[1]);
            double mag = size(yb[0], yb[1]) + size(S(K[0]) * ya[0] + S(K[1]) * ya[1], S(K[2]) * ya[0] + S(K[3]) * ya[1]) + om / std::sqrt(L);
            c.metric(str(name<S>(), ": coupling"), err / mag / (1e-9 + 1e2 * (double) tol));
            if (!(err <= (1e-9 + 1e2 * (double) tol) * mag)) c.fail(str(name<S>(), ": eigenfunction ", std::get<0>(t), " violates its boundary conditions by ", err, " of ", mag));
        }
    c.nontrivial(!p.pieces[0].terms.empty());
}

template<class S>
static void sturmLiouville(Ctx &c) {
    sl::Problem q = sl::genProblem(c);
    c.note("problem", q.text());
    double X = (double) sl::integral([&](sl::R r) { return q.xdr(r); }, q.a, q.b);
    double spread = 1 / X / X, Vmin = 1e300;
    for (int i = 0; i <= 200; ++i) Vmin = std::min(Vmin, (double) q.V(q.a + (sl::R) q.length() * i / 200));
    for (sl::R r: {(sl::R) q.a, (sl::R) q.b}) {
        sl::Jet g = sl::jpow(q.p.jet(r) * q.w.jet(r), .25L);
        double k = (double) (g.d / g.v / q.xdr(r));
        spread = std::max(spread, k * k);
    }
    S tol = S(c.pick(std::vector<double>{1e-10, 1e-8, 1e-12}));
    double tolD = std::max(1e-10, (double) tol);
    int i0 = (int) c.integer(0, 6), n = (int) c.integer(1, 3);
    c.note("tol", (double) tol);
    matslise::SturmLiouville<S> m([q](S x) { return q.p(x); }, [q](S x) { return q.q(x); }, [q](S x) { return q.w(x); },
                                  {S(q.a), S(q.b)}, tol);
    matslise::SturmLiouville<double> d([q](double x) { return q.p(x); }, [q](double x) { return q.q(x); }, [q](double x) { return q.w(x); },
                                       {q.a, q.b}, tolD);
    BC D{0, 1}, N{1, 0};
    BC l = c.chance(.5) ? D : N, r = c.chance(.5) ? D : N;
    c.note("left", l.text());
    c.note("right", r.text());
    auto e = m.eigenvaluesByIndex(i0, i0 + n, toY<S>(l), toY<S>(r));
    auto f = d.eigenvaluesByIndex(i0, i0 + n, toY(l), toY(r));
    if ((int) e.size() != n || (int) f.size() != n) c.fail("the number of eigenvalues is wrong");
    for (int i = 0; i < n; ++i) {
        double E = (double) e[i].second, F = f[i].second, s = std::max({1., std::abs(E), spread, E - Vmin});
        if (e[i].first != i0 + i) c.fail(str("index ", e[i].first, " instead of ", i0 + i));
        double allowed = (5 * ((double) tol + tolD) + 3e-8) * s;
        c.metric(str(name<S>(), ": Sturm-Liouville, difference / allowed"), std::abs(E - F) / allowed);
        if (!(std::abs(E - F) <= allowed)) c.fail(str(name<S>(), ": eigenvalue ", i0 + i, " is ", E, ", in double ", F, ", allowed ", allowed));
    }
    c.nontrivial(true);
}

template<class S>
static void coupledSystem(Ctx &c) {
    cs::Options o;
    auto p = cs::genPot(c, o);
    int n = (int) c.integer(2, 10);
    c.note("V", p.text());
    c.note("uniform", n);
    double lo, hi, L = p.length();
    p.range(lo, hi);
    double k = c.real(0, 10), E = lo + k * k / L / L, om = std::max(1 / L, std::sqrt(std::max(std::abs(E - lo), std::abs(E - hi))));
    c.note("E", E);
    typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M;
    matslise::Matscs<S> m([p](S x) -> M { return p.at<S>(x, p.pieceOf((double) x)); }, p.n, S(p.a), S(p.b), matslise::sector_builder::UniformSectorBuilder<matslise::Matscs<S>>(n));
    matslise::Matscs<double> d([p](double x) { return p.at<double>(x, p.pieceOf(x)); }, p.n, p.a, p.b, cs::UniformCS(n));
    double a = p.a + L * c.real(0, 1), b = p.a + L * c.real(0, 1);
    if (c.chance(.3)) a = p.a;
    if (c.chance(.3)) b = p.b;
    c.note("from", a);
    c.note("to", b);
    matslise::Matscs<Q> mq([p](Q x) -> Eigen::Matrix<Q, Eigen::Dynamic, Eigen::Dynamic> { return p.at<Q>(x, p.pieceOf((double) x)); }, p.n, Q(p.a), Q(p.b), matslise::sector_builder::UniformSectorBuilder<matslise::Matscs<Q>>(n));
    (void) hi;
    // the same formulas have to apply in each of the types
    for (int i = 0; i < n; ++i) {
        auto &s = *d.sectors[i];
        if (s.direction != m.sectors[i]->direction || s.direction != mq.sectors[i]->direction) c.discard();
        for (double x: {a, b})
            if ((x != p.a && std::abs(x - s.min) < 1e-9 * L) || (x != p.b && std::abs(x - s.max) < 1e-9 * L)) c.discard();
    }
    // rounding errors in the wider type are that much smaller as those in double
    auto values = [&](auto &ms, auto E) {
        typedef std::decay_t<decltype(E)> T;
        Y<T, Eigen::Dynamic> y(p.n);
        y.block() = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>::Identity(p.n, p.n);
        auto u = ms.propagate(E, y, T(a), T(b));
        std::vector<Q> r;
        for (int i = 0; i < p.n; ++i)
            for (int j = 0; j < p.n; ++j) {
                r.push_back(Q(u.first.block()(i, j)) * om);
                r.push_back(Q(u.first.block(matslise::dX)(i, j)));
            }
        return r;
    };
    double big = om, dd = 0, ds = 0;
    for (int i = 0; i < 3; ++i) {
        auto vq = values(mq, Q(E)), vs = values(m, S(E));
        auto vd = values(d, E);
        for (size_t j = 0; j < vq.size(); ++j) {
            big = std::max(big, std::abs((double) vq[j]));
            dd = std::max(dd, std::abs((double) (vq[j] - vd[j])));
            ds = std::max(ds, std::abs((double) (vq[j] - vs[j])));
        }
        if (std::is_same_v<S, Q>) break;
        E *= 1 + 1e-3;
    }
    if (std::is_same_v<S, Q>) ds = 0;
    double allowed = .05 * dd + 1e-17 * big;
    c.metric(str(name<S>(), ": coupled, difference / allowed"), ds / allowed);
    c.metric("coupled, rounding errors of double", dd / big);
    if (!(ds <= allowed)) c.fail(str(name<S>(), ": coupled system: error ", ds, " for values up to ", big, ", error in double ", dd));
    c.nontrivial(p.n > 1);
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C22", "a potential that is not constant; a system of at least two equations",
                                 {{"long double spectrum", 2400, 60000, spectrumOf<LD>},
                                  {"quadruple spectrum", 400, 6000, spectrumOf<Q>},
                                  {"long double propagation", 8000, 120000, propagation<LD>},
                                  {"quadruple propagation", 800, 12000, propagation<Q>},
                                  {"long double half", 1600, 20000, half<LD>},
                                  {"quadruple half", 160, 2000, half<Q>},
                                  {"long double coupled conditions", 1200, 20000, coupledConditions<LD>},
                                  {"quadruple coupled conditions", 120, 2000, coupledConditions<Q>},
                                  {"long double Sturm-Liouville", 800, 10000, sturmLiouville<LD>},
                                  {"quadruple Sturm-Liouville", 64, 1000, sturmLiouville<Q>},
                                  {"long double coupled system", 1200, 20000, coupledSystem<LD>},
                                  {"long double piecewise constant", 2400, 40000, exact<LD>},
                                  {"quadruple piecewise constant", 600, 10000, exact<Q>}},
                                 {"the reference integrator (long double); double as the other implementation"}});
}
