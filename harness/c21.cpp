// C21: symmetries of the equation.  The same problem is posed in several equivalent ways; no reference solution is involved, so the
// problems may be much larger than those of the other checks.
#include "lib.h"
#include "prop.h"
#include "periodic.h"
#include "sl.h"
#include "coupled.h"
using namespace lib;

// x = (x_new - shift) * s (s may be negative), V_new = s^2 (V + up)
struct Posed {
    std::function<double(double)> V;
    double a = 0, b = 1, lo = 0, hi = 0; // interval, range of V
    std::vector<double> jumps;
    BC l, r;
    double tol = 1e-8, finer = 0;
    // E_new = escale * (E + eshift); x_new = x * xscale + xshift
    double escale = 1, eshift = 0, xscale = 1, xshift = 0;
    std::string text;

    double length() const { return b - a; }

    double energy(double E) const { return escale * (E + eshift); }

    double original(double E) const { return E / escale - eshift; }

    double scale(double E) const { return std::max({1., std::abs(E), E - lo, 1 / length() / length()}); }

    // accuracy of an eigenvalue (of this problem) in the units of the original
    double accuracy(double E) const { return 1.5 * tol * scale(E) / escale; }

    std::unique_ptr<Matslise<double>> build() const {
        Auto sb(tol);
        sb.jumps = jumps;
        if (finer > 0) {
            auto m = std::make_unique<Matslise<double>>(V, a, b, tol, sb);
            double h = length();
            for (auto &s: m->sectors) h = std::min(h, s->max - s->min);
            int n = (int) std::ceil(length() / h * finer) + 1;
            if (n < 3000 && jumps.empty()) return std::make_unique<Matslise<double>>(V, a, b, tol, Uniform(n));
            return m;
        }
        return std::make_unique<Matslise<double>>(V, a, b, tol, sb);
    }
};

static Posed pose(const Pot &p, double tol, const BC &l = {0, 1}, const BC &r = {0, 1}) {
    Posed q;
    q.V = [p](double x) { return p(x); };
    q.a = p.a;
    q.b = p.b;
    p.range(q.lo, q.hi);
    q.jumps = p.jumps;
    q.l = l;
    q.r = r;
    q.tol = tol;
    return q;
}

static Posed translated(const Posed &o, double s) {
    Posed q = o;
    q.V = [f = o.V, s](double x) { return f(x - s); };
    q.a += s;
    q.b += s;
    for (auto &j: q.jumps) j += s;
    q.xshift += s;
    q.text += str(" translate ", s);
    return q;
}

static Posed mirrored(const Posed &o) {
    Posed q = o;
    q.V = [f = o.V](double x) { return f(-x); };
    q.a = -o.b;
    q.b = -o.a;
    for (auto &j: q.jumps) j = -j;
    std::reverse(q.jumps.begin(), q.jumps.end());
    q.l = {o.r.y, -o.r.dy};
    q.r = {o.l.y, -o.l.dy};
    q.xscale = -q.xscale;
    q.xshift = -q.xshift;
    q.text += " mirror";
    return q;
}

static Posed stretched(const Posed &o, double s) {
    Posed q = o; // x = s x_new
    q.V = [f = o.V, s](double x) { return s * s * f(s * x); };
    q.a = o.a / s;
    q.b = o.b / s;
    for (auto &j: q.jumps) j /= s;
    q.lo *= s * s;
    q.hi *= s * s;
    q.l.dy *= s;
    q.r.dy *= s;
    q.escale *= s * s;
    q.xscale /= s;
    q.xshift /= s;
    q.text += str(" stretch ", s);
    return q;
}

static Posed lifted(const Posed &o, double up) {
    Posed q = o;
    q.V = [f = o.V, up](double x) { return f(x) + up; };
    q.lo += up;
    q.hi += up;
    q.eshift += up / q.escale;
    q.text += str(" lift ", up);
    return q;
}

static Posed transform(Ctx &c, Posed q, bool layouts = true) {
    int n = (int) c.integer(1, 3);
    for (int i = 0; i < n; ++i) {
        switch (c.draw(layouts ? 7 : 5)) {
            case 0: q = mirrored(q); break;
            case 1: q = translated(q, c.chance(.5) && q.length() > .01 ? (double) c.integer(-8, 8) : q.length() * c.real(-5, 5)); break;
            case 2: {
                // a sliver of a sector at a jump of a very short domain is out of range
                double f = c.pick(std::vector<double>{2, .5, 3, .25, 1.7, .6, 2, .5, 3, 1.7, 2, 3, 1e3, 1e6, .25, 1e11});
                if (f > 10 && (!q.jumps.empty() || q.length() < .01)) f = 2;
                q = stretched(q, f);
                break;
            }
            case 3: {
                double L2 = q.length() * q.length();
                q = lifted(q, c.chance(.5) ? c.real(-100, 100) / L2 : (c.chance(.5) ? -1 : 1) * c.logreal(.1, 3000) / L2);
                break;
            }
            case 4: {
                static const std::vector<double> f = {-1, 2, -3, 1000, .001, -50, -.125, 1e6};
                double s = c.pick(f), t = c.pick(f);
                q.l.y *= s;
                q.l.dy *= s;
                q.r.y *= t;
                q.r.dy *= t;
                q.text += str(" conditions ", s, ", ", t);
                break;
            }
            case 5: {
                double t = genTol(c);
                q.text += str(" tol ", t);
                q.tol = t;
                break;
            }
            default:
                q.finer = c.real(1.05, 2);
                q.text += str(" uniform ", q.finer);
        }
    }
    return q;
}

static double layoutError(const Posed &q, const Matslise<double> &m, double E) {
    if (q.finer == 0) return 0;
    double L = q.length(), om = std::max(1 / L, std::sqrt(std::max(std::abs(E - q.lo), std::abs(E - q.hi))));
    return (10 * meshError(m) + 1e-14 * m.sectorCount * (1 + om * L)) * q.scale(E) / q.escale;
}

static double uns(const Pot &p, const Posed &q, const Matslise<double> &m) {
    std::vector<std::pair<double, double>> mesh;
    for (auto &s: m.sectors) {
        double u = (s->min - q.xshift) / q.xscale, v = (s->max - q.xshift) / q.xscale;
        mesh.push_back({std::min(u, v), std::max(u, v)});
    }
    return prop::unresolved(p, mesh) * 2 / q.length();
}

static void equivalent(Ctx &c) {
    PotOptions o;
    o.maxJumps = c.chance(.3) ? 4 : 0;
    o.maxLength = 30;
    o.maxStrength = 20000;
    Pot p = genPot(c, o);
    double L = p.length();
    Posed q = pose(p, genTol(c), genBC(c, L), genBC(c, L));
    Posed t = transform(c, q);
    int i0 = (int) (c.chance(.6) ? c.integer(0, 5) : c.logreal(5, 300)), n = (int) c.integer(1, 8);
    c.note("V", p.text());
    c.note("tol", q.tol);
    c.note("left", q.l.text());
    c.note("right", q.r.text());
    c.note("then", t.text);
    c.note("indices", str(i0, " ", n));
    auto m = q.build(), mt = t.build();
    auto e = m->eigenvaluesByIndex(i0, i0 + n, toY(q.l), toY(q.r));
    auto f = mt->eigenvaluesByIndex(i0, i0 + n, toY(t.l), toY(t.r));
    if ((int) e.size() != n || (int) f.size() != n) c.fail(str(e.size(), " and ", f.size(), " eigenvalues instead of ", n, " after", t.text));
    double u = uns(p, q, *m) + uns(p, t, *mt);
    double worst = 0;
    std::vector<double> d(n);
    for (int i = 0; i < n; ++i) {
        if (e[i].first != i0 + i || f[i].first != i0 + i) c.fail(str("entry ", i, " carries the index ", e[i].first, " and ", f[i].first));
        double E = e[i].second, F = f[i].second;
        d[i] = q.accuracy(E) + t.accuracy(F) + layoutError(t, *mt, F) + u + 4e-16 * (std::abs(t.lo) + std::abs(t.hi) + std::abs(F)) / t.escale;
        double diff = std::abs(t.original(F) - E);
        worst = std::max(worst, diff / d[i]);
        if (!(diff <= d[i])) c.fail(str("eigenvalue ", i0 + i, " is ", E, "; after", t.text, " it is ", F, ", or ", t.original(F), "; allowed ", d[i]));
    }
    c.metric("eigenvalues: difference / allowed", worst);
    // by energy
    if (c.chance(.3)) {
        double A = e.front().second + (c.chance(.5) ? 2 : -2) * d[0], B = e.back().second + (c.chance(.5) ? 2 : -2) * d[n - 1];
        // an energy which is much too low is out of range
        if (A < B && d[0] < q.scale(e[0].second)) {
            auto g = mt->eigenvalues(t.energy(A), t.energy(B), toY(t.l), toY(t.r));
            for (int i = 0; i < n; ++i)
                if (e[i].second > A + d[i] && e[i].second < B - d[i]) {
                    bool there = false;
                    for (auto &x: g) there = there || (x.first == i0 + i && std::abs(t.original(x.second) - e[i].second) <= d[i]);
                    if (!there) c.fail(str("eigenvalues(", t.energy(A), ", ", t.energy(B), ") misses ", i0 + i, " after", t.text));
                }
            c.label("by energy");
        }
    }
    // error estimates
    int k = (int) c.draw(n);
    double er = m->eigenvalueError(e[k].second, toY(q.l), toY(q.r)), ft = mt->eigenvalueError(f[k].second, toY(t.l), toY(t.r));
    if (!(er >= 0 && er <= 20 * q.accuracy(e[k].second) + u)) c.fail(str("error estimate ", er, " of eigenvalue ", i0 + k));
    if (!(ft >= 0 && ft <= (20 * t.accuracy(f[k].second) + layoutError(t, *mt, f[k].second) + u) * t.escale)) c.fail(str("error estimate ", ft, " of eigenvalue ", i0 + k, " after", t.text));
    // eigenfunction, when it does not depend too much on the accuracy of the energy
    double E = e[k].second, gap = 1e300;
    for (auto &x: m->eigenvaluesByIndex(std::max(0, i0 + k - 1), i0 + k + 2, toY(q.l), toY(q.r)))
        if (x.first != i0 + k) gap = std::min(gap, std::abs(x.second - E));
    double sens = d[k] / gap;
    if (sens < 1e-3) {
        auto y = m->eigenfunction(E, toY(q.l), toY(q.r), i0 + k), z = mt->eigenfunction(f[k].second, toY(t.l), toY(t.r), i0 + k);
        double om = std::max(1 / L, std::sqrt(std::max(std::abs(E - q.lo), std::abs(E - q.hi))));
        int N = 20;
        double top = 0, best = 0, sign = 1;
        std::vector<std::array<double, 4>> v;
        for (int i = 0; i <= N; ++i) {
            double x = i == 0 ? q.a : i == N ? q.b : q.a + L * (i + c.real(-.5, .5)) / N;
            double xt = std::min(t.b, std::max(t.a, x * t.xscale + t.xshift));
            auto Y = (*y)(x);
            auto Z = (*z)(xt);
            double g = std::sqrt(std::abs(t.xscale));
            v.push_back({Y[0], Y[1], Z[0] * g, Z[1] * g * t.xscale});
            double s = std::hypot(om * Y[0], Y[1]);
            top = std::max(top, s);
            if (s > best) {
                best = s;
                sign = om * om * v.back()[0] * v.back()[2] + v.back()[1] * v.back()[3] > 0 ? 1 : -1;
            }
        }
        double w = 0, where = 0;
        for (size_t i = 0; i < v.size(); ++i) {
            double diff = std::hypot(om * (v[i][0] - sign * v[i][2]), v[i][1] - sign * v[i][3]) / top;
            if (diff > w) {
                w = diff;
                where = i;
            }
        }
        auto &x = v[(int) where];
        double allowed = 20 * sens + 1e-9 + 300 * (q.tol + t.tol);
        c.metric("eigenfunctions: difference / allowed", w / allowed);
        c.label("eigenfunction");
        if (!(w <= allowed))
            c.fail(str("eigenfunction ", i0 + k, " (E = ", E, ") after", t.text, ": (", x[0], ", ", x[1], ") and (", sign * x[2], ", ", sign * x[3], "), difference ", w, ", allowed ", allowed));
    }
    c.nontrivial(!p.pieces[0].terms.empty());
}

// Inequalities between eigenvalues of related problems
static void order(Ctx &c) {
    PotOptions o;
    o.maxJumps = c.chance(.2) ? 3 : 0;
    o.maxLength = 30;
    Pot p = genPot(c, o);
    double L = p.length(), tol = genTol(c);
    BC l = genBC(c, L), r = genBC(c, L);
    Posed q = pose(p, tol, l, r);
    int i0 = (int) (c.chance(.6) ? c.integer(0, 5) : c.logreal(5, 200)), n = (int) c.integer(1, 6);
    c.note("V", p.text());
    c.note("tol", tol);
    c.note("left", l.text());
    c.note("right", r.text());
    c.note("indices", str(i0, " ", n));
    auto m = q.build();
    auto e = m->eigenvaluesByIndex(i0, i0 + n, toY(l), toY(r));
    if ((int) e.size() != n) c.fail(str(e.size(), " eigenvalues instead of ", n));
    double u = uns(p, q, *m);
    auto acc = [&](double E) { return 2 * (q.accuracy(E) + u); };
    auto compare = [&](const char *what, double lower, double upper, double E) {
        if (!(lower <= upper + acc(E))) c.fail(str(what, ": ", lower, " should not be above ", upper, "; allowed ", acc(E)));
    };
    switch (c.draw(4)) {
        case 0: {
            // another potential above this one, but not more than `top`
            c.label("raised potential");
            Term T = genTerm(c, genStrength(c, 3000) / (L * L));
            Pot up = p;
            double lo = 1e300, hi = -1e300;
            Smooth s;
            s.x0 = p.a;
            s.L = L;
            s.terms = {T};
            for (int i = 0; i <= 4000; ++i) {
                double v = s(p.a + L * i / 4000);
                lo = std::min(lo, v);
                hi = std::max(hi, v);
            }
            lo -= .01 * (hi - lo);
            hi += .01 * (hi - lo);
            for (auto &pc: up.pieces) {
                pc.x0 = p.a;
                pc.L = L;
                pc.terms.push_back(T);
            }
            c.note("raise", s.text());
            Posed q2 = pose(up, tol, l, r);
            auto m2 = q2.build();
            auto f = m2->eigenvaluesByIndex(i0, i0 + n, toY(l), toY(r));
            if ((int) f.size() != n) c.fail(str(f.size(), " eigenvalues of the raised potential instead of ", n));
            u += uns(up, q2, *m2);
            for (int i = 0; i < n; ++i) {
                double E = std::max(std::abs(e[i].second), std::abs(f[i].second)) + std::abs(hi) + std::abs(lo);
                compare("raised potential", e[i].second + lo, f[i].second, E);
                compare("raised potential", f[i].second, e[i].second + hi, E);
            }
            break;
        }
        case 1: {
            // a smaller interval, Dirichlet conditions
            c.label("smaller interval");
            Pot sub = p;
            double f = c.real(.05, .6), g = c.real(0, 1 - f);
            sub.a = p.a + g * L;
            sub.b = sub.a + f * L;
            sub.jumps.clear();
            sub.pieces.clear();
            for (size_t i = 0; i < p.pieces.size(); ++i) {
                double from = i ? p.jumps[i - 1] : -1e300, to = i < p.jumps.size() ? p.jumps[i] : 1e300;
                if (to <= sub.a || from >= sub.b) continue;
                if (from > sub.a) sub.jumps.push_back(from);
                sub.pieces.push_back(p.pieces[i]);
            }
            BC D{0, 1};
            Posed q2 = pose(sub, tol, D, D);
            auto m2 = q2.build();
            auto fs = m2->eigenvaluesByIndex(i0, i0 + n, toY(D), toY(D)), es = m->eigenvaluesByIndex(i0, i0 + n, toY(D), toY(D));
            if ((int) fs.size() != n || (int) es.size() != n) c.fail("the number of eigenvalues is wrong");
            u += uns(sub, q2, *m2) / f;
            c.note("part", str(sub.a, " ", sub.b));
            for (int i = 0; i < n; ++i) {
                compare("smaller interval", es[i].second, fs[i].second, q2.scale(fs[i].second));
                // the half-line problem with the original condition at one end is below Dirichlet
                compare("Dirichlet", e[i].second, es[i].second, es[i].second);
            }
            break;
        }
        case 2: {
            // changing one condition: eigenvalues interlace
            c.label("other condition");
            BC r2 = genBC(c, L);
            c.note("other right", r2.text());
            auto f = m->eigenvaluesByIndex(i0, i0 + n, toY(l), toY(r2));
            if ((int) f.size() != n) c.fail(str(f.size(), " eigenvalues instead of ", n));
            // right angle in (0, pi]; the larger the angle the larger the eigenvalues
            auto ang = [](const BC &b) {
                double t = std::atan2(b.y, b.dy);
                while (t <= 0) t += M_PI;
                while (t > M_PI) t -= M_PI;
                return b.y == 0 ? M_PI : t;
            };
            bool first = ang(r) <= ang(r2);
            auto &lowE = first ? e : f;
            auto &highE = first ? f : e;
            for (int i = 0; i < n; ++i) {
                compare("other condition", lowE[i].second, highE[i].second, highE[i].second);
                if (i + 1 < n) compare("interlacing", highE[i].second, lowE[i + 1].second, lowE[i + 1].second);
            }
            break;
        }
        default: {
            // splitting the interval with a Dirichlet point raises, with a Neumann point lowers the spectrum
            c.label("split interval");
            double x = p.a + L * c.real(.1, .9);
            BC D{0, 1}, N{1, 0};
            BC mid = c.chance(.5) ? D : N;
            Pot A = p, B = p;
            A.b = B.a = x;
            A.jumps.clear();
            B.jumps.clear();
            A.pieces.clear();
            B.pieces.clear();
            for (size_t i = 0; i < p.pieces.size(); ++i) {
                double from = i ? p.jumps[i - 1] : -1e300, to = i < p.jumps.size() ? p.jumps[i] : 1e300;
                if (from < x) {
                    if (i) A.jumps.push_back(from);
                    A.pieces.push_back(p.pieces[i]);
                }
                if (to > x) {
                    if (from > x) B.jumps.push_back(from);
                    B.pieces.push_back(p.pieces[i]);
                }
            }
            Posed qa = pose(A, tol, l, mid), qb = pose(B, tol, mid, r);
            auto ma = qa.build(), mb = qb.build();
            int want = i0 + n;
            std::vector<double> all;
            for (auto &t: ma->eigenvaluesByIndex(0, want, toY(qa.l), toY(qa.r))) all.push_back(t.second);
            for (auto &t: mb->eigenvaluesByIndex(0, want, toY(qb.l), toY(qb.r))) all.push_back(t.second);
            if ((int) all.size() != 2 * want) c.fail("the number of eigenvalues of the parts is wrong");
            std::sort(all.begin(), all.end());
            u += uns(A, qa, *ma) + uns(B, qb, *mb);
            double s = std::max(qa.scale(0), qb.scale(0));
            c.note("split", str(x, mid.dirichlet() ? " D" : " N"));
            for (int i = 0; i < n; ++i) {
                double E = std::max({s, std::abs(all[i0 + i]), std::abs(e[i].second)});
                if (mid.dirichlet()) {
                    compare("split with a Dirichlet point", e[i].second, all[i0 + i], E);
                    if (i0 + i > 0) compare("split with a Dirichlet point", all[i0 + i - 1], e[i].second, E);
                } else {
                    compare("split with a Neumann point", all[i0 + i], e[i].second, E);
                    if (i0 + i + 1 < 2 * want) compare("split with a Neumann point", e[i].second, all[i0 + i + 1], E);
                }
            }
        }
    }
    c.nontrivial(!p.pieces[0].terms.empty());
}

static periodic::M2 inverse(const periodic::M2 &K) { return {K[3], -K[1], -K[2], K[0]}; }

static std::map<int, double> byIndex(const std::vector<std::tuple<int, double, int>> &ev) {
    std::map<int, double> r;
    for (auto &t: ev)
        for (int j = 0; j < std::get<2>(t); ++j) r[std::get<0>(t) + j] = std::get<1>(t);
    return r;
}

static void coupledConditions(Ctx &c) {
    PotOptions o;
    o.maxJumps = c.chance(.2) ? 3 : 0;
    Pot p = genPot(c, o);
    double L = p.length();
    int kind;
    periodic::M2 K = periodic::genK(c, L, kind);
    Posed q = pose(p, genTol(c));
    bool round = c.chance(.3);
    Posed t;
    periodic::M2 K2 = K;
    double rotate = 0;
    if (round) {
        // a potential with period L, (anti)periodic conditions: every starting point is as good
        Smooth s;
        s.x0 = p.a;
        s.L = L;
        int n = (int) c.integer(1, 3);
        double S = genStrength(c, 3000) / L / L;
        for (int i = 0; i < n; ++i) {
            Term T;
            T.kind = 4;
            T.amp = S * c.real(-1, 1);
            T.a = 2 * M_PI * c.integer(1, 4);
            T.b = c.real(-3, 3);
            s.terms.push_back(T);
        }
        p.jumps.clear();
        p.pieces = {s};
        double sg = c.chance(.5) ? 1 : -1;
        K = K2 = {sg, 0, 0, sg};
        q = pose(p, q.tol);
        t = q;
        rotate = L * c.real(0, 1);
        t.a += rotate;
        t.b += rotate;
        t.text = str(" start ", rotate, " further");
        c.label("turned around");
    } else {
        t = transform(c, q, false);
        // (y, y')_new = D (y, y')
        if (t.xscale < 0) {
            auto i = inverse(K);
            K2 = {i[0], -i[1], -i[2], i[3]};
            c.label("mirrored");
        }
        double s = 1 / std::abs(t.xscale);
        K2 = {K2[0], K2[1] / s, K2[2] * s, K2[3]};
    }
    int i0 = (int) (c.chance(.6) ? c.integer(0, 4) : c.integer(0, 60)), n = (int) c.integer(1, 8);
    c.note("V", p.text());
    c.note("tol", q.tol);
    c.note("K", str(K[0], " ", K[1], " ", K[2], " ", K[3]));
    c.note("then", t.text);
    c.note("indices", str(i0, " ", n));
    Auto sq(q.tol), st(t.tol);
    sq.jumps = q.jumps;
    st.jumps = t.jumps;
    PeriodicMatslise<double> m(q.V, q.a, q.b, q.tol, sq, periodic::toEigen(K)), mt(t.V, t.a, t.b, t.tol, st, periodic::toEigen(K2));
    auto e = byIndex(m.eigenvaluesByIndex(i0, i0 + n)), f = byIndex(mt.eigenvaluesByIndex(i0, i0 + n)), around = byIndex(m.eigenvaluesByIndex(std::max(0, i0 - 2), i0 + n + 2));
    double worst = 0;
    for (int i = i0; i < i0 + n; ++i) {
        if (!e.count(i) || !f.count(i)) c.fail(str("eigenvalue ", i, " is missing", e.count(i) ? str(" after", t.text) : ""));
        double d = 16 * (q.accuracy(e[i]) + t.accuracy(f[i])) + uns(p, q, m.matslise) + (round ? 0 : uns(p, t, mt.matslise)) + 4e-16 * (std::abs(t.lo) + std::abs(t.hi)) / t.escale;
        // Close to a double eigenvalue what is solved is as small as the square of the distance
        for (int j: {i - 1, i + 1})
            if (around.count(j) && std::abs(e[i] - around[j]) < 1e-6 * q.scale(e[i])) d += 5e-8 * q.scale(e[i]);
        double diff = std::abs(t.original(f[i]) - e[i]);
        worst = std::max(worst, diff / d);
        if (!(diff <= d)) c.fail(str("eigenvalue ", i, " is ", e[i], "; after", t.text, " it is ", f[i], ", or ", t.original(f[i]), "; allowed ", d));
        // between Dirichlet eigenvalues: E(i-1) Dirichlet <= periodic(i+1), periodic(i) <= Dirichlet(i)
    }
    auto D = m.matslise.eigenvaluesByIndex(std::max(0, i0 - 2), i0 + n, toY({0, 1}), toY({0, 1}));
    for (auto &x: D) {
        double d = 32 * q.accuracy(x.second) + uns(p, q, m.matslise) + 5e-8 * q.scale(x.second);
        if (e.count(x.first) && !(e[x.first] <= x.second + d)) c.fail(str("eigenvalue ", x.first, " = ", e[x.first], " is above the Dirichlet eigenvalue ", x.second));
        if (e.count(x.first + 2) && !(x.second <= e[x.first + 2] + d)) c.fail(str("eigenvalue ", x.first + 2, " = ", e[x.first + 2], " is below the Dirichlet eigenvalue ", x.first, " = ", x.second));
    }
    c.metric("coupled conditions: difference / allowed", worst);
    c.nontrivial(!p.pieces[0].terms.empty());
}

static void half(Ctx &c) {
    Pot p = genEvenPot(c, 10000);
    double L = p.length(), X = p.b;
    BC r = genBC(c, X);
    Posed q = pose(p, genTol(c), {r.y, -r.dy}, r), t = q;
    int k = (int) c.integer(1, 3);
    for (int i = 0; i < k; ++i)
        switch (c.draw(4)) {
            case 0: t = stretched(t, c.pick(std::vector<double>{2, .5, 3, .25, 1.7, .6})); break;
            case 1: t = lifted(t, (c.chance(.5) ? -1 : 1) * c.logreal(.1, 3000) / (t.length() * t.length())); break;
            case 2: {
                double s = c.pick(std::vector<double>{-1, 2, -3, 1000, .001, -.125});
                t.r.y *= s;
                t.r.dy *= s;
                t.text += str(" conditions ", s);
                break;
            }
            default:
                t.tol = genTol(c);
                t.text += str(" tol ", t.tol);
        }
    int i0 = (int) (c.chance(.6) ? c.integer(0, 5) : c.logreal(5, 300)), n = (int) c.integer(1, 8);
    c.note("V", p.text());
    c.note("tol", q.tol);
    c.note("right", q.r.text());
    c.note("then", t.text);
    c.note("indices", str(i0, " ", n));
    MatsliseHalf<double> m(q.V, q.b, q.tol), mt(t.V, t.b, t.tol);
    auto e = m.eigenvaluesByIndex(i0, i0 + n, toY(q.r)), f = mt.eigenvaluesByIndex(i0, i0 + n, toY(t.r));
    if ((int) e.size() != n || (int) f.size() != n) c.fail(str(e.size(), " and ", f.size(), " eigenvalues instead of ", n, " after", t.text));
    std::vector<std::pair<double, double>> mesh, mesht;
    for (auto &s: m.ms->sectors) mesh.push_back({s->min, s->max});
    for (auto &s: mt.ms->sectors) mesht.push_back({s->min / t.xscale, s->max / t.xscale});
    double u = 4 / L * (prop::unresolved(p, mesh) + prop::unresolved(p, mesht)), worst = 0;
    for (int i = 0; i < n; ++i) {
        if (e[i].first != i0 + i || f[i].first != i0 + i) c.fail(str("entry ", i, " carries the index ", e[i].first, " and ", f[i].first));
        double E = e[i].second, F = f[i].second;
        double d = q.accuracy(E) * 2 + t.accuracy(F) * 2 + u + 4e-16 * (std::abs(t.lo) + std::abs(t.hi)) / t.escale;
        double diff = std::abs(t.original(F) - E);
        worst = std::max(worst, diff / d);
        if (!(diff <= d)) c.fail(str("eigenvalue ", i0 + i, " is ", E, "; after", t.text, " it is ", F, ", or ", t.original(F), "; allowed ", d));
    }
    c.metric("half range: difference / allowed", worst);
    c.nontrivial(!p.pieces[0].terms.empty());
}

// -(p z')' + q z = E w z in other coordinates r = phi(s): p/phi', q phi', w phi'; and with scaled p, q, w
static void sturmLiouville(Ctx &c) {
    sl::Problem s = sl::genProblem(c);
    double L = s.length(), tol = genTol(c);
    double X = (double) sl::integral([&](sl::R x) { return s.xdr(x); }, s.a, s.b);
    // conditions on (z, z'), sensible in the x-variable
    auto cond = [&](double e) {
        BC b = genBC(c, X);
        sl::Jet m = sl::jpow(s.p.jet(e) * s.w.jet(e), .25L);
        if (b.y != 0) {
            sl::R z = b.y / m.v, dz = (b.dy * s.xdr(e) - m.d * z) / m.v;
            b = {(double) z, (double) dz};
        }
        return b;
    };
    BC l = cond(s.a), r = cond(s.b);
    double alpha = c.pick(std::vector<double>{1, 2, .1, 30}), beta = c.pick(std::vector<double>{1, 3, .2, 10});
    double bend = c.chance(.6) ? c.real(-.6, .6) : 0;
    bool mirror = c.chance(.4);
    double off = c.chance(.3) ? c.real(-3, 3) : 0, stretch = c.chance(.3) ? c.logreal(.3, 3) : 1, add = c.chance(.3) ? c.real(-10, 10) : 0;
    // s in [off, off+stretch] -> u in [0,1] -> t = u + bend sin(pi u)/pi -> r
    auto T = [=](double x) {
        double u = (x - off) / stretch;
        if (mirror) u = 1 - u;
        return std::min(1., std::max(0., u + bend * std::sin(M_PI * u) / M_PI));
    };
    auto dT = [=](double x) {
        double u = (x - off) / stretch;
        if (mirror) u = 1 - u;
        return (1 + bend * std::cos(M_PI * u)) / stretch * L; // |dr/ds|
    };
    auto R = [=](double x) { return s.a + L * T(x); };
    // alpha multiplies everything, beta divides the energy, add q += add w
    auto P2 = [=](double x) { return alpha * s.p(R(x)) / dT(x); };
    auto Q2 = [=](double x) { return alpha * (s.q(R(x)) + add * s.w(R(x))) * dT(x); };
    auto W2 = [=](double x) { return alpha * beta * s.w(R(x)) * dT(x); };
    auto cond2 = [&](const BC &b, double at) { return BC{b.y, b.dy * (mirror ? -1 : 1) * dT(at)}; };
    BC l2 = cond2(mirror ? r : l, off), r2 = cond2(mirror ? l : r, off + stretch);
    std::string how = str(mirror ? "mirrored " : "", "alpha ", alpha, " beta ", beta, " bend ", bend, " at ", off, " length ", stretch, " add ", add);
    int i0 = (int) (c.chance(.6) ? c.integer(0, 5) : c.logreal(5, 60)), n = (int) c.integer(1, 6);
    c.note("problem", s.text());
    c.note("tol", tol);
    c.note("left", l.text());
    c.note("right", r.text());
    c.note("then", how);
    c.note("indices", str(i0, " ", n));
    sl::SL m([=](double x) { return s.p(x); }, [=](double x) { return s.q(x); }, [=](double x) { return s.w(x); }, {s.a, s.b}, tol);
    sl::SL m2(P2, Q2, W2, {off, off + stretch}, tol);
    auto e = m.eigenvaluesByIndex(i0, i0 + n, toY(l), toY(r)), f = m2.eigenvaluesByIndex(i0, i0 + n, toY(l2), toY(r2));
    if ((int) e.size() != n || (int) f.size() != n) c.fail(str(e.size(), " and ", f.size(), " eigenvalues instead of ", n, ", ", how));
    // size of the terms of the equation
    double size = 1 / X / X, lo = 1e300;
    for (int i = 0; i <= 200; ++i) {
        double x = s.a + L * i / 200.;
        sl::R second;
        double v = (double) s.V(x, &second);
        size = std::max(size, std::abs((double) second) + std::abs((double) (s.q(x) / s.w(x))));
        lo = std::min(lo, v);
    }
    double worst = 0;
    for (int i = 0; i < n; ++i) {
        if (e[i].first != i0 + i || f[i].first != i0 + i) c.fail(str("entry ", i, " carries the index ", e[i].first, " and ", f[i].first));
        double E = e[i].second, F = f[i].second * beta - add;
        double sc = std::max({1., std::abs(E), E - lo, 1 / X / X, std::abs(E + add)});
        double d = 25 * tol * (sc + std::max(sc, beta)) + 4e-7 * size;
        double diff = std::abs(F - E);
        worst = std::max(worst, diff / d);
        if (!(diff <= d)) c.fail(str("eigenvalue ", i0 + i, " is ", E, "; ", how, " it is ", f[i].second, ", or ", F, "; allowed ", d));
    }
    c.metric("Sturm-Liouville: difference / allowed", worst);
    c.nontrivial(!s.p.factors.empty() || !s.w.factors.empty());
}

// coupled systems: orthogonal change of basis, mirror, translation, shift
static void coupled(Ctx &c) {
    cs::Options o;
    o.maxN = 4;
    cs::Pot p = cs::genPot(c, o);
    double L = p.length(), tol = c.pick(std::vector<double>{1e-6, 1e-5, 1e-7, 1e-8});
    double lo, hi;
    p.range(lo, hi);
    double E = lo + (c.chance(.7) ? c.real(0, 300) : c.real(-10, 2000)) / (L * L);
    int n = p.n;
    typedef cs::MD MD;
    MD g(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) g(i, j) = c.real(-1, 1) + (i == j ? .1 : 0);
    MD Q = MD::Identity(n, n);
    if (c.chance(.7)) Q = Eigen::HouseholderQR<MD>(g).householderQ();
    bool mirror = c.chance(.5);
    double shift = c.chance(.5) ? c.real(-4, 4) : 0, up = c.chance(.5) ? c.real(-100, 100) / (L * L) : 0, s = c.chance(.5) ? c.pick(std::vector<double>{2, .5, 1.7, .6}) : 1;
    // x = (mirror ? -1 : 1) * (s x_new + shift)
    auto X = [=](double x) { return (mirror ? -1 : 1) * (s * x + shift); };
    auto back = [=](double x) { return ((mirror ? -1 : 1) * x - shift) / s; };
    double a2 = mirror ? back(p.b) : back(p.a), b2 = mirror ? back(p.a) : back(p.b);
    auto V2 = [=](double x) -> MD { return s * s * (Q * (p(std::min(p.b, std::max(p.a, X(x)))) + up * MD::Identity(n, n)) * Q.transpose()); };
    c.note("V", p.text());
    c.note("tol", tol);
    c.note("E", E);
    c.note("then", str(mirror ? "mirror " : "", "shift ", shift, " up ", up, " stretch ", s, " basis ", Q));
    cs::AutoCS sb(tol), sb2(tol);
    cs::Matscs<double> m([p](double x) { return p(x); }, n, p.a, p.b, sb), m2(V2, n, a2, b2, sb2);
    double x0 = c.chance(.5) ? p.a : c.chance(.5) ? p.b : p.a + L * c.real(0, 1), x1 = c.chance(.5) ? p.b : p.a + L * c.real(0, 1);
    if (c.chance(.3)) std::swap(x0, x1);
    c.note("from", x0);
    c.note("to", x1);
    auto clamp = [](double x, double u, double v) { return std::min(v, std::max(u, x)); };
    double y0 = clamp(back(x0), a2, b2), y1 = clamp(back(x1), a2, b2), E2 = s * s * (E + up);
    // initial value: Y = A, Y' = B with symmetric A^T B
    cs::YD y = c.chance(.5) ? cs::YD::Dirichlet(n) : cs::YD::Neumann(n), z = y;
    double om = std::max(1 / L, std::sqrt(std::max(std::abs(E - lo), std::abs(E - hi))));
    z.block(matslise::None) = Q * y.block(matslise::None) * Q.transpose();
    z.block(matslise::dX) = (mirror ? -s : s) * Q * y.block(matslise::dX) * Q.transpose();
    // the columns of a fundamental system grow: size of both together, along the route
    auto u = m.propagate(E, y, x0, x1), v = m2.propagate(E2, z, y0, y1);
    MD Yu = u.first.block(matslise::None), Yv = Q.transpose() * v.first.block(matslise::None) * Q;
    MD Du = u.first.block(matslise::dX), Dv = (mirror ? -1 : 1) / s * (Q.transpose() * v.first.block(matslise::dX) * Q);
    double size = std::max((om * Yu).cwiseAbs().maxCoeff(), Du.cwiseAbs().maxCoeff());
    double diff = std::max((om * (Yu - Yv)).cwiseAbs().maxCoeff(), (Du - Dv).cwiseAbs().maxCoeff()) / size;
    // an error in a point of the route grows like the solutions from there to the end
    auto norm = [&](const cs::YD &w) { return std::hypot(om * w.block(matslise::None).norm(), w.block(matslise::dX).norm()); };
    std::vector<double> route{x0};
    auto base = [&](double x) {
        for (auto &t: m.sectors)
            if (t->min < x && x < t->max) return t->direction == matslise::forward ? t->min : t->max;
        return x;
    };
    double from = base(x0), to = base(x1);
    route.push_back(from);
    for (auto &t: m.sectors)
        if (t->min > std::min(from, to) && t->min < std::max(from, to)) route.push_back(t->min);
    if (from > to) std::reverse(route.begin() + 2, route.end());
    route.push_back(to);
    route.push_back(x1);
    std::vector<double> A{norm(y)}, G(route.size(), 1);
    {
        cs::YD w = y;
        for (size_t i = 1; i < route.size(); ++i) {
            w = m.propagate(E, w, route[i - 1], route[i]).first;
            A.push_back(norm(w));
        }
        cs::YD d = cs::YD::Dirichlet(n), e = cs::YD::Neumann(n);
        for (size_t i = route.size() - 1; i-- > 0;) {
            d = m.propagate(E, d, route[i + 1], route[i]).first;
            e = m.propagate(E, e, route[i + 1], route[i]).first;
            G[i] = std::max(norm(d), norm(e) / om);
        }
    }
    double kappa = 1;
    for (size_t i = 0; i < route.size(); ++i) kappa = std::max(kappa, A[i] * G[i] / norm(u.first));
    double err = 0;
    for (auto &t: m.sectors) err += t->error();
    for (auto &t: m2.sectors) err += t->error();
    if (err > 1e-3) c.discard();
    double allowed = (20 * (tol + err) + 1e-12 * (1 + om * L)) * kappa;
    c.metric("coupled: difference / allowed", diff / allowed);
    if (allowed > .1) c.discard();
    if (!(diff <= allowed)) c.fail(str("propagation from ", x0, " to ", x1, " differs by ", diff, " after the change; allowed ", allowed));
    c.nontrivial(n > 1);
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C21", "the potential is not zero (or, for Sturm-Liouville problems, p and w are not both 1); coupled systems have at least two equations",
                                 {{"equivalent", 12000, 300000, equivalent},
                                  {"order", 8000, 200000, order},
                                  {"coupled conditions", 4000, 80000, coupledConditions},
                                  {"half", 6000, 150000, half},
                                  {"Sturm-Liouville", 3000, 60000, sturmLiouville},
                                  {"coupled", 3000, 60000, coupled}},
                                 {"each of both solutions has the accuracy that is required of a single one (25*tol*scale)"}});
}
