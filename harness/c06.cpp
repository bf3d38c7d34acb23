// C06: eigenfunctions
#include "lib.h"
#include "efun.h"
using namespace lib;

struct Problem {
    Pot p;
    double tol;
    BC l, r;
    std::unique_ptr<Matslise<double>> m;
};

static Problem problem(Ctx &c) {
    Problem q;
    q.p = genPot(c);
    q.tol = genTol(c);
    q.l = genBC(c, q.p.length());
    q.r = genBC(c, q.p.length());
    c.note("V", q.p.text());
    c.note("tol", q.tol);
    c.note("left", q.l.text());
    c.note("right", q.r.text());
    q.m = build(q.p, q.tol);
    c.note("sectors", q.m->sectorCount);
    return q;
}

typedef Matslise<double>::Eigenfunction EF;

static efun::F wrap(const EF &f) {
    return [&f](double x) {
        auto v = f(x);
        return efun::V2{v[0], v[1]};
    };
}

static void judgeFunction(Ctx &c, const Problem &q, int k) {
    c.note("index", k);
    auto l = toY(q.l), r = toY(q.r);
    auto ep = q.m->eigenpairsByIndex(k, k + 1, l, r);
    if (ep.size() != 1 || std::get<0>(ep[0]) != k) c.fail("eigenpairsByIndex does not return the one pair");
    double E = std::get<1>(ep[0]);
    c.note("E", E);
    std::unique_ptr<EF> own;
    EF *f = std::get<2>(ep[0]).get();
    if (c.chance(.5)) {
        // the same by asking for the eigenfunction of a known eigenvalue
        own = c.chance(.5) ? q.m->eigenfunction(E, l, r) : q.m->eigenfunction(E, l, r, k);
        for (int i = 0; i < 5; ++i) {
            double x = q.p.a + q.p.length() * c.real(0, 1);
            x = std::min(q.p.b, std::max(q.p.a, x));
            auto u = (*f)(x), v = (*own)(x);
            if (u[0] != v[0] || u[1] != v[1]) c.fail("eigenpairsByIndex and eigenfunction give different functions");
        }
        f = own.get();
    }
    auto mesh = efun::meshOf(*q.m);
    double lo, hi;
    q.p.range(lo, hi);
    double om = std::max(1 / q.p.length(), std::sqrt(std::max(std::abs(E - lo), std::abs(E - hi))));
    auto xs = efun::samples(c, q.p, mesh, om);
    efun::Subject sub{q.p, mesh, q.tol, E, k, &q.l, &q.r, wrap(*f)};
    for (auto &e: q.m->eigenvaluesByIndex(std::max(0, k - 1), k + 2, l, r))
        if (e.first != k) sub.gap = std::min(sub.gap, std::abs(e.second - E));
    auto res = efun::judge(c, sub, xs);
    c.nontrivial(!res.ill && !q.p.pieces[0].terms.empty());
}

static void solution(Ctx &c) {
    Problem q = problem(c);
    judgeFunction(c, q, (int) (c.chance(.4) ? c.integer(0, 3) : c.integer(0, 40)));
}

// A uniform mesh, which is as fine as the automatic mesh. Of a symmetric problem the eigenfunctions vanish in mesh points:
// in the middle when the number of sectors is even, in all of them when the potential is constant.
static void uniformMesh(Ctx &c) {
    Problem q;
    q.p = genEvenPot(c);
    q.tol = genTol(c);
    q.l = genBC(c, q.p.length());
    q.r = c.chance(.7) ? BC{q.l.y, -q.l.dy} : genBC(c, q.p.length());
    c.note("V", q.p.text());
    c.note("tol", q.tol);
    c.note("left", q.l.text());
    c.note("right", q.r.text());
    auto probe = build(q.p, q.tol);
    double h = q.p.length();
    for (auto &x: probe->sectors) h = std::min(h, x->max - x->min);
    int n = (int) std::min(300., std::ceil(q.p.length() / h * 1.05)) + (int) c.integer(1, 10);
    if (c.chance(.6)) n += n % 2;
    Layout layout;
    layout.uniform = n;
    c.note("uniform", n);
    q.m = build(q.p, q.tol, layout);
    int k = (int) (c.chance(.4) ? c.integer(0, 3) : c.integer(0, 40));
    if (c.chance(.5)) k = n * (int) c.integer(1, 1 + 40 / n) - (int) c.integer(0, 1);
    judgeFunction(c, q, std::min(k, 60));
}

// array evaluation in any order, with points outside; derivative is the derivative
static void evaluation(Ctx &c) {
    Problem q = problem(c);
    int k = (int) c.integer(0, 15);
    c.note("index", k);
    auto l = toY(q.l), r = toY(q.r);
    double E = q.m->eigenvaluesByIndex(k, k + 1, l, r).at(0).second;
    auto f = q.m->eigenfunction(E, l, r);
    double L = q.p.length();
    int n = (int) c.integer(0, 30);
    Eigen::Array<double, Eigen::Dynamic, 1> x(n);
    for (int i = 0; i < n; ++i) {
        switch (c.draw(8)) {
            case 0: x[i] = c.chance(.5) ? q.p.a : q.p.b; break;
            case 1: x[i] = c.chance(.5) ? q.p.a - L * c.logreal(1e-9, 2) : q.p.b + L * c.logreal(1e-9, 2); break;
            case 2: {
                auto &s = q.m->sectors[c.draw(q.m->sectors.size())];
                x[i] = c.chance(.5) ? s->min : s->max;
                if (c.chance(.5)) x[i] = std::nextafter(x[i], c.chance(.5) ? 1e300 : -1e300);
                break;
            }
            case 3: x[i] = i ? x[c.draw(i)] : q.p.a; break;
            default: x[i] = q.p.a + L * c.real(0, 1);
        }
    }
    bool sorted = c.chance(.3);
    if (sorted) std::sort(x.data(), x.data() + n);
    std::string xt;
    for (int i = 0; i < n; ++i) xt += str(x[i], " ");
    c.note("x", xt);
    auto ys = (*f)(x);
    if (ys.rows() != n) c.fail(str("array of ", n, " gives ", ys.rows(), " rows"));
    double lo, hi;
    q.p.range(lo, hi);
    double om = std::max(1 / L, std::sqrt(std::max(std::abs(E - lo), std::abs(E - hi))));
    double Escale = std::max({1., std::abs(E), E - lo, 1 / L / L});
    auto ma = efun::matching(q.p, E, q.l, q.r, efun::meshOf(*q.m), om, 25 * q.tol * Escale);
    double top = 0;
    for (int i = 0; i <= 60; ++i) {
        auto v = (*f)(q.p.a + L * i / 60);
        top = std::max(top, std::hypot(om * v[0], v[1]));
    }
    for (int i = 0; i < n; ++i) {
        auto v = (*f)(x[i]);
        bool inside = q.p.a <= x[i] && x[i] <= q.p.b;
        if (!inside) {
            if (v[0] != 0 || v[1] != 0 || ys(i, 0) != 0 || ys(i, 1) != 0) c.fail(str("not zero outside the domain, x=", x[i]));
            continue;
        }
        double err = std::hypot(om * (v[0] - ys(i, 0)), v[1] - ys(i, 1));
        double allowed = 1e-13 * top;
        for (auto &s: q.m->sectors)
            for (double e: {s->min, s->max})
                if (std::abs(x[i] - e) <= 1e-15 * (std::abs(e) + 1)) { // either sector may be used
                    allowed = std::max(allowed, 40 * q.tol * top);
                    for (auto &j: ma.candidates) if (std::abs(j.x - e) <= 1e-15 * (std::abs(e) + 1)) allowed = std::max(allowed, 40 * q.tol * top + 2 * j.jump);
                }
        if (!(err <= allowed))
            c.fail(str("f(", x[i], ") is (", v[0], ", ", v[1], ") alone and (", ys(i, 0), ", ", ys(i, 1), ") in the array"));
    }
    c.nontrivial(n >= 3 && !sorted);
}

static void orthogonal(Ctx &c) {
    Problem q = problem(c);
    int n = (int) c.integer(2, 6), k0 = (int) c.integer(0, 10);
    c.note("indices", str(k0, "..", k0 + n - 1));
    auto l = toY(q.l), r = toY(q.r);
    auto ep = q.m->eigenpairsByIndex(k0, k0 + n, l, r);
    if ((int) ep.size() != n) c.fail("eigenpairsByIndex misses some");
    auto mesh = efun::meshOf(*q.m);
    double lo, hi;
    q.p.range(lo, hi);
    double L = q.p.length();
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j) {
            double Ei = std::get<1>(ep[i]), Ej = std::get<1>(ep[j]);
            double om = std::max(1 / L, std::sqrt(std::max(std::abs(Ej - lo), std::abs(Ej - hi))));
            double Escale = std::max({1., std::abs(Ej), Ej - lo, 1 / L / L});
            auto fi = wrap(*std::get<2>(ep[i])), fj = wrap(*std::get<2>(ep[j]));
            double ip = efun::innerProduct(q.p, mesh, om, fi, fj);
            // (Ei - Ej) <fi, fj> is the sum of the Wronskian jumps
            double dm = 0;
            auto sa = efun::matching(q.p, Ei, q.l, q.r, mesh, om, 25 * q.tol * Escale), sb = efun::matching(q.p, Ej, q.l, q.r, mesh, om, 25 * q.tol * Escale);
            double da = 0, db = 0;
            for (auto &t: sa.candidates) da = std::max(da, t.jump * sb.sizeAt(t.x) / om);
            for (auto &t: sb.candidates) db = std::max(db, t.jump * sa.sizeAt(t.x) / om);
            dm = da + db;
            double wr = 0;
            for (size_t t = 0; t < mesh.min.size(); ++t) {
                auto u = fi(mesh.min[t]), v = fj(mesh.min[t]);
                wr = std::max(wr, std::hypot(om * u[0], u[1]) * std::hypot(om * v[0], v[1]) / om);
            }
            double allowed = (dm + 40 * q.tol * wr * (double) mesh.min.size()) / 2 / std::abs(Ei - Ej) + 1e-10;
            // the error of E may be visible at the matching point
            if (allowed < .1 && std::max(sa.jump, sb.jump) < 1e-2) {
                c.metric("inner/allowed", std::abs(ip) / allowed);
                if (!(std::abs(ip) <= allowed)) c.fail(str("<f", k0 + i, ", f", k0 + j, "> = ", ip));
                c.nontrivial();
            } else
                c.label("ill-conditioned");
        }
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C06",
                                 "solution: a potential, and an eigenfunction that is not ill-conditioned (see assumptions); evaluation: at least three points in any order; orthogonal: at least one well-conditioned pair",
                                 {{"solution", 5000, 150000, solution},
                                  {"uniform mesh", 2500, 80000, uniformMesh},
                                  {"evaluation", 8000, 400000, evaluation},
                                  {"orthogonal", 2000, 50000, orthogonal}},
                                 {"at the matching point the function may jump by what the accuracy of E allows; if that is more than a hundredth of the function there, norm and zeros are not judged",
                                  "the matching point is the fixed one when both sides agree there to 1e-4, otherwise a mesh point where the function is large"}});
}
