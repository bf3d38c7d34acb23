// C08: the half-range reduction
//
// Oracle: the full problem on [-xmax, xmax], judged by the reference (never by the half-range solver itself), and the full-range
// solver for differential comparison.
#include "lib.h"
#include "spectrum.h"
#include "efun.h"
using namespace lib;

struct Problem {
    Pot p;             // on [-xmax, xmax]
    double tol, xmax;
    BC left, right;    // of the full problem: mirrored
    Layout lay;
    std::vector<double> halfJumps;
    std::unique_ptr<MatsliseHalf<double>> m;
};

static Problem problem(Ctx &c) {
    Problem q;
    q.p = genEvenPot(c);
    q.xmax = q.p.b;
    q.tol = genTol(c);
    if (c.chance(.3)) {
        // a symmetric step: inner and outer part
        double j = q.xmax * c.real(.05, .95);
        Smooth inner = q.p.pieces[0];
        Term T;
        T.kind = 0;
        T.amp = (c.chance(.5) ? -1 : 1) * c.real(0, 300) / (q.p.length() * q.p.length());
        inner.terms.push_back(T);
        q.p.pieces = {q.p.pieces[0], inner, q.p.pieces[0]};
        q.p.jumps = {-j, j};
        q.halfJumps = {j};
        c.label("jumps");
    }
    BC s = genBC(c, q.xmax);
    q.right = s;
    q.left = {s.y, -s.dy};
    auto p = q.p;
    auto f = [p](double x) { return p(x); };
    Auto sb(q.tol);
    sb.jumps = q.halfJumps;
    c.note("V", q.p.text());
    c.note("tol", q.tol);
    c.note("side", s.text());
    if (q.p.jumps.empty() && c.chance(.2)) {
        auto probe = std::make_unique<Matslise<double>>(f, 0., q.xmax, q.tol, sb);
        double h = q.xmax;
        for (auto &x: probe->sectors) h = std::min(h, x->max - x->min);
        int n = (int) std::min(300., std::ceil(q.xmax / h * 1.05) + 1);
        q.lay.uniform = n;
        q.m = std::make_unique<MatsliseHalf<double>>(f, q.xmax, q.tol, Uniform(n));
        c.note("uniform", n);
    } else if (q.p.jumps.empty() && c.chance(.5))
        q.m = std::make_unique<MatsliseHalf<double>>(f, q.xmax, q.tol);
    else
        q.m = std::make_unique<MatsliseHalf<double>>(f, q.xmax, q.tol, sb);
    return q;
}

static void values(Ctx &c) {
    Problem q = problem(c);
    int i0 = (int) (c.chance(.5) ? 0 : c.chance(.9) ? c.integer(0, 40) : c.integer(41, 200)), n = (int) c.integer(0, 6);
    c.note("indices", str("[", i0, ", ", i0 + n, ")"));
    auto side = toY(q.right);
    auto ev = c.chance(.5) ? q.m->eigenvaluesByIndex(i0, i0 + n, side) : q.m->eigenvaluesByIndex(i0, i0 + n, side, side);
    if ((int) ev.size() != n) c.fail(str("returned ", ev.size(), " eigenvalues instead of ", n));
    spectrum::Judge judge(q.p, q.left, q.right, q.tol);
    double extra = 0;
    std::vector<std::pair<double, double>> mesh;
    for (auto &s: q.m->ms->sectors) mesh.push_back({s->min, s->max});
    extra = 2 * prop::unresolved(q.p, mesh);
    for (int j = 0; j < n; ++j) {
        if (ev[j].first != i0 + j) c.fail(str("entry ", j, " carries index ", ev[j].first, " instead of ", i0 + j));
        double E = ev[j].second;
        // even and odd eigenvalues are found separately, a tight pair may be out of order by the tolerance
        if (j && !(E >= ev[j - 1].second - 25 * q.tol * judge.scale(E)))
            c.fail(str("eigenvalues ", i0 + j - 1, " and ", i0 + j, " are out of order: ", ev[j - 1].second, ", ", E));
        judge.require(c, i0 + j, E, extra);
        double rep = c.chance(.5) ? q.m->eigenvalueError(E, side, ev[j].first) : q.m->eigenvalueError(E, side, side, ev[j].first);
        if (!std::isfinite(rep) || rep < 0) c.fail(str("eigenvalueError(", E, ") is ", rep));
        if (!q.lay.uniform && rep > 25 * q.tol * judge.scale(E)) c.fail(str("eigenvalueError(", E, ") is ", rep));
    }
    if (n > 1 && c.chance(.5)) {
        // the same by energy
        double d = 60 * q.tol * judge.scale(ev.back().second);
        auto in = c.chance(.5) ? q.m->eigenvalues(ev[0].second - d, ev.back().second + d, side)
                               : q.m->eigenvalues(ev[0].second - d, ev.back().second + d, side, side);
        // the neighbours may lie within d as well
        size_t found = 0;
        for (size_t j = 0; j < in.size(); ++j) {
            if (j && in[j].first != in[j - 1].first + 1) c.fail("indices from eigenvalues() are not consecutive");
            if (in[j].first >= i0 && in[j].first < i0 + n) {
                double other = ev[in[j].first - i0].second;
                ++found;
                if (std::abs(in[j].second - other) > 25 * q.tol * judge.scale(other) + extra)
                    c.fail(str("eigenvalues() gives ", in[j].second, " for index ", in[j].first, ", eigenvaluesByIndex() ", other));
            }
        }
        if ((int) found != n) c.fail(str("eigenvalues() finds ", found, " of the ", n, " eigenvalues"));
    }
    c.nontrivial(n > 0 && !q.p.pieces[0].terms.empty());
}

static efun::F wrap(const AbstractMatslise<double>::Eigenfunction &f) {
    return [&f](double x) {
        auto v = f(x);
        return efun::V2{v[0], v[1]};
    };
}

static void functions(Ctx &c) {
    Problem q = problem(c);
    int k = (int) (c.chance(.5) ? c.integer(0, 5) : c.chance(.9) ? c.integer(0, 40) : c.integer(41, 200));
    c.note("index", k);
    auto side = toY(q.right);
    double L = q.p.length();
    efun::Mesh half;
    for (auto &s: q.m->ms->sectors) {
        half.min.push_back(s->min);
        half.max.push_back(s->max);
        half.forward.push_back(s->direction == matslise::forward);
    }
    half.match = q.m->ms->sectors[q.m->ms->matchIndex]->max;
    auto mesh = efun::mirrored(half);

    std::unique_ptr<AbstractMatslise<double>::Eigenfunction> f;
    double E;
    int how = (int) c.draw(3);
    auto near = q.m->eigenvaluesByIndex(std::max(0, k - 1), k + 2, side);
    double lo, hi;
    q.p.range(lo, hi);
    efun::Subject sub{q.p, mesh, q.tol, 0, k, &q.left, &q.right, nullptr, true};
    for (auto &e: near) if (e.first == k) sub.E = e.second;
    E = sub.E;
    c.note("E", E);
    for (auto &e: near) if (e.first != k) sub.gap = std::min(sub.gap, std::abs(e.second - E));
    double Escale = std::max({1., std::abs(E), E - lo, 1 / L / L});
    if (how == 0) {
        auto ep = c.chance(.5) ? q.m->eigenpairsByIndex(k, k + 1, side) : q.m->eigenpairsByIndex(k, k + 1, side, side);
        if (ep.size() != 1 || std::get<0>(ep[0]) != k || std::get<1>(ep[0]) != E) c.fail("eigenpairsByIndex does not return the one pair");
        f = std::move(std::get<2>(ep[0]));
    } else if (how == 1 || sub.gap < 1e4 * q.tol * Escale)
        f = c.chance(.5) ? q.m->eigenfunction(E, side, k) : q.m->eigenfunction(E, side, side, k);
    else
        f = c.chance(.5) ? q.m->eigenfunction(E, side) : q.m->eigenfunction(E, side, side);
    sub.f = wrap(*f);
    double om = std::max(1 / L, std::sqrt(std::max(std::abs(E - lo), std::abs(E - hi))));
    // on the half range neighbours are two apart
    BC at0 = k % 2 ? BC{0, 1} : BC{1, 0};
    sub.exact = std::make_shared<efun::Matching>(efun::matching(q.p, E, at0, q.right, half, om, 25 * q.tol * Escale, 0., std::sqrt(.5)));
    sub.gap = 1e300;
    for (auto &e: q.m->eigenvaluesByIndex(std::max(0, k - 2), k + 3, side))
        if (e.first % 2 == k % 2 && e.first != k) sub.gap = std::min(sub.gap, std::abs(e.second - E));
    auto xs = efun::samples(c, q.p, mesh, om);
    for (size_t i = 0, n = xs.size(); i < n; i += 3) xs.push_back(-xs[i]);
    auto res = efun::judge(c, sub, xs);

    // parity
    double top = 0;
    for (double x: xs) {
        auto v = sub.f(x);
        top = std::max(top, std::hypot(om * v[0], v[1]));
    }
    double s = k % 2 ? -1 : 1;
    for (double x: xs) {
        if (x == 0) continue;
        auto u = sub.f(x), v = sub.f(-x);
        if (std::hypot(om * (u[0] - s * v[0]), u[1] + s * v[1]) > 1e-12 * top)
            c.fail(str("eigenfunction ", k, " has no parity at ", x, ": (", u[0], ", ", u[1], ") and at -x (", v[0], ", ", v[1], ")"));
    }

    // arrays: sorted only
    int n = (int) c.integer(0, 12);
    Eigen::Array<double, Eigen::Dynamic, 1> x(n);
    for (int i = 0; i < n; ++i) {
        switch (c.draw(6)) {
            case 0: x[i] = c.chance(.5) ? q.p.a : q.p.b; break;
            case 1: x[i] = 0; break;
            case 2: x[i] = i ? (c.chance(.5) ? -1 : 1) * x[c.draw(i)] : 0; break;
            case 3: x[i] = (c.chance(.5) ? -1 : 1) * q.xmax * c.logreal(1e-300, 1.5); break;
            default: x[i] = q.p.a + L * c.real(0, 1);
        }
    }
    bool ordered = c.chance(.8);
    if (ordered) std::sort(x.data(), x.data() + n);
    ordered = std::is_sorted(x.data(), x.data() + n);
    std::string xt;
    for (int i = 0; i < n; ++i) xt += str(x[i], " ");
    c.note("x", xt);
    bool threw = false;
    try {
        auto ys = (*f)(x);
        if (ys.rows() != n) c.fail(str("array of ", n, " gives ", ys.rows(), " rows"));
        for (int i = 0; i < n; ++i) {
            auto v = (*f)(x[i]);
            bool inside = std::abs(x[i]) <= q.xmax;
            if (!inside && (v[0] != 0 || v[1] != 0 || ys(i, 0) != 0 || ys(i, 1) != 0)) c.fail(str("not zero outside the domain, x=", x[i]));
            double allowed = 1e-13 * top;
            for (size_t j = 0; j < mesh.min.size(); ++j)
                for (double e: {mesh.min[j], mesh.max[j]})
                    if (std::abs(x[i] - e) <= 1e-15 * (std::abs(e) + 1)) {
                        allowed = std::max(allowed, 40 * q.tol * top);
                        for (auto &j: sub.exact->candidates)
                            if (std::abs(j.x - std::abs(e)) <= 1e-15 * (std::abs(e) + 1)) allowed = std::max(allowed, 40 * q.tol * top + 2 * j.jump);
                    }
            if (std::hypot(om * (v[0] - ys(i, 0)), v[1] - ys(i, 1)) > allowed)
                c.fail(str("f(", x[i], ") is (", v[0], ", ", v[1], ") alone and (", ys(i, 0), ", ", ys(i, 1), ") in the array"));
        }
    } catch (const std::runtime_error &e) {
        threw = true;
        if (ordered) c.fail(str("a sorted array is rejected: ", e.what()));
    }
    if (!ordered && !threw) c.label("an unsorted array is accepted");
    c.nontrivial(!res.ill && !q.p.pieces[0].terms.empty());
}

// asymmetric conditions and impossible indices are rejected
static void rejects(Ctx &c) {
    Problem q = problem(c);
    BC other = genBC(c, q.xmax);
    if (c.chance(.3)) {
        other = q.right;
        (c.chance(.5) ? other.y : other.dy) *= 1 + 1e-3;
        (c.chance(.5) ? other.y : other.dy) += 1e-3;
    }
    c.note("other side", other.text());
    bool same = other.y * q.right.dy == other.dy * q.right.y;
    auto l = toY(other), r = toY(q.right);
    auto rejected = [&](const char *what, auto f) {
        try {
            f();
        } catch (const std::exception &) {
            return;
        }
        c.fail(str(what, " accepts asymmetric boundary conditions"));
    };
    if (!same) {
        rejected("eigenvaluesByIndex", [&] { q.m->eigenvaluesByIndex(0, 2, l, r); });
        rejected("eigenvalues", [&] { q.m->eigenvalues(0, 100 / q.xmax / q.xmax, l, r); });
        rejected("eigenvalueError", [&] { q.m->eigenvalueError(10 / q.xmax / q.xmax, l, r); });
        rejected("eigenfunction", [&] { q.m->eigenfunction(10 / q.xmax / q.xmax, l, r); });
        rejected("eigenpairsByIndex", [&] { q.m->eigenpairsByIndex(0, 2, l, r); });
        c.nontrivial();
    }
    int bad = (int) c.integer(1, 6), len = (int) c.integer(0, 4);
    auto bounds = [&](int a, int b) {
        try {
            q.m->eigenvaluesByIndex(a, b, r);
        } catch (const std::exception &) {
            return;
        }
        c.fail(str("eigenvaluesByIndex(", a, ", ", b, ") is accepted"));
    };
    bounds(-bad, -bad + len);
    bounds(bad + len, len);
    // the full-range solver on the same problem agrees
    auto ms = Matslise<double>([p = q.p](double x) { return p(x); }, q.p.a, q.p.b, q.tol, [&] {
        Auto sb(q.tol);
        sb.jumps = q.p.jumps;
        return sb;
    }());
    int k = (int) c.integer(0, 10);
    auto a = q.m->eigenvaluesByIndex(k, k + 3, r), b = ms.eigenvaluesByIndex(k, k + 3, toY(q.left), r);
    spectrum::Judge judge(q.p, q.left, q.right, q.tol);
    std::vector<std::pair<double, double>> mesh;
    for (auto &s: q.m->ms->sectors) mesh.push_back({s->min, s->max});
    double extra = 2 * prop::unresolved(q.p, mesh) + 2 * prop::unresolved(q.p, ms);
    if (a.size() != 3 || b.size() != 3) c.fail("three eigenvalues expected");
    // of a close pair on the full range (two states at the ends, say) rounding errors are magnified by scale/gap
    auto wide = q.m->eigenvaluesByIndex(std::max(0, k - 1), k + 4, r);
    for (int i = 0; i < 3; ++i) {
        double s = judge.scale(b[i].second), gap = s;
        for (auto &w: wide) if (w.first != a[i].first) gap = std::min(gap, std::abs(w.second - a[i].second));
        if (a[i].first != b[i].first || std::abs(a[i].second - b[i].second) > 50 * q.tol * s + std::min(1e-14 * s * s / gap, 2 * gap + 1e-7 * s) + extra)
            c.fail(str("half: (", a[i].first, ", ", a[i].second, "), full: (", b[i].first, ", ", b[i].second, ")"));
    }
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C08",
                                 "values, functions: the potential is not constant and there is something to judge; rejects: the two sides really differ",
                                 {{"values", 8000, 120000, values},
                                  {"functions", 6000, 100000, functions},
                                  {"rejects", 3000, 40000, rejects}},
                                 {"a condition (y, y') holds at the right end and, mirrored, (y, -y') at the left end",
                                  "without an index an eigenfunction is only asked for when the parity can be told from the energy"}});
}
