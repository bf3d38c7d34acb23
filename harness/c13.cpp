// C13: the Liouville transformation is a faithful change of variables
#include "sl.h"

using namespace sl;

struct Setup {
    Problem s;
    std::unique_ptr<LT> lt;
    double L, X;
};

static Setup setup(Ctx &c) {
    Setup q;
    q.s = genProblem(c);
    auto s = q.s;
    c.note("problem", s.text());
    q.L = s.length();
    q.lt = std::make_unique<LT>(matslise::Domain<double>{s.a, s.b}, [s](double r) { return s.p(r); }, [s](double r) { return s.q(r); },
                                [s](double r) { return s.w(r); });
    q.X = (double) integral([&](R r) { return s.xdr(r); }, s.a, s.b);
    c.note("pieces", q.lt->pieces.size());
    c.nontrivial(!s.p.factors.empty() || !s.w.factors.empty());
    return q;
}

static double point(Ctx &c, const Setup &q) {
    switch (c.draw(8)) {
        case 0: return c.chance(.5) ? q.s.a : q.s.b;
        case 1: { // near a boundary between pieces
            auto &pc = q.lt->pieces[c.draw(q.lt->pieces.size())];
            double r = c.chance(.5) ? pc.r.min : pc.r.max;
            if (c.chance(.6)) r = std::nextafter(r, c.chance(.5) ? -1e300 : 1e300);
            return std::min(q.s.b, std::max(q.s.a, r));
        }
        default: return std::min(q.s.b, q.s.a + q.L * c.real(0, 1));
    }
}

static void maps(Ctx &c) {
    Setup q = setup(c);
    auto d = q.lt->xDomain();
    if (d.min != 0) c.fail(str("the x domain starts in ", d.min));
    if (!(std::abs(d.max - q.X) <= 1e-9 * q.X)) c.fail(str("the x domain ends in ", d.max, " instead of ", q.X));
    if (q.lt->rDomain().min != q.s.a || q.lt->rDomain().max != q.s.b) c.fail("the r domain is not the given one");
    std::vector<double> rs;
    int n = (int) c.integer(2, 12);
    for (int i = 0; i < n; ++i) rs.push_back(point(c, q));
    std::sort(rs.begin(), rs.end());
    double prev = 0, prevR = 0;
    for (int i = 0; i < n; ++i) {
        double r = rs[i], x = q.lt->r2x(r);
        R exact = integral([&](R t) { return q.s.xdr(t); }, q.s.a, r);
        c.metric("x error", std::abs(x - (double) exact) / q.X);
        if (!(std::abs(x - (double) exact) <= 1e-9 * q.X)) c.fail(str("r2x(", r, ") = ", x, ", expected ", (double) exact));
        if (i && r > prevR && !(x >= prev - 1e-14 * q.X)) c.fail(str("r2x is not increasing between ", prevR, " and ", r));
        if (i && r - prevR > 1e-9 * q.L && !(x > prev)) c.fail(str("r2x is not strictly increasing between ", prevR, " and ", r));
        prev = x;
        prevR = r;
        double back = q.lt->x2r(std::min(d.max, std::max(d.min, x)));
        double slope = (double) q.s.xdr(r);
        double allowed = 1e-9 * q.X / slope + 1e-13 * (std::abs(q.s.a) + q.L);
        c.metric("round trip", std::abs(back - r) / allowed);
        if (!(std::abs(back - r) <= allowed)) c.fail(str("x2r(r2x(", r, ")) = ", back));
    }
    // the derivative
    double h = 1e-3 * q.L, r = q.s.a + q.L * c.real(0, .998);
    double dx = q.lt->r2x(r + h) - q.lt->r2x(r);
    R ex = integral([&](R t) { return q.s.xdr(t); }, r, r + h);
    if (!(std::abs(dx - (double) ex) <= 2e-9 * q.X)) c.fail(str("r2x grows by ", dx, " on [", r, ", ", r + h, "] instead of ", (double) ex));
    // x to r
    for (int i = 0; i < 4; ++i) {
        double x = c.chance(.2) ? (c.chance(.5) ? d.min : d.max) : d.min + (d.max - d.min) * c.real(0, 1);
        double rr = q.lt->x2r(x);
        if (!(rr >= q.s.a - 1e-13 * q.L && rr <= q.s.b + 1e-13 * q.L)) c.fail(str("x2r(", x, ") = ", rr, " is outside the domain"));
        double again = q.lt->r2x(std::min(q.s.b, std::max(q.s.a, rr)));
        double allowed = 1e-9 * q.X + 1e-14 * (std::abs(q.s.a) + q.L) * (double) q.s.xdr(rr);
        if (!(std::abs(again - x) <= allowed)) c.fail(str("r2x(x2r(", x, ")) = ", again));
    }
}

static void values(Ctx &c) {
    Setup q = setup(c);
    std::vector<std::pair<double, std::string>> slopes;
    for (int i = 0; i < 7; ++i) {
        double r = point(c, q);
        double x = std::min(q.lt->xDomain().max, q.lt->r2x(r));
        Jet P = q.s.p.jet(r), W = q.s.w.jet(r), m = jpow(P * W, .25L);
        R xdr = q.s.xdr(r);
        double z0 = c.real(-2, 2), z1 = c.real(-2, 2) / q.L, z2 = c.real(-2, 2), z3 = c.real(-2, 2) / q.L;
        auto z = mk(z0, z1, z2, z3);
        auto y = q.lt->z2y(r, z);
        R e[4] = {m.v * (R) z0, (m.d * (R) z0 + m.v * (R) z1) / xdr, m.v * (R) z2, (m.d * (R) z2 + m.v * (R) z3) / xdr};
        double tolr = 1e-8;
        double s0 = (double) m.v * (std::abs(z0) + std::abs(z1) * q.L + std::abs(z2) + std::abs(z3) * q.L) + 1e-300;
        double s1 = (double) ((std::abs(m.d) * (std::abs(z0) + std::abs(z2)) + m.v * (std::abs(z1) + std::abs(z3)) + m.v * (std::abs(z0) + std::abs(z2)) / q.L) / xdr) + 1e-300;
        for (int k = 0; k < 4; ++k) {
            double err = std::abs(y.data[k] - (double) e[k]) / (k % 2 ? s1 : s0);
            c.metric(k % 2 ? "z2y slope error" : "z2y error", err);
            std::string msg = str("z2y(", r, ", (", z0, ", ", z1, ", ", z2, ", ", z3, ")): component ", k, " is ", y.data[k], " instead of ", (double) e[k]);
            if (!(err <= (k % 2 ? 3e-6 : tolr))) c.fail(msg);
            if (k == 1) slopes.emplace_back(err, msg);
        }
        auto back = q.lt->y2z(x, y);
        double zs0 = std::abs(z0) + std::abs(z1) * q.L + std::abs(z2) + std::abs(z3) * q.L + 1e-300;
        zs0 *= 1 + (double) std::abs(m.d / m.v) * q.L;
        for (int k = 0; k < 4; ++k) {
            double err = std::abs(back.data[k] - z.data[k]) * (k % 2 ? q.L : 1) / zs0;
            c.metric("round trip", err);
            if (!(err <= (k % 2 ? 3e-6 : tolr)))
                c.fail(str("y2z(z2y(z)) with z = (", z0, ", ", z1, ", ", z2, ", ", z3, ") at r = ", r, ": component ", k, " is ", back.data[k]));
        }
    }
    std::sort(slopes.begin(), slopes.end());
    c.metric("median z2y slope error", slopes[3].first);
    if (!(slopes[3].first <= 1e-8)) c.fail(slopes[3].second + " and for most other points");
}

static void potential(Ctx &c) {
    Setup q = setup(c);
    std::vector<std::pair<double, std::string>> errors;
    for (int i = 0; i < 11; ++i) {
        double r = i < 5 ? point(c, q) : q.s.a + q.L * c.real(0, 1);
        double x = std::min(q.lt->xDomain().max, q.lt->r2x(r));
        R second;
        R v = q.s.V(r, &second);
        double got = q.lt->V(x);
        // q/w moves with r
        double s = std::abs((double) q.s.q(r)) / (double) q.s.w(r) + std::abs((double) second) + 1 / (q.X * q.X);
        double err = std::abs(got - (double) v) / s;
        c.metric("V error", err);
        std::string msg = str("V(", x, ") = ", got, ", expected ", (double) v, " (r = ", r, ")");
        if (!(err <= 3e-4)) c.fail(msg);
        errors.emplace_back(err, msg);
    }
    // the second derivative of a fitted polynomial may be rough in the ends of a piece, elsewhere it is not
    std::sort(errors.begin(), errors.end());
    c.metric("median V error", errors[5].first);
    if (!(errors[5].first <= 1e-6)) c.fail(errors[5].second + " and for most other points");
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C13", "p or w is not 1",
                                 {{"maps", 3000, 60000, maps},
                                  {"values", 3000, 60000, values},
                                  {"potential", 3000, 60000, potential}},
                                 {"p and w are positive and smooth", "derivatives of p and w by exact jets, x(r) by adaptive quadrature in long double"}});
}
