// C05: the Pruefer angle returned by propagate(), and the matching angle.
#include "prop.h"
#include "spectrum.h"
using namespace prop;

// number of zeros in (a, b] (to the right) or [b, a) (to the left), and whether that is certain: no zero too close to b
struct Zeros {
    long n;
    bool sure;
    ref::State end;
};

static Zeros zeros(const Case &q, const ref::Coeff &co, double a, double b, const BC &y0, double allowed) {
    Zeros r;
    ref::Integrator in(co, q.E);
    ref::State s{y0.y, y0.dy, 0, 0};
    if (b >= a) {
        r.n = a == b ? 0 : ref::countZeros(in, a, b, s);
    } else {
        // mirror: count on the way to the left
        int sg = s[0] > 0 ? 1 : s[0] < 0 ? -1 : (s[1] > 0 ? -1 : 1);
        long n = 0;
        std::vector<ref::State> y{s};
        in.run(a, b, y, false, [&](ref::R, std::vector<ref::State> &st) {
            ref::R v = st[0][0];
            if ((v > 0 && sg < 0) || (v < 0 && sg > 0) || v == 0) {
                ++n;
                sg = -sg;
            }
        });
        s = y[0];
        r.n = n;
    }
    r.end = s;
    double nrm = std::hypot(q.om * (double) s[0], (double) s[1]);
    r.sure = std::abs(q.om * (double) s[0]) > allowed && nrm > allowed;
    return r;
}

static void angle(Ctx &c) {
    Case q = generate(c);
    double a = genPoint(c, q), b = genPoint(c, q);
    BC y0 = genInitial(c, q);
    c.note("from", a);
    c.note("to", b);
    c.note("y", y0.text());
    auto co = q.p.coeff();
    ref::Path path(co, q.E, route(q, a, b), q.om);
    double allowed = FACTOR * accuracy(q) * (double) path.kappa * norm(y0, q.om);
    auto [y, th] = q.m->propagate(q.E, toY(y0), a, b);
    Zeros z = zeros(q, co, a, b, y0, allowed);
    double turns = th / M_PI;
    if (!std::isfinite(th)) c.fail("the angle is not finite");
    // zeros passed
    long got = a <= b ? (long) std::floor(turns) : 1 - (long) std::ceil(turns);
    // an angle within rounding of a multiple of pi may be on either side
    bool edge = std::abs(turns - std::round(turns)) < 1e-13 * (1 + std::abs(turns));
    if (z.sure && !edge && got != z.n)
        c.fail(str("the angle ", turns, " pi says ", got, " zeros, the solution has ", z.n));
    if (!z.sure) {
        c.label("ends at a zero");
        if (std::abs(got - z.n) > 1) c.fail(str("the angle ", turns, " pi says ", got, " zeros, the solution has ", z.n, " (ends at a zero)"));
    } else
        c.nontrivial(z.n > 0);
    // the fractional part belongs to the returned value: tan(theta) = S y/y' with S > 0
    double frac = turns - std::floor(turns), yy = y.data[0], dy = y.data[1];
    double nrm = std::hypot(q.om * yy, dy);
    if (std::abs(q.om * yy) > 1e-9 * nrm && std::abs(dy) > 1e-9 * nrm && nrm > 0) {
        bool first = frac > 0 && frac < .5;
        if (first != (yy * dy > 0) && std::min({frac, std::abs(frac - .5), 1 - frac}) > 1e-10)
            c.fail(str("the angle ", turns, " pi does not belong to (y, y') = (", yy, ", ", dy, ")"));
    }
    // zero exactly where the solution vanishes
    if (yy == 0 && std::min(frac, 1 - frac) > 1e-9) c.fail(str("y = 0 but the angle is ", turns, " pi"));
    // it undoes itself on the way back
    auto [yb, tb] = q.m->propagate(q.E, y, b, a);
    // the angles of the end points themselves
    auto [ya0, ta0] = q.m->propagate(q.E, toY(y0), a, a);
    auto [yb0, tb0] = q.m->propagate(q.E, y, b, b);
    (void) ya0;
    (void) yb0;
    auto r0 = route(q, a, b), r1 = route(q, b, a);
    r0.insert(r0.end(), r1.begin(), r1.end());
    ref::Path round(co, q.E, r0, q.om);
    double lost = FACTOR * accuracy(q) * (double) round.kappa;
    if (lost < 1e-3) {
        // when going back the starting angle is the same direction, a multiple of pi apart
        double there = th - ta0, back = tb - tb0;
        double sum = (there + back) / M_PI;
        // at a zero, the starting convention is 0 to the right and pi to the left
        double d = std::abs(sum - std::round(sum));
        double slack = 1e-9 + 4 * lost * std::max(1., q.om * q.L()) * std::max(q.om * q.L(), 1 / (q.om * q.L())) + 1e-12 * std::abs(turns);
        c.metric("round trip", d);
        bool mayJump = std::abs(q.om * y0.y) <= lost * norm(y0, q.om) || !z.sure;
        if (slack < .1 && (d > slack || (std::round(sum) != 0 && !mayJump)))
            c.fail(str("there ", there / M_PI, " pi, back ", back / M_PI, " pi"));
    }
}

// the angle is continuous in the end point: over a tiny step it changes little
static void continuous(Ctx &c) {
    Case q = generate(c);
    double a = genPoint(c, q), b = genPoint(c, q);
    BC y0 = genInitial(c, q);
    double d = q.L() * c.logreal(1e-13, 1e-6);
    double b2 = std::min(b + d, q.p.b);
    c.note("from", a);
    c.note("to", str(b, " and ", b2));
    c.note("y", y0.text());
    auto co = q.p.coeff();
    ref::Path path(co, q.E, route(q, a, b), q.om), path2(co, q.E, route(q, a, b2), q.om);
    double lost = FACTOR * accuracy(q) * (double) std::max(path.kappa, path2.kappa) * norm(y0, q.om);
    auto [y1, t1] = q.m->propagate(q.E, toY(y0), a, b);
    auto [y2, t2] = q.m->propagate(q.E, toY(y0), a, b2);
    double n1 = norm(y1, q.om);
    double S = std::max(q.om * q.L(), 1 / (q.om * q.L()));
    double slack = lost / n1 * 4 * std::max(1., q.om * q.L()) * S + (b2 - b) * 10 * (1 + q.om * q.om) + 1e-9 + 1e-13 * std::abs(t1);
    if (!(slack < .3)) return;
    // the start convention at a zero differs for left and right
    double jump = std::abs(t2 - t1);
    if ((a <= b) != (a <= b2)) return;
    if (a >= b2 && a == b2 && y0.y == 0) return;
    if (a > b && a == b2) return;
    if (!(jump <= slack)) c.fail(str("over ", b2 - b, " the angle jumps from ", t1 / M_PI, " pi to ", t2 / M_PI, " pi"));
    c.nontrivial(b2 > b);
}

// two columns have the angles of their own
static void columns(Ctx &c) {
    Case q = generate(c);
    double a = genPoint(c, q), b = genPoint(c, q);
    BC u = genInitial(c, q), v = genInitial(c, q);
    c.note("from", a);
    c.note("to", b);
    c.note("y", u.text() + " " + v.text());
    Y<double, 1, 2> y2;
    y2.data.col(0) = toY(u).data;
    y2.data.col(1) = toY(v).data;
    auto [yy, tt] = q.m->propagate<2>(q.E, y2, a, b);
    auto tu = q.m->propagate(q.E, toY(u), a, b).second, tv = q.m->propagate(q.E, toY(v), a, b).second;
    auto same = [&](double x, double y) {
        // a solution that ends at a zero may round to either side
        double d = std::abs(x - y) / M_PI;
        return d <= 1e-7 || (std::abs(d - 1) <= 1e-7 && std::abs(std::remainder(x, M_PI)) < 1e-7);
    };
    if (!same(tt[0], tu) || !same(tt[1], tv))
        c.fail(str("angles of two columns: ", tt[0] / M_PI, " pi, ", tt[1] / M_PI, " pi; alone: ", tu / M_PI, " pi, ", tv / M_PI, " pi"));
    c.nontrivial(a != b);
}

// the matching angle counts the eigenvalues below E
static void counting(Ctx &c) {
    Case q = generate(c);
    BC l = genBC(c, q.L()), r = genBC(c, q.L());
    c.note("left", l.text());
    c.note("right", r.text());
    auto yl = toY(l), yr = toY(r);
    spectrum::Judge judge(q.p, l, r, q.layout.uniform ? accuracy(q) : q.tol);
    double E2 = q.E + c.logreal(1e-6, 1e3) / (q.L() * q.L());
    c.note("E2", E2);
    double t[2];
    int i = 0;
    for (double E: {q.E, E2}) {
        t[i] = std::get<2>(q.m->matchingError(E, yl, yr)) / M_PI;
        double d = judge.factor * judge.tol * judge.scale(E) + 2 * unresolved(q.p, *q.m) / q.L();
        long n0 = judge.below((ref::R) E - d), n1 = judge.below((ref::R) E + d);
        long got = (long) std::ceil(t[i]);
        if (got < n0 || got > n1)
            c.fail(str("the matching angle at E=", E, " is ", t[i], " pi, there are ", n0, n0 == n1 ? "" : str(" to ", n1), " eigenvalues below"));
        c.nontrivial(n1 > 0);
        ++i;
    }
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C05",
                                 "angle: the solution has at least one zero between the points; counting: at least one eigenvalue below; continuous, columns: the points differ",
                                 {{"angle", 50000, 1500000, angle},
                                  {"continuous", 30000, 1000000, continuous},
                                  {"columns", 20000, 400000, columns},
                                  {"counting", 15000, 400000, counting}},
                                 {"a zero that is closer to the end point than the accuracy of the solution may be counted or not"}});
}
