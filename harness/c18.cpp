// C18: Riccati propagation of coupled systems
#include "coupled.h"
using namespace cs;

constexpr double FACTOR = 12, COARSE = 60;

// psi = Y (Y')^-1 against the reference (columns normalised so that Y' = 1 at the start)
static void value(Ctx &c) {
    Options o;
    o.maxJumps = c.chance(.3) ? 3 : 0;
    Case q = generate(c, o);
    double a = genPoint(c, q), b = genPoint(c, q);
    c.note("from", a);
    c.note("to", b);
    int n = q.p.n;
    double F = q.uniform ? COARSE : FACTOR, om = q.om;
    MD psi(n, n);
    switch (c.draw(4)) {
        case 0: psi = MD::Zero(n, n); break;
        case 1:
            psi = MD::Zero(n, n);
            for (int i = 0; i < n; ++i) psi(i, i) = c.real(-3, 3) / om;
            break;
        default:
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j) psi(i, j) = c.real(-2, 2) / om;
            if (c.chance(.7)) {
                psi = ((psi + psi.transpose()) / 2).eval();
                c.label("symmetric");
            }
    }
    // every intermediate quotient must exist: the library passes through all points of the route
    auto rt = route(q, a, b);
    M y(2 * n, n);
    y << psi.cast<R>(), M::Identity(n, n);
    // bound for the accumulated error: walk with the reference, psi -> (T00 psi + T01)(T10 psi + T11)^-1
    R bound = 1e-16L * (1 + om * psi.norm()), acc = q.accuracy() + 1e-13 * (1 + om * q.L());
    R worst = 1;
    M cur = psi.cast<R>();
    for (size_t k = 0; k + 1 < rt.size(); ++k) {
        if (rt[k] == rt[k + 1]) continue;
        M t = transfer(q.p, q.E, rt[k], rt[k + 1]).m;
        M den = t.bottomLeftCorner(n, n) * cur + t.bottomRightCorner(n, n);
        M num = t.topLeftCorner(n, n) * cur + t.topRightCorner(n, n);
        M inv = den.fullPivLu().inverse();
        M next = num * inv;
        R N = std::max((R) 1, scaledNorm(t, om)), ni = inv.norm();
        // derivative of the map: (T00 - next T10) dpsi inv;  error of t: (1 + om |next|) N acc (1 + om |cur|) |inv|
        R gain = (t.topLeftCorner(n, n) - next * t.bottomLeftCorner(n, n)).norm() * ni;
        R second = (t.bottomLeftCorner(n, n) / om).norm() * ni; // bound * second must remain small
        R fresh = (1 + om * next.norm()) * N * acc * (1 + om * cur.norm()) * ni;
        R relDen = N * acc * (1 + om * cur.norm()) * ni;
        worst = std::min(worst, 1 - 4 * F * (bound * second + relDen));
        bound = bound * gain + fresh;
        cur = next;
    }
    if (!(worst > .5)) {
        c.label("near a pole");
        return;
    }
    MD got = q.m->propagatePsi(q.E, psi, a, b);
    if (got.rows() != n || got.cols() != n) c.fail("the size changed");
    R err = om * (got.cast<R>() - cur).norm();
    c.metric("psi", (double) (err / bound));
    if (!(err <= F * bound)) c.fail(str("psi is wrong: scaled error ", (double) err, ", allowed ", (double) (F * bound), ", size ", (double) (om * cur.norm())));
    // against the linear propagation
    YD y0(n);
    y0.block(matslise::None) = psi;
    y0.block(matslise::dX) = MD::Identity(n, n);
    YD y1 = q.m->propagate(q.E, y0, a, b).first;
    Path path(q.p, q.E, rt, om);
    R size = om * psi.norm() + std::sqrt((R) n), lin = acc * path.kappa * size;
    M Y1 = (path.total.m * y), inv = Y1.bottomRows(n).fullPivLu().inverse();
    R linErr = lin * inv.norm();
    if (F * linErr < .25) {
        MD quotient = y1.block(matslise::None) * y1.block(matslise::dX).inverse();
        R diff = om * (quotient - got).norm(), allowed = .01 * (bound + 2 * linErr * (1 + om * cur.norm()) + 1e-13 * (1 + om * cur.norm()) * Y1.bottomRows(n).norm() * inv.norm());
        c.metric("linear", (double) (diff / allowed));
        if (!(diff <= allowed)) c.fail(str("psi differs from Y / Y' by ", (double) diff, ", allowed ", (double) allowed));
        c.label("compared with Y");
    }
    if (a > b) c.label("to the left");
    c.nontrivial(a != b && n > 1 && !q.p.diagonal);
}

// a -> b -> a, and a -> d -> b
static void algebra(Ctx &c) {
    Options o;
    o.maxJumps = c.chance(.3) ? 3 : 0;
    Case q = generate(c, o);
    int n = q.p.n;
    double om = q.om;
    // inside one sector: distances of less than half a wave avoid poles for small psi
    auto &s = q.m->sectors[c.draw(q.m->sectors.size())];
    double w = std::min(s->max - s->min, .3 / om);
    double a = s->min + (s->max - s->min - w) * c.real(0, 1), b = std::min(s->max, a + w * c.real(0, 1)), d = std::min(s->max, a + w * c.real(0, 1));
    if (c.chance(.5)) std::swap(a, b);
    c.note("from", a);
    c.note("to", b);
    MD psi(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) psi(i, j) = c.real(-.5, .5) / om / n;
    std::vector<double> rt = route(q, a, b), r2 = route(q, b, a);
    (void) d;
    rt.insert(rt.end(), r2.begin(), r2.end());
    R bound = 0, acc = q.accuracy() + 1e-13;
    M cur = psi.cast<R>();
    for (size_t k = 0; k + 1 < rt.size(); ++k) {
        if (rt[k] == rt[k + 1]) continue;
        M t = transfer(q.p, q.E, rt[k], rt[k + 1]).m;
        M den = t.bottomLeftCorner(n, n) * cur + t.bottomRightCorner(n, n);
        M inv = den.fullPivLu().inverse(), next = (t.topLeftCorner(n, n) * cur + t.topRightCorner(n, n)) * inv;
        R N = std::max((R) 1, scaledNorm(t, om)), ni = inv.norm();
        bound = bound * (t.topLeftCorner(n, n) - next * t.bottomLeftCorner(n, n)).norm() * ni + (1 + om * next.norm()) * N * acc * (1 + om * cur.norm()) * ni;
        if (!(N * acc * (1 + om * cur.norm()) * ni < .001)) {
            c.label("near a pole");
            return;
        }
        cur = next;
    }
    MD there = q.m->propagatePsi(q.E, psi, a, b), back = q.m->propagatePsi(q.E, there, b, a);
    R err = om * (back - psi).norm();
    c.metric("there and back", (double) (err / bound));
    if (!(err <= 2 * bound)) c.fail(str("a -> b -> a differs from the start by ", (double) err, ", allowed ", (double) (2 * bound)));
    if (q.m->propagatePsi(q.E, psi, a, a) != psi) {
        MD same = q.m->propagatePsi(q.E, psi, a, a);
        R e = om * (same - psi).norm();
        if (!(e <= COARSE * bound + 1e-12)) c.fail(str("a -> a differs from the start by ", (double) e));
    }
    c.nontrivial(a != b && n > 1);
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C18", "a != b, more than one coupled equation and no pole of psi too close to a point of the route",
                                 {{"value", 6000, 100000, value},
                                  {"algebra", 2500, 50000, algebra}},
                                 {"psi exists at every mesh point on the way (poles are excluded by the reference)", "the reference integrator"}});
}
