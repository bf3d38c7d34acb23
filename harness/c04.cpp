// C04: the energy derivatives that come with a propagated value, and the matching error.
#include "prop.h"
using namespace prop;

// derivatives are held to a weaker bound than values: the method truncates them earlier (measured: usually below 150, at most 360)
static const double DFACTOR = 1500;

static void value(Ctx &c) {
    Case q = generate(c);
    double a = genPoint(c, q), b = genPoint(c, q);
    BC y0 = genInitial(c, q);
    double L = q.L();
    BC d0{0, 0};
    if (c.chance(.5)) {
        d0 = genInitial(c, q);
        double f = L / q.om * c.real(-3, 3);
        d0.y *= f;
        d0.dy *= f;
        c.label("initial derivative");
    }
    c.note("from", a);
    c.note("to", b);
    c.note("y", y0.text());
    c.note("dy/dE", d0.text());
    auto co = q.p.coeff();
    ref::Path path(co, q.E, route(q, a, b), q.om);
    auto y = q.m->propagate(q.E, lib::mk(y0.y, y0.dy, d0.y, d0.dy), a, b).first;
    ref::State z = path.total * ref::State{y0.y, y0.dy, d0.y, d0.dy};
    double err = std::hypot(q.om * (double) (y.data[2] - z[2]), (double) (y.data[3] - z[3]));
    double size = L / q.om;
    double unit = accuracy(q) * ((double) path.kappa3 * size * norm(y0, q.om) + (double) path.kappa * norm(d0, q.om));
    c.metric(str("err/unit", q.layout.uniform ? " uniform" : str(" tol=", q.tol)), err / unit);
    c.nontrivial(a != b && !q.p.pieces[0].terms.empty());
    if (!(err <= DFACTOR * unit))
        c.fail(str("dE part is (", y.data[2], ", ", y.data[3], "), the derivative is (", (double) z[2], ", ", (double) z[3],
                   "): scaled error ", err, ", allowed ", DFACTOR * unit));
    if (a == b) {
        double n1 = norm(d0, q.om) + size * norm(y0, q.om);
        if (!(err <= 1e-9 * (double) path.kappa3 * n1 + 25 * unit)) c.fail("going nowhere changes the derivative");
    }
}

// the matching error is the Wronskian of both ends at the matching point, with its derivative and the difference of angles
static void matching(Ctx &c) {
    Case q = generate(c);
    BC l = genBC(c, q.L()), r = genBC(c, q.L());
    c.note("left", l.text());
    c.note("right", r.text());
    double xm = q.m->sectors[q.m->matchIndex]->max;
    auto yl = lib::toY(l), yr = lib::toY(r);
    if (c.chance(.3)) {
        yl.data[2] = c.real(-1, 1) * q.L() * q.L();
        yr.data[3] = c.real(-1, 1) * q.L();
        c.label("boundary condition depends on E");
    }
    auto [e, de, th] = q.m->matchingError(q.E, yl, yr);
    auto [pl, tl] = q.m->propagate(q.E, yl, q.p.a, xm);
    auto [pr, tr] = q.m->propagate(q.E, yr, q.p.b, xm);
    double w = pl.data[1] * pr.data[0] - pr.data[1] * pl.data[0];
    double wm = std::abs(pl.data[1] * pr.data[0]) + std::abs(pr.data[1] * pl.data[0]);
    double dw = pl.data[3] * pr.data[0] + pl.data[1] * pr.data[2] - pr.data[3] * pl.data[0] - pr.data[1] * pl.data[2];
    double dwm = std::abs(pl.data[3] * pr.data[0]) + std::abs(pl.data[1] * pr.data[2]) + std::abs(pr.data[3] * pl.data[0]) +
                 std::abs(pr.data[1] * pl.data[2]);
    if (!(std::abs(e - w) <= 1e-12 * wm)) c.fail(str("matching error ", e, ", the solutions at the matching point give ", w));
    if (!(std::abs(de - dw) <= 1e-12 * dwm)) c.fail(str("derivative of the matching error ", de, ", the solutions give ", dw));
    if (!(std::abs(th - (tl - tr)) <= 1e-12 * (std::abs(tl) + std::abs(tr))))
        c.fail(str("matching angle ", th, ", the angles of the solutions differ by ", tl - tr));
    // against the reference
    auto co = q.p.coeff();
    ref::Path L(co, q.E, route(q, q.p.a, xm), q.om), R(co, q.E, route(q, q.p.b, xm), q.om);
    ref::State zl = L.total * ref::State{yl.data[0], yl.data[1], yl.data[2], yl.data[3]};
    ref::State zr = R.total * ref::State{yr.data[0], yr.data[1], yr.data[2], yr.data[3]};
    double tw = (double) (zl[1] * zr[0] - zr[1] * zl[0]);
    double tdw = (double) (zl[3] * zr[0] + zl[1] * zr[2] - zr[3] * zl[0] - zr[1] * zl[2]);
    double nl = norm(l, q.om), nr = norm(r, q.om), kk = (double) (L.kappa * R.kappa);
    double unit = accuracy(q) * kk * nl * nr / q.om;
    c.metric("error/unit", std::abs(e - tw) / unit);
    if (!(std::abs(e - tw) <= 2 * FACTOR * unit)) c.fail(str("matching error ", e, ", exact value ", tw));
    BC dl{yl.data[2], yl.data[3]}, dr{yr.data[2], yr.data[3]};
    unit = accuracy(q) * (double) (L.kappa3 * R.kappa3) *
           (q.L() / q.om * nl * nr + norm(dl, q.om) * nr + norm(dr, q.om) * nl) / q.om;
    c.metric("derivative/unit", std::abs(de - tdw) / unit);
    if (!(std::abs(de - tdw) <= DFACTOR * unit)) c.fail(str("derivative of the matching error ", de, ", exact value ", tdw));
    c.nontrivial(!q.p.pieces[0].terms.empty());
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C04",
                                 "a != b and the potential is not identically zero",
                                 {{"value", 120000, 3000000, value},
                                  {"matching", 50000, 1000000, matching}},
                                 {"allowed error: 1500 tol (uniform meshes: the reported mesh error) times the largest growth along the route, with two places to err for the derivative"}});
}
