// C16: propagation of coupled systems
#include "coupled.h"
using namespace cs;

constexpr double FACTOR = 12, COARSE = 60, DFACTOR = 20;

static void value(Ctx &c) {
    Options o;
    o.maxJumps = c.chance(.3) ? 3 : 0;
    Case q = generate(c, o);
    double a = genPoint(c, q), b = genPoint(c, q);
    c.note("from", a);
    c.note("to", b);
    double F = q.uniform ? COARSE : FACTOR;
    int n = q.p.n;
    YD y0 = initial(c, q, false);
    double L = q.L();
    if (c.chance(.4))
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                y0.block(matslise::dE)(i, j) = c.real(-1, 1) / q.om / q.om;
                y0.block(matslise::dXdE)(i, j) = c.real(-1, 1) / q.om;
            }
    Path path(q.p, q.E, route(q, a, b), q.om);
    M in = y0.y().cast<R>(), din = y0.ydE().cast<R>();
    M want = path.total.m * in, dwant = path.total.d * in + path.total.m * din;
    auto res = q.m->propagate(q.E, y0, a, b);
    auto check = [&](const char *name, const YD &y, const M &in, const M &din, const M &want, const M &dwant) {
        R size = scaledNorm(in, q.om), unit = q.accuracy() * path.kappa * size;
        R err = scaledNorm(y.y().cast<R>() - want, q.om);
        c.metric(str("value ", q.uniform ? "uniform" : str("tol=", q.tol)), (double) (err / unit));
        if (!(err <= F * unit)) c.fail(str(name, " is wrong: scaled error ", (double) (err / size), ", allowed ", (double) (F * unit / size)));
        R derr = scaledNorm(y.ydE().cast<R>() - dwant, q.om);
        R dunit = q.accuracy() * (path.kappa * scaledNorm(din, q.om) + path.kappa3 * size * (L / q.om + L * L));
        c.metric(str("derivative ", q.uniform ? "uniform" : str("tol=", q.tol)), (double) (derr / dunit));
        if (!(derr <= DFACTOR * dunit))
            c.fail(str("d/dE of ", name, " is wrong: scaled error ", (double) derr, ", allowed ", (double) (DFACTOR * dunit)));
    };
    check("propagate", res.first, in, din, want, dwant);
    int col = (int) c.draw(n);
    YC yc(n, 1);
    yc.data = y0.data.col(col);
    YC rc = q.m->propagateColumn<1>(q.E, yc, a, b);
    YD asD(n, 1);
    asD.data = rc.data;
    check("propagateColumn", asD, in.col(col), din.col(col), want.col(col), dwant.col(col));
    // any number of columns
    int r = (int) c.integer(1, 2 * n);
    YD many(n, r);
    for (int j = 0; j < r; ++j) many.data.col(j) = y0.data.col((j + col) % n) * (1 + j);
    YD rm = q.m->propagateColumn<-1>(q.E, many, a, b);
    if (rm.data.cols() != r) c.fail("number of columns");
    double eps = 1e-13 * (2 + q.m->sectorCount) * (1 + q.om * L);
    for (int j = 0; j < r; ++j) {
        M d = (rm.data.col(j) - (1 + j) * res.first.data.col((j + col) % n)).cast<R>();
        R s = (1 + j) * scaledNorm(in, q.om);
        if (!(scaledNorm(d.topRows(2 * n), q.om) <= 100 * eps * path.kappa * s)) c.fail(str("column ", j, " of ", r, " differs from the column alone"));
    }
    c.nontrivial(a != b && n > 1 && !q.p.diagonal);
    if (a > b) c.label("to the left");
}

static void algebra(Ctx &c) {
    Options o;
    o.maxJumps = c.chance(.3) ? 3 : 0;
    Case q = generate(c, o);
    double a = genPoint(c, q), b = genPoint(c, q), d = genPoint(c, q);
    c.note("from", a);
    c.note("to", b);
    c.note("via", d);
    double F = q.uniform ? COARSE : FACTOR;
    int n = q.p.n;
    YD y0 = initial(c, q, true), x0 = initial(c, q, true);
    auto ra = route(q, a, b), rd = route(q, a, d), re = route(q, d, b), rb = route(q, b, a);
    Path direct(q.p, q.E, ra, q.om);
    auto ya = q.m->propagate(q.E, y0, a, b).first, xa = q.m->propagate(q.E, x0, a, b).first;
    R ny = scaledNorm(y0.y().cast<R>(), q.om), nx = scaledNorm(x0.y().cast<R>(), q.om);
    // symplectic form
    auto form = [](const YD &u, const YD &v) {
        return (u.block(matslise::None).transpose() * v.block(matslise::dX) - u.block(matslise::dX).transpose() * v.block(matslise::None)).eval();
    };
    MD w = form(ya, xa) - form(y0, x0);
    R unit = q.accuracy() * direct.kappa * direct.kappa * ny * nx / q.om;
    c.metric("symplectic", w.norm() / (double) unit);
    if (!(w.norm() <= 3 * F * unit)) c.fail(str("Y^T X' - Y'^T X changes by ", w.norm(), ", allowed ", (double) (3 * F * unit)));
    // composition
    auto via = rd;
    via.insert(via.end(), re.begin(), re.end());
    Path detour(q.p, q.E, via, q.om);
    auto yd = q.m->propagate(q.E, q.m->propagate(q.E, y0, a, d).first, d, b).first;
    R err = scaledNorm((yd.y() - ya.y()).cast<R>(), q.om);
    unit = q.accuracy() * std::max(direct.kappa, detour.kappa) * ny;
    c.metric("composition", (double) (err / unit));
    if (!(err <= 2 * F * unit)) c.fail(str("a -> d -> b differs from a -> b by ", (double) err));
    // inversion
    auto back = ra;
    back.insert(back.end(), rb.begin(), rb.end());
    Path round(q.p, q.E, back, q.om);
    auto yb = q.m->propagate(q.E, ya, b, a).first;
    err = scaledNorm((yb.y() - y0.y()).cast<R>(), q.om);
    unit = q.accuracy() * round.kappa * ny;
    c.metric("inversion", (double) (err / unit));
    if (!(err <= 2 * F * unit)) c.fail(str("a -> b -> a differs from the start by ", (double) err));
    c.nontrivial(a != b && n > 1 && !q.p.diagonal);
}

// a diagonal potential against the scalar solver; a constant rotation of the system
static void scalar(Ctx &c) {
    Options o;
    o.diagonal = 1;
    Case q = generate(c, o);
    int n = q.p.n;
    double a = genPoint(c, q), b = genPoint(c, q);
    c.note("from", a);
    c.note("to", b);
    double F = q.uniform ? COARSE : FACTOR;
    MD Q = q.p.rot.rows() == n ? q.p.rot : MD(MD::Identity(n, n));
    YD y0(n);
    std::vector<double> v(n), dv(n);
    for (int i = 0; i < n; ++i) {
        v[i] = c.real(-1, 1);
        dv[i] = c.real(-1, 1) * q.om;
        y0.block(matslise::None).col(i) = Q.col(i) * v[i];
        y0.block(matslise::dX).col(i) = Q.col(i) * dv[i];
    }
    auto res = q.m->propagate(q.E, y0, a, b).first;
    Path path(q.p, q.E, route(q, a, b), q.om);
    for (int i = 0; i < n; ++i) {
        auto f = q.p.pieces[0][i][i];
        Matslise<double> m([f](double x) { return f(x); }, q.p.a, q.p.b, std::min(q.tol, 1e-8));
        auto y = m.propagate(q.E, mk(v[i], dv[i]), a, b).first;
        MD want(2 * n, 1), got = res.y().col(i);
        want << Q.col(i) * y.data[0], Q.col(i) * y.data[1];
        cs::Pot one;
        one.a = q.p.a;
        one.b = q.p.b;
        one.pieces = {{{f}}};
        Path alone(one, q.E, route(m, a, b), q.om);
        R err = scaledNorm((got - want).cast<R>(), q.om), unit = (q.accuracy() + 1e-8) * std::max(alone.kappa, path.kappa) * std::hypot(q.om * v[i], dv[i]);
        c.metric("scalar", (double) (err / unit));
        if (!(err <= 2 * F * unit)) c.fail(str("equation ", i, " differs from the scalar solver by ", (double) err));
    }
    c.nontrivial(a != b && n > 1);
}

static void outside(Ctx &c) {
    Case q = generate(c);
    double in = genPoint(c, q), out;
    bool right = c.chance(.5);
    double edge = right ? q.p.b : q.p.a, sg = right ? 1 : -1;
    switch (c.draw(4)) {
        case 0: out = std::nextafter(edge, sg * 1e300); break;
        case 1: out = edge + sg * q.L() * c.logreal(1e-10, 10); break;
        case 2: out = sg * INFINITY; break;
        default: out = NAN;
    }
    if (out == edge) out = std::nextafter(edge, sg * 1e300);
    bool first = c.chance(.5);
    c.note("inside", in);
    c.note("outside", out);
    int n = q.p.n;
    auto thrown = [&](double a, double b, int way) {
        try {
            if (way == 0) q.m->propagate(q.E, YD::Dirichlet(n), a, b);
            else if (way == 1) q.m->propagateColumn<1>(q.E, YC(n, 1), a, b);
            else if (way == 2) q.m->propagateColumn<-1>(q.E, YD::Neumann(n), a, b);
            else q.m->propagatePsi(q.E, MD::Zero(n, n), a, b);
        } catch (const std::exception &) {
            return true;
        }
        return false;
    };
    for (int way = 0; way < 4; ++way) {
        static const char *names[] = {"propagate", "propagateColumn<1>", "propagateColumn<-1>", "propagatePsi"};
        if (!thrown(first ? out : in, first ? in : out, way)) c.fail(str(names[way], " to or from ", out, " is accepted"));
        if (thrown(in, edge, way)) c.fail(str(names[way], " inside the domain is rejected"));
    }
    c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C16", "a != b and more than one coupled equation; outside: every case",
                                 {{"value", 4000, 80000, value},
                                  {"algebra", 2500, 50000, algebra},
                                  {"scalar", 1500, 30000, scalar},
                                  {"outside", 1000, 20000, outside}},
                                 {"the potential is symmetric and piecewise smooth with declared jumps", "the reference integrator"}});
}
