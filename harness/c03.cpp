// C03: propagate() carries solutions across the domain.
#include "prop.h"
using namespace prop;

static void value(Ctx &c) {
    Case q = generate(c);
    double a = genPoint(c, q), b = genPoint(c, q);
    BC y0 = genInitial(c, q);
    c.note("from", a);
    c.note("to", b);
    c.note("y", y0.text());
    auto co = q.p.coeff();
    ref::Path path(co, q.E, route(q, a, b), q.om);
    auto y = q.m->propagate(q.E, toY(y0), a, b).first;
    ref::State z = path.total * ref::State{y0.y, y0.dy, 0, 0};
    double n0 = norm(y0, q.om);
    double err = std::hypot(q.om * (double) (y.data[0] - z[0]), (double) (y.data[1] - z[1])) / n0;
    double unit = accuracy(q) * (double) path.kappa;
    c.metric(str("err/unit", q.layout.uniform ? " uniform" : str(" tol=", q.tol)), err / unit);
    c.nontrivial(a != b && !(q.p.pieces[0].terms.empty()));
    c.label(a < b ? "to the right" : a > b ? "to the left" : "nowhere");
    if (!(err <= FACTOR * unit))
        c.fail(str("propagate gives (", y.data[0], ", ", y.data[1], "), the solution is (", (double) z[0], ", ", (double) z[1],
                   "): scaled error ", err, ", allowed ", FACTOR * unit));
}

// Consequences that need no reference: linearity, two columns at once, composition, inversion, Wronskian
static void algebra(Ctx &c) {
    Case q = generate(c);
    double a = genPoint(c, q), b = genPoint(c, q), d = genPoint(c, q);
    BC u = genInitial(c, q), v = genInitial(c, q);
    double du = c.real(-2, 2), dv = c.real(-2, 2), s = c.real(-3, 3), t = c.real(-3, 3);
    c.note("from", a);
    c.note("to", b);
    c.note("via", d);
    c.note("u", u.text());
    c.note("v", v.text());
    auto co = q.p.coeff();
    Y<double> yu = toY(u), yv = toY(v);
    double L = q.L();
    yu.data[2] = du * u.y * L * L;
    yu.data[3] = dv * u.dy * L * L;
    yv.data[2] = dv * v.y * L * L;
    yv.data[3] = du * v.dy * L * L;
    auto pu = q.m->propagate(q.E, yu, a, b).first, pv = q.m->propagate(q.E, yv, a, b).first;
    // size of everything that passes by
    auto r0 = route(q, a, b), r1 = route(q, a, d), r2 = route(q, d, b), r3 = route(q, b, a);
    ref::Path direct(co, q.E, r0, q.om);
    double kappa = (double) direct.kappa;
    double nu = norm(u, q.om), nv = norm(v, q.om);
    double eps = 1e-14 * (2 + q.m->sectorCount) * (1 + q.om * L);

    // linear
    Y<double> w = yu * s;
    w.data += (yv * t).data;
    auto pw = q.m->propagate(q.E, w, a, b).first;
    auto lin = (pu.data * s + pv.data * t - pw.data).eval();
    double err = std::hypot(q.om * lin[0], lin[1]);
    c.metric("linear", err / (eps * kappa * (std::abs(s) * nu + std::abs(t) * nv) + 1e-300));
    if (!(err <= 100 * eps * kappa * (std::abs(s) * nu + std::abs(t) * nv) + 1e-280))
        c.fail(str("propagate is not linear: error ", err));
    // columns
    Y<double, 1, 2> y2;
    y2.data.col(0) = yu.data;
    y2.data.col(1) = yv.data;
    auto p2 = q.m->propagate<2>(q.E, y2, a, b);
    for (int i = 0; i < 4; ++i) {
        double m = std::abs(pu.data[i]) + std::abs(pv.data[i]);
        for (int j = 0; j < 2; ++j) {
            double x = p2.first.data(i, j), y = (j ? pv : pu).data[i];
            double scale = kappa * (j ? nv : nu) / (i % 2 == 0 ? q.om : 1);
            if (i >= 2) scale *= (double) direct.kappa3 * (L / q.om + 4 * L * L);
            if (!(std::abs(x - y) <= 100 * eps * scale + 1e-280)) c.fail(str("two columns: column ", j, " row ", i, " is ", x, ", alone it is ", y, " ", m));
        }
    }
    // Wronskian
    double acc = accuracy(q);
    double w0 = u.y * v.dy - u.dy * v.y, w1 = pu.data[0] * pv.data[1] - pu.data[1] * pv.data[0];
    double nb = std::hypot(q.om * pu.data[0], pu.data[1]) * std::hypot(q.om * pv.data[0], pv.data[1]) / q.om;
    double wunit = acc * kappa * kappa * nu * nv / q.om + eps * nb;
    c.metric("wronskian", std::abs(w1 - w0) / wunit);
    if (!(std::abs(w1 - w0) <= 2 * FACTOR * wunit)) c.fail(str("the Wronskian changes from ", w0, " to ", w1));
    // composition
    auto via = r1;
    via.insert(via.end(), r2.begin(), r2.end());
    ref::Path detour(co, q.E, via, q.om);
    auto pd = q.m->propagate(q.E, q.m->propagate(q.E, yu, a, d).first, d, b).first;
    err = std::hypot(q.om * (pd.data[0] - pu.data[0]), pd.data[1] - pu.data[1]) / nu;
    double unit = acc * (double) std::max(detour.kappa, direct.kappa);
    c.metric("composition", err / unit);
    if (!(err <= 2 * FACTOR * unit))
        c.fail(str("a -> d -> b gives (", pd.data[0], ", ", pd.data[1], "), a -> b gives (", pu.data[0], ", ", pu.data[1], ")"));
    // inversion
    auto back = r0;
    back.insert(back.end(), r3.begin(), r3.end());
    ref::Path round(co, q.E, back, q.om);
    auto pb = q.m->propagate(q.E, pu, b, a).first;
    err = std::hypot(q.om * (pb.data[0] - u.y), pb.data[1] - u.dy) / nu;
    unit = acc * (double) round.kappa;
    c.metric("inversion", err / unit);
    if (!(err <= 2 * FACTOR * unit))
        c.fail(str("a -> b -> a gives (", pb.data[0], ", ", pb.data[1], ") instead of (", u.y, ", ", u.dy, ")"));
    c.nontrivial(a != b && !q.p.pieces[0].terms.empty());
}

static void outside(Ctx &c) {
    Case q = generate(c);
    double in = genPoint(c, q), out;
    bool right = c.chance(.5);
    double edge = right ? q.p.b : q.p.a, sg = right ? 1 : -1;
    switch (c.draw(4)) {
        case 0: out = std::nextafter(edge, sg * 1e300); break;
        case 1: out = edge + sg * q.L() * c.logreal(1e-10, 10); break;
        case 2: out = sg * INFINITY; break;
        default: out = NAN;
    }
    if (out == edge) out = std::nextafter(edge, sg * 1e300);
    bool first = c.chance(.5);
    c.note("inside", in);
    c.note("outside", out);
    auto thrown = [&](double a, double b) {
        try {
            q.m->propagate(q.E, toY(BC{0, 1}), a, b);
        } catch (const std::exception &) {
            return true;
        }
        return false;
    };
    if (!thrown(first ? out : in, first ? in : out)) c.fail(str("propagate to or from ", out, " is accepted, the domain ends at ", edge));
    if (thrown(in, edge) || thrown(edge, in)) c.fail("propagate inside the domain is rejected");
    c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C03",
                                 "value, algebra: a != b and the potential is not identically zero; outside: every case",
                                 {{"value", 120000, 3000000, value},
                                  {"algebra", 40000, 1000000, algebra},
                                  {"outside", 5000, 50000, outside}},
                                 {"the allowed error is 40 tol (uniform meshes: the sum of the errors the sectors report) times the largest growth along the route through the base points of the sectors of a and b"}});
}
