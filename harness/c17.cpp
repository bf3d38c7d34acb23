// C17: the angle of coupled systems
#include "coupled.h"
using namespace cs;

typedef std::complex<R> Z;
typedef Eigen::Matrix<Z, Eigen::Dynamic, Eigen::Dynamic> MZ;
constexpr double FACTOR = 12, COARSE = 60;

// the sum of the eigenphases of (Y' + i s Y)(Y' - i s Y)^-1, each in (0, 2 pi]: mapped from scale s to scale 1
struct Phases {
    std::vector<R> scaled, plain;
    R sum() const {
        R r = 0;
        for (R x: plain) r += x;
        return r;
    }
    R sumScaled() const {
        R r = 0;
        for (R x: scaled) r += x;
        return r;
    }
};

static Phases phases(const M &y, const M &u, R s) {
    MZ A = u.cast<Z>() + Z(0, 1) * s * y.cast<Z>(), B = u.cast<Z>() - Z(0, 1) * s * y.cast<Z>();
    MZ th = A * B.fullPivLu().inverse();
    Eigen::ComplexEigenSolver<MZ> es(th, false);
    Phases r;
    const R PI = std::acos(-1.0L);
    for (int i = 0; i < (int) y.rows(); ++i) {
        R phi = std::arg(es.eigenvalues()[i]);
        if (phi <= 0) phi += 2 * PI;
        R t = phi / 2; // (0, pi]
        R p = std::atan2(std::sin(t) / s, std::cos(t));
        if (p < 0) p = PI; // rounding around pi
        r.scaled.push_back(2 * t);
        r.plain.push_back(2 * p);
    }
    return r;
}

// follows the phase with steps of a quarter radian; also counts the zeros of det Y
struct Tracker {
    const Case &q;
    M y, u;
    R x, phase = 0, s; // phase: change of the scaled angle so far
    R minEdge = 10; // distance of the eigenphases to 0 = 2 pi (zeros of Y) at the two ends

    static M orth(const M &a) {
        Eigen::HouseholderQR<M> qr(a);
        return qr.householderQ() * M::Identity(a.rows(), a.cols());
    }

    Tracker(const Case &q, const YD &y0, double x) : q(q), x(x), s(q.om) {
        y = y0.block(matslise::None).cast<R>();
        u = y0.block(matslise::dX).cast<R>();
        normalise();
    }

    void normalise() {
        int n = q.p.n;
        M st(2 * n, n);
        st << s * y, u;
        M o = orth(st);
        y = o.topRows(n) / s;
        u = o.bottomRows(n);
    }

    Z det2() const {
        Z d = (u.cast<Z>() + Z(0, 1) * s * y.cast<Z>()).fullPivLu().determinant();
        return d * d / std::norm(d);
    }

    void go(double to) {
        int n = q.p.n;
        R from = x;
        long k = std::max(1L, (long) std::ceil(std::abs((double) (to - from)) * q.om / .2));
        Z prev = det2();
        for (long i = 1; i <= k; ++i) {
            double next = i == k ? to : (double) (from + (to - from) * i / k), cur = (double) x;
            State st(n, n);
            st.y = y;
            st.u = u;
            Integrator(q.p, q.E).run(cur, next, st);
            y = st.y;
            u = st.u;
            normalise();
            Z now = det2();
            phase += std::arg(now * std::conj(prev));
            prev = now;
            x = next;
        }
    }
};

struct Answer {
    R delta; // change of the plain angle
    R sens; // sensitivity at both ends
};

static R excess(const Phases &p) {
    R r = 0;
    for (size_t i = 0; i < p.plain.size(); ++i) r += p.plain[i] - p.scaled[i];
    return r;
}

static R sensitivity(const Phases &p, R s) { // d plain / d scaled
    R w = 0;
    for (R t2: p.scaled) {
        R t = t2 / 2, co = std::cos(t), si = std::sin(t);
        w = std::max(w, 1 / (s * (co * co + si * si / s / s)));
    }
    return w;
}

static Answer reference(const Case &q, const YD &y0, double a, double b) {
    Tracker t(q, y0, a);
    Phases p0 = phases(t.y, t.u, t.s);
    t.go(b);
    Phases p1 = phases(t.y, t.u, t.s);
    return {t.phase + excess(p1) - excess(p0), std::max(sensitivity(p0, t.s), sensitivity(p1, t.s))};
}

static bool tame(const Path &p) { return p.kappa < 1e5L; }

static void prepare(Ctx &c, Case &q, double &a, double &b, bool sameSector) {
    Options o;
    o.maxJumps = c.chance(.3) ? 2 : 0;
    q = generate(c, o);
    a = genPoint(c, q);
    b = genPoint(c, q);
    if (c.chance(.4)) {
        a = q.p.a;
        b = q.p.b;
        if (c.chance(.5)) std::swap(a, b);
    }
    (void) sameSector;
    c.note("from", a);
    c.note("to", b);
}

static void winding(Ctx &c) {
    Case q;
    double a, b;
    prepare(c, q, a, b, false);
    int n = q.p.n;
    if (q.om * q.L() > 200) c.discard();
    YD y0 = initial(c, q, true);
    Path path(q.p, q.E, route(q, a, b), q.om);
    if (!tame(path)) c.discard();
    Answer want = reference(q, y0, a, b);
    auto got = q.m->propagate(q.E, y0, a, b);
    R unit = (q.accuracy() * path.kappa * path.kappa + 1e-13) * want.sens * n;
    double F = q.uniform ? COARSE : FACTOR;
    R err = std::abs(got.second - want.delta);
    if (F * unit > .5) {
        c.label("too sensitive");
        return;
    }
    c.note("angle", (double) want.delta);
    c.metric("angle", (double) (err / unit));
    if (!(err <= F * unit)) c.fail(str("the angle changes by ", got.second, " instead of ", (double) want.delta, ", allowed error ", (double) (F * unit)));
    c.nontrivial(a != b && n > 1 && !q.p.diagonal && std::abs(want.delta) > 1);
    if (std::abs(want.delta) > 6.3) c.label("a full turn or more");
}

// a system of uncoupled equations (possibly rotated): the sum over the scalar solver
static void scalar(Ctx &c) {
    Options o;
    o.diagonal = 1;
    Case q = generate(c, o);
    int n = q.p.n;
    double a = genPoint(c, q), b = genPoint(c, q);
    if (c.chance(.4)) {
        a = q.p.a;
        b = q.p.b;
        if (c.chance(.5)) std::swap(a, b);
    }
    c.note("from", a);
    c.note("to", b);
    MD Q = q.p.rot.rows() == n ? q.p.rot : MD(MD::Identity(n, n));
    YD y0(n);
    R sum = 0, unit = 0;
    double F = q.uniform ? COARSE : FACTOR;
    for (int i = 0; i < n; ++i) {
        double v = c.real(-1, 1), dv = c.real(-1, 1) * q.om;
        if (v == 0 && dv == 0) dv = 1;
        y0.block(matslise::None).col(i) = Q.col(i) * v;
        y0.block(matslise::dX).col(i) = Q.col(i) * dv;
        auto f = q.p.pieces[0][i][i];
        Matslise<double> m([f](double x) { return f(x); }, q.p.a, q.p.b, std::min(q.tol, 1e-8));
        auto r = m.propagate(q.E, mk(v, dv), a, b);
        // the scalar solver scales its angle, but zeros are multiples of pi in any scale
        const double PI = 3.14159265358979323846;
        auto plain = [&](double zeros, double y, double u) {
            double t = y == 0 ? 0 : std::atan2(y, u);
            return 2 * (zeros * PI + (t < 0 ? t + PI : t));
        };
        double turns = r.second / PI, zeros = std::floor(turns);
        double t1 = plain(0, r.first.data[0], r.first.data[1]) / 2 / PI;
        // next to a zero of y the two roundings may disagree
        if (t1 < .01 && turns - zeros > .5) zeros += 1;
        if (t1 > .99 && turns - zeros < .5) zeros -= 1;
        sum += (R) plain(zeros, r.first.data[0], r.first.data[1]) - plain(a > b && v == 0 ? 1 : 0, v, dv);
        cs::Pot one;
        one.a = q.p.a;
        one.b = q.p.b;
        one.pieces = {{{f}}};
        Path alone(one, q.E, route(m, a, b), q.om), p2(one, q.E, route(q, a, b), q.om);
        M t = transfer(one, q.E, a, b).m;
        R y1 = t(0, 0) * v + t(0, 1) * dv, u1 = t(1, 0) * v + t(1, 1) * dv;
        R kappa = std::max(alone.kappa, p2.kappa);
        unit += (q.accuracy() + 1e-8) * kappa * std::hypot(q.om * v, dv) / q.om * std::max((R) q.om, R(1)) * std::max((R) q.om, R(1)) / std::hypot(y1, u1) / std::min((R) q.om, R(1));
    }
    Path path(q.p, q.E, route(q, a, b), q.om);
    if (!tame(path)) c.discard();
    if (F * unit > .5) {
        c.label("too sensitive");
        return;
    }
    auto got = q.m->propagate(q.E, y0, a, b);
    R err = std::abs(got.second - sum);
    c.metric("scalar", (double) (err / unit));
    if (!(err <= F * unit)) c.fail(str("the angle changes by ", got.second, ", twice the sum of the scalar angles is ", (double) sum, ", allowed error ", (double) (F * unit)));
    c.nontrivial(a != b && n > 1 && std::abs(sum) > 1);
}

// additivity, going back, independence of the basis
static void algebra(Ctx &c) {
    Case q;
    double a, b;
    prepare(c, q, a, b, false);
    double d = genPoint(c, q);
    c.note("via", d);
    int n = q.p.n;
    YD y0 = initial(c, q, true);
    Path path(q.p, q.E, route(q, a, b), q.om), p1(q.p, q.E, route(q, a, d), q.om), p2(q.p, q.E, route(q, d, b), q.om);
    R kappa = std::max(path.kappa, p1.kappa * p2.kappa);
    if (!(kappa < 1e5L)) c.discard();
    double big = std::max(q.om, 1 / q.om);
    R unit = (q.accuracy() * kappa * kappa + 1e-13) * n * big;
    double F = q.uniform ? COARSE : FACTOR;
    if (F * unit > .5) {
        c.label("too sensitive");
        return;
    }
    auto ab = q.m->propagate(q.E, y0, a, b);
    auto ad = q.m->propagate(q.E, y0, a, d);
    auto db = q.m->propagate(q.E, ad.first, d, b);
    R err = std::abs(ab.second - ad.second - db.second);
    c.metric("additive", (double) (err / unit));
    if (!(err <= F * unit)) c.fail(str("the angle from a to b is ", ab.second, ", through d it is ", ad.second + db.second, ", allowed difference ", (double) (F * unit)));
    auto ba = q.m->propagate(q.E, ab.first, b, a);
    err = std::abs(ab.second + ba.second);
    c.metric("back", (double) (err / unit));
    if (!(err <= F * unit)) c.fail(str("the angle to b is ", ab.second, ", and back ", ba.second, ", allowed difference ", (double) (F * unit)));
    // another basis of the same solutions
    MD g(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) g(i, j) = c.real(-1, 1) + (i == j ? 2 : 0);
    YD y2 = y0;
    y2 *= g;
    auto ab2 = q.m->propagate(q.E, y2, a, b);
    err = std::abs(ab.second - ab2.second);
    c.metric("basis", (double) (err / unit));
    if (!(err <= 10 * F * unit)) c.fail(str("the angle is ", ab.second, ", in another basis ", ab2.second));
    c.nontrivial(a != b && n > 1 && std::abs(ab.second) > 1);
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C17", "a != b, more than one equation, the angle changes by more than 1",
                                 {{"winding", 2500, 40000, winding},
                                  {"scalar", 2500, 40000, scalar},
                                  {"algebra", 2500, 40000, algebra}},
                                 {"initial values are self-adjoint (Y^T Y' symmetric)", "the reference integrator"}});
}
