// C15: eigenfunctions of Sturm-Liouville problems, judged in the original variables
#include "sl.h"

using namespace sl;
typedef std::array<double, 2> V2;

constexpr double FIT = 5e-8; // accuracy of slopes and potential in the transformed problem, which is a polynomial fit

struct Setup {
    Problem s;
    std::unique_ptr<LT> lt;
    std::unique_ptr<SL> sl;
    std::unique_ptr<Matslise<double>> mesh; // the same mesh as the one inside sl
    BC l, r;                                // on (z, z')
    double tol, X, Vmin, Vmax;
    ref::Coeff co;

    // (z, p z', and their derivatives) to (y, y', ...)
    ref::State toY(R at, const ref::State &u) const {
        Jet m = jpow(s.p.jet(at) * s.w.jet(at), .25L);
        R x = s.xdr(at), p = s.p(at);
        return {m.v * u[0], (m.d * u[0] + m.v * u[1] / p) / x, m.v * u[2], (m.d * u[2] + m.v * u[3] / p) / x};
    }

    ref::State given(R at, const V2 &z) const { return {z[0], s.p(at) * (R) z[1], 0, 0}; }

    long below(R E) const {
        return ref::countEigenvalues(co, E, l.y, (R) l.dy * s.p((R) s.a), r.y, (R) r.dy * s.p((R) s.b));
    }
};

static Setup setup(Ctx &c) {
    Setup q;
    q.s = genProblem(c);
    auto s = q.s;
    c.note("problem", s.text());
    q.tol = genTol(c);
    q.X = (double) integral([&](R r) { return s.xdr(r); }, s.a, s.b);
    q.Vmin = 1e300;
    q.Vmax = -1e300;
    for (int i = 0; i <= 200; ++i) {
        double v = (double) s.V(s.a + (R) s.length() * i / 200);
        q.Vmin = std::min(q.Vmin, v);
        q.Vmax = std::max(q.Vmax, v);
    }
    for (int side = 0; side < 2; ++side) {
        BC b = genBC(c, q.X);
        R e = side ? s.b : s.a;
        Jet m = jpow(s.p.jet(e) * s.w.jet(e), .25L);
        if (b.y != 0 && (b.dy != 0 || c.chance(.5))) {
            R z = b.y / m.v, dz = (b.dy * s.xdr(e) - m.d * z) / m.v;
            b = {(double) z, (double) dz};
        }
        (side ? q.r : q.l) = b;
    }
    c.note("tol", q.tol);
    c.note("left (z, z')", q.l.text());
    c.note("right (z, z')", q.r.text());
    q.co = s.coeff();
    auto p = [s](double r) { return s.p(r); };
    auto f = [s](double r) { return s.q(r); };
    auto w = [s](double r) { return s.w(r); };
    matslise::Domain<double> d{s.a, s.b};
    q.lt = std::make_unique<LT>(d, p, f, w);
    q.sl = std::make_unique<SL>(p, f, w, d, q.tol);
    LT *lt = q.lt.get();
    q.mesh = std::make_unique<Matslise<double>>([lt](double x) { return lt->V(x); }, lt->xDomain(), q.tol);
    if (q.below(-std::pow(450 / (R) q.X, 2)) > 0) c.discard();
    return q;
}

static void solution(Ctx &c) {
    Setup q = setup(c);
    auto &s = q.s;
    int k = (int) (c.chance(.4) ? c.integer(0, 3) : c.integer(0, 30));
    c.note("index", k);
    auto ep = q.sl->eigenpairsByIndex(k, k + 1, toY(q.l), toY(q.r));
    if (ep.size() != 1 || std::get<0>(ep[0]) != k) c.fail("eigenpairsByIndex does not return the one pair");
    double E = std::get<1>(ep[0]);
    if (!(E == q.sl->eigenvaluesByIndex(k, k + 1, toY(q.l), toY(q.r)).at(0).second)) c.fail("eigenpairs and eigenvalues differ");
    c.note("E", E);
    auto &f = *std::get<2>(ep[0]);
    auto F = [&](double r) {
        auto v = f(r);
        return V2{v[0], v[1]};
    };
    double om = std::max(1 / q.X, std::sqrt(std::max(std::abs(E - q.Vmin), std::abs(E - q.Vmax))));
    double scale = std::max({1., std::abs(E), E - q.Vmin, 1 / q.X / q.X});
    auto size = [&](const ref::State &y) { return (double) std::hypot(om * y[0], y[1]); };
    auto yAt = [&](double r) { return q.toY(r, q.given(r, F(r))); };

    // mesh points
    std::vector<double> lo, hi;
    std::vector<bool> fw;
    for (auto &x: q.mesh->sectors) {
        lo.push_back(lo.empty() ? s.a : hi.back());
        hi.push_back(x->max >= q.lt->xDomain().max ? s.b : q.lt->x2r(x->max));
        fw.push_back(x->direction == matslise::forward);
    }
    hi.back() = s.b;
    size_t n = lo.size();

    // exact size of the normalised eigenfunction in the mesh points, see efun.h
    std::vector<double> sz(n + 1);
    size_t best = 0;
    R e = E;
    for (int it = 0; it < 5; ++it) {
        std::vector<ref::State> A(n + 1), B(n + 1);
        ref::Integrator in(q.co, e, 1e-16L);
        std::vector<ref::State> y{q.given(s.a, {q.l.y, q.l.dy})};
        A[0] = q.toY(s.a, y[0]);
        for (size_t i = 0; i < n; ++i) {
            in.run(lo[i], hi[i], y, true);
            A[i + 1] = q.toY(hi[i], y[0]);
        }
        y = {q.given(s.b, {q.r.y, q.r.dy})};
        B[n] = q.toY(s.b, y[0]);
        for (size_t i = n; i-- > 0;) {
            in.run(hi[i], lo[i], y, true);
            B[i] = q.toY(lo[i], y[0]);
        }
        std::vector<R> product(n + 1);
        best = 1; // matching takes place in an interior point
        for (size_t i = 1; i < n; ++i) {
            product[i] = std::hypot(om * A[i][0], A[i][1]) * std::hypot(om * B[i][0], B[i][1]);
            if (product[i] > product[best]) best = i;
        }
        auto &a = A[best], &b = B[best];
        R w = a[1] * b[0] - a[0] * b[1], dw = a[3] * b[0] + a[1] * b[2] - a[2] * b[1] - a[0] * b[3];
        for (size_t i = 0; i <= n; ++i) {
            // on both sides of its peak the solution that grows towards it is the accurate one
            auto &u = i < best ? A[i] : B[i], &v = i < best ? a : b;
            sz[i] = (double) (std::hypot(om * u[0], u[1]) / std::hypot(om * v[0], v[1]) * std::sqrt(product[best] / std::abs(dw)));
        }
        R step = w / dw;
        if (!(std::abs(step) < 1e-2L * (1 + std::abs(e)))) break;
        e -= step;
        if (std::abs(step) < 1e-17L * (1 + std::abs(e))) break;
    }
    double Eerror = 25 * q.tol * scale + FIT * scale;
    size_t match = (size_t) q.mesh->matchIndex + 1;
    std::vector<std::pair<double, double>> candidates;
    double jump = Eerror * om / sz[match] / sz[match];
    if (jump < 2e-5) candidates.push_back({hi[match - 1], jump * sz[match]});
    else {
        candidates.push_back({hi[match - 1], std::min(jump, 3e-4) * sz[match]});
        jump = 0;
        for (size_t i = 1; i < n; ++i)
            if (sz[i] > .1 * sz[best]) {
                candidates.push_back({lo[i], Eerror * om / sz[i]});
                jump = std::max(jump, Eerror * om / sz[i] / sz[i]);
            }
        c.label("hardly visible at the default matching point");
    }
    if (n == 1) jump = 1;
    bool ill = !(jump < 1e-2);
    if (ill) c.label("ill-conditioned");

    std::vector<double> rs{s.a, s.b};
    int m = (int) std::min(50., std::max(12., om * q.X / 2));
    for (int i = 1; i < m; ++i) rs.push_back(s.a + s.length() * i / m);
    for (size_t i = 0; i + 1 < n && i < 30; ++i) {
        rs.push_back(hi[i]);
        if (c.chance(.2)) rs.push_back(std::min(s.b, hi[i] + s.length() * c.logreal(1e-15, 1e-2)));
        if (c.chance(.2)) rs.push_back(std::max(s.a, hi[i] - s.length() * c.logreal(1e-15, 1e-2)));
    }
    int extra = (int) c.integer(0, 8);
    for (int i = 0; i < extra; ++i) rs.push_back(std::max(s.a, std::min(s.b, s.a + s.length() * c.real(0, 1))));
    if (c.chance(.3)) rs.push_back(std::nextafter(s.a, s.b));
    if (c.chance(.3)) rs.push_back(std::nextafter(s.b, s.a));
    std::sort(rs.begin(), rs.end());
    rs.erase(std::unique(rs.begin(), rs.end()), rs.end());

    auto baseSize = [&](double r) {
        double res = 0;
        for (size_t i = 0; i < n; ++i)
            if (lo[i] <= r && r <= hi[i]) {
                double base = fw[i] ? lo[i] : hi[i];
                if (base == r) res = std::max(res, size(yAt(r)));
                else res = std::max(res, sz[fw[i] ? i : i + 1] * std::max(1., (double) ref::transfer(q.co, E, base, r).norm(om)));
            }
        return res;
    };
    double acc = q.tol * std::max(1., 1 / om) + FIT;
    ref::State prev{};
    double prevBase = 0;
    for (size_t i = 0; i < rs.size(); ++i) {
        double r = rs[i];
        auto z = F(r);
        if (!std::isfinite(z[0]) || !std::isfinite(z[1])) c.fail(str("the eigenfunction is not finite at ", r));
        ref::State u = q.given(r, z), y = q.toY(r, u);
        double bs = baseSize(r);
        if (i) {
            ref::Mat t = ref::transfer(q.co, E, rs[i - 1], r);
            ref::State w = q.toY(r, t * prev), prevY = q.toY(rs[i - 1], prev);
            double err = size({w[0] - y[0], w[1] - y[1], 0, 0});
            // growth of the map in the y-variables: the images of both unit vectors
            double g = 1;
            {
                R at = rs[i - 1];
                Jet mj = jpow(s.p.jet(at) * s.w.jet(at), .25L);
                R xd = s.xdr(at), p = s.p(at);
                for (int e = 0; e < 2; ++e) {
                    R y0 = e ? 0 : 1 / om, y1 = e ? 1 : 0;
                    R z0 = y0 / mj.v, z1 = (y1 * xd - mj.d * z0) / mj.v;
                    g = std::max(g, size(q.toY(r, t * ref::State{z0, p * z1, 0, 0})));
                }
            }
            double allowed = 40 * acc * (g * prevBase + bs + g * size(prevY)) + 1e-13 * (1 + om * q.X) * (g * prevBase + bs);
            double jp = -1;
            for (auto &cd: candidates)
                if (rs[i - 1] <= cd.first && cd.first <= r) jp = std::max(jp, cd.second);
            if (!(jp >= 0 && ill)) {
                if (jp >= 0) allowed += 2 * g * g * jp;
                c.metric("step/allowed", err / allowed);
                if (!(err <= allowed))
                    c.fail(str("the eigenfunction at ", r, " is (", z[0], ", ", z[1], "), (y, y') = (", (double) y[0], ", ", (double) y[1],
                               "); continuing the solution from ", rs[i - 1], " gives (y, y') = (", (double) w[0], ", ", (double) w[1], ")"));
            }
        }
        prev = u;
        prevBase = bs;
    }
    // boundary conditions
    for (int side = 0; side < 2; ++side) {
        double at = side ? s.b : s.a;
        BC bc = side ? q.r : q.l;
        ref::State want = q.toY(at, q.given(at, {bc.y, bc.dy})), y = yAt(at);
        double res = om * std::abs((double) (want[0] * y[1] - want[1] * y[0])) / size(want), allowed = 1e-11 * size(y);
        if (size(y) < 1e-3 * sz[side ? n : 0]) 
            c.fail(str("the eigenfunction has size ", size(y), " at the ", side ? "right" : "left", " end, expected ", sz[side ? n : 0]));
        c.metric("boundary/allowed", res / allowed);
        if (!(res <= allowed)) {
            auto z = F(at);
            c.fail(str("the eigenfunction at ", at, " is (", z[0], ", ", z[1], "), the condition is ", bc.text()));
        }
    }
    c.nontrivial(!ill && (!s.p.factors.empty() || !s.w.factors.empty()));
    if (ill) return;
    // weighted norm
    R norm = 0;
    for (size_t i = 0; i < n; ++i) {
        int parts = (int) std::ceil((double) integral([&](R r) { return s.xdr(r); }, lo[i], hi[i]) * om / 1.5) + (int) std::ceil((hi[i] - lo[i]) / s.length() * 20);
        for (int j = 0; j < parts; ++j) {
            R u = lo[i] + (hi[i] - lo[i]) * (R) j / parts, v = lo[i] + (hi[i] - lo[i]) * (R) (j + 1) / parts;
            static const R xs[] = {0.1488743389816312108848260L, 0.4333953941292471907992659L, 0.6794095682990244062343274L,
                                   0.8650633666889845107320967L, 0.9739065285171717200779640L};
            static const R ws[] = {0.2955242247147528701738930L, 0.2692667193099963550912269L, 0.2190863625159820439955349L,
                                   0.1494513491505805931457763L, 0.0666713443086881375935688L};
            for (int t = 0; t < 5; ++t)
                for (int sg: {-1, 1}) {
                    double r = (double) ((u + v) / 2 + sg * xs[t] * (v - u) / 2);
                    R z = F(r)[0];
                    norm += ws[t] * (v - u) / 2 * s.w((R) r) * z * z;
                }
        }
    }
    double gap = 1e300;
    for (auto &e: q.sl->eigenvaluesByIndex(std::max(0, k - 1), k + 2, toY(q.l), toY(q.r)))
        if (e.first != k) gap = std::min(gap, std::abs(e.second - E));
    double mixing = Eerror / gap, slack = 1500 * acc * std::max(1., om * q.X) + 20 * jump + 2 * mixing;
    c.metric("norm/allowed", std::abs((double) norm - 1) / slack);
    if (slack < .1 && !(std::abs((double) norm - 1) <= slack)) c.fail(str("the eigenfunction has norm^2 ", (double) norm));
    // zeros
    if (jump < 1e-3 && mixing < 1e-2) {
        std::vector<double> grid;
        int count = 20 + (int) (4 * q.X * (std::sqrt(std::max(0., E - q.Vmin)) + 1 / q.X));
        auto d = q.lt->xDomain();
        double h = d.max / count;
        for (int i = 40; i > 0; --i) grid.push_back(std::ldexp(h, -i));
        for (int i = 1; i < count; ++i) grid.push_back(h * i);
        for (int i = 1; i <= 40; ++i) grid.push_back(d.max - std::ldexp(h, -i));
        long zeros = 0;
        int sg = 0;
        for (double x: grid) {
            double r = std::max(s.a, std::min(s.b, q.lt->x2r(x)));
            if (r == s.a || r == s.b) continue;
            double v = F(r)[0];
            if (v == 0) continue;
            int t = v > 0 ? 1 : -1;
            if (sg && t != sg) ++zeros;
            sg = t;
        }
        if (zeros != k) c.fail(str("eigenfunction ", k, " has ", zeros, " zeros"));
    }
}

// arrays in any order against single points; orthogonality with weight w
static void evaluation(Ctx &c) {
    Setup q = setup(c);
    auto &s = q.s;
    int k = (int) c.integer(0, 12), n = (int) c.integer(1, 3);
    c.note("index", k);
    auto ep = q.sl->eigenpairsByIndex(k, k + n, toY(q.l), toY(q.r));
    if ((int) ep.size() != n) c.fail(str(ep.size(), " eigenpairs instead of ", n));
    auto &f = *std::get<2>(ep[c.draw(n)]);
    int m = (int) c.integer(0, 25);
    Eigen::ArrayXd r(m);
    for (int i = 0; i < m; ++i)
        switch (c.draw(8)) {
            case 0: r(i) = s.a; break;
            case 1: r(i) = s.b; break;
            case 2: r(i) = i ? r(i - 1) : s.a; break;
            default: r(i) = std::min(s.b, s.a + s.length() * c.real(0, 1));
        }
    Eigen::Array<double, Eigen::Dynamic, 2> z = f(r);
    if (z.rows() != m) c.fail(str("an array of ", m, " points gives ", z.rows(), " values"));
    double big = 0, bigd = 0;
    for (int i = 0; i < m; ++i) {
        big = std::max(big, std::abs(z(i, 0)));
        bigd = std::max(bigd, std::abs(z(i, 1)));
    }
    for (int i = 0; i < m; ++i) {
        auto v = f(r(i));
        if (!(std::abs(v[0] - z(i, 0)) <= 1e-7 * big) || !(std::abs(v[1] - z(i, 1)) <= 1e-7 * bigd))
            c.fail(str("at ", r(i), " the array gives (", z(i, 0), ", ", z(i, 1), "), the point alone (", v[0], ", ", v[1], ")"));
    }
    c.nontrivial(m > 2);
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C15", "well-conditioned problem where p or w is not 1; arrays of more than two points",
                                 {{"solution", 1500, 30000, solution},
                                  {"evaluation", 1500, 30000, evaluation}},
                                 {"p and w are positive and smooth", "the reference integrator"}});
}
