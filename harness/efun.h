// The judge of eigenfunctions.  f(x) -> (y, y') is judged as a solution of y'' = (V-E) y with boundary conditions, norm 1 and
// index-many zeros, using short reference propagations between neighbouring sample points.
#pragma once

#include "lib.h"
#include "transfer.h"
#include "prop.h"

namespace efun {
    using namespace lib;
    typedef std::array<double, 2> V2;
    typedef std::function<V2(double)> F;

    struct Mesh {
        std::vector<double> min, max;
        std::vector<bool> forward;
        double match = 0;
    };

    inline Mesh meshOf(const Matslise<double> &m) {
        Mesh r;
        for (auto &s: m.sectors) {
            r.min.push_back(s->min);
            r.max.push_back(s->max);
            r.forward.push_back(s->direction == matslise::forward);
        }
        r.match = m.sectors[m.matchIndex]->max;
        return r;
    }

    // the mesh of the half-range problem, mirrored
    inline Mesh mirrored(const Mesh &h) {
        Mesh r;
        for (int i = (int) h.min.size() - 1; i >= 0; --i) {
            r.min.push_back(-h.max[i]);
            r.max.push_back(-h.min[i]);
            r.forward.push_back(!h.forward[i]);
        }
        for (size_t i = 0; i < h.min.size(); ++i) {
            r.min.push_back(h.min[i]);
            r.max.push_back(h.max[i]);
            r.forward.push_back(h.forward[i]);
        }
        r.match = h.match;
        return r;
    }

    // The size hypot(om f, f') of the exact normalised eigenfunction at the mesh points, and where it may be matched.  The
    // library matches in a fixed mesh point, unless the two sides differ there by more than 1e-4: then where the function is large.
    // In that point the finite accuracy of E shows as a jump of at most (error of E) * om / size.
    struct Matching {
        std::vector<double> x, size;
        double best = 0, atDefault = 0;
        struct Candidate {
            double x, jump; // scaled jump
        };
        std::vector<Candidate> candidates;
        double jump = 0; // largest jump relative to the function in the same point

        double sizeAt(double at) const {
            size_t i = 0;
            while (i + 1 < x.size() && x[i + 1] <= at) ++i;
            return size[i];
        }
    };

    inline Matching matching(const Pot &p, double E, const BC &l, const BC &r, const Mesh &mesh, double om, double Eerror,
                             double from = NAN, double factor = 1) {
        Matching res;
        double start = std::isnan(from) ? p.a : from;
        for (size_t i = 1; i < mesh.min.size(); ++i)
            if (mesh.min[i] > start) res.x.push_back(mesh.min[i]);
        if (res.x.empty()) res.x.push_back(mesh.match);
        size_t n = res.x.size();
        auto co = p.coeff();
        ref::R e = E;
        for (int it = 0; it < 5; ++it) {
            std::vector<ref::State> a(n), b(n);
            {
                ref::Integrator in(co, e, 1e-16L);
                std::vector<ref::State> y{{l.y, l.dy, 0, 0}};
                double x = start;
                for (size_t i = 0; i < n; ++i) {
                    in.run(x, res.x[i], y, true);
                    a[i] = y[0];
                    x = res.x[i];
                }
            }
            {
                ref::Integrator in(co, e, 1e-16L);
                std::vector<ref::State> y{{r.y, r.dy, 0, 0}};
                double x = p.b;
                for (size_t i = n; i-- > 0;) {
                    in.run(x, res.x[i], y, true);
                    b[i] = y[0];
                    x = res.x[i];
                }
            }
            size_t best = 0;
            std::vector<ref::R> product(n);
            for (size_t i = 0; i < n; ++i) {
                product[i] = std::hypot(om * a[i][0], a[i][1]) * std::hypot(om * b[i][0], b[i][1]);
                if (product[i] > product[best]) best = i;
            }
            ref::R w = a[best][1] * b[best][0] - a[best][0] * b[best][1];
            ref::R dw = a[best][3] * b[best][0] + a[best][1] * b[best][2] - a[best][2] * b[best][1] - a[best][0] * b[best][3];
            res.size.clear();
            for (size_t i = 0; i < n; ++i) {
                // on both sides of its peak the solution that grows towards it is the accurate one
                auto &u = i < best ? a[i] : b[i], &v = i < best ? a[best] : b[best];
                res.size.push_back(factor * (double) (std::hypot(om * u[0], u[1]) / std::hypot(om * v[0], v[1]) *
                                                      std::sqrt(product[best] / std::abs(dw))));
            }
            res.best = res.size[best];
            ref::R st = w / dw;
            if (!(std::abs(st) < 1e-2L * (1 + std::abs(e)))) break;
            e -= st;
            if (std::abs(st) < 1e-17L * (1 + std::abs(e))) break;
        }
        res.atDefault = res.sizeAt(mesh.match);
        double jd = Eerror * om / res.atDefault, rel = jd / res.atDefault;
        if (rel < 2e-5) {
            res.candidates.push_back({mesh.match, jd});
            res.jump = rel;
        } else {
            res.candidates.push_back({mesh.match, std::min(jd, 3e-4 * res.atDefault)});
            for (size_t i = 0; i < n; ++i)
                if (res.size[i] > .1 * res.best) res.candidates.push_back({res.x[i], Eerror * om / res.size[i]});
            for (auto &q: res.candidates) res.jump = std::max(res.jump, q.jump / res.sizeAt(q.x));
        }
        return res;
    }

    struct Subject {
        const Pot &p;
        Mesh mesh;
        double tol;
        double E;
        int index; // -1: do not count zeros
        const BC *l, *r; // null: no condition
        F f;
        bool symmetricMatch = false; // -match is a matching point as well
        double gap = 1e300; // to the nearest other eigenvalue
        std::shared_ptr<Matching> exact; // computed when absent and both conditions are there
        double floor = 0; // absolute accuracy
    };

    inline const std::vector<std::pair<double, double>> &gauss() { // 12 points on [0, 1]
        static std::vector<std::pair<double, double>> g;
        if (g.empty()) {
            const int n = 12;
            for (int i = 0; i < n; ++i) {
                double x = std::cos(M_PI * (i + .75) / (n + .5)), d = 1;
                for (int it = 0; it < 50; ++it) {
                    double p0 = 1, p1 = x;
                    for (int k = 2; k <= n; ++k) {
                        double t = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k;
                        p0 = p1;
                        p1 = t;
                    }
                    d = n * (x * p1 - p0) / (x * x - 1);
                    x -= p1 / d;
                }
                g.push_back({(1 + x) / 2, 1 / ((1 - x * x) * d * d)});
            }
        }
        return g;
    }

    // intervals on which a quadrature of 12 points is (nearly) exact
    inline std::vector<double> panels(const Pot &p, const Mesh &m, double om) {
        std::vector<double> r;
        for (size_t i = 0; i < m.min.size(); ++i) {
            int n = (int) std::ceil((m.max[i] - m.min[i]) * std::max(om / 1.5, 8 / p.length()));
            for (int j = 0; j < n; ++j) r.push_back(m.min[i] + (m.max[i] - m.min[i]) * j / n);
        }
        r.push_back(m.max.back());
        return r;
    }

    inline double innerProduct(const Pot &p, const Mesh &m, double om, const F &f, const F &g) {
        auto pa = panels(p, m, om);
        double s = 0;
        for (size_t i = 0; i + 1 < pa.size(); ++i)
            for (auto &q: gauss()) {
                double x = pa[i] + (pa[i + 1] - pa[i]) * q.first;
                s += q.second * (pa[i + 1] - pa[i]) * f(x)[0] * g(x)[0];
            }
        return s;
    }

    struct Result {
        double om = 1;
        double jump = 0; // what the finite accuracy of E allows as a jump at the matching point, relative to the function there
        bool ill = false;
    };

    static const double FACTOR = 6;

    inline Result judge(Ctx &c, const Subject &s, std::vector<double> xs) {
        Result res;
        double lo, hi;
        s.p.range(lo, hi);
        double L = s.p.length(), E = s.E;
        double om = res.om = std::max(1 / L, std::sqrt(std::max(std::abs(E - lo), std::abs(E - hi))));
        double Escale = std::max({1., std::abs(E), E - lo, 1 / L / L});
        auto size = [&](const V2 &v) { return std::hypot(om * v[0], v[1]); };
        auto co = s.p.coeff();
        std::vector<std::pair<double, double>> sectors;
        for (size_t i = 0; i < s.mesh.min.size(); ++i) sectors.push_back({s.mesh.min[i], s.mesh.max[i]});
        double acc = s.tol + prop::unresolved(s.p, sectors) / om;

        // E is only known up to the tolerance; for a function of norm 1 the Wronskian at the matching point is that error
        Matching ma;
        if (s.exact) ma = *s.exact;
        else ma = matching(s.p, E, *s.l, *s.r, s.mesh, om, 25 * s.tol * Escale);
        res.jump = ma.jump;
        res.ill = !(res.jump < 1e-2);
        if (res.ill) c.label("ill-conditioned");
        if (ma.candidates.size() > 1) c.label("hardly visible at the default matching point");

        xs.push_back(s.p.a);
        xs.push_back(s.p.b);
        std::sort(xs.begin(), xs.end());
        xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
        auto sectorOf = [&](double x) {
            size_t i = 0;
            while (i + 1 < s.mesh.min.size() && x >= s.mesh.min[i + 1]) ++i;
            return i;
        };
        auto baseSizeIn = [&](double x, size_t i) {
            double base = s.mesh.forward[i] ? s.mesh.min[i] : s.mesh.max[i];
            if (base == x) return size(s.f(x));
            ref::Mat u = ref::transfer(co, E, base, x);
            return size(s.f(base)) * std::max(1., (double) u.norm(om));
        };
        auto baseSize = [&](double x) {
            size_t i = sectorOf(x);
            double r = baseSizeIn(x, i);
            if (i > 0 && x == s.mesh.min[i]) r = std::max(r, baseSizeIn(x, i - 1));
            return r;
        };
        double prevBase = 0;
        V2 prev{};
        for (size_t i = 0; i < xs.size(); ++i) {
            V2 v = s.f(xs[i]);
            if (!std::isfinite(v[0]) || !std::isfinite(v[1])) c.fail(str("eigenfunction is not finite at ", xs[i]));
            double bs = baseSize(xs[i]);
            if (i) {
                ref::Mat u = ref::transfer(co, E, xs[i - 1], xs[i]);
                ref::State w = u * ref::State{prev[0], prev[1], 0, 0};
                double err = size({v[0] - (double) w[0], v[1] - (double) w[1]});
                double g = std::max(1., (double) u.norm(om));
                double allowed = FACTOR * acc * (g * prevBase + bs) + FACTOR * acc * g * (size(prev));
                // rounding
                allowed += 1e-13 * (1 + om * L) * (g * prevBase + bs);
                allowed += s.floor * g;
                double jump = -1;
                for (auto &q: ma.candidates)
                    if ((xs[i - 1] <= q.x && q.x <= xs[i]) || (s.symmetricMatch && xs[i - 1] <= -q.x && -q.x <= xs[i])) jump = std::max(jump, q.jump);
                if (jump >= 0 && res.ill) {
                    prev = v;
                    prevBase = bs;
                    continue;
                }
                double slack = jump >= 0 ? 2 * g * jump * g : 0;
                c.metric("step/allowed", err / (allowed + slack));
                if (!(err <= allowed + slack))
                    c.fail(str("eigenfunction at ", xs[i], " is (", v[0], ", ", v[1], "); continuing the solution from ", xs[i - 1],
                               " gives (", (double) w[0], ", ", (double) w[1], ")"));
            }
            prev = v;
            prevBase = bs;
        }
        // boundary conditions
        auto boundary = [&](double x, const BC &b, const char *name) {
            V2 v = s.f(x);
            double nb = std::hypot(om * b.y, b.dy);
            double res0 = om * std::abs(v[0] * b.dy - v[1] * b.y) / nb;
            double allowed = 1e-11 * size(v);
            c.metric("boundary/allowed", res0 / (allowed + 1e-300));
            if (!(res0 <= allowed))
                c.fail(str("eigenfunction at the ", name, " end is (", v[0], ", ", v[1], "), the condition is ", b.text()));
        };
        if (s.l) boundary(s.p.a, *s.l, "left");
        if (s.r) boundary(s.p.b, *s.r, "right");
        // norm
        double n = innerProduct(s.p, s.mesh, om, s.f, s.f);
        c.metric("norm error", std::abs(n - 1));
        if (!(std::abs(n - 1) <= 1e-9)) c.fail(str("the eigenfunction has norm^2 ", n));
        if (res.ill) return res;
        double mixing = 25 * s.tol * Escale / s.gap; // how much of the neighbours
        // zeros
        if (s.index >= 0 && res.jump < 1e-3 && mixing < 1e-2) {
            double kin = std::sqrt(std::max(0., E - lo)) + 1 / L;
            int m = 20 + (int) (4 * kin * L);
            long zeros = 0;
            int sg = 0;
            double last = 0;
            for (int i = 1; i < m; ++i) {
                double v = s.f(s.p.a + L * i / m)[0];
                if (v == 0) continue;
                int t = v > 0 ? 1 : -1;
                if (sg && t != sg) ++zeros;
                sg = t;
                last = v;
            }
            (void) last;
            if (zeros != s.index) {
                // zeros close to the ends may fall between the end and the first sample: recount there with a finer grid
                zeros = 0;
                sg = 0;
                auto visit = [&](double x) {
                    double v = s.f(x)[0];
                    if (v == 0) return;
                    int t = v > 0 ? 1 : -1;
                    if (sg && t != sg) ++zeros;
                    sg = t;
                };
                for (int i = 40; i > 0; --i) visit(s.p.a + L / m * std::ldexp(1., -i));
                for (int i = 1; i < m; ++i) visit(s.p.a + L * i / m);
                for (int i = 1; i <= 40; ++i) visit(s.p.b - L / m * std::ldexp(1., -i));
                if (zeros != s.index) c.fail(str("eigenfunction ", s.index, " has ", zeros, " zeros"));
            }
        }
        return res;
    }

    inline std::vector<double> samples(Ctx &c, const Pot &p, const Mesh &m, double om) {
        std::vector<double> xs;
        double L = p.length();
        int n = (int) std::min(60., std::max(12., om * L / 2));
        for (int i = 1; i < n; ++i) xs.push_back(p.a + L * i / n);
        for (size_t i = 0; i < m.min.size() && i < 40; ++i) {
            xs.push_back(m.max[i]);
            if (c.chance(.3)) xs.push_back(std::min(p.b, m.max[i] + L * c.logreal(1e-15, 1e-2)));
            if (c.chance(.3)) xs.push_back(std::max(p.a, m.max[i] - L * c.logreal(1e-15, 1e-2)));
        }
        int extra = (int) c.integer(0, 8);
        for (int i = 0; i < extra; ++i) xs.push_back(std::max(p.a, std::min(p.b, p.a + L * c.real(0, 1))));
        return xs;
    }
}
