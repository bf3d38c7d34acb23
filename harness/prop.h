// Shared by the checks about propagation: points, energies, initial values and the accuracy to ask for.
#pragma once

#include "lib.h"
#include "transfer.h"

namespace prop {
    using namespace lib;

    struct Case {
        Pot p;
        double tol = 1e-8;
        Layout layout;
        std::unique_ptr<Matslise<double>> m;
        double E = 0, lo = 0, hi = 0, om = 1;

        double L() const { return p.length(); }
    };

    // a uniform mesh that is at least as fine as the automatic one
    inline int fineUniform(const Matslise<double> &m, double L) {
        double h = L;
        for (auto &s: m.sectors) h = std::min(h, s->max - s->min);
        return (int) std::min(4000., std::ceil(L / h * 1.05) + 1);
    }

    // What no method based on 16 Legendre coefficients per sector can see of the potential: the sum over the sectors of
    // h * max |V - projection|.  Negligible, except where a narrow but low feature slips through a coarse mesh.
    inline double unresolved(const Pot &p, const std::vector<std::pair<double, double>> &mesh) {
        static constexpr int n = 32, deg = 16;
        static std::vector<double> node, weight;
        static std::vector<std::vector<double>> P;
        if (node.empty()) {
            for (int i = 0; i < n; ++i) {
                double x = std::cos(M_PI * (i + .75) / (n + .5)), d = 1;
                for (int it = 0; it < 50; ++it) {
                    double p0 = 1, p1 = x;
                    for (int k = 2; k <= n; ++k) {
                        double t = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k;
                        p0 = p1;
                        p1 = t;
                    }
                    d = n * (x * p1 - p0) / (x * x - 1);
                    x -= p1 / d;
                }
                node.push_back(x);
                weight.push_back(2 / ((1 - x * x) * d * d));
                std::vector<double> row{1, x};
                for (int k = 2; k < deg; ++k) row.push_back(((2 * k - 1) * x * row[k - 1] - (k - 1) * row[k - 2]) / k);
                P.push_back(row);
            }
        }
        double total = 0;
        for (auto &s: mesh) {
            double h = s.second - s.first, v[n], co[deg] = {0}, worst = 0;
            int piece = p.pieceOf((s.first + s.second) / 2);
            for (int i = 0; i < n; ++i) {
                v[i] = p.at<double>(s.first + h * (1 + node[i]) / 2, piece);
                for (int k = 0; k < deg; ++k) co[k] += weight[i] * v[i] * P[i][k] * (2 * k + 1) / 2;
            }
            for (int i = 0; i < n; ++i) {
                double f = 0;
                for (int k = 0; k < deg; ++k) f += co[k] * P[i][k];
                worst = std::max(worst, std::abs(v[i] - f));
            }
            total += h * worst;
        }
        return total;
    }

    inline double unresolved(const Pot &p, const Matslise<double> &m) {
        std::vector<std::pair<double, double>> mesh;
        for (auto &s: m.sectors) mesh.push_back({s->min, s->max});
        return unresolved(p, mesh);
    }

    static const double FACTOR = 40;

    // accuracy the mesh is supposed to have
    inline double accuracy(const Case &q) {
        double u = unresolved(q.p, *q.m) / q.om;
        if (!q.layout.uniform) return q.tol + u;
        return 10 * meshError(*q.m) + 2e-11 + 1e-14 * q.m->sectorCount * (1 + q.om * q.L()) + u;
    }

    inline void genEnergy(Ctx &c, Case &q) {
        q.p.range(q.lo, q.hi);
        double L = q.L(), q1 = 1 / (L * L);
        switch (c.draw(6)) {
            case 0: q.E = q.lo + c.real(0, 1) * 100 * q1; break;
            case 1: q.E = q.lo + (q.hi - q.lo) * c.real(0, 1); break;
            case 2: q.E = q.hi + c.logreal(1, 1e5) * q1; break;
            case 3: q.E = q.lo - c.logreal(.1, 60) * q1; break;
            case 4: {
                // right at the mean of a sector: the switch between oscillating and exponential
                auto &s = q.m->sectors[c.draw(q.m->sectors.size())];
                q.E = s->vs[0];
                if (c.chance(.7)) q.E += (c.chance(.5) ? 1 : -1) * c.logreal(1e-12, 1) * (1 + std::abs(q.E));
                c.label("E at a sector mean");
                break;
            }
            default: q.E = q.lo + c.real(0, 1) * 2000 * q1;
        }
        q.om = std::max(1 / L, std::sqrt(std::max(std::abs(q.E - q.lo), std::abs(q.E - q.hi))));
    }

    inline Case generate(Ctx &c, int maxJumps = 0, bool layouts = true) {
        Case q;
        PotOptions o;
        o.maxJumps = maxJumps;
        if (maxJumps) o.minJumps = 1;
        q.p = genPot(c, o);
        q.tol = genTol(c);
        q.m = build(q.p, q.tol);
        if (layouts && q.p.jumps.empty() && c.chance(.25)) {
            int n = fineUniform(*q.m, q.L());
            if (n <= 400) {
                q.layout.uniform = (int) c.integer(n, 2 * n);
                q.m = build(q.p, q.tol, q.layout);
                c.label("uniform");
            }
        }
        genEnergy(c, q);
        c.note("V", q.p.text());
        c.note("tol", q.tol);
        c.note("mesh", str(q.layout.text(), ", ", q.m->sectorCount, " sectors, match ", q.m->matchIndex));
        c.note("E", q.E);
        return q;
    }

    // anywhere, at the ends, at mesh points and very close to them
    inline double genPoint(Ctx &c, const Case &q) {
        double a = q.p.a, b = q.p.b, x;
        switch (c.draw(6)) {
            case 0: return a;
            case 1: return b;
            case 2:
            case 3: {
                auto &s = q.m->sectors[c.draw(q.m->sectors.size())];
                x = c.chance(.5) ? s->min : s->max;
                if (c.chance(.5)) {
                    double d = c.chance(.3) ? 0 : c.logreal(1e-16, 1e-3) * (b - a);
                    if (d == 0) x = std::nextafter(x, c.chance(.5) ? 1e300 : -1e300);
                    else x += c.chance(.5) ? d : -d;
                    c.label("next to a mesh point");
                }
                return std::min(b, std::max(a, x));
            }
            default: return std::min(b, std::max(a, a + (b - a) * c.real(0, 1)));
        }
    }

    inline BC genInitial(Ctx &c, const Case &q) {
        BC r;
        switch (c.draw(4)) {
            case 0: r = {0, 1}; break;
            case 1: r = {1, 0}; break;
            default: {
                double al = c.real(-3.2, 3.2);
                r = {std::sin(al) / (c.chance(.5) ? q.om : 1 / q.L()), std::cos(al)};
            }
        }
        if (c.chance(.3)) {
            static const std::vector<double> f = {-1, 2, -3, 1000, 1e-6, -50};
            double s = c.pick(f);
            r.y *= s;
            r.dy *= s;
        }
        return r;
    }

    inline double norm(const BC &y, double om) { return std::hypot(om * y.y, y.dy); }

    template<class YY>
    double norm(const YY &y, double om) { return std::hypot(om * y.data[0], y.data[1]); }

    // The points the solver goes through: inside a sector it first returns to the base point of the sector (the end where its
    // propagation starts), so solutions that grow on that detour cost digits.
    inline std::vector<ref::R> route(const Case &q, double a, double b) {
        auto base = [&](double x) {
            for (auto &s: q.m->sectors)
                if (s->min < x && x < s->max) return s->direction == matslise::forward ? s->min : s->max;
            return x;
        };
        double ba = base(a), bb = base(b);
        std::vector<ref::R> r{a, ba};
        for (auto &s: q.m->sectors)
            if (std::min(ba, bb) < s->min && s->min < std::max(ba, bb)) r.push_back(s->min);
        if (ba > bb) std::reverse(r.begin() + 2, r.end());
        r.push_back(bb);
        r.push_back(b);
        return r;
    }
}
