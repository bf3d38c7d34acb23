// Problems with coupled boundary conditions (y, y')(b) = K (y, y')(a), and counting of their eigenvalues by the reference.
#pragma once

#include "lib.h"
#include "transfer.h"

namespace periodic {
    using namespace lib;
    using ref::R;
    typedef std::array<double, 4> M2; // k11 k12 k21 k22

    // Number of eigenvalues below E.  The form of y'' = (V-E) y on the functions with these boundary conditions is negative on as many
    // dimensions as there are Dirichlet eigenvalues below E, plus the negative directions of what the end points add.
    // Close to double eigenvalues the form is as small as the square of the distance: the least and largest count that is possible.
    inline std::pair<long, long> countRange(const ref::Coeff &co, R E, const M2 &K) {
        const R eps = 1e-16L;
        long nd = ref::countEigenvalues(co, E, 0, 1, 0, 1);
        ref::Mat u = ref::transfer(co, E, co.breaks.front(), co.breaks.back());
        R u11 = u.m[0][0], u12 = u.m[0][1], u22 = u.m[1][1];
        R k11 = K[0], k12 = K[1], k21 = K[2], k22 = K[3];
        R sign = u12 < 0 ? -1 : 1;
        if (k12 == 0) {
            R n = u22 * k11 * k11 - 2 * k11 + u11 - k11 * k21 * u12;
            R noise = eps * (std::abs(u22) * k11 * k11 + 2 * std::abs(k11) + std::abs(u11) + std::abs(k11 * k21 * u12));
            n *= sign;
            return {nd + (n < -noise ? 1 : 0), nd + (n < noise ? 1 : 0)};
        }
        // q11 ya^2 + 2 q12 ya yb + q22 yb^2, everything times |u12 k12|
        sign *= k12 < 0 ? -1 : 1;
        R q11 = sign * (u11 * k12 - k11 * u12), q22 = sign * (u22 * k12 - k22 * u12), q12 = sign * (u12 - k12);
        R e11 = eps * (std::abs(u11 * k12) + std::abs(k11 * u12)), e22 = eps * (std::abs(u22 * k12) + std::abs(k22 * u12)),
                e12 = eps * (std::abs(u12) + std::abs(k12));
        auto negative = [](R a, R b, R c) {
            R det = a * c - b * b;
            return det < 0 ? 1 : a + c < 0 ? 2 : 0;
        };
        // the form with its diagonal moved up or down by what the rounding errors may amount to
        long least = negative(q11 + e11 + e12, q12, q22 + e22 + e12), most = negative(q11 - e11 - e12, q12, q22 - e22 - e12);
        return {nd + least, nd + most};
    }

    inline M2 mul(const M2 &a, const M2 &b) {
        return {a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]};
    }

    inline M2 genK(Ctx &c, double L, int &k) {
        M2 K{1, 0, 0, 1};
        uint64_t kind = c.draw(8);
        k = (int) kind;
        switch (kind) {
            case 0: break;
            case 1: K = {-1, 0, 0, -1}; break;
            case 2: {
                double s = c.pick(std::vector<double>{2, .5, 3, 10, .1});
                K = {s, 0, 0, 1 / s};
                break;
            }
            case 3: K = {1, 0, c.real(-8, 8) / L, 1}; break;
            case 4: K = {1, c.real(-2, 2) * L, 0, 1}; break;
            case 5: {
                double t = c.real(-3.14, 3.14);
                K = {std::cos(t), L * std::sin(t), -std::sin(t) / L, std::cos(t)};
                break;
            }
            case 6: K = c.chance(.5) ? M2{0, L, -1 / L, 0} : M2{0, -L, 1 / L, 0}; break;
            default: {
                double s = c.real(.3, 3);
                K = mul(mul({1, c.real(-1, 1) * L, 0, 1}, {1, 0, c.real(-3, 3) / L, 1}), {s, 0, 0, 1 / s});
            }
        }
        if (c.chance(.3)) for (auto &k: K) k = -k;
        for (auto &k: K) if (k == 0) k = 0; // no negative zeros
        return K;
    }

    inline Eigen::Matrix2d toEigen(const M2 &K) {
        Eigen::Matrix2d r;
        r << K[0], K[1], K[2], K[3];
        return r;
    }

    struct Problem {
        Pot p;
        double tol, lo, hi;
        M2 K;
        int kind;
        ref::Coeff co;
        std::unique_ptr<PeriodicMatslise<double>> m;

        double scale(double E) const { return std::max({1., std::abs(E), E - lo, 1 / p.length() / p.length()}); }

        // accuracy that may be expected of an eigenvalue
        double accuracy(double E) const { return 25 * tol * scale(E); }

        long leastBelow(R E) const { return countRange(co, E, K).first; }

        long mostBelow(R E) const { return countRange(co, E, K).second; }
    };

    inline Problem problem(Ctx &c, const PotOptions &o = {}) {
        Problem q;
        q.p = genPot(c, o);
        q.tol = genTol(c);
        q.K = genK(c, q.p.length(), q.kind);
        q.p.range(q.lo, q.hi);
        q.co = q.p.coeff();
        c.note("V", q.p.text());
        c.note("tol", q.tol);
        c.note("K", str(q.K[0], " ", q.K[1], " ", q.K[2], " ", q.K[3]));
        Pot p = q.p;
        auto f = [p](double x) { return p(x); };
        if (q.p.jumps.empty() && c.chance(.5))
            q.m = std::make_unique<PeriodicMatslise<double>>(f, p.a, p.b, q.tol, toEigen(q.K));
        else {
            Auto sb(q.tol);
            sb.jumps = p.jumps;
            q.m = std::make_unique<PeriodicMatslise<double>>(f, p.a, p.b, q.tol, sb, toEigen(q.K));
            if (p.jumps.empty() && c.chance(.4) && fineEnough(q.m->matslise) <= 300) {
                int n = fineEnough(q.m->matslise) + (int) c.integer(0, 20);
                q.m = std::make_unique<PeriodicMatslise<double>>(f, p.a, p.b, q.tol, Uniform(n), toEigen(q.K));
                c.note("uniform", n);
                c.label("uniform mesh");
            }
        }
        c.note("sectors", q.m->matslise.sectorCount);
        // Over the domain solutions grow by more than a double can hold: out of reach for shooting methods
        double bound = 450 / q.p.length();
        double form = q.K[1] == 0 ? std::abs(q.K[2] * q.K[0]) : (std::abs(q.K[0]) + std::abs(q.K[3]) + 2) / std::abs(q.K[1]);
        if (form > .5 * bound) if (q.mostBelow(q.lo - (R) bound * bound) > 0) c.discard();
        return q;
    }
}
