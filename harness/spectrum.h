// The judge of indexed eigenvalues: E is eigenvalue k to within d exactly if N(E-d) <= k < N(E+d), where N counts with the
// independent reference integrator.
#pragma once

#include "gen.h"

namespace spectrum {
    struct Judge {
        ref::Coeff co;
        double lo, hi, L, tol;
        gen::BC l, r;
        double factor = 25;

        Judge(const gen::Pot &p, const gen::BC &l, const gen::BC &r, double tol)
                : co(p.coeff()), L(p.length()), tol(tol), l(l), r(r) { p.range(lo, hi); }

        double scale(double E) const { return std::max({1., std::abs(E), E - lo, 1 / L / L}); }

        long below(ref::R E) const { return ref::countEigenvalues(co, E, l.y, l.dy, r.y, r.dy); }

        bool within(int k, double E, double d) const {
            return below((ref::R) E - d) <= k && below((ref::R) E + d) > k;
        }

        void require(pbt::Ctx &c, int k, double E, double extra = 0) const {
            if (!std::isfinite(E)) c.fail(pbt::str("eigenvalue ", k, " is not finite"));
            double d = factor * tol * scale(E) + extra;
            long n0 = below((ref::R) E - d), n1 = below((ref::R) E + d);
            if (n0 > k || n1 <= k)
                c.fail(pbt::str("eigenvalue ", k, " = ", E, " is not eigenvalue ", k, ": there are ", n0, " eigenvalues below E-d and ", n1,
                                " below E+d, d=", d));
        }
    };
}
