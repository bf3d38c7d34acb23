// Glue between generated problems and the library (public API only)
#pragma once

#include "gen.h"
#include <matslise/matslise.h>
#include <climits>

namespace lib {
    using namespace gen;
    using matslise::Y;
    using matslise::Matslise;
    using matslise::AbstractMatslise;
    using matslise::MatsliseHalf;
    using matslise::PeriodicMatslise;
    typedef matslise::sector_builder::AutomaticSectorBuilder<Matslise<double>> Auto;
    typedef matslise::sector_builder::UniformSectorBuilder<Matslise<double>> Uniform;

    template<class S = double>
    Y<S> toY(const BC &b) {
        Y<S> y;
        y.data[0] = S(b.y);
        y.data[1] = S(b.dy);
        return y;
    }

    inline Y<double> mk(double y, double dy, double ye = 0, double dye = 0) {
        Y<double> r;
        r.data[0] = y;
        r.data[1] = dy;
        r.data[2] = ye;
        r.data[3] = dye;
        return r;
    }

    struct Layout {
        int uniform = 0; // 0: automatic
        std::string text() const { return uniform ? str("uniform ", uniform) : "automatic"; }
    };

    inline std::unique_ptr<Matslise<double>> build(const Pot &p, double tol, const Layout &l = {}) {
        auto f = [p](double x) { return p(x); };
        if (l.uniform)
            return std::make_unique<Matslise<double>>(f, p.a, p.b, tol, Uniform(l.uniform));
        Auto sb(tol);
        sb.jumps = p.jumps;
        return std::make_unique<Matslise<double>>(f, p.a, p.b, tol, sb);
    }

    // A uniform mesh that is at least as fine as this one everywhere
    inline int fineEnough(const Matslise<double> &m) {
        double h = m.domain.max - m.domain.min;
        for (auto &s: m.sectors) h = std::min(h, s->max - s->min);
        return 1 + (int) std::ceil(1.05 * (m.domain.max - m.domain.min) / h);
    }

    // any of the ways to construct this problem
    inline std::unique_ptr<Matslise<double>> buildAny(Ctx &c, const Pot &p, double tol) {
        auto f = [p](double x) { return p(x); };
        int how = (int) c.draw(8);
        if (p.jumps.empty() && how == 1) return std::make_unique<Matslise<double>>(f, matslise::Domain<double>{p.a, p.b}, tol);
        if (p.jumps.empty() && how == 2) return std::make_unique<Matslise<double>>(f, p.a, p.b, tol);
        auto m = build(p, tol);
        if (p.jumps.empty() && how == 3 && fineEnough(*m) <= 300) {
            Layout l;
            l.uniform = fineEnough(*m) + (int) c.integer(0, 20);
            c.note("mesh", l.text());
            c.label("uniform mesh");
            return build(p, tol, l);
        }
        return m;
    }

    // A rough size for the energies of eigenvalue k
    inline double energyScale(const Pot &p, int k) {
        double q = M_PI * (k + 1) / p.length();
        return q * q;
    }

    // Sum of the discretisation errors the mesh itself reports: the accuracy the layout can be held to.
    inline double meshError(const Matslise<double> &m) {
        double e = 0;
        for (auto &s: m.sectors) e += s->error();
        return e;
    }
}
