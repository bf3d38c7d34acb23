// Sturm-Liouville problems -(p z')' + q z = E w z with generated p, q, w and their exact derivatives.
#pragma once

#include "lib.h"
#include "transfer.h"
#include <matslise/liouville.h>

namespace sl {
    using namespace lib;
    using ref::R;

    // value and the first two derivatives
    struct Jet {
        R v, d, dd;

        Jet(R v = 0, R d = 0, R dd = 0) : v(v), d(d), dd(dd) {}

        Jet operator+(const Jet &o) const { return {v + o.v, d + o.d, dd + o.dd}; }

        Jet operator*(const Jet &o) const { return {v * o.v, d * o.v + v * o.d, dd * o.v + 2 * d * o.d + v * o.dd}; }

        Jet map(R f, R fd, R fdd) const { return {f, fd * d, fdd * d * d + fd * dd}; }
    };

    inline Jet jexp(const Jet &x) {
        R e = std::exp(x.v);
        return x.map(e, e, e);
    }

    inline Jet jpow(const Jet &x, R a) {
        R f = std::pow(x.v, a);
        return x.map(f, a * f / x.v, a * (a - 1) * f / x.v / x.v);
    }

    inline Jet jsin(const Jet &x) { return x.map(std::sin(x.v), std::cos(x.v), -std::sin(x.v)); }

    // a positive factor in t = (r - a)/L
    struct Factor {
        int kind = 0;
        double a = 1, b = 0, c = 0;

        template<class S>
        S operator()(S t) const {
            using std::exp;
            using std::sin;
            using std::pow;
            switch (kind) {
                case 1: return pow(t + S(a), S(b));
                case 2: return exp(S(a) * t);
                case 3: return S(1) + S(a) * sin(S(b) * t + S(c));
                case 4: {
                    S u = (t - S(a)) * S(b);
                    return S(1) / (S(1) + u * u);
                }
                case 5: {
                    S u = (t - S(a)) * S(b);
                    return S(c) + u * u;
                }
                case 6: {
                    S u = (t - S(a)) * S(b);
                    return S(1) + S(c) * exp(-u * u);
                }
                default: return S(a);
            }
        }

        Jet jet(R t) const {
            Jet T(t, 1, 0);
            switch (kind) {
                case 1: return jpow(T + Jet(a), b);
                case 2: return jexp(Jet(a) * T);
                case 3: return Jet(1) + Jet(a) * jsin(Jet(b) * T + Jet(c));
                case 4: {
                    Jet u = (T + Jet(-(R) a)) * Jet(b);
                    return jpow(Jet(1) + u * u, -1);
                }
                case 5: {
                    Jet u = (T + Jet(-(R) a)) * Jet(b);
                    return Jet(c) + u * u;
                }
                case 6: {
                    Jet u = (T + Jet(-(R) a)) * Jet(b);
                    return Jet(1) + Jet(c) * jexp(Jet(-1) * u * u);
                }
                default: return Jet(a);
            }
        }

        std::string text() const {
            switch (kind) {
                case 1: return str("(t+", a, ")^", b);
                case 2: return str("exp(", a, "t)");
                case 3: return str("(1+", a, " sin(", b, "t+", c, "))");
                case 4: return str("1/(1+(", b, "(t-", a, "))^2)");
                case 5: return str("(", c, "+(", b, "(t-", a, "))^2)");
                case 6: return str("(1+", c, " exp(-(", b, "(t-", a, "))^2))");
                default: return str(a);
            }
        }
    };

    struct Positive {
        double x0 = 0, L = 1;
        std::vector<Factor> factors;

        template<class S>
        S operator()(S r) const {
            S t = (r - S(x0)) / S(L), v = 1;
            for (auto &f: factors) v *= f(t);
            return v;
        }

        Jet jet(R r) const {
            R t = (r - (R) x0) / (R) L;
            Jet v(1);
            for (auto &f: factors) v = v * f.jet(t);
            return {v.v, v.d / (R) L, v.dd / (R) L / (R) L};
        }

        std::string text() const {
            std::string s;
            for (auto &f: factors) s += (s.empty() ? "" : " ") + f.text();
            return s.empty() ? "1" : s;
        }
    };

    inline Factor genFactor(Ctx &c) {
        Factor f;
        f.kind = (int) c.draw(7);
        switch (f.kind) {
            case 0: f.a = c.logreal(.05, 20); break;
            case 1:
                f.a = c.logreal(.1, 3);
                f.b = c.pick(std::vector<double>{1, 2, -1, .5, -2, -.5, 3, -3, -4, 4});
                break;
            case 2: f.a = c.real(-3, 3); break;
            case 3:
                f.a = c.real(-.9, .9);
                f.b = c.real(0, 12);
                f.c = c.real(-3, 3);
                break;
            case 4:
                f.a = c.real(0, 1);
                f.b = c.logreal(.3, 8);
                break;
            case 5:
                f.a = c.real(0, 1);
                f.b = c.logreal(.3, 5);
                f.c = c.logreal(.1, 5);
                break;
            case 6:
                f.a = c.real(0, 1);
                f.b = c.logreal(.5, 8);
                f.c = c.real(-.8, 5);
                break;
        }
        return f;
    }

    struct Problem {
        double a = 0, b = 1;
        Positive p, w;
        Smooth q;

        double length() const { return b - a; }

        ref::Coeff coeff() const {
            Problem s = *this;
            return {[s](R r, int, R &P, R &Q, R &W) {
                P = s.p(r);
                Q = s.q(r);
                W = s.w(r);
            }, {(R) a, (R) b}};
        }

        // dx/dr
        R xdr(R r) const { return std::sqrt(w(r) / p(r)); }

        // potential of the transformed equation in the point that belongs to r
        R V(R r, R *second = nullptr) const {
            Jet P = p.jet(r), W = w.jet(r), m = jpow(P * W, .25L), s = jpow(W * jpow(P, -1), -.5L); // s = dr/dx
            // d/dx = s d/dr
            R mx = s.v * (s.d * m.d + s.v * m.dd);
            if (second) *second = mx / m.v;
            return q(r) / W.v + mx / m.v;
        }

        std::string text() const {
            return str("[", a, ", ", b, "], t=(r-", a, ")/", b - a, ": p = ", p.text(), "; q = ", q.text(), "; w = ", w.text());
        }
    };

    // x(r) by adaptive Gauss-Legendre
    inline R integral(const std::function<R(R)> &f, R a, R b, int depth = 0) {
        static const R xs[] = {0.1488743389816312108848260L, 0.4333953941292471907992659L, 0.6794095682990244062343274L,
                               0.8650633666889845107320967L, 0.9739065285171717200779640L};
        static const R ws[] = {0.2955242247147528701738930L, 0.2692667193099963550912269L, 0.2190863625159820439955349L,
                               0.1494513491505805931457763L, 0.0666713443086881375935688L};
        auto g = [&](R u, R v) {
            R m = (u + v) / 2, h = (v - u) / 2, s = 0;
            for (int i = 0; i < 5; ++i) s += ws[i] * (f(m + h * xs[i]) + f(m - h * xs[i]));
            return s * h;
        };
        R m = (a + b) / 2, whole = g(a, b), l = g(a, m), r = g(m, b);
        if (depth > 30 || std::abs(whole - l - r) <= 1e-17L * (std::abs(l) + std::abs(r))) return l + r;
        return integral(f, a, m, depth + 1) + integral(f, m, b, depth + 1);
    }

    inline Problem genProblem(Ctx &c) {
        Problem s;
        genInterval(c, s.a, s.b);
        double L = s.length();
        for (Positive *f: {&s.p, &s.w}) {
            f->x0 = s.a;
            f->L = L;
            int n = (int) c.integer(0, 2);
            for (int i = 0; i < n; ++i) f->factors.push_back(genFactor(c));
        }
        s.q.x0 = s.a;
        s.q.L = L;
        int n = (int) c.integer(0, 2);
        double S = genStrength(c, 1000);
        // the size of q that matters is w/X^2
        double X = (double) integral([&](R r) { return s.xdr(r); }, s.a, s.b), wm = 1e300;
        for (int i = 0; i <= 20; ++i) wm = std::min(wm, s.w(s.a + L * i / 20.));
        for (int i = 0; i < n; ++i) s.q.terms.push_back(genTerm(c, S * wm / (X * X)));
        if (!s.p.factors.empty() || !s.w.factors.empty()) c.label("not in Liouville form");
        return s;
    }

    typedef matslise::LiouvilleTransformation<double> LT;
    typedef matslise::SturmLiouville<double> SL;

    inline std::function<double(double)> fn(const std::function<double(double)> &f) { return f; }
}
