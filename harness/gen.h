// Generators of problems, and glue between the generated problem, the library and the reference.
#pragma once

#include "../engine/pbt.h"
#include "ref.h"
#include <memory>

namespace gen {
    using pbt::Ctx;
    using pbt::str;

    struct Term {
        int kind = 0;
        double amp = 0, a = 0, b = 0, c = 0;
        std::vector<double> coef;
    };

    // A sum of simple terms in the normalised coordinate t = (x - x0)/L
    struct Smooth {
        double x0 = 0, L = 1;
        std::vector<Term> terms;

        template<class S>
        S operator()(S x) const {
            using std::exp;
            using std::cos;
            using std::tanh;
            using std::sqrt;
            S t = (x - S(x0)) / S(L);
            S r = 0;
            for (auto &T: terms) {
                S v = 0;
                switch (T.kind) {
                    case 0:
                        v = 1;
                        break;
                    case 1:
                        v = t - S(T.a);
                        break;
                    case 2: {
                        S u = t - S(T.a);
                        v = 4 * u * u;
                        break;
                    }
                    case 3: {
                        S u = 2 * t - 1;
                        for (int i = (int) T.coef.size() - 1; i >= 0; --i) v = v * u + S(T.coef[i]);
                        break;
                    }
                    case 4:
                        v = cos(S(T.a) * t + S(T.b));
                        break;
                    case 5: {
                        S u = (t - S(T.a)) / S(T.b);
                        v = exp(-u * u);
                        break;
                    }
                    case 6:
                        v = exp(S(T.a) * (t - (T.a > 0 ? 1 : 0)));
                        break;
                    case 7:
                        v = S(T.a) / (t + S(T.a));
                        break;
                    case 8:
                        v = tanh((t - S(T.a)) / S(T.b));
                        break;
                    case 9: {
                        S u = 2 * t - 1;
                        S d = u * u - S(T.a) * S(T.a);
                        v = d * d;
                        break;
                    }
                }
                r += S(T.amp) * v;
            }
            return r;
        }

        std::string text() const {
            std::ostringstream o;
            o.precision(17);
            if (terms.empty()) return "0";
            for (size_t i = 0; i < terms.size(); ++i) {
                auto &T = terms[i];
                if (i) o << " + ";
                o << T.amp;
                switch (T.kind) {
                    case 0: break;
                    case 1: o << "*(t-" << T.a << ")"; break;
                    case 2: o << "*4(t-" << T.a << ")^2"; break;
                    case 3:
                        o << "*poly(2t-1;";
                        for (double c: T.coef) o << " " << c;
                        o << ")";
                        break;
                    case 4: o << "*cos(" << T.a << "t+" << T.b << ")"; break;
                    case 5: o << "*exp(-((t-" << T.a << ")/" << T.b << ")^2)"; break;
                    case 6: o << "*exp(" << T.a << "(t-" << (T.a > 0 ? 1 : 0) << "))"; break;
                    case 7: o << "*" << T.a << "/(t+" << T.a << ")"; break;
                    case 8: o << "*tanh((t-" << T.a << ")/" << T.b << ")"; break;
                    case 9: o << "*((2t-1)^2-" << T.a << "^2)^2"; break;
                }
            }
            return o.str();
        }
    };

    // kinds usable for any purpose; values of each term are of size about |amp|
    inline Term genTerm(Ctx &c, double amp, bool gentle = false) {
        Term T;
        T.kind = (int) c.draw(10);
        double sign = c.chance(.5) ? -1 : 1;
        T.amp = sign * amp * c.real(0, 1);
        switch (T.kind) {
            case 1:
            case 2: T.a = c.real(0, 1); break;
            case 3: {
                int n = (int) c.integer(1, 6);
                for (int i = 0; i < n; ++i) T.coef.push_back(c.real(-1, 1));
                break;
            }
            case 4:
                T.a = c.real(0, gentle ? 8 : 25);
                T.b = c.real(-3, 3);
                break;
            case 5:
                T.a = c.real(0, 1);
                T.b = c.real(gentle ? .3 : .07, 1);
                break;
            case 6: T.a = c.real(-5, 5); break;
            case 7: T.a = c.real(gentle ? .5 : .1, 2); break;
            case 8:
                T.a = c.real(0, 1);
                T.b = c.real(gentle ? .4 : .1, 1);
                break;
            case 9: T.a = c.real(0, 1); break;
        }
        return T;
    }

    // Potential, possibly piecewise: pieces are separated by jumps
    struct Pot {
        double a = 0, b = 1;
        std::vector<double> jumps;
        std::vector<Smooth> pieces; // jumps.size()+1

        int pieceOf(double x) const {
            int i = 0;
            while (i < (int) jumps.size() && x >= jumps[i]) ++i;
            return i;
        }

        template<class S>
        S operator()(S x) const {
            int i = 0;
            while (i < (int) jumps.size() && x >= S(jumps[i])) ++i;
            return pieces[i](x);
        }

        template<class S>
        S at(S x, int piece) const { return pieces[piece](x); }

        std::string text() const {
            std::ostringstream o;
            o.precision(17);
            o << "[" << a << ", " << b << "], t=(x-" << a << ")/" << (b - a) << ": ";
            for (size_t i = 0; i < pieces.size(); ++i) {
                if (i) o << " | x>=" << jumps[i - 1] << ": ";
                o << pieces[i].text();
            }
            return o.str();
        }

        std::vector<ref::R> breaks() const {
            std::vector<ref::R> r{(ref::R) a};
            for (double j: jumps) r.push_back(j);
            r.push_back(b);
            return r;
        }

        ref::Coeff coeff() const {
            Pot p = *this;
            return {[p](ref::R x, int piece, ref::R &P, ref::R &q, ref::R &w) {
                P = 1;
                w = 1;
                q = p.at<ref::R>(x, piece);
            }, breaks()};
        }

        // extremes on a fine sample (a rough but deterministic range)
        void range(double &lo, double &hi) const {
            lo = 1e300;
            hi = -1e300;
            auto br = breaks();
            for (size_t p = 0; p < pieces.size(); ++p)
                for (int i = 0; i <= 100; ++i) {
                    double x = (double) (br[p] + (br[p + 1] - br[p]) * i / 100);
                    double v = pieces[p](x);
                    lo = std::min(lo, v);
                    hi = std::max(hi, v);
                }
        }

        double length() const { return b - a; }
    };

    struct PotOptions {
        double maxStrength = 3000; // V L^2
        int maxJumps = 0;
        int minJumps = 0;
        bool gentle = false;
        double maxLength = 12;
        bool extremeLength = false; // much shorter or longer than usual
    };

    inline void genInterval(Ctx &c, double &a, double &b, double maxLength = 12) {
        static const std::vector<double> lens = {1, 3.14159265358979323846, 2, 5, .5, 6.283185307179586, 10, .2};
        double L = c.chance(.5) ? c.logreal(.15, maxLength) : c.pick(lens);
        if (L > maxLength) L = maxLength;
        switch (c.draw(4)) {
            case 0: a = 0; break;
            case 1: a = -L / 2; break;
            case 2: a = c.integer(-5, 5); break;
            default: a = c.real(-10, 10);
        }
        b = a + L;
    }

    inline double genStrength(Ctx &c, double maxStrength) {
        switch (c.draw(5)) {
            case 0: return std::min(10., maxStrength);
            case 1: return std::min(1., maxStrength);
            case 2: return std::min(100., maxStrength);
            case 3: return std::min(1000., maxStrength);
            default: return maxStrength;
        }
    }

    inline Pot genPot(Ctx &c, const PotOptions &o = {}) {
        Pot p;
        genInterval(c, p.a, p.b, o.maxLength);
        if (o.extremeLength) {
            double L = c.chance(.6) ? c.logreal(.002, .2) : c.logreal(10, 10000);
            p.a *= std::min(1., L);
            p.b = p.a + L;
        }
        double L = p.b - p.a;
        double S = genStrength(c, o.maxStrength);
        if (o.maxJumps > 0) {
            int n = (int) c.integer(o.minJumps, o.maxJumps);
            std::set<double> js;
            for (int i = 0; i < n; ++i) js.insert(p.a + L * c.real(.01, .99));
            // keep them apart
            double prev = p.a;
            for (double j: js)
                if (j - prev > .008 * L && p.b - j > .008 * L) {
                    p.jumps.push_back(j);
                    prev = j;
                }
        }
        for (size_t i = 0; i <= p.jumps.size(); ++i) {
            Smooth s;
            s.x0 = p.a;
            s.L = L;
            int n = (int) c.integer(0, p.jumps.empty() ? 3 : 2);
            for (int k = 0; k < n; ++k) s.terms.push_back(genTerm(c, S / (L * L), o.gentle));
            p.pieces.push_back(s);
        }
        return p;
    }

    // even potential on [-L/2, L/2]: terms in |t'|^2 only, or cos
    inline Pot genEvenPot(Ctx &c, double maxStrength = 3000) {
        Pot p;
        double L = c.chance(.5) ? c.logreal(.3, 12) : c.pick(std::vector<double>{2, 3.14159265358979323846, 10, 1});
        p.a = -L / 2;
        p.b = L / 2;
        double S = genStrength(c, maxStrength) / (L * L);
        Smooth s;
        s.x0 = p.a;
        s.L = L;
        int n = (int) c.integer(0, 3);
        for (int k = 0; k < n; ++k) {
            Term T;
            T.amp = (c.chance(.5) ? -1 : 1) * S * c.real(0, 1);
            switch (c.draw(6)) {
                case 0:
                    T.kind = 2;
                    T.a = .5;
                    break;
                case 1:
                    T.kind = 0;
                    break;
                case 2:
                    T.kind = 9;
                    T.a = c.real(0, 1);
                    break;
                case 3: // cos(k (t - 1/2)) = cos(k t - k/2)
                    T.kind = 4;
                    T.a = c.real(0, 25);
                    T.b = -T.a / 2;
                    break;
                case 4:
                    T.kind = 5;
                    T.a = .5;
                    T.b = c.real(.07, 1);
                    break;
                default:
                    T.kind = 3;
                    T.coef = {c.real(-1, 1), 0, c.real(-1, 1), 0, c.real(-1, 1)};
            }
            s.terms.push_back(T);
        }
        p.pieces.push_back(s);
        return p;
    }

    struct BC {
        double y = 0, dy = 1; // (y, y')
        std::string text() const { return str("(", y, ", ", dy, ")"); }
        bool dirichlet() const { return y == 0; }
        bool neumann() const { return dy == 0; }
    };

    inline BC genBC(Ctx &c, double L, bool scaled = true) {
        BC r;
        switch (c.draw(4)) {
            case 0: r = {0, 1}; break;
            case 1: r = {1, 0}; break;
            default: {
                // |y / (L y')| stays above .05: a boundary state below -400/L^2 is out of reach of the exponent range
                double al = c.real(-1.5, 1.5);
                if (std::abs(al) < .05) al = al < 0 ? -.05 : .05;
                r = {L * std::sin(al), std::cos(al)};
                c.label("robin");
            }
        }
        if (scaled && c.chance(.3)) {
            static const std::vector<double> f = {-1, 2, -3, 1000, .001, -50};
            double s = c.pick(f);
            r.y *= s;
            r.dy *= s;
        }
        return r;
    }

    inline double genTol(Ctx &c) {
        static const std::vector<double> t = {1e-8, 1e-5, 1e-6, 1e-7, 1e-9, 1e-10};
        return c.pick(t);
    }
}
