// Independent reference for -(p z')' + q z = lambda w z, in long double: a Gragg-Bulirsch-Stoer integrator of high order
// with error control, zero counting and eigenvalue counting.  It shares no code with the library under test.
#pragma once

#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <stdexcept>
#include <vector>

namespace ref {
    typedef long double R;

    static const R PI = 3.14159265358979323846264338327950288L;

    // coefficients at x, evaluated on the smooth piece number `piece`
    struct Coeff {
        std::function<void(R x, int piece, R &p, R &q, R &w)> f;
        std::vector<R> breaks; // a = breaks[0] < ... < breaks[n] = b; coefficients are smooth on each piece
    };

    // One solution and (optionally) its derivative to lambda: (z, u = p z', dz, du)
    typedef std::array<R, 4> State;

    struct Stats {
        long steps = 0, evals = 0;
    };

    class Integrator {
    public:
        const Coeff &c;
        R lambda;
        R tol;
        R hmax = 0;    // absolute limit on the step
        Stats stats;

        Integrator(const Coeff &c, R lambda, R tol = 1e-15L) : c(c), lambda(lambda), tol(tol) {}

        // wave number bound on [x, x+H]
        R omega2(R x, R H, int piece, R &scaleP) const {
            R best = 0;
            scaleP = 0;
            static const R s[] = {0.003L, 0.2L, 0.4L, 0.6L, 0.8L, 0.997L};
            for (R f: s) {
                R p, q, w;
                c.f(x + f * H, piece, p, q, w);
                best = std::max(best, std::abs((lambda * w - q) / p));
                scaleP = std::max(scaleP, std::abs(p));
            }
            return best;
        }

        // Propagate several states from x0 to x1 (either direction).  onStep(x, states) is called after each step.
        template<class OnStep>
        void run(R x0, R x1, std::vector<State> &y, bool withDE, OnStep onStep) {
            if (x0 == x1) return;
            bool fwd = x1 > x0;
            const auto &b = c.breaks;
            int n = (int) b.size() - 1;
            int piece;
            if (fwd) {
                piece = 0;
                while (piece + 1 < n && b[piece + 1] <= x0) ++piece;
            } else {
                piece = n - 1;
                while (piece > 0 && b[piece] >= x0) --piece;
            }
            R x = x0;
            R H = (fwd ? 1 : -1) * (b[n] - b[0]) / 16;
            while (x != x1) {
                R end = fwd ? std::min(x1, piece == n - 1 ? x1 : b[piece + 1]) : std::max(x1, piece == 0 ? x1 : b[piece]);
                while (x != end) {
                    if (hmax > 0 && std::abs(H) > hmax) H = fwd ? hmax : -hmax;
                    bool last = false;
                    if (std::abs(H) >= std::abs(end - x)) {
                        H = end - x;
                        last = true;
                    }
                    R pScale;
                    R w2 = omega2(x, H, piece, pScale);
                    R limit = 1.5L / std::sqrt(w2 + 1e-300L);
                    if (std::abs(H) > limit) {
                        H = (fwd ? 1 : -1) * limit;
                        last = false;
                        w2 = omega2(x, H, piece, pScale);
                    }
                    R om = std::max(std::sqrt(w2), 1 / std::abs(b[n] - b[0])) * pScale;
                    std::vector<State> y1 = y;
                    R err = step(x, H, piece, y1, withDE, om);
                    if (!(err <= tol) && std::abs(H) > 1e-9L * (b[n] - b[0])) {
                        R f = std::pow(tol / err, 1.L / 15) * 0.8L;
                        if (!(f > .1L)) f = .1L;
                        if (f > .7L) f = .7L;
                        H *= f;
                        continue;
                    }
                    y = y1;
                    ++stats.steps;
                    x = last ? end : x + H;
                    onStep(x, y);
                    R f = err > 0 ? std::pow(tol / err, 1.L / 15) * 0.8L : 3;
                    H *= std::min<R>(3, std::max<R>(.5L, f));
                }
                if (x == x1) break;
                piece += fwd ? 1 : -1;
            }
        }

        void run(R x0, R x1, std::vector<State> &y, bool withDE) {
            run(x0, x1, y, withDE, [](R, const std::vector<State> &) {});
        }

    private:
        struct CoeffAt {
            R ip, Q, w;
        };

        R step(R x, R H, int piece, std::vector<State> &y, bool withDE, R om) {
            static constexpr int K = 8;
            size_t m = y.size();
            std::vector<std::vector<State>> T(K);
            R err = 0;
            auto deriv = [&](const CoeffAt &a, const State &s, State &d) {
                d[0] = s[1] * a.ip;
                d[1] = a.Q * s[0];
                if (withDE) {
                    d[2] = s[3] * a.ip;
                    d[3] = a.Q * s[2] - a.w * s[0];
                } else
                    d[2] = d[3] = 0;
            };
            auto at = [&](R xx) {
                R p, q, w;
                c.f(xx, piece, p, q, w);
                ++stats.evals;
                return CoeffAt{1 / p, q - lambda * w, w};
            };
            CoeffAt c0 = at(x), c1 = at(x + H);
            for (int k = 0; k < K; ++k) {
                int n = 2 * (k + 1);
                R h = H / n;
                std::vector<CoeffAt> cs(n);
                for (int i = 1; i < n; ++i) cs[i] = at(x + i * h);
                T[k].resize(m);
                for (size_t j = 0; j < m; ++j) {
                    State a = y[j], bb, d;
                    deriv(c0, a, d);
                    for (int l = 0; l < 4; ++l) bb[l] = a[l] + h * d[l];
                    for (int i = 1; i < n; ++i) {
                        deriv(cs[i], bb, d);
                        for (int l = 0; l < 4; ++l) {
                            R t = a[l] + 2 * h * d[l];
                            a[l] = bb[l];
                            bb[l] = t;
                        }
                    }
                    deriv(c1, bb, d);
                    for (int l = 0; l < 4; ++l) T[k][j][l] = (a[l] + bb[l] + h * d[l]) / 2;
                }
                if (k == K - 1)
                    err = 0;
                // Aitken-Neville in place: after processing, T[0] holds the highest order extrapolation
                for (int i = k - 1; i >= 0; --i) {
                    R r = (R) n / (2 * (i + 1));
                    R f = 1 / (r * r - 1);
                    for (size_t j = 0; j < m; ++j)
                        for (int l = 0; l < 4; ++l) {
                            State &lo = T[i][j];
                            const State &hi = T[i + 1][j];
                            R nw = hi[l] + (hi[l] - lo[l]) * f;
                            lo[l] = nw;
                        }
                }
            }
            // T[0] is order 2K, T[1] is the best without the coarsest sequence
            for (size_t j = 0; j < m; ++j)
                for (int pr = 0; pr < (withDE ? 2 : 1); ++pr) {
                    R sc = std::max(std::abs(y[j][2 * pr]) + std::abs(y[j][2 * pr + 1]) / om,
                                    std::abs(T[0][j][2 * pr]) + std::abs(T[0][j][2 * pr + 1]) / om);
                    R e = std::abs(T[0][j][2 * pr] - T[1][j][2 * pr]) +
                          std::abs(T[0][j][2 * pr + 1] - T[1][j][2 * pr + 1]) / om;
                    if (sc > 0) err = std::max(err, e / sc);
                    if (std::isnan((double) e)) err = 1e10L;
                }
            y = T[0];
            return err;
        }
    };

    // Number of zeros of the solution in (x0, x1] for x1 > x0; y0 = (z, u) at x0, changed to the value at x1.
    inline long countZeros(Integrator &in, R x0, R x1, State &y0) {
        int s = y0[0] > 0 ? 1 : y0[0] < 0 ? -1 : (y0[1] > 0 ? 1 : -1);
        long zeros = 0;
        std::vector<State> y{y0};
        in.run(x0, x1, y, false, [&](R, std::vector<State> &st) {
            R v = st[0][0];
            if ((v > 0 && s < 0) || (v < 0 && s > 0) || v == 0) {
                ++zeros;
                s = -s;
            }
            R nrm = std::abs(st[0][0]) + std::abs(st[0][1]);
            if (nrm > 1e1000L || nrm < 1e-1000L)
                for (auto &e: st[0]) e /= nrm;
        });
        y0 = y[0];
        return zeros;
    }

    // angle in [0, pi) of (z, u): tan = z/u
    inline R angle0(R z, R u) {
        R t = std::atan2(z, u);
        if (t < 0) t += PI;
        if (t >= PI) t -= PI;
        return t;
    }

    // Number of eigenvalues strictly below lambda; boundary values (z, u = p z') left and right
    inline long countEigenvalues(const Coeff &c, R lambda, R zl, R ul, R zr, R ur, R tol = 1e-16L) {
        Integrator in(c, lambda, tol);
        State y{zl, ul, 0, 0};
        long zeros = countZeros(in, c.breaks.front(), c.breaks.back(), y);
        // theta(b) = zeros*pi + fraction, where a zero exactly at b counts as fraction 0 of the next
        R frac = angle0(y[0], y[1]);
        R beta = angle0(zr, ur);
        if (beta == 0) beta = PI;
        // number of k >= 0 with beta + k pi < theta
        long k = zeros + (frac > beta ? 1 : 0);
        if (beta == PI) k = frac > 0 ? zeros : zeros - 1; // theta > (k+1) pi
        return std::max(0L, k);
    }
}
