// Coupled systems Y'' = (V - E) Y: generated symmetric matrix potentials and an independent integrator
// (Gragg-Bulirsch-Stoer extrapolation in long double).
#pragma once

#include "lib.h"
#include <matslise/matscs.h>

namespace cs {
    using namespace lib;
    using matslise::Matscs;
    typedef long double R;
    typedef Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> M;
    typedef Eigen::MatrixXd MD;
    typedef matslise::sector_builder::AutomaticSectorBuilder<Matscs<double>> AutoCS;
    typedef matslise::sector_builder::UniformSectorBuilder<Matscs<double>> UniformCS;
    typedef Y<double, Eigen::Dynamic> YD;
    typedef Y<double, Eigen::Dynamic, 1> YC;

    struct Pot {
        int n = 1;
        double a = 0, b = 1;
        std::vector<double> jumps;
        // per piece the lower triangle; with rot the matrix is rot * diagonal * rot^T
        std::vector<std::vector<std::vector<Smooth>>> pieces;
        MD rot;
        bool diagonal = false;

        double length() const { return b - a; }

        int pieceOf(double x) const {
            int i = 0;
            while (i < (int) jumps.size() && x > jumps[i]) ++i;
            return i;
        }

        template<class S>
        Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> at(S x, int piece) const {
            Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> r(n, n);
            r.setZero();
            for (int i = 0; i < n; ++i)
                for (int j = diagonal ? i : 0; j <= i; ++j) r(i, j) = r(j, i) = pieces[piece][i][j](x);
            if (diagonal && rot.rows() == n) {
                auto q = rot.cast<S>().eval();
                r = (q * r * q.transpose()).eval();
            }
            return r;
        }

        MD operator()(double x) const { return at<double>(x, pieceOf(x)); }

        void range(double &lo, double &hi) const {
            lo = 1e300;
            hi = -1e300;
            for (int i = 0; i <= 64; ++i) {
                double x = a + length() * i / 64;
                Eigen::SelfAdjointEigenSolver<MD> es((*this)(x), Eigen::EigenvaluesOnly);
                lo = std::min(lo, es.eigenvalues()[0]);
                hi = std::max(hi, es.eigenvalues()[n - 1]);
            }
        }

        std::string text() const {
            std::string s = str("[", a, ", ", b, "] n=", n);
            if (!jumps.empty()) {
                s += " jumps";
                for (double j: jumps) s += str(" ", j);
            }
            if (rot.rows() == n) s += " rotated";
            for (auto &p: pieces) {
                s += " {";
                for (int i = 0; i < n; ++i)
                    for (int j = diagonal ? i : 0; j <= i; ++j) s += str("V", i, j, "=", p[i][j].text(), "; ");
                s += "}";
            }
            return s;
        }
    };

    struct Options {
        int maxN = 4, maxJumps = 0;
        double strength = 300;
        int diagonal = -1; // 0 never, 1 always
    };

    inline Pot genPot(Ctx &c, const Options &o = {}) {
        Pot p;
        genInterval(c, p.a, p.b, 6);
        double L = p.length();
        p.n = (int) c.integer(1, o.maxN);
        double S = genStrength(c, o.strength) / (L * L);
        p.diagonal = o.diagonal >= 0 ? o.diagonal : c.chance(.3);
        if (p.diagonal && p.n > 1 && c.chance(.5)) {
            MD g(p.n, p.n);
            for (int i = 0; i < p.n; ++i)
                for (int j = 0; j < p.n; ++j) g(i, j) = c.real(-1, 1) + (i == j ? .1 : 0);
            p.rot = Eigen::HouseholderQR<MD>(g).householderQ();
        }
        if (o.maxJumps > 0) {
            int n = (int) c.integer(0, o.maxJumps);
            std::set<double> js;
            for (int i = 0; i < n; ++i) js.insert(p.a + L * c.real(.02, .98));
            double prev = p.a;
            for (double j: js)
                if (j - prev > .01 * L && p.b - j > .01 * L) {
                    p.jumps.push_back(j);
                    prev = j;
                }
        }
        for (size_t k = 0; k <= p.jumps.size(); ++k) {
            std::vector<std::vector<Smooth>> m(p.n, std::vector<Smooth>(p.n));
            for (int i = 0; i < p.n; ++i)
                for (int j = p.diagonal ? i : 0; j <= i; ++j) {
                    Smooth s;
                    s.x0 = p.a;
                    s.L = L;
                    for (int t = (int) c.integer(0, 2); t > 0; --t) s.terms.push_back(genTerm(c, S, true));
                    m[i][j] = s;
                }
            p.pieces.push_back(m);
        }
        c.label(str("n=", p.n));
        if (p.diagonal) c.label("uncoupled");
        return p;
    }

    inline std::unique_ptr<Matscs<double>> build(const Pot &p, double tol, int uniform = 0) {
        auto f = [p](double x) { return p(x); };
        if (uniform) return std::make_unique<Matscs<double>>(f, p.n, p.a, p.b, UniformCS(uniform));
        AutoCS sb(tol);
        sb.jumps = p.jumps;
        return std::make_unique<Matscs<double>>(f, p.n, p.a, p.b, sb);
    }

    // (Y, Y', Z, Z') with Z = dY/dE
    struct State {
        M y, u, z, w;

        State() {}

        State(int n, int r) : y(M::Zero(n, r)), u(M::Zero(n, r)), z(M::Zero(n, r)), w(M::Zero(n, r)) {}
    };

    class Integrator {
        const Pot &p;
        R E;
        R tol;
        static constexpr int K = 8;

        static void axpy(State &s, R f, const State &d) {
            s.y += f * d.y;
            s.u += f * d.u;
            s.z += f * d.z;
            s.w += f * d.w;
        }

        M potential(R x, int piece) const {
            M v = p.at<R>(x, piece);
            for (int i = 0; i < p.n; ++i) v(i, i) -= E;
            return v;
        }

        static State rhs(const M &v, const State &s) {
            State d;
            d.y = s.u;
            d.u = v * s.y;
            d.z = s.w;
            d.w = v * s.z - s.y;
            return d;
        }

        State midpoint(const State &s, R x, R H, int n, int piece, const M &v0, const M &v1) const {
            R h = H / n;
            State a = s, b = s;
            axpy(b, h, rhs(v0, s));
            for (int i = 1; i < n; ++i) {
                axpy(a, 2 * h, rhs(potential(x + h * i, piece), b));
                std::swap(a, b);
            }
            // a = y_{n-1}, b = y_n
            State r = a;
            axpy(r, 1, b);
            axpy(r, h, rhs(v1, b));
            r.y /= 2;
            r.u /= 2;
            r.z /= 2;
            r.w /= 2;
            return r;
        }

    public:
        // called after every step with (x, state)
        std::function<void(R, const State &)> visit;
        R maxStep = 1e300L;

        Integrator(const Pot &p, R E, R tol = 1e-15L) : p(p), E(E), tol(tol) {}

        void smooth(R x, R end, State &s, int piece) {
            R dir = end > x ? 1 : -1, H = dir * std::min(std::abs(end - x), std::min(maxStep, (R) p.length() / 8));
            while ((end - x) * dir > 0) {
                bool last = false;
                if ((x + H - end) * dir >= 0) {
                    H = end - x;
                    last = true;
                }
                M v0 = potential(x, piece), v1 = potential(x + H, piece);
                R om = std::max((R) 1 / (R) p.length(), std::sqrt(v0.norm() + v1.norm()));
                if (std::abs(H) * om > 2) {
                    H = dir * R(1.9) / om;
                    continue;
                }
                State T[K];
                R err = 0;
                for (int k = 0; k < K; ++k) {
                    State cur = midpoint(s, x, H, 2 * (k + 1), piece, v0, v1);
                    for (int j = 0; j < k; ++j) { // T[j] holds row k-1
                        R f = R(k + 1) / (k - j);
                        f = f * f - 1;
                        State d = cur;
                        axpy(d, -1, T[j]);
                        State next = cur;
                        axpy(next, 1 / f, d);
                        T[j] = cur;
                        cur = next;
                        if (k == K - 1 && j == k - 1) {
                            R size = om * s.y.norm() + s.u.norm() + om * cur.y.norm() + cur.u.norm();
                            R sizeZ = om * om * (om * (s.z.norm() + cur.z.norm()) + s.w.norm() + cur.w.norm()) + size;
                            err = std::max((om * (cur.y - T[j].y).norm() + (cur.u - T[j].u).norm()) / size,
                                           om * om * (om * (cur.z - T[j].z).norm() + (cur.w - T[j].w).norm()) / sizeZ);
                        }
                    }
                    T[k] = cur;
                }
                if (!(err <= tol) && std::abs(H) > 1e-6L * p.length()) {
                    H /= 2;
                    continue;
                }
                s = T[K - 1];
                x = last ? end : x + H;
                if (visit) visit(x, s);
                if (err < tol / 1000) H *= R(1.7);
                if (std::abs(H) > maxStep) H = dir * maxStep;
            }
        }

        void run(double from, double to, State &s) {
            double x = from;
            while (x != to) {
                double end = to;
                int piece;
                if (to > from) {
                    piece = 0;
                    while (piece < (int) p.jumps.size() && x >= p.jumps[piece]) ++piece;
                    if (piece < (int) p.jumps.size()) end = std::min(to, p.jumps[piece]);
                } else {
                    piece = (int) p.jumps.size();
                    while (piece > 0 && x <= p.jumps[piece - 1]) --piece;
                    if (piece > 0) end = std::max(to, p.jumps[piece - 1]);
                }
                smooth(x, end, s, piece);
                x = end;
            }
        }
    };

    // 2n x 2n, with the derivative to E
    struct Mat {
        M m, d;

        Mat operator*(const Mat &o) const { return {m * o.m, d * o.m + m * o.d}; }
    };

    inline Mat identity(int n) { return {M::Identity(2 * n, 2 * n), M::Zero(2 * n, 2 * n)}; }

    inline Mat transfer(const Pot &p, R E, double a, double b) {
        int n = p.n;
        State s(n, 2 * n);
        s.y.leftCols(n).setIdentity();
        s.u.rightCols(n).setIdentity();
        Integrator(p, E).run(a, b, s);
        Mat r{M(2 * n, 2 * n), M(2 * n, 2 * n)};
        r.m << s.y, s.u;
        r.d << s.z, s.w;
        return r;
    }

    inline R scaledNorm(const M &m, R om) { // in the coordinates (om y, y')
        int n = (int) m.rows() / 2;
        if (m.cols() == m.rows())
            return std::max(std::max(m.topLeftCorner(n, n).norm(), m.topRightCorner(n, n).norm() * om),
                            std::max(m.bottomLeftCorner(n, n).norm() / om, m.bottomRightCorner(n, n).norm()));
        return om * m.topRows(n).norm() + m.bottomRows(n).norm();
    }

    struct Path {
        std::vector<Mat> steps;
        Mat total;
        R kappa = 1, kappa3 = 1;

        Path(const Pot &p, R E, const std::vector<double> &route, R om) {
            for (size_t k = 0; k + 1 < route.size(); ++k)
                if (route[k] != route[k + 1]) steps.push_back(transfer(p, E, route[k], route[k + 1]));
            size_t n = steps.size();
            total = identity(p.n);
            std::vector<M> pre{total.m}, suf(n + 1);
            for (auto &s: steps) {
                total = s * total;
                pre.push_back(total.m);
            }
            suf[n] = M::Identity(2 * p.n, 2 * p.n);
            for (size_t k = n; k-- > 0;) suf[k] = suf[k + 1] * steps[k].m;
            auto N = [&](const M &m) { return std::max((R) 1, scaledNorm(m, om)); };
            for (size_t k = 0; k < n; ++k) {
                kappa = std::max(kappa, N(suf[k + 1]) * N(steps[k].m) * N(pre[k]));
                M mid = steps[k].m;
                kappa3 = std::max(kappa3, N(suf[k + 1]) * N(mid) * N(mid) * N(pre[k]));
                for (size_t j = k + 1; j < n; ++j) {
                    // from the end of step k to the start of step j
                    R between = N(j == k + 1 ? M::Identity(2 * p.n, 2 * p.n).eval() : mid);
                    (void) between;
                    M bridge = M::Identity(2 * p.n, 2 * p.n);
                    for (size_t i = k + 1; i < j; ++i) bridge = steps[i].m * bridge;
                    kappa3 = std::max(kappa3, N(suf[j + 1]) * N(steps[j].m) * N(bridge) * N(steps[k].m) * N(pre[k]));
                }
            }
        }
    };

    struct Case {
        Pot p;
        double tol = 1e-8;
        int uniform = 0;
        std::unique_ptr<Matscs<double>> m;
        double E = 0, lo = 0, hi = 0, om = 1;

        double L() const { return p.length(); }

        double meshError() const {
            double e = 0;
            for (auto &s: m->sectors) e = std::max(e, s->error());
            return e;
        }

        double accuracy() const { return uniform ? meshError() * (2 + uniform / 4.) + 1e-12 : std::max(tol, meshError()); }
    };

    inline void genEnergy(Ctx &c, Case &q) {
        q.p.range(q.lo, q.hi);
        double L = q.L(), q1 = 1 / (L * L);
        switch (c.draw(6)) {
            case 0: q.E = q.lo + c.real(0, 1) * 100 * q1; break;
            case 1: q.E = q.lo + (q.hi - q.lo) * c.real(0, 1); break;
            case 2: q.E = q.hi + c.logreal(1, 1e4) * q1; break;
            case 3: q.E = q.lo - c.logreal(.1, 30) * q1; break;
            case 4: {
                auto &s = q.m->sectors[c.draw(q.m->sectors.size())];
                q.E = s->vs[0](0, 0);
                if (c.chance(.7)) q.E += (c.chance(.5) ? 1 : -1) * c.logreal(1e-12, 1) * (1 + std::abs(q.E));
                break;
            }
            default: q.E = q.lo + c.real(0, 1) * 1000 * q1;
        }
        q.om = std::max(1 / L, std::sqrt(std::max(std::abs(q.E - q.lo), std::abs(q.E - q.hi))));
    }

    inline Case generate(Ctx &c, const Options &o = {}) {
        Case q;
        q.p = genPot(c, o);
        q.tol = c.pick(std::vector<double>{1e-6, 1e-8, 1e-4, 1e-10});
        if (q.p.jumps.empty() && c.chance(.25)) q.uniform = (int) c.integer(1, 40);
        q.m = build(q.p, q.tol, q.uniform);
        if (!(q.accuracy() < 1e-3)) c.discard(); // a mesh this coarse has no accuracy to speak of
        genEnergy(c, q);
        c.note("V", q.p.text());
        c.note("mesh", q.uniform ? str("uniform ", q.uniform) : str("tol ", q.tol, ", ", q.m->sectorCount, " sectors"));
        c.note("E", q.E);
        return q;
    }

    inline double genPoint(Ctx &c, const Case &q) {
        double x;
        switch (c.draw(5)) {
            case 0: x = q.p.a; break;
            case 1: x = q.p.b; break;
            case 2: {
                auto &s = q.m->sectors[c.draw(q.m->sectors.size())];
                x = c.chance(.5) ? s->min : s->max;
                if (c.chance(.5)) x = std::nextafter(x, c.chance(.5) ? -1e300 : 1e300);
                else if (c.chance(.3)) x += (c.chance(.5) ? 1 : -1) * q.L() * c.logreal(1e-15, 1e-3);
                break;
            }
            default: x = q.p.a + q.L() * c.real(0, 1);
        }
        return std::min(q.p.b, std::max(q.p.a, x));
    }

    // a, the points the library passes through, b
    template<class Solver>
    std::vector<double> route(const Solver &m, double a, double b) {
        std::vector<double> r{a};
        auto &s = m.sectors;
        auto forward = [&](int i) { return s[i]->direction == matslise::forward; };
        auto inside = [&](int i, double x, double from, double to) {
            // the leg [from, to] within sector i: through its base when it does not start there
            double base = forward(i) ? s[i]->min : s[i]->max;
            (void) x;
            if (from != base && to != base) r.push_back(base);
            r.push_back(to);
        };
        int n = (int) s.size();
        if (a == b) {
            for (int i = 0; i < n; ++i)
                if (s[i]->min <= a && a <= s[i]->max) {
                    inside(i, 0, a, a);
                    break;
                }
        } else if (a < b) {
            double x = a;
            for (int i = 0; i < n && x < b; ++i)
                if (s[i]->max > x) {
                    double to = std::min(b, s[i]->max);
                    inside(i, 0, x, to);
                    x = to;
                }
        } else {
            double x = a;
            for (int i = n - 1; i >= 0 && x > b; --i)
                if (s[i]->min < x) {
                    double to = std::max(b, s[i]->min);
                    inside(i, 0, x, to);
                    x = to;
                }
        }
        return r;
    }

    inline std::vector<double> route(const Case &q, double a, double b) { return route(*q.m, a, b); }

    inline YD initial(Ctx &c, const Case &q, bool selfAdjoint) {
        int n = q.p.n;
        switch (c.draw(selfAdjoint ? 4 : 3)) {
            case 0: return YD::Dirichlet(n);
            case 1: return YD::Neumann(n);
            case 3:
            default: {
                YD y(n);
                MD A(n, n), B(n, n);
                for (int i = 0; i < n; ++i)
                    for (int j = 0; j < n; ++j) {
                        A(i, j) = c.real(-1, 1);
                        B(i, j) = c.real(-1, 1);
                    }
                if (selfAdjoint) {
                    // Y = C, Y' = S with angle matrices of a random symmetric matrix: C = cos(H), S = om sin(H)
                    MD H = (A + A.transpose()) * c.real(0, 2);
                    Eigen::SelfAdjointEigenSolver<MD> es(H);
                    MD Q = es.eigenvectors();
                    y.block(matslise::None) = Q * es.eigenvalues().array().cos().matrix().asDiagonal() * Q.transpose();
                    y.block(matslise::dX) = q.om * (Q * es.eigenvalues().array().sin().matrix().asDiagonal() * Q.transpose());
                } else {
                    y.block(matslise::None) = A;
                    y.block(matslise::dX) = B * q.om;
                }
                return y;
            }
        }
    }
}
