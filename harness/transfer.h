// Reference transfer matrices with conditioning: how large errors made on the way may become at the end.
#pragma once

#include "ref.h"

namespace ref {
    // acts on (z, u); D is the derivative to lambda
    struct Mat {
        R m[2][2] = {{1, 0}, {0, 1}};
        R d[2][2] = {{0, 0}, {0, 0}};

        Mat operator*(const Mat &o) const {
            Mat r;
            for (int i = 0; i < 2; ++i)
                for (int j = 0; j < 2; ++j) {
                    r.m[i][j] = m[i][0] * o.m[0][j] + m[i][1] * o.m[1][j];
                    r.d[i][j] = d[i][0] * o.m[0][j] + d[i][1] * o.m[1][j] + m[i][0] * o.d[0][j] + m[i][1] * o.d[1][j];
                }
            return r;
        }

        Mat inverse() const { // determinant 1
            Mat r;
            r.m[0][0] = m[1][1];
            r.m[1][1] = m[0][0];
            r.m[0][1] = -m[0][1];
            r.m[1][0] = -m[1][0];
            r.d[0][0] = d[1][1];
            r.d[1][1] = d[0][0];
            r.d[0][1] = -d[0][1];
            r.d[1][0] = -d[1][0];
            return r;
        }

        // norm in the coordinates (om z, u)
        R norm(R om) const {
            return std::max({std::abs(m[0][0]), std::abs(m[0][1]) * om, std::abs(m[1][0]) / om, std::abs(m[1][1])});
        }

        R dnorm(R om) const {
            return std::max({std::abs(d[0][0]), std::abs(d[0][1]) * om, std::abs(d[1][0]) / om, std::abs(d[1][1])});
        }

        State operator*(const State &s) const {
            State r;
            r[0] = m[0][0] * s[0] + m[0][1] * s[1];
            r[1] = m[1][0] * s[0] + m[1][1] * s[1];
            r[2] = m[0][0] * s[2] + m[0][1] * s[3] + d[0][0] * s[0] + d[0][1] * s[1];
            r[3] = m[1][0] * s[2] + m[1][1] * s[3] + d[1][0] * s[0] + d[1][1] * s[1];
            return r;
        }
    };

    inline Mat transfer(const Coeff &c, R lambda, R a, R b, R tol = 1e-16L) {
        Integrator in(c, lambda, tol);
        std::vector<State> y{{1, 0, 0, 0},
                             {0, 1, 0, 0}};
        in.run(a, b, y, true);
        Mat r;
        for (int j = 0; j < 2; ++j) {
            r.m[0][j] = y[j][0];
            r.m[1][j] = y[j][1];
            r.d[0][j] = y[j][2];
            r.d[1][j] = y[j][3];
        }
        return r;
    }

    // A route through several points (it may go back and forth).  Each leg is one step of the method: it may add an error of the size
    // of its own growth, in any direction, which grows with the rest of the route.
    struct Path {
        std::vector<Mat> steps; // steps[i]: from point i to i+1
        Mat total;
        R om;
        R kappa = 1;  // max_i |U(b,x_i+1)| |U(x_i+1,x_i)| |U(x_i,a)|
        R kappa3 = 1; // max_{i<=j} |U(b,x_j)| |U(x_j,x_i)| |U(x_i,a)|, again with the steps at i and j apart

        Path(const Coeff &c, R lambda, const std::vector<R> &route, R om, R tol = 1e-16L) : om(om) {
            for (size_t k = 0; k + 1 < route.size(); ++k)
                if (route[k] != route[k + 1]) steps.push_back(transfer(c, lambda, route[k], route[k + 1], tol));
            int n = (int) steps.size() + 1;
            std::vector<std::vector<R>> nrm(n, std::vector<R>(n, 1));
            for (int i = 0; i < n; ++i) {
                Mat acc;
                for (int j = i + 1; j < n; ++j) {
                    acc = steps[j - 1] * acc;
                    nrm[i][j] = std::max<R>(1, acc.norm(om));
                }
                if (i == 0) total = acc;
            }
            for (int i = 0; i + 1 < n; ++i) {
                R first = nrm[0][i] * nrm[i][i + 1];
                kappa = std::max(kappa, first * nrm[i + 1][n - 1]);
                kappa3 = std::max(kappa3, first * nrm[i + 1][n - 1]);
                for (int j = i + 1; j + 1 < n; ++j)
                    kappa3 = std::max(kappa3, first * nrm[i + 1][j] * nrm[j][j + 1] * nrm[j + 1][n - 1]);
            }
        }
    };
}
