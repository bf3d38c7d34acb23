// C19: the eta functions
#include <matslise/util/calculateEta.h>
#include <matslise/util/legendre.h>
#include "../engine/pbt.h"
#include <boost/multiprecision/float128.hpp>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <cmath>

using namespace pbt;
using boost::multiprecision::float128;
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<80>, boost::multiprecision::et_off> Q;

// exact
template<class S>
static Q wide(S x) {
    Q r = 0;
    for (int i = 0; i < 5 && x != 0; ++i) {
        double d = (double) x;
        r += Q(d);
        x -= S(d);
    }
    return r;
}

constexpr int N = 16;

// eta_k for k < N at Z
static std::array<Q, N + 1> exact(Q Z) {
    std::array<Q, N + 1> r;
    if (abs(Z) <= 900) {
        for (int k = 0; k <= N; ++k) { // sum_q Z^q / (2^q q! (2q+2k-1)!!)
            Q t = 1;
            for (int j = 1; j <= k; ++j) t /= 2 * j - 1;
            Q s = t;
            for (int q = 1; q < 2000; ++q) {
                t *= Z / (Q(2 * q) * (2 * q + 2 * k - 1));
                s += t;
                if (abs(t) < abs(s) * Q(1e-60)) break;
            }
            r[k] = s;
        }
    } else {
        Q s = sqrt(abs(Z));
        if (Z > 0) {
            Q e = exp(s), f = 1 / e;
            // scaled modified spherical Bessel functions by downward recurrence, normalised by eta_0
            std::vector<Q> v(N + 400);
            int M = N + 300;
            // continued fraction: ratio eta_{k+1}/eta_k
            Q ratio = 1 / Q(2 * M + 1);
            std::vector<Q> rt(M + 1);
            for (int k = M; k >= 1; --k) {
                // eta_{k-1} = (2k-1) eta_k + Z eta_{k+1}
                rt[k] = 1 / ((2 * k - 1) + Z * (k == M ? ratio : rt[k + 1]));
            }
            r[0] = (e + f) / 2;
            r[1] = (e - f) / 2 / s;
            for (int k = 2; k <= N; ++k) r[k] = r[k - 1] * rt[k];
        } else {
            r[0] = cos(s);
            r[1] = sin(s) / s;
            for (int k = 2; k <= N; ++k) r[k] = (r[k - 2] - (2 * k - 3) * r[k - 1]) / Z;
        }
    }
    return r;
}

// natural size: for Z >= 0 the value, for Z < 0 the amplitude of the oscillation
static Q natural(Q Z, int k, Q value) {
    if (Z >= 0) return abs(value);
    Q top = 1;
    for (int j = 1; j <= k; ++j) top /= 2 * j - 1;
    Q amp = pow(-Z, -Q(k) / 2);
    return std::max(abs(value), std::min(top, amp));
}

template<class S, int n>
static void one(Ctx &c, S Z, const char *type, double eps) {
    Eigen::Array<S, n, 1> eta = calculateEta<S, n>(Z);
    auto want = exact(wide(Z));
    Q size = abs(wide(Z)), root = sqrt(size);
    const char *region = size < 100 ? "series" : Z > 0 ? "positive" : "negative";
    for (int k = 0; k < n; ++k) {
        Q err = abs(wide(eta[k]) - want[k]), scale = natural(wide(Z), k, want[k]);
        // rounding of Z itself: d eta_k = eta_{k+1}/2 dZ
        Q allowed = Q(eps) * scale;
        if (size >= 100) {
            // the argument of cosh, cos; and the forward recurrence
            allowed += Q(eps) * root * scale;
            if (k >= 2) {
                Q cond = 1; // prod (1 + (2j-3) |eta_{j-1}| / |eta_{j-2}|)
                for (int j = 2; j <= k; ++j) cond = cond * 2;
                Q back = Q(eps) * cond * (1 + root) * std::max(abs(want[k]), (natural(wide(Z), 0, want[0])) * pow(size, -Q((k + 1) / 2)));
                allowed += back;
            }
        }
        c.metric(str(type, " ", region), (double) (err / allowed));
        if (!(err <= 20 * allowed))
            c.fail(str(type, ": eta_", k, "(", (double) Z, ") of ", n, " = ", (double) eta[k], " instead of ", (double) want[k], ", error ", (double) err, ", allowed ", (double) (20 * allowed)));
        if (k >= 1 && k + 1 < n) {
            // Z eta_{k+1} = eta_{k-1} - (2k-1) eta_k
            Q d = wide(Z) * wide(eta[k + 1]) - wide(eta[k - 1]) + (2 * k - 1) * wide(eta[k]);
            Q all = Q(eps) * 8 * (abs(wide(Z) * wide(eta[k + 1])) + abs(wide(eta[k - 1])) + (2 * k - 1) * abs(wide(eta[k])));
            c.metric(str(type, " recurrence"), (double) (abs(d) / (all + Q(1e-300) * Q(1e-300))));
            if (!(abs(d) <= all)) c.fail(str(type, ": recurrence at ", k, ", Z = ", (double) Z, ", n = ", n));
        }
    }
}

template<class S>
static S genZ(Ctx &c) {
    switch (c.draw(8)) {
        case 0: return S(c.real(-1, 1));
        case 1: return S((c.chance(.5) ? 1 : -1) * c.logreal(1e-300, 1));
        case 2: return S(c.real(-100, 100));
        case 3: { // next to the switch, or an integer where the number of terms changes
            S z = c.chance(.5) ? S(100) : S((double) c.integer(0, 100));
            if (c.chance(.5)) z = -z;
            int k = (int) c.integer(0, 3);
            if (c.chance(.5)) z += S(c.real(-1, 1)) * S(1e-6);
            else
                for (int i = 0; i < k; ++i) z = z * (1 + (c.chance(.5) ? 1 : -1) * std::numeric_limits<S>::epsilon());
            return z;
        }
        case 4: return S(c.real(-900, 900));
        case 5: return S(-c.logreal(50, 1e6));
        case 6: return S(c.logreal(50, 4.9e5));
        default: { // zeros of cos and sin
            double x = c.integer(1, 60) * 1.57079632679489661923;
            return S(-x * x * (1 + (c.chance(.5) ? 0 : c.real(-1, 1) * 1e-9)));
        }
    }
}

template<class S>
static void values(Ctx &c, const char *type, double eps) {
    S Z = genZ<S>(c);
    c.note("Z", (double) Z);
    switch (c.draw(8)) {
        case 0: one<S, 2>(c, Z, type, eps); break;
        case 1: one<S, 3>(c, Z, type, eps); break;
        case 2: one<S, 5>(c, Z, type, eps); break;
        case 3: one<S, 7>(c, Z, type, eps); break;
        case 4: one<S, 9>(c, Z, type, eps); break;
        case 5: one<S, 10>(c, Z, type, eps); break;
        case 6: one<S, 13>(c, Z, type, eps); break;
        default: one<S, 16>(c, Z, type, eps); break;
    }
    if (abs(wide(Z)) > 90 && abs(wide(Z)) < 110) c.label("near the switch");
    c.nontrivial(Z != 0);
}

// an array of arguments gives the same as one by one, a change of n gives the same functions
template<int n>
static void arrayOf(Ctx &c) {
    int m = (int) c.integer(0, 12);
    Eigen::Array<double, Eigen::Dynamic, 1> Z(m);
    for (int i = 0; i < m; ++i) Z[i] = genZ<double>(c);
    Eigen::Array<double, n, Eigen::Dynamic> all = calculateEta<double, n>(Z);
    if (all.cols() != m) c.fail("number of columns");
    for (int i = 0; i < m; ++i) {
        auto one = calculateEta<double, n>((double) Z[i]);
        for (int k = 0; k < n; ++k)
            if (!(all(k, i) == one[k])) c.fail(str("array entry ", i, " eta_", k, "(", Z[i], ") = ", all(k, i), ", alone ", one[k]));
    }
    c.nontrivial(m > 1);
}

static void arrays(Ctx &c) {
    switch (c.draw(3)) {
        case 0: arrayOf<2>(c); break;
        case 1: arrayOf<9>(c); break;
        default: arrayOf<16>(c);
    }
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C19", "Z is not zero",
                                 {{"double", 60000, 2000000, [](Ctx &c) { values<double>(c, "double", 2.3e-16); }},
                                  {"long", 20000, 600000, [](Ctx &c) { values<long double>(c, "long double", 1.1e-19); }},
                                  {"quad", 6000, 200000, [](Ctx &c) { values<float128>(c, "float128", 2e-34); }},
                                  {"arrays", 4000, 100000, arrays}},
                                 {"the reference series and continued fraction with 80 digits"}});
}
