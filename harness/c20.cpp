// C20: polynomials, Legendre expansions and Gauss-Legendre quadrature
#include <matslise/util/legendre.h>
#include <matslise/util/polynomial.h>
#include <matslise/util/horner.h>
#include "../engine/pbt.h"
#include <boost/multiprecision/float128.hpp>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <cmath>

using namespace pbt;
using namespace matslise;
using boost::multiprecision::float128;
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<60>, boost::multiprecision::et_off> Q;

// exact
template<class S>
static Q wide(S x) {
    Q r = 0;
    for (int i = 0; i < 5 && x != 0; ++i) {
        double d = (double) x;
        r += Q(d);
        x -= S(d);
    }
    return r;
}

typedef std::vector<long long> V; // reference polynomial
static V refMul(const V &a, const V &b) {
    V r(a.size() + b.size() - 1, 0);
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
    return r;
}

static V refAdd(const V &a, const V &b, long long f) {
    V r(std::max(a.size(), b.size()), 0);
    for (size_t i = 0; i < a.size(); ++i) r[i] += a[i];
    for (size_t i = 0; i < b.size(); ++i) r[i] += f * b[i];
    return r;
}

static V refScale(V a, long long f) {
    for (auto &x: a) x *= f;
    return a;
}

static V refDer(const V &a, int d) {
    V r(a.size() - d, 0);
    for (size_t i = d; i < a.size(); ++i) {
        long long f = a[i];
        for (int j = 0; j < d; ++j) f *= (long long) i - j;
        r[i - d] = f;
    }
    return r;
}

static long long refAt(const V &a, long long x) {
    long long r = 0, p = 1;
    for (auto c: a) {
        r += c * p;
        p *= x;
    }
    return r;
}

template<class P>
static void same(Ctx &c, const P &p, const V &v, const std::string &what) {
    if ((size_t) P::degree + 1 != v.size() || (size_t) p.size() != v.size()) c.fail(what + ": wrong degree");
    for (size_t i = 0; i < v.size(); ++i)
        if (!(p[(int) i] == v[i])) c.fail(str(what, ": coefficient ", i, " is ", (double) p[(int) i], " instead of ", v[i]));
}

template<class S, int d>
static Polynomial<S, d> poly(Ctx &c, V &v) {
    Polynomial<S, d> p;
    v.resize(d + 1);
    for (int i = 0; i <= d; ++i) p[i] = S(v[i] = (long long) c.integer(-9, 9));
    return p;
}

// coefficients are small integers, so every operation but division is exact in every type
template<class S, int d, int e>
static void algebra(Ctx &c) {
    V a, b, a2;
    auto p = poly<S, d>(c, a);
    auto q = poly<S, e>(c, b);
    auto p2 = poly<S, d>(c, a2);
    long long k = c.integer(-9, 9), x = c.integer(-5, 5);
    S K = S(k), X = S(x);
    constexpr int m = std::max(d, e);
    (void) m;
    same(c, p + q, refAdd(a, b, 1), "p + q");
    same(c, q + p, refAdd(b, a, 1), "q + p");
    same(c, p - q, refAdd(a, b, -1), "p - q");
    same(c, q - p, refAdd(b, a, -1), "q - p");
    same(c, p + p2, refAdd(a, a2, 1), "p + p2");
    same(c, p - p2, refAdd(a, a2, -1), "p - p2");
    same(c, p * q, refMul(a, b), "p * q");
    same(c, q * p, refMul(a, b), "q * p");
    same(c, p * K, refScale(a, k), "p * k");
    same(c, K * p, refScale(a, k), "k * p");
    same(c, p + K, refAdd(a, V{k}, 1), "p + k");
    same(c, K + p, refAdd(a, V{k}, 1), "k + p");
    same(c, p - K, refAdd(a, V{k}, -1), "p - k");
    same(c, K - p, refAdd(refScale(a, -1), V{k}, 1), "k - p");
    same(c, -p, refScale(a, -1), "-p");
    same(c, +p, a, "+p");
    if (k != 0) {
        same(c, (p * K) / K, a, "p * k / k");
        auto r = p * K;
        r /= K;
        same(c, r, a, "p *= k, p /= k");
    }
    {
        auto r = p;
        r += p2;
        same(c, r, refAdd(a, a2, 1), "p += p2");
        r -= p2;
        same(c, r, a, "p -= p2");
        r *= K;
        same(c, r, refScale(a, k), "p *= k");
        r += K;
        same(c, r, refAdd(refScale(a, k), V{k}, 1), "p += k");
        r -= K;
        same(c, r, refScale(a, k), "p -= k");
        if constexpr (e <= d) {
            auto s = p;
            s += q;
            same(c, s, refAdd(a, b, 1), "p += q");
            s -= q;
            same(c, s, a, "p -= q");
            Polynomial<S, d> w = q; // a polynomial of a lower degree
            same(c, w, refAdd(V(d + 1, 0), b, 1), "conversion");
            w = p;
            same(c, w, a, "assignment");
        }
    }
    if (p == p2 ? a != a2 : a == a2) c.fail("==");
    if (p != p2 ? a == a2 : a != a2) c.fail("!=");
    if (c.chance(.5)) {
        int i = (int) c.draw(d + 1);
        auto r = p;
        r[i] += S(1);
        if (r == p || !(r != p)) c.fail(str("== ignores coefficient ", i));
    }
    if (!(p(X) == refAt(a, x))) c.fail(str("p(", x, ") = ", (double) p(X), " instead of ", refAt(a, x)));
    {
        V co = a;
        std::vector<S> f;
        for (auto y: a) f.push_back(S(y));
        if (!(horner<S>(f, X, (int) f.size()) == refAt(a, x))) c.fail("horner");
    }
    same(c, p.template derivative<0>(), a, "derivative<0>");
    if (!(p.template derivative<0>(X) == refAt(a, x))) c.fail("derivative<0>(x)");
    if constexpr (d >= 1) {
        same(c, p.derivative(), refDer(a, 1), "derivative");
        if (!(p.derivative(X) == refAt(refDer(a, 1), x))) c.fail("derivative(x)");
    }
    if constexpr (d >= 2) {
        same(c, p.template derivative<2>(), refDer(a, 2), "derivative<2>");
        if (!(p.template derivative<2>(X) == refAt(refDer(a, 2), x))) c.fail("derivative<2>(x)");
    }
    if constexpr (d >= 3) {
        same(c, p.template derivative<3>(), refDer(a, 3), "derivative<3>");
        if (!(p.template derivative<3>(X) == refAt(refDer(a, 3), x))) c.fail("derivative<3>(x)");
    }
    { // the integral, from coefficients that are multiples of i + 1
        Polynomial<S, d> r;
        V want(d + 2, 0);
        for (int i = 0; i <= d; ++i) {
            r[i] = S(a[i] * (i + 1));
            want[i + 1] = a[i];
        }
        same(c, r.integral(), want, "integral");
        if (!(r.integral(X) == refAt(want, x))) c.fail("integral(x)");
    }
    { // constructors
        Polynomial<S, d> z, v(K);
        same(c, z, V(d + 1, 0), "default constructor");
        same(c, v, refAdd(V(d + 1, 0), V{k}, 1), "constant");
        Polynomial<S, d> l{S(a[0])};
        same(c, l, refAdd(V(d + 1, 0), V{a[0]}, 1), "short list");
        if constexpr (d >= 2) {
            Polynomial<S, d> t{S(a[0]), S(a[1]), S(a[2])};
            same(c, t, refAdd(V(d + 1, 0), V(a.begin(), a.begin() + 3), 1), "list");
        }
        Eigen::Array<S, d + 1, 1> arr;
        for (int i = 0; i <= d; ++i) arr[i] = S(a[i]);
        same(c, Polynomial<S, d>(arr), a, "from an array");
    }
    c.nontrivial(a != V(d + 1, 0) && b != V(e + 1, 0));
}

template<class S>
static void algebras(Ctx &c) {
    switch (c.draw(8)) {
        case 0: algebra<S, 0, 0>(c); break;
        case 1: algebra<S, 1, 0>(c); break;
        case 2: algebra<S, 2, 1>(c); break;
        case 3: algebra<S, 3, 3>(c); break;
        case 4: algebra<S, 3, 5>(c); break;
        case 5: algebra<S, 6, 2>(c); break;
        case 6: algebra<S, 7, 4>(c); break;
        default: algebra<S, 1, 4>(c);
    }
}

// shifted Legendre polynomials: coefficients of P_i(2t - 1)
static const std::vector<std::vector<Q>> &shifted() {
    static std::vector<std::vector<Q>> p = [] {
        std::vector<std::vector<Q>> r{{Q(1)}, {Q(-1), Q(2)}};
        for (int n = 1; n < 20; ++n) { // (n+1) P_{n+1} = (2n+1) (2t-1) P_n - n P_{n-1}
            std::vector<Q> v(n + 2, Q(0));
            for (int i = 0; i <= n; ++i) {
                v[i] -= (2 * n + 1) * r[n][i];
                v[i + 1] += 2 * (2 * n + 1) * r[n][i];
            }
            for (int i = 0; i < n; ++i) v[i] -= n * r[n - 1][i];
            for (auto &x: v) x /= n + 1;
            r.push_back(v);
        }
        return r;
    }();
    return p;
}

static Q at(const std::vector<Q> &p, Q t) {
    Q r = 0;
    for (int i = (int) p.size() - 1; i >= 0; --i) r = r * t + p[i];
    return r;
}

template<class S>
S epsOf() { return std::numeric_limits<S>::epsilon(); }

template<class S>
static void interval(Ctx &c, S &a, S &b) {
    double w = c.chance(.5) ? c.real(.1, 4) : c.logreal(1e-4, 100);
    double off = c.chance(.5) ? c.real(-2, 2) : w * c.real(-3, 3);
    a = S(off);
    b = S(off) + S(w);
    c.note("a", (double) a);
    c.note("b", (double) b);
}

// f(x) = sum_i g_i P_i(2t - 1), t = (x-a)/(b-a), with random g: well conditioned
template<class S, int n>
static void expansion(Ctx &c, const char *type) {
    constexpr int k = n + n % 2;
    S a, b;
    interval(c, a, b);
    std::vector<S> g(2 * k, S(0)); // the degree of the exact quadrature
    bool high = c.chance(.3); // a degree the quadrature integrates, but the expansion does not contain
    int m = high ? 2 * k : n;
    if (m > 20) m = 20;
    Q big = 0;
    for (int i = 0; i < m; ++i) {
        g[i] = S(c.chance(.3) ? (double) c.integer(-3, 3) : c.real(-1, 1));
        big = std::max(big, abs(wide(g[i])));
    }
    Q A = wide(a), B = wide(b), H = B - A;
    auto f = [&](S x) -> S {
        Q t = (wide(x) - A) / H, r = 0;
        for (int i = 0; i < m; ++i) r += wide(g[i]) * at(shifted()[i], t);
        double hi = (double) r;
        S s = S(hi);
        r -= Q(hi);
        double lo = (double) r;
        s += S(lo);
        r -= Q(lo);
        return s + S((double) r);
    };
    // rounding of the nodes: relative to the size of the interval's ends
    Q eps = wide(epsOf<S>()) * (1 + (abs(A) + abs(B)) / H);
    // the constants are printed with 18, 24 or 36 digits
    Q tol = 5 * n * n * eps * (big + Q(1e-30));
    legendre::Legendre<S, n> l{f, a, b};
    c.note("n", n);
    {
        Q got = wide(l.integrate()), want = H * wide(g[0]);
        Q err = abs(got - want) / (tol * H);
        c.metric(str(type, " integral"), (double) err);
        if (!(abs(got - want) <= tol * H)) c.fail(str(type, ", n = ", n, ": integral ", (double) got, " instead of ", (double) want, ", polynomial of degree ", m - 1));
    }
    if (high) {
        c.label("quadrature degree");
    } else {
        const auto &co = l.getCoefficients();
        auto co2 = legendre::getCoefficients<n, S>(f, a, b);
        Q p = 1;
        for (int i = 0; i < n; ++i) {
            // the coefficient of P_i (b-a)^i
            Q got = wide(co[i]) * p;
            // getCoefficients divides by h^i, h = (b-a)/2: in terms of t, P_i(2t-1) (2h)^i
            got = wide(co[i]) * pow(H, i);
            Q want = wide(g[i]);
            // coefficients scale with 2^i: the weight row holds (2i+1)/2^(i+1)
            Q err = abs(got - want) / (tol * pow(Q(2), 0));
            c.metric(str(type, " coefficient"), (double) err);
            if (!(err <= 1)) c.fail(str(type, ", n = ", n, ": coefficient ", i, ": ", (double) got, " instead of ", (double) want));
            if (!(co2[i] == co[i])) c.fail("getCoefficients differs from the class");
        }
        if (c.chance(.5)) { // integrate<false>(i)
            int i = (int) c.draw(n);
            Q got = wide(l.template integrate<false>(i)), want = wide(g[i]) / pow(Q(2), i);
            if (!(abs(got - want) <= tol)) c.fail(str("integrate<false>(", i, ")"));
        }
        if constexpr (n <= 16) {
            const auto &P = l.asPolynomial();
            const auto &P2 = l.asPolynomial();
            if (!(P == P2)) c.fail("the cached polynomial differs");
            // coefficients
            for (int j = 0; j < n; ++j) {
                Q want = 0, size = 0;
                for (int i = j; i < n; ++i) {
                    want += wide(g[i]) * shifted()[i][j];
                    size += abs(shifted()[i][j]);
                }
                Q got = wide(P[j]), err = abs(got - want) / (tol * size + Q(1e-300));
                c.metric(str(type, " monomial"), (double) err);
                if (!(err <= 1)) c.fail(str(type, ", n = ", n, ": coefficient of t^", j, ": ", (double) got, " instead of ", (double) want));
            }
        }
    }
    c.nontrivial(big > 0);
}

template<class S>
static void expansions(Ctx &c, const char *type) {
    switch (c.draw(17)) {
        case 0: expansion<S, 1>(c, type); break;
        case 1: expansion<S, 2>(c, type); break;
        case 2: expansion<S, 3>(c, type); break;
        case 3: expansion<S, 4>(c, type); break;
        case 4: expansion<S, 5>(c, type); break;
        case 5: expansion<S, 6>(c, type); break;
        case 6: expansion<S, 7>(c, type); break;
        case 7: expansion<S, 8>(c, type); break;
        case 8: expansion<S, 9>(c, type); break;
        case 9: expansion<S, 10>(c, type); break;
        case 10: expansion<S, 11>(c, type); break;
        case 11: expansion<S, 12>(c, type); break;
        case 12: expansion<S, 13>(c, type); break;
        case 13: expansion<S, 14>(c, type); break;
        case 14: expansion<S, 15>(c, type); break;
        case 15: expansion<S, 16>(c, type); break;
        default: expansion<S, 18>(c, type); break;
    }
}

// matrix-valued functions: the same entry by entry
template<int n>
static void matrixOf(Ctx &c) {
    double a, b;
    interval(c, a, b);
    int k = (int) c.integer(1, 4);
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(k, k), B = A, C = A;
    for (int i = 0; i < k; ++i)
        for (int j = 0; j < k; ++j) {
            A(i, j) = c.real(-2, 2);
            B(i, j) = c.real(-2, 2);
            C(i, j) = c.real(.1, 3);
        }
    auto f = [&](double x, int i, int j) { return A(i, j) * std::cos(C(i, j) * (x - a) / (b - a)) + B(i, j) * x; };
    auto F = [&](double x) {
        Eigen::MatrixXd r(k, k);
        for (int i = 0; i < k; ++i)
            for (int j = 0; j < k; ++j) r(i, j) = f(x, i, j);
        return r;
    };
    auto all = legendre::getCoefficients<n, double, Eigen::MatrixXd>(F, a, b);
    for (int i = 0; i < k; ++i)
        for (int j = 0; j < k; ++j) {
            auto one = legendre::getCoefficients<n, double>([&](double x) { return f(x, i, j); }, a, b);
            for (int l = 0; l < n; ++l) {
                double s = 1e-13 * (4 + 2 * (std::abs(a) + std::abs(b))) / std::pow(b - a, l);
                if (!(std::abs(all[l](i, j) - one[l]) <= s))
                    c.fail(str("entry ", i, ",", j, " of coefficient ", l, ": ", all[l](i, j), " instead of ", one[l]));
            }
        }
    c.nontrivial(k > 1);
}

static void matrices(Ctx &c) {
    switch (c.draw(3)) {
        case 0: matrixOf<3>(c); break;
        case 1: matrixOf<8>(c); break;
        default: matrixOf<16>(c);
    }
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C20", "polynomials are not zero; a matrix has more than one entry",
                                 {{"algebra-int", 20000, 1000000, algebras<int>},
                                  {"algebra-double", 20000, 1000000, algebras<double>},
                                  {"algebra-quad", 3000, 100000, algebras<float128>},
                                  {"double", 6000, 200000, [](Ctx &c) { expansions<double>(c, "double"); }},
                                  {"long", 4000, 150000, [](Ctx &c) { expansions<long double>(c, "long double"); }},
                                  {"quad", 3000, 100000, [](Ctx &c) { expansions<float128>(c, "float128"); }},
                                  {"matrix", 1000, 40000, matrices}},
                                 {"the reference polynomials with integers, the Legendre polynomials with 60 digits from their recurrence"}});
}
