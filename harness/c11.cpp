// C11: eigenvalues of problems with coupled boundary conditions
#include "periodic.h"
#include <tuple>
using namespace periodic;
typedef std::vector<std::tuple<int, double, int>> Ev;

static std::string show(const Ev &e) {
    std::string r = "{";
    for (auto &x: e) r += str(" ", std::get<0>(x), ":", std::get<1>(x), "x", std::get<2>(x));
    return r + " }";
}

static void judge(Ctx &c, const Problem &q, const Ev &ev, const std::string &what) {
    int next = -1;
    double prev = -1e300;
    for (auto &t: ev) {
        int i = std::get<0>(t), m = std::get<2>(t);
        double E = std::get<1>(t), d = q.accuracy(E);
        if (m != 1 && m != 2) c.fail(str(what, ": multiplicity ", m));
        if (!std::isfinite(E)) c.fail(what + ": not finite");
        if (i < 0 || (next >= 0 && i != next)) c.fail(str(what, ": indices in ", show(ev)));
        if (E < prev) c.fail(str(what, ": order of ", show(ev)));
        next = i + m;
        prev = E;
        long n0 = q.leastBelow((R) E - d), n1 = q.mostBelow((R) E + d);
        if (n0 > i || n1 < i + m)
            c.fail(str(what, ": eigenvalue ", i, " = ", E, " of multiplicity ", m, ": there are ", n0, " eigenvalues below E-d and ", n1, " below E+d, d = ", d));
        if (m == 2) c.label("double");
    }
}

static void byIndex(Ctx &c) {
    Problem q = problem(c);
    int i0 = (int) (c.chance(.5) ? c.integer(0, 4) : c.integer(0, 40)), n = (int) c.integer(1, 12);
    c.note("range", str(i0, "..", i0 + n));
    auto ev = q.m->eigenvaluesByIndex(i0, i0 + n);
    judge(c, q, ev, str("K", q.kind, q.K[1] < 0 ? "-" : "+", ": eigenvaluesByIndex(", i0, ", ", i0 + n, ")"));
    std::set<int> seen;
    for (auto &t: ev)
        for (int j = 0; j < std::get<2>(t); ++j) seen.insert(std::get<0>(t) + j);
    for (int j = i0; j < i0 + n; ++j)
        if (!seen.count(j)) c.fail(str("K", q.kind, ": eigenvaluesByIndex(", i0, ", ", i0 + n, ") misses ", j, ": ", show(ev)));
    for (auto &t: ev)
        if (std::get<0>(t) + std::get<2>(t) <= i0 || std::get<0>(t) >= i0 + n) c.fail(str("K", q.kind, ": eigenvaluesByIndex(", i0, ", ", i0 + n, ") returned index ", std::get<0>(t)));
    c.nontrivial(!q.p.pieces[0].terms.empty());
}

static void interval(Ctx &c) {
    Problem q = problem(c);
    double L = q.p.length();
    double k1 = c.real(0, 12), k2 = c.real(0, 12);
    double a = q.lo + (k1 * k1 - (c.chance(.3) ? c.real(0, 20) : 0)) / L / L, b = q.lo + k2 * k2 / L / L;
    if (a > b && c.chance(.9)) std::swap(a, b);
    c.note("from", a);
    c.note("to", b);
    auto ev = q.m->eigenvalues(a, b);
    auto what = str("K", q.kind, ": eigenvalues(", a, ", ", b, ")");
    judge(c, q, ev, what);
    if (a >= b) {
        if (!ev.empty()) c.fail(what + " is not empty");
        c.label("empty interval");
        return;
    }
    double da = q.accuracy(a), db = q.accuracy(b);
    std::set<int> seen;
    for (auto &t: ev) {
        double E = std::get<1>(t);
        if (E < a || E >= b) c.fail(str(what, ": outside: ", E));
        for (int j = 0; j < std::get<2>(t); ++j) seen.insert(std::get<0>(t) + j);
    }
    // indices that must be there
    long first = q.mostBelow((R) a + da), last = q.leastBelow((R) b - db);
    for (long j = first; j < last; ++j)
        if (!seen.count((int) j)) c.fail(str(what, " misses ", j, ": ", show(ev)));
    c.nontrivial(last > first);
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C11", "a potential; an interval that contains an eigenvalue",
                                 {{"index", 5000, 150000, byIndex},
                                  {"interval", 10000, 200000, interval}},
                                 {"the reference integrator; the index theorem for coupled boundary conditions"}});
}
