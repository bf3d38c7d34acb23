// C09: the sector mesh
#include "lib.h"
#include "prop.h"
#include <matslise/matscs.h>

using namespace lib;
using matslise::Matscs;
typedef matslise::sector_builder::AutomaticSectorBuilder<Matscs<double>> AutoCS;
typedef matslise::sector_builder::UniformSectorBuilder<Matscs<double>> UniformCS;
typedef Eigen::MatrixXd MatrixXd;

// mean of the potential on [l, r], inside one piece
static double meanOf(const Pot &p, double l, double r, double &variation) {
    int piece = p.pieceOf((l + r) / 2), n = 200;
    ref::R sum = 0;
    double lo = 1e300, hi = -1e300;
    // composite Simpson in long double
    for (int i = 0; i <= 2 * n; ++i) {
        ref::R x = l + ((ref::R) r - l) * i / (2 * n);
        ref::R v = p.at<ref::R>(x, piece);
        sum += v * (i == 0 || i == 2 * n ? 1 : i % 2 ? 4 : 2);
        lo = std::min(lo, (double) v);
        hi = std::max(hi, (double) v);
    }
    variation = hi - lo;
    return (double) (sum / (6 * n));
}

// what has to hold for any mesh of any kind of problem; V's arguments are recorded in `evaluated`
template<class Problem>
static void contract(Ctx &c, const Problem &m, double a, double b, double tol, const std::vector<double> &jumps, int uniform,
                     const std::vector<double> &evaluated, double refinements = 1) {
    int n = (int) m.sectors.size();
    double L = b - a;
    int exceeding = 0; // sectors where the refinement stopped early
    if (m.sectorCount != n) c.fail(str("sectorCount is ", m.sectorCount, " with ", n, " sectors"));
    if (n < 1) c.fail("no sectors");
    if (m.sectors.front()->min != a) c.fail(str("first sector starts at ", m.sectors.front()->min, " and not at ", a));
    if (m.sectors.back()->max != b) c.fail(str("last sector ends at ", m.sectors.back()->max, " and not at ", b));
    for (int i = 0; i < n; ++i) {
        auto &s = *m.sectors[i];
        if (!(s.min < s.max)) c.fail(str("sector ", i, " is empty: [", s.min, ", ", s.max, "]"));
        if (i && m.sectors[i - 1]->max != s.min) c.fail(str("sector ", i, " starts at ", s.min, ", the previous one ends at ", m.sectors[i - 1]->max));
        if (std::abs(s.h - (s.max - s.min)) > 0) c.fail(str("sector ", i, ": h=", s.h, " but max-min=", s.max - s.min));
        if (!s.contains(s.min) || !s.contains(s.max) || !s.contains((s.min + s.max) / 2) ||
            s.contains(s.min - .01 * (s.max - s.min) - 1e-12 * (std::abs(a) + std::abs(b))) ||
            s.contains(s.max + .01 * (s.max - s.min) + 1e-12 * (std::abs(a) + std::abs(b))))
            c.fail(str("contains() of sector ", i, " does not describe [", s.min, ", ", s.max, "]"));
        for (double j: jumps)
            if (s.min < j && j < s.max) c.fail(str("jump ", j, " lies inside sector ", i, " [", s.min, ", ", s.max, "]"));
        if (s.direction != (i <= m.matchIndex ? matslise::forward : matslise::backward))
            c.fail(str("sector ", i, " of ", n, " has the wrong direction, match index ", m.matchIndex));
        if (!uniform) {
            double e = s.error();
            if (!(e <= tol || s.max - s.min <= 1e-3 * std::min(1., L))) ++exceeding;
            if (s.max - s.min > 1e-3 * std::min(1., L)) {
                c.metric(str("error/tol at tol=", tol), e / tol);
                if (!(e <= (tol >= 1e-7 ? refinements : tol >= 1e-9 ? 100 : 1000) * tol)) c.fail(str("sector ", i, " [", s.min, ", ", s.max, "] has error ", e, " > ", tol));
            }
        } else if (std::abs((s.max - s.min) * uniform - L) > 1e-13 * uniform * (std::abs(a) + std::abs(b)))
            c.fail(str("uniform sector ", i, " has width ", s.max - s.min, ", expected ", L / uniform));
    }
    if (uniform && n != uniform) c.fail(str(n, " sectors in place of ", uniform));
    if (m.matchIndex < 0 || m.matchIndex >= std::max(1, n - 1)) c.fail(str("match index ", m.matchIndex, " with ", n, " sectors"));
    for (double x: evaluated)
        if (!(a < x && x < b)) c.fail(str("the potential was evaluated at ", x, ", outside (", a, ", ", b, ")"));
    bool sliver = false; // rounding may leave a sector of a few ulp next to a jump
    for (auto &s: m.sectors) sliver = sliver || s->max - s->min <= 1e-12 * (std::abs(a) + std::abs(b));
    if (sliver) c.label("a sector of a few ulp");
    for (double x: evaluated)
        for (double j: jumps)
            if (x == j && !sliver) c.fail(str("the potential was evaluated at the jump ", j));
    if (exceeding > 1 + .25 * n) c.fail(str(exceeding, " of ", n, " sectors have an error over the tolerance"));
    if (exceeding) c.label("a sector stopped before the tolerance");
    c.metric("sectors over the tolerance", exceeding);
    c.metric(str("part over the tolerance at tol=", tol), (double) exceeding / n);
    c.metric("sectors", n);
}

// somewhat more extreme intervals and jump lists than the spectral checks use
static Pot genMeshPot(Ctx &c) {
    PotOptions o;
    o.maxJumps = c.chance(.6) ? 6 : 0;
    o.maxStrength = 3e3;
    o.maxLength = c.chance(.2) ? 200 : 12;
    Pot p = genPot(c, o);
    if (!p.jumps.empty() && c.chance(.3)) {
        // jumps very close to each other and to the ends
        double L = p.length();
        std::set<double> js(p.jumps.begin(), p.jumps.end());
        double base = c.chance(.4) ? p.a : c.chance(.5) ? p.b : c.pick(p.jumps);
        double x = base + (base == p.a ? 1 : base == p.b ? -1 : c.chance(.5) ? 1 : -1) * L * c.logreal(1e-6, 1e-2);
        bool apart = p.a + 1e-7 * L < x && x < p.b - 1e-7 * L;
        for (double j: js) apart = apart && std::abs(j - x) > 1e-7 * L;
        if (apart) js.insert(x);
        p.jumps.assign(js.begin(), js.end());
        while (p.pieces.size() < p.jumps.size() + 1) {
            Smooth s = p.pieces.back();
            s.terms.clear();
            s.terms.push_back(genTerm(c, 1000 / (L * L)));
            p.pieces.insert(p.pieces.begin() + c.draw(p.pieces.size() + 1), s);
        }
        c.label("jump close to another one or to an end");
    }
    if (!p.jumps.empty()) c.label("jumps");
    return p;
}

static std::vector<double> genJumps(Ctx &c, double a, double b, int n) {
    std::set<double> js;
    for (; n > 0; --n) {
        double x = a + (b - a) * c.real(.01, .99);
        bool apart = true;
        for (double j: js) apart = apart && std::abs(j - x) > 1e-7 * (b - a);
        if (apart) js.insert(x);
    }
    return {js.begin(), js.end()};
}

static double genMeshTol(Ctx &c) {
    static const std::vector<double> t = {1e-8, 1e-4, 1e-5, 1e-6, 1e-7, 1e-9, 1e-10, 1e-11, 1e-12, 1e-2};
    return c.pick(t);
}

static void automatic(Ctx &c) {
    Pot p = genMeshPot(c);
    double tol = genMeshTol(c);
    c.note("V", p.text());
    c.note("tol", tol);
    std::vector<double> seen;
    bool open = true;
    long late = 0;
    auto V = [&](double x) {
        if (open) seen.push_back(x);
        else ++late;
        return p(x);
    };
    Auto sb(tol);
    sb.jumps = p.jumps;
    Matslise<double> m(V, p.a, p.b, tol, sb);
    open = false;
    contract(c, m, p.a, p.b, tol, p.jumps, 0, seen);
    if (m.sectorCount < 2) c.fail("an automatic mesh has a forward and a backward part");
    if (m.domain.min != p.a || m.domain.max != p.b) c.fail("domain");
    // queries do not evaluate the potential
    auto l = toY(genBC(c, p.length())), r = toY(genBC(c, p.length()));
    double lo, hi;
    p.range(lo, hi);
    double E = lo + 20 / (p.length() * p.length());
    m.propagate(E, l, p.a, p.b);
    m.matchingError(E, l, r);
    m.eigenfunction(E, l, r);
    m.estimatePotentialMinimum();
    m.eigenvalueError(E, l, r);
    m.eigenvaluesByIndex(0, 2, l, r);
    if (late) c.fail(str("queries evaluated the potential ", late, " times"));
    // the same mesh through the default constructor
    if (p.jumps.empty()) {
        Matslise<double> d([&](double x) { return p(x); }, p.a, p.b, tol);
        bool same = d.sectorCount == m.sectorCount && d.matchIndex == m.matchIndex;
        for (int i = 0; same && i < m.sectorCount; ++i) same = d.sectors[i]->min == m.sectors[i]->min;
        if (!same) c.fail("the default constructor builds another mesh");
    }
    // means of the sectors: estimatePotentialMinimum is their minimum
    double best = 1e300, slack = 0;
    for (auto &s: m.sectors) {
        double var, mean = meanOf(p, s->min, s->max, var);
        slack = std::max(slack, 1e-4 * var + 1e-12 * std::abs(mean));
        best = std::min(best, mean);
        // all sectors: the mean itself
        double u = prop::unresolved(p, {{s->min, s->max}}) / s->h;
        if (std::abs(s->vs[0] - mean) > 1e-6 * var + 1e-11 * (std::abs(mean) + 1) + 2 * u)
            c.fail(str("sector [", s->min, ", ", s->max, "]: mean ", s->vs[0], ", expected ", mean));
        slack = std::max(slack, 1e-6 * var + 1e-11 * (std::abs(mean) + 1) + 2 * u);
    }
    if (std::abs(m.estimatePotentialMinimum() - best) > slack)
        c.fail(str("estimatePotentialMinimum is ", m.estimatePotentialMinimum(), ", the smallest mean is ", best));
    c.nontrivial(m.sectorCount > 2);
}

static void uniform(Ctx &c) {
    Pot p = genMeshPot(c);
    p.jumps.clear();
    p.pieces.resize(1);
    int n = (int) (c.chance(.4) ? c.integer(1, 6) : c.integer(1, 150));
    c.note("V", p.text());
    c.note("n", n);
    std::vector<double> seen;
    auto V = [&](double x) {
        seen.push_back(x);
        return p(x);
    };
    Matslise<double> m(V, p.a, p.b, 1e-8, Uniform(n));
    auto recorded = seen;
    contract(c, m, p.a, p.b, 1e-8, {}, n, recorded);
    m.eigenvaluesByIndex(0, 1, toY(genBC(c, p.length())), toY(genBC(c, p.length())));
    if (seen.size() != recorded.size()) c.fail("queries evaluated the potential");
    c.nontrivial(n > 1);
}

static void half(Ctx &c) {
    Pot p = genEvenPot(c, 1e4);
    double X = p.b, tol = genMeshTol(c);
    c.note("V", p.text());
    c.note("tol", tol);
    std::vector<double> seen, jumps;
    int n = c.chance(.3) ? (int) c.integer(2, 60) : 0;
    if (!n) jumps = genJumps(c, 0, X, (int) c.integer(0, 3));
    auto V = [&](double x) {
        seen.push_back(x);
        return p(x);
    };
    Auto sb(tol);
    sb.jumps = jumps;
    std::unique_ptr<MatsliseHalf<double>> m;
    if (n) m = std::make_unique<MatsliseHalf<double>>(V, X, tol, Uniform(n));
    else if (jumps.empty()) m = std::make_unique<MatsliseHalf<double>>(V, X, tol);
    else m = std::make_unique<MatsliseHalf<double>>(V, X, tol, sb);
    auto recorded = seen;
    contract(c, *m->ms, 0, X, tol, jumps, n, recorded);
    if (m->domain.min != -X || m->domain.max != X) c.fail("the domain of the symmetric problem");
    m->eigenvaluesByIndex(0, 2, toY(genBC(c, X)));
    if (seen.size() != recorded.size()) c.fail("queries evaluated the potential");
    c.nontrivial(m->ms->sectorCount > 2);
}

// domains of many units with structure of a unit or less: the width of the sectors follows the potential, not the domain
static void longDomain(Ctx &c) {
    double L = c.logreal(20, 500), a = c.chance(.5) ? 0 : c.real(-L, L), b = a + L;
    double tol = c.pick(std::vector<double>{1e-6, 1e-4, 1e-5, 1e-7, 1e-8});
    double A = c.logreal(.1, 100), w = c.logreal(.2, 30), phase = c.real(0, 6);
    double bump = c.chance(.5) ? c.logreal(1, 300) : 0, at = a + L * c.real(.05, .95), width = c.logreal(.05, 2);
    c.note("V", str(A, "*cos(", w, "*x+", phase, ") + ", bump, "/(1+((x-", at, ")/", width, ")^2) on [", a, ", ", b, "]"));
    c.note("tol", tol);
    std::vector<double> seen;
    Auto sb(tol);
    Matslise<double> m([&](double x) {
        seen.push_back(x);
        double u = (x - at) / width;
        return A * std::cos(w * x + phase) + bump / (1 + u * u);
    }, a, b, tol, sb);
    // ten refinements are not always enough for weak and fast oscillations
    contract(c, m, a, b, tol, {}, 0, seen, A >= 8 ? 2 : 1000);
    double narrow = L;
    for (auto &s: m.sectors) narrow = std::min(narrow, s->max - s->min);
    if (narrow < 1e-3 * L) c.label("sectors below 1e-3 of the domain");
    c.nontrivial(m.sectorCount > 20);
}

static void coupled(Ctx &c) {
    double a, b;
    genInterval(c, a, b, 6);
    double L = b - a;
    int n = (int) c.integer(1, 4);
    double tol = c.pick(std::vector<double>{1e-6, 1e-4, 1e-8});
    std::vector<std::vector<Smooth>> M(n, std::vector<Smooth>(n));
    std::string text;
    double S = genStrength(c, 300) / (L * L);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j) {
            Smooth s;
            s.x0 = a;
            s.L = L;
            for (int k = (int) c.integer(0, 2); k > 0; --k) s.terms.push_back(genTerm(c, S, true));
            M[i][j] = M[j][i] = s;
            text += str("V", i, j, "=", s.text(), "; ");
        }
    c.note("interval", str(a, " ", b));
    c.note("V", text);
    std::vector<double> seen;
    auto V = [&](double x) {
        seen.push_back(x);
        MatrixXd r(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r(i, j) = M[i][j](x);
        return r;
    };
    int u = c.chance(.4) ? (int) c.integer(1, 40) : 0;
    std::vector<double> jumps;
    AutoCS sb(tol);
    if (!u && c.chance(.5)) {
        jumps = genJumps(c, a, b, (int) c.integer(1, 4));
        sb.jumps = jumps;
    }
    c.note("uniform", u);
    std::unique_ptr<Matscs<double>> m;
    if (u) m = std::make_unique<Matscs<double>>(V, n, a, b, UniformCS(u));
    else m = std::make_unique<Matscs<double>>(V, n, a, b, sb);
    auto recorded = seen;
    contract(c, *m, a, b, tol, jumps, u, recorded);
    auto r = m->propagate(1 / L / L, matslise::Y<double, Eigen::Dynamic>::Dirichlet(n), a, b);
    if (seen.size() != recorded.size()) c.fail("queries evaluated the potential");
    c.nontrivial(m->sectorCount > 2);
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C09",
                                 "the mesh has more than two sectors (uniform: more than one)",
                                 {{"automatic", 8000, 120000, automatic},
                                  {"uniform", 3000, 30000, uniform},
                                  {"half", 3000, 30000, half},
                                  {"long", 1000, 15000, longDomain},
                                  {"coupled", 1500, 20000, coupled}},
                                 {"ten refinements per sector: weak and fast oscillations over many periods (amplitude below 5) may end with an error up to 100 times the tolerance, and are not judged on it",
                                  "declared jumps are sorted and inside the domain",
                                  "the minimum width of an automatic sector is 1e-3, and 1e-3 of the domain if that is shorter than 1",
                                  "with a tolerance below 1e-7 the refinement may stop early where rounding errors dominate: up to a quarter of the sectors, by a factor 100 (1000 below 1e-9)"}});
}
