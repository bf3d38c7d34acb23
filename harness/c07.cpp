// C07: eigenvalueError
//
// Oracle: the true distance is measured with the reference: Newton's iteration on the reference Wronskian (long double), started at
// the computed eigenvalue, and certified by counting.
#include "lib.h"
#include "spectrum.h"
#include "transfer.h"
#include "prop.h"
using namespace lib;

// the exact eigenvalue next to E, found from the reference; the second value is how far off it may still be
static bool refine(const ref::Coeff &co, const Pot &p, const BC &l, const BC &r, int k, double E, ref::R &exact) {
    ref::R e = E;
    ref::R mid = (p.a + (ref::R) p.b) / 2;
    for (int it = 0; it < 6; ++it) {
        ref::State a = ref::transfer(co, e, p.a, mid) * ref::State{l.y, l.dy, 0, 0};
        ref::State b = ref::transfer(co, e, p.b, mid) * ref::State{r.y, r.dy, 0, 0};
        ref::R w = a[1] * b[0] - a[0] * b[1];
        ref::R dw = a[3] * b[0] + a[1] * b[2] - a[2] * b[1] - a[0] * b[3];
        ref::R st = w / dw;
        if (!std::isfinite((double) st)) return false;
        e -= st;
        if (std::abs(st) < 1e-15L * (1 + std::abs(e))) break;
    }
    exact = e;
    ref::R d = 1e-13L * (1 + std::abs(e));
    return ref::countEigenvalues(co, e - d, l.y, l.dy, r.y, r.dy) <= k && ref::countEigenvalues(co, e + d, l.y, l.dy, r.y, r.dy) > k;
}

static const int LIMIT = 5;

static void run(Ctx &c, bool uniform) {
    Pot p = genPot(c);
    double tol = genTol(c);
    BC l = genBC(c, p.length()), r = genBC(c, p.length());
    int k = (int) (c.chance(.5) ? c.integer(0, 5) : c.integer(0, 50));
    c.note("V", p.text());
    c.note("tol", tol);
    c.note("left", l.text());
    c.note("right", r.text());
    c.note("index", k);
    Layout lay;
    auto m = build(p, tol);
    if (uniform) {
        // coarser than the automatic mesh: larger errors
        lay.uniform = (int) c.integer(std::max(2, m->sectorCount / 3), std::max(2, m->sectorCount));
        c.note("uniform", lay.uniform);
        m = build(p, tol, lay);
    }
    double unresolved = prop::unresolved(p, *m);
    const int n = 8;
    auto ev = m->eigenvaluesByIndex(k, k + n, toY(l), toY(r));
    if (ev.size() != n) {
        if (uniform) c.discard();
        c.fail("eigenvaluesByIndex does not return the eigenvalues");
    }
    double lo, hi;
    p.range(lo, hi);
    double L = p.length();
    auto co = p.coeff();
    int judged = 0, below = 0, meaningful = 0;
    std::string list;
    for (auto &e: ev) {
        double E = e.second;
        double rep = c.chance(.5) ? m->eigenvalueError(E, toY(l), toY(r)) : m->eigenvalueError(E, toY(l), toY(r), e.first);
        if (!std::isfinite(rep) || rep < 0) c.fail(str("eigenvalueError(", E, ") is ", rep));
        if (l.y == r.y && l.dy == r.dy && c.chance(.5)) {
            double rep2 = m->eigenvalueError(E, toY(l));
            if (rep2 != rep) c.fail(str("eigenvalueError(", E, ") with one side is ", rep2, ", with both ", rep));
        }
        double scale = std::max({1., std::abs(E), E - lo, hi - lo, 1 / L / L});
        if (!uniform) {
            c.metric("reported/tol*scale", rep / (tol * scale));
            if (rep > 25 * tol * scale) c.fail(str("eigenvalueError(", E, ") is ", rep, ", not of the order of the tolerance"));
        }
        ref::R exact;
        if (!refine(co, p, l, r, e.first, E, exact)) {
            c.label("an eigenvalue without certified reference");
            continue;
        }
        double truth = (double) std::abs(E - exact);
        double rounding = 2e-12 * scale + 2 * unresolved;
        ++judged;
        if (truth > rounding) ++meaningful;
        double ratio = truth / (rep + rounding);
        if (ratio > 3) ++below;
        c.metric("true/(reported+rounding)", ratio);
        if (ratio > 1) c.count("single estimates below the true error");
        list += str(" [", e.first, ": true ", truth, " reported ", rep, "]");
        if (ratio > 1e6) c.fail(str("eigenvalue ", e.first, " is off by ", truth, ", reported is ", rep));
    }
    c.count("estimates judged", judged);
    c.count("estimates judged, error above rounding", meaningful);
    c.metric("estimates below a third of the true error, out of 8", below);
    if (below > LIMIT) c.fail(str("the reported error is below a third of the true error for ", below, " of ", judged, " eigenvalues:", list));
    c.nontrivial(meaningful > 0);
}

static void automatic(Ctx &c) { run(c, false); }

static void coarse(Ctx &c) { run(c, true); }

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C07", "the true error of at least one eigenvalue is larger than what rounding explains",
                                 {{"automatic", 1500, 100000, automatic},
                                  {"coarse", 2000, 50000, coarse}},
                                 {"the estimate compares two discretisations, so that by accident a single one may be far below the true error: the verdict is about batches of 8 neighbouring eigenvalues",
                                  "an eigenvalue is judged when the reference certifies the exact one by counting"}});
}
