// C01: eigenvaluesByIndex(Imin, Imax) returns exactly the eigenvalues Imin .. Imax-1.
//
// Oracle: an independent long double integrator counts the eigenvalues below any energy (zeros of the shooting solution),
// so "E is eigenvalue k to within d" is exactly N(E-d) <= k < N(E+d).
#include "lib.h"
#include "spectrum.h"
using namespace lib;

static void check(Ctx &c, const Pot &p, double tol, const BC &l, const BC &r, int i0, int n) {
    c.note("V", p.text());
    c.note("tol", tol);
    c.note("left", l.text());
    c.note("right", r.text());
    c.note("indices", str("[", i0, ", ", i0 + n, ")"));
    auto m = buildAny(c, p, tol);
    auto ev = m->eigenvaluesByIndex(i0, i0 + n, toY(l), toY(r));
    if ((int) ev.size() != n) c.fail(str("returned ", ev.size(), " eigenvalues instead of ", n));
    spectrum::Judge judge(p, l, r, tol);
    for (int j = 0; j < n; ++j) {
        int k = i0 + j;
        if (ev[j].first != k) c.fail(str("entry ", j, " carries index ", ev[j].first, " instead of ", k));
        if (j && !(ev[j].second >= ev[j - 1].second))
            c.fail(str("eigenvalues ", k - 1, " and ", k, " are out of order: ", ev[j - 1].second, ", ", ev[j].second));
        judge.require(c, k, ev[j].second);
    }
    c.count("eigenvalues judged", n);
    bool boring = p.jumps.empty() && p.pieces[0].terms.empty();
    c.nontrivial(n > 0 && !boring);
}

static void smooth(Ctx &c) {
    Pot p = genPot(c);
    double tol = genTol(c);
    BC l = genBC(c, p.length()), r = genBC(c, p.length());
    int i0 = (int) (c.chance(.5) ? 0 : c.integer(0, 40)), n = (int) c.integer(1, 6);
    check(c, p, tol, l, r, i0, n);
}

// several wells separated by high barriers: eigenvalues in clusters that agree to many digits
static void wells(Ctx &c) {
    Pot p;
    genInterval(c, p.a, p.b);
    double L = p.length(), S = c.logreal(300, 30000) / (L * L);
    Smooth s;
    s.x0 = p.a;
    s.L = L;
    Term T;
    if (c.chance(.5)) {
        T.kind = 9; // two wells
        T.amp = S;
        T.a = c.real(.3, .7);
    } else {
        T.kind = 4; // n wells
        T.amp = -S;
        int w = (int) c.integer(2, 5);
        T.a = 2 * M_PI * w;
        T.b = c.chance(.7) ? -M_PI : c.real(-3, 3);
    }
    s.terms.push_back(T);
    if (c.chance(.4)) {
        Term U;
        U.kind = 1;
        U.amp = S * c.pick(std::vector<double>{1e-4, 1e-8, 1e-11, 1e-2, .1});
        U.a = .5;
        s.terms.push_back(U);
        c.label("tilted");
    }
    p.pieces.push_back(s);
    double tol = genTol(c);
    BC l = genBC(c, L), r = c.chance(.5) ? BC{l.y, -l.dy} : genBC(c, L);
    int i0 = (int) c.integer(0, 8), n = (int) c.integer(1, 8);
    check(c, p, tol, l, r, i0, n);
}

static void high(Ctx &c) {
    PotOptions o;
    o.maxStrength = 1000;
    Pot p = genPot(c, o);
    double tol = genTol(c);
    BC l = genBC(c, p.length()), r = genBC(c, p.length());
    int i0 = (int) c.logreal(40, 600), n = (int) c.integer(1, 3);
    check(c, p, tol, l, r, i0, n);
}

// much shorter or longer intervals than those of the other groups
static void length(Ctx &c) {
    PotOptions o;
    o.extremeLength = true;
    Pot p = genPot(c, o);
    double tol = genTol(c);
    BC l = genBC(c, p.length()), r = genBC(c, p.length());
    int i0 = (int) (c.chance(.5) ? 0 : c.integer(0, 40)), n = (int) c.integer(1, 6);
    check(c, p, tol, l, r, i0, n);
}

// no potential: closed forms, long ranges
static void closed(Ctx &c) {
    Pot p;
    genInterval(c, p.a, p.b);
    double L = p.length(), v0 = c.chance(.3) ? 0 : c.real(-50, 50);
    Smooth s;
    s.x0 = p.a;
    s.L = L;
    if (v0 != 0) {
        Term T;
        T.amp = v0;
        s.terms.push_back(T);
    }
    p.pieces.push_back(s);
    double tol = genTol(c);
    bool dl = c.chance(.5), dr = c.chance(.5);
    BC D{0, 1}, N{1, 0};
    c.note("V", p.text());
    c.note("tol", tol);
    c.note("boundary conditions", str(dl ? "D" : "N", dr ? "D" : "N"));
    auto m = buildAny(c, p, tol);
    int i0 = (int) (c.chance(.5) ? 0 : c.integer(0, 2000)), n = (int) c.integer(1, 60);
    c.note("indices", str("[", i0, ", ", i0 + n, ")"));
    auto ev = m->eigenvaluesByIndex(i0, i0 + n, toY(dl ? D : N), toY(dr ? D : N));
    if ((int) ev.size() != n) c.fail(str("returned ", ev.size(), " eigenvalues instead of ", n));
    for (int j = 0; j < n; ++j) {
        int k = i0 + j;
        double q = (k + (dl && dr ? 1 : dl || dr ? .5 : 0)) * M_PI / L;
        double e = q * q + v0;
        if (ev[j].first != k) c.fail(str("entry ", j, " carries index ", ev[j].first, " instead of ", k));
        double d = std::abs(ev[j].second - e);
        if (!(d <= 25 * tol * std::max({1., std::abs(e), 1 / L / L})))
            c.fail(str("eigenvalue ", k, " is ", ev[j].second, " instead of ", e));
    }
    c.nontrivial(n > 1);
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C01",
                                 "the potential is not identically zero (closed: at least two eigenvalues) and every returned eigenvalue was judged by the independent count",
                                 {{"smooth", 9000, 200000, smooth},
                                  {"wells", 2500, 60000, wells},
                                  {"high", 700, 20000, high},
                                  {"length", 2000, 30000, length},
                                  {"closed", 2000, 20000, closed}},
                                 {"accuracy required: 25*tol*max(1,|E|,E-min V,1/L^2); measured accuracy is below 8",
                                  "potentials with |V| L^2 up to about 3e4, boundary angles |y/(L y')| >= .05 or Dirichlet"}});
}
