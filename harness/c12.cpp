// C12: eigenfunctions of problems with coupled boundary conditions
#include "periodic.h"
#include "efun.h"
#include <tuple>
#include <unistd.h>
#include <sys/mman.h>
using namespace periodic;
typedef PeriodicMatslise<double>::Eigenfunction EF;

// What is written to stdout and stderr while f runs
static std::string captured(const std::function<void()> &f) {
    std::cout.flush();
    std::cerr.flush();
    fflush(nullptr);
    int fd = memfd_create("captured", 0), o = dup(1), e = dup(2);
    dup2(fd, 1);
    dup2(fd, 2);
    auto restore = [&] {
        std::cout.flush();
        std::cerr.flush();
        fflush(nullptr);
        dup2(o, 1);
        dup2(e, 2);
        close(o);
        close(e);
    };
    try {
        f();
    } catch (...) {
        restore();
        close(fd);
        throw;
    }
    restore();
    std::string r((size_t) lseek(fd, 0, SEEK_END), ' ');
    lseek(fd, 0, SEEK_SET);
    if (read(fd, r.data(), r.size()) < 0) r = "?";
    close(fd);
    return r;
}

static double at(const M2 &K, int i, const efun::V2 &v) { return K[2 * i] * v[0] + K[2 * i + 1] * v[1]; }

static efun::Result judgeFunction(Ctx &c, const Problem &q, const efun::Mesh &mesh, const EF &ef, double E, double gap, const std::string &what) {
    auto f = [&](double x) -> efun::V2 {
        auto v = ef(x);
        return {v(0), v(1)};
    };
    double L = q.p.length(), lo = q.lo, hi = q.hi;
    double om = std::max(1 / L, std::sqrt(std::max(std::abs(E - lo), std::abs(E - hi))));
    auto size = [&](const efun::V2 &v) { return std::hypot(om * v[0], v[1]); };

    // where it may have been matched, and how well
    auto ma = std::make_shared<efun::Matching>();
    double Eerror = q.tol * q.scale(E);
    for (size_t i = 1; i < mesh.min.size(); ++i) {
        ma->x.push_back(mesh.min[i]);
        auto v = f(mesh.min[i]);
        if (!std::isfinite(v[0]) || !std::isfinite(v[1])) c.fail(str(what, " is not finite at ", mesh.min[i]));
        ma->size.push_back(size(v));
        ma->best = std::max(ma->best, size(v));
    }
    ma->atDefault = ma->sizeAt(mesh.match);
    double jd = Eerror * om / ma->atDefault, rel = jd / ma->atDefault;
    if (rel < 2e-5) {
        ma->candidates.push_back({mesh.match, jd});
        ma->jump = rel;
    } else {
        ma->candidates.push_back({mesh.match, std::min(jd, 3e-4 * ma->atDefault)});
        for (size_t i = 0; i < ma->x.size(); ++i)
            if (ma->size[i] > .1 * ma->best) ma->candidates.push_back({ma->x[i], Eerror * om / ma->size[i]});
        for (auto &k: ma->candidates) ma->jump = std::max(ma->jump, k.jump / ma->sizeAt(k.x));
    }
    efun::Subject s{q.p, mesh, 3 * q.tol, E, -1, nullptr, nullptr, f};
    s.gap = gap;
    s.exact = ma;
    s.floor = std::max(1e-9 * ma->best, 10 * Eerror * om / ma->best);
    auto res = efun::judge(c, s, efun::samples(c, q.p, mesh, om));
    {
        double n = efun::innerProduct(q.p, mesh, om, f, f);
        c.metric("norm", std::abs(n - 1));
        if (!(std::abs(n - 1) <= 1e-3 + 100 * q.tol)) c.fail(str(what, " has norm^2 ", n));
    }
    {
        auto ya = f(q.p.a), yb = f(q.p.b);
        efun::V2 ky{at(q.K, 0, ya), at(q.K, 1, ya)};
        double err = size({yb[0] - ky[0], yb[1] - ky[1]}), mag = size(yb) + size(ky);
        // E is not exact: the function may jump anywhere, also here
        double allowed = 1e-9 * mag + 1e-9 * ma->best + Eerror * om / std::max(mag, ma->best);
        c.metric("coupling/allowed", err / allowed);
        if (!(err <= allowed))
            c.fail(str(what, ": (y, y') in the right end is (", yb[0], ", ", yb[1], "), K (y, y') in the left end is (", ky[0], ", ", ky[1], ")"));
    }
    // evaluation of many points at once
    int n = (int) c.integer(0, 6);
    Eigen::ArrayXd xs(n);
    for (int i = 0; i < n; ++i) xs[i] = c.chance(.2) ? (c.chance(.5) ? q.p.a : q.p.b) : q.p.a + L * c.real(0, 1);
    Eigen::Array<double, Eigen::Dynamic, 2> ys = ef(xs);
    if (ys.rows() != n) c.fail(what + ": number of values");
    for (int i = 0; i < n; ++i) {
        auto v = f(xs[i]);
        if (!(size({v[0] - ys(i, 0), v[1] - ys(i, 1)}) <= 1e-9 * size(v) + 1e-9 * ma->best)) c.fail(str(what, ": array and scalar evaluation differ at ", xs[i]));
    }
    return res;
}

static double innerProduct(const Problem &q, const efun::Mesh &mesh, double E, const EF &f, const EF &g) {
    double om = std::max(1 / q.p.length(), std::sqrt(std::max(std::abs(E - q.lo), std::abs(E - q.hi))));
    auto wrap = [](const EF &e) {
        return [&e](double x) -> efun::V2 {
            auto v = e(x);
            return {v(0), v(1)};
        };
    };
    return efun::innerProduct(q.p, mesh, om, wrap(f), wrap(g));
}

static void judgeSet(Ctx &c, const Problem &q, const efun::Mesh &mesh, const std::vector<std::unique_ptr<EF>> &fs, double E, double gap, const std::string &what) {
    double jump = 0;
    for (auto &f: fs) {
        auto r = judgeFunction(c, q, mesh, *f, E, gap, what);
        jump = std::max(jump, r.jump);
    }
    if (fs.size() == 2 && jump < 1e-3) {
        double g = innerProduct(q, mesh, E, *fs[0], *fs[1]);
        c.metric("double", 1);
        c.metric("dependence", std::abs(g));
        if (!(std::abs(g) < 1 - 1e-5)) c.fail(str(what, ": both eigenfunctions are the same, their inner product is ", g));
    }
}

static PotOptions options() {
    PotOptions o;
    return o;
}

static void pairs(Ctx &c, bool known) {
    Problem q = problem(c, options());
    auto mesh = efun::meshOf(q.m->matslise);
    double L = q.p.length();
    bool index = c.chance(.7);
    int i0 = (int) (c.chance(.6) ? c.integer(0, 4) : c.integer(0, 25)), n = (int) c.integer(1, 4);
    double k1 = c.real(0, 10), k2 = k1 + c.real(0, 4);
    double a = q.lo + k1 * k1 / L / L, b = q.lo + k2 * k2 / L / L;
    auto what = index ? str("eigenpairsByIndex(", i0, ", ", i0 + n, ")") : str("eigenpairs(", a, ", ", b, ")");
    c.note("call", what);
    std::vector<std::tuple<int, double, int>> ev = index ? q.m->eigenvaluesByIndex(i0, i0 + n) : q.m->eigenvalues(a, b);
    auto around = q.m->eigenvaluesByIndex(ev.empty() ? 0 : std::max(0, std::get<0>(ev.front()) - 2), ev.empty() ? 1 : std::get<0>(ev.back()) + 4);
    auto gap = [&](double E) {
        double g = 1e300;
        for (auto &t: around)
            if (std::abs(std::get<1>(t) - E) > 0) g = std::min(g, std::abs(std::get<1>(t) - E));
        return g;
    };
    bool any = false;
    if (!known) {
        auto ps = index ? q.m->eigenpairsByIndex(i0, i0 + n) : q.m->eigenpairs(a, b);
        if (ps.size() != ev.size()) c.fail(str(what, " has ", ps.size(), " eigenvalues, and without eigenfunctions ", ev.size()));
        for (size_t i = 0; i < ps.size(); ++i) {
            auto &[j, E, fs] = ps[i];
            auto [j2, E2, m2] = ev[i];
            if (j != j2 || std::abs(E - E2) > 1e-12 * q.scale(E)) c.fail(str(what, " has other eigenvalues than without eigenfunctions"));
            if ((int) fs.size() != m2) c.fail(str(what, ": ", fs.size(), " eigenfunctions for ", j, " with multiplicity ", m2));
            judgeSet(c, q, mesh, fs, E, gap(E), str("K", q.kind, " eigenfunction ", j));
            if (m2 == 2) c.label("double");
            any = true;
        }
    } else {
        for (auto &[j, E, m]: ev) {
            std::vector<std::unique_ptr<EF>> fs;
            auto out = captured([&] { fs = q.m->eigenfunction(E); });
            // normalisation problems are allowed to be reported
            if (!out.empty() && out.find("normalization") == std::string::npos) c.fail(str("eigenfunction(", E, ") writes ", out.substr(0, 80)));
            double g = gap(E), d = 25 * q.tol * q.scale(E);
            if (fs.empty() || fs.size() > 2) c.fail(str("eigenfunction(", E, ") returns ", fs.size(), " functions for eigenvalue ", j));
            // a pair of eigenvalues at about the tolerance is a matter of taste
            if ((int) fs.size() != m && !(m == 1 && g < 2 * d)) c.fail(str("eigenfunction(", E, ") returns ", fs.size(), " functions for eigenvalue ", j, " of multiplicity ", m, " with gap ", g));
            judgeSet(c, q, mesh, fs, E, g, str("K", q.kind, " eigenfunction(", E, ") with index ", j));
            if (m == 2) c.label("double");
            any = true;
        }
    }
    c.nontrivial(any && !q.p.pieces[0].terms.empty());
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C12", "at least one eigenfunction, of a potential that is not constant",
                                 {{"pairs", 6000, 100000, [](Ctx &c) { pairs(c, false); }},
                                  {"known", 6000, 100000, [](Ctx &c) { pairs(c, true); }}},
                                 {"the reference propagates between neighbouring sample points"}});
}
