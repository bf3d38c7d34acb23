// C02: interval and index queries describe the same spectrum; degenerate and invalid ranges.
#include "lib.h"
#include "spectrum.h"
using namespace lib;
typedef std::vector<std::pair<int, double>> Ev;

static std::string show(const Ev &e) {
    std::string r = "{";
    for (auto &x: e) r += pbt::str(" ", x.first, ":", x.second);
    return r + " }";
}

struct Problem {
    Pot p;
    double tol;
    BC l, r;
    std::unique_ptr<Matslise<double>> m;
};

static Problem problem(Ctx &c) {
    Problem q;
    PotOptions o;
    if (c.chance(.2)) {
        // hardly any potential: eigenvalues at predictable places, 0 among them
        o.maxStrength = 1;
        c.label("near zero");
    }
    q.p = genPot(c, o);
    if (o.maxStrength == 1 && c.chance(.6)) q.p.pieces[0].terms.clear();
    q.tol = genTol(c);
    q.l = genBC(c, q.p.length());
    q.r = genBC(c, q.p.length());
    c.note("V", q.p.text());
    c.note("tol", q.tol);
    c.note("left", q.l.text());
    c.note("right", q.r.text());
    q.m = buildAny(c, q.p, q.tol);
    return q;
}

static void intervals(Ctx &c) {
    Problem q = problem(c);
    auto l = toY(q.l), r = toY(q.r);
    int n = (int) c.integer(2, 25);
    Ev ev = q.m->eigenvaluesByIndex(0, n, l, r);
    if ((int) ev.size() != n) c.fail(str("eigenvaluesByIndex(0,", n, ") returned ", ev.size()));
    spectrum::Judge judge(q.p, q.l, q.r, q.tol);

    // cut points: anywhere in or below the spectrum, at eigenvalues, next to eigenvalues
    int m = (int) c.integer(2, 6);
    std::vector<double> cuts;
    double bottom = ev[0].second, top = ev[n - 1].second, span = top - bottom;
    for (int i = 0; i < m; ++i) {
        int k = (int) c.integer(0, n - 1);
        switch (c.draw(8)) {
            case 0: cuts.push_back(ev[k].second); break;
            case 1: cuts.push_back(ev[k].second + (c.chance(.5) ? 1 : -1) * q.tol * judge.scale(ev[k].second) * c.logreal(.1, 1000)); break;
            case 2: cuts.push_back(bottom - c.logreal(1e-3, 1) * (1 + std::abs(bottom) + span)); break;
            case 3: cuts.push_back(std::round(ev[k].second)); break;
            case 4: cuts.push_back(0); break;
            default: cuts.push_back(bottom + span * c.real(0, 1));
        }
    }
    std::sort(cuts.begin(), cuts.end());
    std::string cs;
    for (double x: cuts) cs += str(x, " ");
    c.note("cuts", cs);

    Ev whole = q.m->eigenvalues(cuts.front(), cuts.back(), l, r), joined;
    auto judgeInterval = [&](const Ev &got, double a, double b) {
        for (size_t j = 0; j < got.size(); ++j) {
            int k = got[j].first;
            double E = got[j].second, d = judge.factor * q.tol * judge.scale(E);
            if (j && got[j].first != got[j - 1].first + 1)
                c.fail(str("indices are not consecutive in eigenvalues(", a, ", ", b, ") = ", show(got)));
            if (j && !(E >= got[j - 1].second)) c.fail(str("eigenvalues(", a, ", ", b, ") is out of order: ", show(got)));
            if (!(a - d <= E && E <= b + d)) c.fail(str("eigenvalues(", a, ", ", b, ") contains ", k, ":", E));
            if (k < 0) c.fail(str("negative index in eigenvalues(", a, ", ", b, ") = ", show(got)));
            if (k < n) {
                if (!(std::abs(ev[k].second - E) <= 2 * d))
                    c.fail(str("eigenvalue ", k, " is ", E, " by interval (", a, ", ", b, ") but ", ev[k].second, " by index"));
            } else
                judge.require(c, k, E);
        }
        // nothing in the interior may be missing
        if (!(a < b)) return;
        double d = judge.factor * q.tol * std::max(judge.scale(a), judge.scale(b));
        if (a + d < b - d) {
            long lo = judge.below((ref::R) a + d), hi = judge.below((ref::R) b - d);
            if (lo < hi) {
                if (got.empty() || got.front().first > lo || got.back().first < hi - 1)
                    c.fail(str("eigenvalues(", a, ", ", b, ") = ", show(got), " misses some of the indices ", lo, "..", hi - 1));
                c.nontrivial();
            }
            long lo2 = judge.below((ref::R) a - d), hi2 = judge.below((ref::R) b + d);
            if (!got.empty() && (got.front().first < lo2 || got.back().first > hi2 - 1))
                c.fail(str("eigenvalues(", a, ", ", b, ") = ", show(got), " but only the indices ", lo2, "..", hi2 - 1, " are there"));
        }
    };
    judgeInterval(whole, cuts.front(), cuts.back());
    for (int i = 0; i + 1 < m; ++i) {
        Ev part = q.m->eigenvalues(cuts[i], cuts[i + 1], l, r);
        judgeInterval(part, cuts[i], cuts[i + 1]);
        joined.insert(joined.end(), part.begin(), part.end());
    }
    // adjoining intervals partition the spectrum: same indices, each once
    if (joined.size() != whole.size())
        c.fail(str("adjoining intervals give ", show(joined), " together, the whole interval gives ", show(whole)));
    for (size_t i = 0; i < whole.size(); ++i)
        if (joined[i].first != whole[i].first ||
            !(std::abs(joined[i].second - whole[i].second) <= 2 * judge.factor * q.tol * judge.scale(whole[i].second)))
            c.fail(str("adjoining intervals give ", show(joined), " together, the whole interval gives ", show(whole)));
    // empty and reversed energy intervals
    if (!q.m->eigenvalues(cuts[0], cuts[0], l, r).empty()) c.fail(str("eigenvalues(E, E) is not empty for E=", cuts[0]));
    if (!q.m->eigenvalues(cuts.back(), cuts.front(), l, r).empty() && cuts.back() > cuts.front())
        c.fail("eigenvalues(Emax, Emin) is not empty");
    // a symmetric pair can be given once
    if (q.l.y == q.r.y && q.l.dy == q.r.dy && !(q.m->eigenvalues(cuts.front(), cuts.back(), l) == whole))
        c.fail("the overload with one side gives other eigenvalues");
}

static void ranges(Ctx &c) {
    Problem q = problem(c);
    auto l = toY(q.l), r = toY(q.r);
    int a = (int) c.integer(-3, 30), b = (int) c.integer(-3, 30);
    c.note("range", str("[", a, ", ", b, ")"));
    auto query = [&](auto f, const char *name) {
        bool thrown = false;
        size_t n = 0;
        try {
            n = f();
        } catch (const std::exception &) {
            thrown = true;
        }
        bool invalid = a < 0 || b < a;
        if (invalid != thrown) c.fail(str(name, "(", a, ", ", b, ") ", thrown ? "throws" : "does not throw"));
        if (!invalid && n != (size_t) (b - a)) c.fail(str(name, "(", a, ", ", b, ") returns ", n, " entries"));
    };
    Ev ev;
    query([&]() { return (ev = q.m->eigenvaluesByIndex(a, b, l, r)).size(); }, "eigenvaluesByIndex");
    spectrum::Judge judge(q.p, q.l, q.r, q.tol);
    for (size_t i = 0; i < ev.size(); ++i) {
        if (ev[i].first != a + (int) i) c.fail(str("indices of the answer: ", show(ev)));
        if (i == 0 || i + 1 == ev.size()) judge.require(c, ev[i].first, ev[i].second);
    }
    if (b - a <= 8) {
        int i = 0;
        query([&]() {
            auto ep = q.m->eigenpairsByIndex(a, b, l, r);
            for (auto &t: ep) {
                if (std::get<0>(t) != a + i || std::get<1>(t) != ev[i].second)
                    c.fail(str("eigenpairsByIndex gives ", std::get<0>(t), ":", std::get<1>(t), " next to ", show(ev)));
                if (!std::get<2>(t)) c.fail("eigenpairsByIndex without an eigenfunction");
                ++i;
            }
            return ep.size();
        }, "eigenpairsByIndex");
    }
    // any split of a range gives the same
    if (a >= 0 && b > a + 1) {
        int s = (int) c.integer(a + 1, b - 1);
        Ev x = q.m->eigenvaluesByIndex(a, s, l, r), y = q.m->eigenvaluesByIndex(s, b, l, r);
        x.insert(x.end(), y.begin(), y.end());
        bool ok = x.size() == ev.size();
        for (size_t i = 0; ok && i < x.size(); ++i)
            ok = x[i].first == ev[i].first &&
                 std::abs(x[i].second - ev[i].second) <= 2 * judge.factor * q.tol * judge.scale(ev[i].second);
        if (!ok) c.fail(str("[", a, ", ", s, ") and [", s, ", ", b, ") give ", show(x), ", the whole range gives ", show(ev)));
        c.nontrivial();
    }
    c.nontrivial(a < 0 || b < a);
    c.label(a < 0 ? "negative" : b < a ? "reversed" : a == b ? "empty" : "valid");
}

// thousands of eigenvalues in one interval
static void many(Ctx &c) {
    Problem q = problem(c);
    auto l = toY(q.l), r = toY(q.r);
    int n = (int) c.logreal(200, 4000);
    double lo, hi;
    q.p.range(lo, hi);
    double w = M_PI / q.p.length(), b = hi + w * n * w * n, a = c.chance(.5) ? b - 2 * w * w * n * c.real(1, 100) : lo - w * w;
    c.note("interval", str(a, " ", b));
    Ev ev = q.m->eigenvalues(a, b, l, r);
    spectrum::Judge judge(q.p, q.l, q.r, q.tol);
    if (ev.empty()) c.fail("no eigenvalues");
    auto d = [&](double E) { return judge.factor * q.tol * judge.scale(E); };
    for (size_t i = 1; i < ev.size(); ++i) {
        if (ev[i].first != ev[i - 1].first + 1) c.fail(str("index ", ev[i].first, " follows on ", ev[i - 1].first));
        if (!(ev[i].second >= ev[i - 1].second)) c.fail(str("out of order at index ", ev[i].first));
    }
    if (!(a - d(a) <= ev.front().second && ev.back().second <= b + d(b))) c.fail(str("from ", ev.front().second, " to ", ev.back().second));
    long first = judge.below((ref::R) a + d(a)), firstLeast = judge.below((ref::R) a - d(a));
    long last = judge.below((ref::R) b - d(b)), lastMost = judge.below((ref::R) b + d(b));
    if (!(firstLeast <= ev.front().first && ev.front().first <= first && last <= ev.back().first + 1 && ev.back().first + 1 <= lastMost))
        c.fail(str("indices ", ev.front().first, "..", ev.back().first, " in place of ", first, "..", last - 1));
    for (int i = 0; i < 3; ++i) {
        size_t j = c.draw(ev.size());
        judge.require(c, ev[j].first, ev[j].second);
        auto one = q.m->eigenvaluesByIndex(ev[j].first, ev[j].first + 1, l, r);
        if (one.size() != 1 || one[0].first != ev[j].first || !(std::abs(one[0].second - ev[j].second) <= 2 * d(ev[j].second)))
            c.fail(str("eigenvalue ", ev[j].first, " is ", ev[j].second, " by interval, by index: ", show(one)));
    }
    c.metric("eigenvalues", ev.size());
    c.nontrivial(ev.size() > 100);
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C02",
                                 "intervals: at least one eigenvalue lies well inside the queried interval; ranges: invalid range, or a range of two or more; many: more than 100 eigenvalues",
                                 {{"intervals", 6000, 120000, intervals},
                                  {"ranges", 4000, 60000, ranges},
                                  {"many", 150, 4000, many}},
                                 {"an eigenvalue within 25*tol*scale of an end point may be counted on either side of it"}});
}
