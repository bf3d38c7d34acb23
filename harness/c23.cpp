// C23: no history of calls touches invalid memory, leaks or invokes undefined behaviour, and every call ends.
// Built with AddressSanitizer, UndefinedBehaviorSanitizer and assertions: a report ends the worker process.
#include "histories.h"
#include <matslise/util/legendre.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t allocated() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t allocated() { return 0; }
#endif

// the same history several times: nothing may be left behind each time
static void noLeak(Ctx &c, const std::function<void()> &history) {
    history();
    size_t before = allocated();
    history();
    size_t once = allocated();
    if (once <= before) return;
    history();
    size_t twice = allocated();
    if (twice > once) c.fail(str("every run of this history leaks ", twice - once, " bytes"));
}

template<class H>
static void judge(Ctx &c, const std::function<std::unique_ptr<H>()> &make, const std::function<std::unique_ptr<H>()> &decoy,
                  const std::vector<Query<H>> &qs) {
    int n = (int) qs.size();
    for (auto &q: qs) c.note("query", q.text);
    std::vector<int> plan;
    for (int i = (int) c.integer(1, 2 * n); i > 0; --i) plan.push_back(c.chance(.1) ? -1 : (int) c.draw(n));
    noLeak(c, [&] {
        auto h = make();
        std::unique_ptr<H> other;
        for (int i: plan) {
            if (i < 0) other = decoy();
            else guarded([&] { return qs[i].f(other ? *other : *h); });
        }
    });
    c.count("calls", (long) plan.size());
    c.nontrivial(plan.size() > 1);
}

typedef std::function<void()> Call;

// values that no sensible caller passes
static double odd(Ctx &c, double a, double b) {
    switch (c.draw(11)) {
        case 0: return std::numeric_limits<double>::quiet_NaN();
        case 1: return std::numeric_limits<double>::infinity();
        case 2: return -std::numeric_limits<double>::infinity();
        case 3: return 1e300;
        case 4: return -1e300;
        case 5: return std::nextafter(a, -INFINITY);
        case 6: return std::nextafter(b, INFINITY);
        case 7: return a;
        case 8: return b;
        case 9: return 0;
        default: return a + (b - a) * c.real(-1, 2);
    }
}

static double oddEnergy(Ctx &c, double lo) { return c.pick(std::vector<double>{0, lo, lo - 1e3, lo + 1e4, -1e5, 1e6, lo - 1}); }

static matslise::Y<double> oddY(Ctx &c) {
    switch (c.draw(4)) {
        case 0: return mk(0, -1);
        case 1: return mk(1e-150, 1e-150);
        case 2: return mk(1e150, -1e150);
        default: return mk(c.real(-1, 1), c.real(-1, 1) + 1.5);
    }
}

static std::vector<double> oddPoints(Ctx &c, double a, double b) {
    std::vector<double> xs;
    for (int i = (int) c.integer(0, 8); i > 0; --i) xs.push_back(c.chance(.5) ? odd(c, a, b) : a + (b - a) * c.real(0, 1));
    return xs;
}


template<class M>
struct Held {
    std::unique_ptr<M> m;
    std::vector<std::unique_ptr<EF>> fs;
    std::string text;
};

static void thrower(Ctx &c, std::function<double(double)> &f, int &left) {
    // the potential throws at some evaluation
    left = (int) c.integer(1, 2000);
    auto g = f;
    f = [g, &left](double x) {
        if (--left == 0) throw std::runtime_error("no value");
        return g(x);
    };
}


template<class M>
static void oddQueries(Ctx &c, std::vector<std::pair<std::string, std::function<void(Held<M> &)>>> &qs, double a, double b, double lo) {
    typedef Held<M> H;
    int n = (int) c.integer(1, 8);
    for (int i = 0; i < n; ++i) {
        int k = (int) c.integer(-3, 6), m = (int) c.integer(-4, 7);
        double E = c.chance(.4) ? oddEnergy(c, lo) : lo + c.real(-10, 100), F = c.chance(.4) ? oddEnergy(c, lo) : lo + c.real(-10, 200);
        if (!(F <= lo + 1e4) && !std::isnan(F)) F = lo + 300; // the number of eigenvalues below has to be finite
        matslise::Y<double> l = c.chance(.4) ? oddY(c) : mk(0, 1), r = c.chance(.4) ? oddY(c) : l;
        auto xs = oddPoints(c, a, b);
        bool array = c.chance(.5);
        std::string bc = str(" with (", l.data[0], ", ", l.data[1], ") and (", r.data[0], ", ", r.data[1], ")");
        switch (c.draw(6)) {
            case 0: qs.push_back({str("eigenvaluesByIndex ", k, " ", m, bc), [=](H &h) { h.m->eigenvaluesByIndex(k, m, l, r); }});
                break;
            case 1: qs.push_back({str("eigenvalues ", E, " ", F, bc), [=](H &h) { h.m->eigenvalues(E, F, l, r); }});
                break;
            case 2: qs.push_back({str("eigenvalueError ", E, bc, " index ", k), [=](H &h) { h.m->eigenvalueError(E, l, r, k); }});
                break;
            case 3: qs.push_back({str("eigenpairsByIndex ", k, " ", m, bc), [=](H &h) {
                    for (auto &e: h.m->eigenpairsByIndex(k, m, l, r)) h.fs.push_back(std::move(std::get<2>(e)));
                }});
                break;
            case 4: qs.push_back({str("eigenfunction ", E, bc, " index ", k), [=](H &h) { h.fs.push_back(h.m->eigenfunction(E, l, r, k)); }});
                break;
            default: {
                std::string t;
                for (double x: xs) t += str(" ", x);
                qs.push_back({str(array ? "array" : "points", t), [=](H &h) { if (!h.fs.empty()) values(*h.fs[(k + 3) % h.fs.size()], xs, array); }});
            }
        }
    }
}

template<class M>
static void run(Ctx &c, const std::function<std::unique_ptr<M>()> &make, const std::vector<std::pair<std::string, std::function<void(Held<M> &)>>> &qs) {
    for (auto &q: qs) c.note("query", q.first);
    noLeak(c, [&] {
        Held<M> h;
        guarded([&] {
            h.m = make();
            return Answer{};
        });
        if (!h.m) return;
        for (auto &q: qs)
            guarded([&] {
                q.second(h);
                return Answer{};
            });
    });
    c.count("calls", (long) qs.size());
    c.nontrivial(qs.size() > 1);
}

static void oddFull(Ctx &c) {
    Pot p = genPot(c, options());
    double lo, hi, tol = coarse(c);
    p.range(lo, hi);
    c.note("V", p.text());
    int uniform = c.chance(.3) ? (int) c.integer(1, 12) : 0, left = 0, limit = 0;
    std::function<double(double)> f = [p](double x) { return p(x); };
    if (c.chance(.15)) {
        thrower(c, f, left);
        limit = left;
        c.label("potential throws");
    }
    std::vector<std::pair<std::string, std::function<void(Held<Matslise<double>> &)>>> qs;
    oddQueries<Matslise<double>>(c, qs, p.a, p.b, lo);
    for (int i = (int) c.integer(0, 4); i > 0; --i) {
        double E = oddEnergy(c, lo), x = c.chance(.5) ? odd(c, p.a, p.b) : p.a + p.length() * c.real(0, 1), y = c.chance(.5) ? odd(c, p.a, p.b) : p.b;
        auto Y0 = oddY(c), Y1 = oddY(c);
        if (c.chance(.5)) E = lo + c.real(0, 100);
        bool h = c.chance(.5);
        qs.push_back({str("propagate E=", E, " ", x, " ", y), [=](auto &s) { s.m->propagate(E, Y0, x, y, h); }});
        qs.push_back({str("matchingError E=", E), [=](auto &s) { s.m->matchingError(E, Y0, Y1, h); }});
    }
    run<Matslise<double>>(c, [&]() -> std::unique_ptr<Matslise<double>> {
        left = limit;
        if (uniform) return std::make_unique<Matslise<double>>(f, p.a, p.b, tol, Uniform(uniform));
        Auto sb(tol);
        sb.jumps = p.jumps;
        return std::make_unique<Matslise<double>>(f, p.a, p.b, tol, sb);
    }, qs);
}

static void oddHalf(Ctx &c) {
    Pot p = genEvenPot(c, 500);
    double lo, hi, tol = coarse(c);
    p.range(lo, hi);
    c.note("V", p.text());
    std::vector<std::pair<std::string, std::function<void(Held<MatsliseHalf<double>> &)>>> qs;
    oddQueries<MatsliseHalf<double>>(c, qs, p.a, p.b, lo);
    run<MatsliseHalf<double>>(c, [&] { return std::make_unique<MatsliseHalf<double>>([p](double x) { return p(x); }, p.b, tol, Auto(tol)); }, qs);
}

static void oddPeriodic(Ctx &c) {
    Pot p = genPot(c, options());
    double lo, hi, tol = coarse(c), L = p.length();
    p.range(lo, hi);
    c.note("V", p.text());
    int kind;
    auto K = periodic::toEigen(periodic::genK(c, L, kind));
    c.note("K", str(K(0, 0), " ", K(0, 1), " ", K(1, 0), " ", K(1, 1)));
    typedef PeriodicMatslise<double> M;
    std::vector<std::pair<std::string, std::function<void(Held<M> &)>>> qs;
    for (int i = (int) c.integer(1, 6); i > 0; --i) {
        int k = (int) c.integer(-3, 6), m = (int) c.integer(-4, 7);
        double E = c.chance(.4) ? oddEnergy(c, lo) : lo + c.real(-10, 100), F = c.chance(.4) ? oddEnergy(c, lo) : lo + c.real(-10, 200);
        if (!(F <= lo + 1e4) && !std::isnan(F)) F = lo + 300;
        auto xs = oddPoints(c, p.a, p.b);
        bool array = c.chance(.5);
        switch (c.draw(6)) {
            case 0: qs.push_back({str("eigenvaluesByIndex ", k, " ", m), [=](auto &h) { h.m->eigenvaluesByIndex(k, m); }});
                break;
            case 1: qs.push_back({str("eigenvalues ", E, " ", F), [=](auto &h) { h.m->eigenvalues(E, F); }});
                break;
            case 2: qs.push_back({str("eigenpairsByIndex ", k, " ", m), [=](auto &h) {
                    for (auto &t: h.m->eigenpairsByIndex(k, m))
                        for (auto &f: std::get<2>(t)) h.fs.push_back(std::move(f));
                }});
                break;
            case 3: qs.push_back({str("eigenfunction ", E), [=](auto &h) { for (auto &f: h.m->eigenfunction(E)) h.fs.push_back(std::move(f)); }});
                break;
            case 4: qs.push_back({str("matchingError ", E), [=](auto &h) { h.m->matchingError(E); }});
                break;
            default: qs.push_back({"points", [=](auto &h) { if (!h.fs.empty()) values(*h.fs[(k + 3) % h.fs.size()], xs, array); }});
        }
    }
    run<M>(c, [&] {
        Auto sb(tol);
        sb.jumps = p.jumps;
        return std::make_unique<M>([p](double x) { return p(x); }, p.a, p.b, tol, sb, K);
    }, qs);
}

static void oddCoupled(Ctx &c) {
    cs::Options o;
    o.maxN = 3;
    auto p = cs::genPot(c, o);
    int n = p.n, uniform = (int) c.integer(1, 8);
    c.note("V", p.text());
    typedef cs::Matscs<double> M;
    std::vector<std::pair<std::string, std::function<void(Held<M> &)>>> qs;
    for (int i = (int) c.integer(1, 6); i > 0; --i) {
        double E = c.real(-30, 100), x = c.chance(.5) ? odd(c, p.a, p.b) : p.a + p.length() * c.real(0, 1), y = c.chance(.5) ? odd(c, p.a, p.b) : p.b;
        bool dirichlet = c.chance(.5);
        switch (c.draw(4)) {
            case 0: qs.push_back({str("propagate E=", E, " ", x, " ", y), [=](auto &s) { s.m->propagate(E, dirichlet ? cs::YD::Dirichlet(n) : cs::YD::Neumann(n), x, y); }});
                break;
            case 1: qs.push_back({str("propagateColumn E=", E, " ", x, " ", y), [=](auto &s) {
                    cs::YC y0(n);
                    y0.block(matslise::dX)(n - 1, 0) = 1;
                    s.m->template propagateColumn<1>(E, y0, x, y);
                }});
                break;
            case 2: qs.push_back({str("propagatePsi E=", E, " ", x, " ", y), [=](auto &s) { s.m->propagatePsi(E, dirichlet ? cs::MD(cs::MD::Zero(n, n)) : cs::MD(cs::MD::Identity(n, n)), x, y); }});
                break;
            default: {
                int cols = (int) c.integer(1, 3);
                qs.push_back({str(cols, " columns E=", E, " ", x, " ", y), [=](auto &s) {
                    Y<double, Eigen::Dynamic, -1> y0(n, cols);
                    s.m->template propagateColumn<-1>(E, y0, x, y);
                }});
            }
        }
    }
    run<M>(c, [&] { return cs::build(p, 1e-5, uniform); }, qs);
}

// intervals that make no sense, and the smallest meshes
static void oddProblems(Ctx &c) {
    double a = c.chance(.5) ? odd(c, -1, 1) : c.real(-2, 2), b = c.chance(.3) ? a : c.chance(.5) ? odd(c, -1, 1) : c.real(-2, 2), tol = coarse(c);
    int v = (int) c.draw(3), uniform = (int) c.integer(0, 3), sub = (int) c.draw(5);
    if (c.chance(.3) && b > a) std::swap(a, b);
    if (a < b && (b - a > 1e3 || b - a < 1e-3)) c.discard();
    if (sub == 2 && b > 0 && !(b < 1e3 && b > 1e-3) && std::isfinite(b)) c.discard();
    c.note("interval", str(a, " ", b));
    c.note("tol", tol);
    c.note("kind", str(sub, " potential ", v, " uniform ", uniform));
    auto V = [=](double x) -> double {
        switch (v) {
            case 0: return 0;
            case 1: return x * x;
            default: return std::sin(10 * x) * 100;
        }
    };
    std::vector<double> jumps;
    if (a < b)
        for (int i = (int) c.integer(0, 2); i > 0; --i) jumps.push_back(a + (b - a) * c.real(.01, .99));
    std::sort(jumps.begin(), jumps.end());
    noLeak(c, [&] {
        guarded([&] {
            Auto sb(tol);
            sb.jumps = jumps;
            if (sub == 0 && uniform) {
                Matslise<double> m(V, a, b, tol, Uniform(uniform));
                m.eigenvaluesByIndex(0, 2, mk(0, 1), mk(0, 1));
            } else if (sub == 0 || sub == 1) {
                Matslise<double> m(V, a, b, tol, sb);
                for (auto &e: m.eigenpairsByIndex(0, 2, mk(0, 1), mk(1, 1))) (*std::get<2>(e))((a + b) / 2);
            } else if (sub == 4) {
                cs::Matscs<double> m([=](double x) { return cs::MD(V(x) * cs::MD::Identity(2, 2)); }, 2, a, b, cs::UniformCS(uniform + 1));
                m.propagate(1, cs::YD::Dirichlet(2), a, b);
            } else if (sub == 2) {
                MatsliseHalf<double> m(V, b, tol);
                for (auto &e: m.eigenpairsByIndex(0, 2, mk(0, 1))) (*std::get<2>(e))(b / 2);
            } else {
                PeriodicMatslise<double> m(V, a, b, tol);
                for (auto &e: m.eigenpairsByIndex(0, 2)) (void) e;
            }
            return Answer{};
        });
    });
    c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C23", "a history of at least two calls",
                                 {{"full range", 1500, 100000, full},
                                  {"half range", 700, 50000, half},
                                  {"coupled conditions", 700, 50000, coupledConditions},
                                  {"Sturm-Liouville", 300, 20000, sturmLiouville},
                                  {"coupled system", 400, 20000, coupledSystem},
                                  {"full range, odd arguments", 3000, 200000, oddFull},
                                  {"half range, odd arguments", 1500, 100000, oddHalf},
                                  {"coupled conditions, odd arguments", 1500, 100000, oddPeriodic},
                                  {"coupled system, odd arguments", 1000, 50000, oddCoupled},
                                  {"odd problems", 1000, 50000, oddProblems}},
                                 {"AddressSanitizer, UndefinedBehaviorSanitizer, assertions, the number of allocated bytes"}});
}
