// Histories: problems of every kind with random sequences of queries on them. The including file defines
// judge(c, make, decoy, queries) before anything is instantiated.
#pragma once
#include "lib.h"
#include "prop.h"
#include "periodic.h"
#include "sl.h"
#include "coupled.h"
#include <atomic>
#include <cstring>
#include <iostream>
#include <mutex>
#include <thread>
#include <sys/mman.h>
#include <unistd.h>
using namespace lib;
typedef std::vector<double> Answer;

// H: the problem and objects that were obtained from it
template<class H>
struct Query {
    std::string text;
    std::function<Answer(const H &)> f;
};

template<class F>
static Answer guarded(const F &f) {
    try {
        return f();
    } catch (const std::exception &e) {
        Answer r{-12345};
        for (const char *p = e.what(); *p; ++p) r.push_back(*p);
        return r;
    }
}

template<class H>
static void judge(Ctx &c, const std::function<std::unique_ptr<H>()> &make, const std::function<std::unique_ptr<H>()> &decoy,
                  const std::vector<Query<H>> &qs);

static Answer pairs(const std::vector<std::pair<int, double>> &v) {
    Answer r;
    for (auto &x: v) {
        r.push_back(x.first);
        r.push_back(x.second);
    }
    return r;
}

template<class EF>
static Answer values(const EF &y, const std::vector<double> &xs, bool array) {
    Answer r;
    if (array) {
        Eigen::ArrayXd x(xs.size());
        for (size_t i = 0; i < xs.size(); ++i) x[i] = xs[i];
        auto v = y(x);
        for (int i = 0; i < v.rows(); ++i)
            for (int j = 0; j < v.cols(); ++j) r.push_back(v(i, j));
    } else
        for (double x: xs) {
            auto v = y(x);
            r.push_back(v[0]);
            r.push_back(v[1]);
        }
    return r;
}

typedef AbstractMatslise<double>::Eigenfunction EF;

static std::vector<double> genPoints(Ctx &c, double a, double b) {
    std::vector<double> xs;
    for (int i = (int) c.integer(1, 6); i > 0; --i) xs.push_back(c.chance(.2) ? (c.chance(.5) ? a : b) : a + (b - a) * c.real(0, 1));
    std::sort(xs.begin(), xs.end());
    return xs;
}

// The queries of a history are related: a parameter is often the same as in an earlier query, such that two queries may
// differ in a single parameter.
template<class T>
struct Pool {
    std::vector<T> values;

    template<class F>
    T operator()(Ctx &c, const F &fresh) {
        if (!values.empty() && c.chance(.5)) return c.pick(values);
        values.push_back(fresh());
        return values.back();
    }
};

// on another interval
static void place(Smooth &s, double a, double L) {
    s.x0 = a;
    s.L = L;
}

// the accuracy does not matter here
static double coarse(Ctx &c) { return c.pick(std::vector<double>{1e-5, 1e-4, 1e-6, 1e-3}); }

static PotOptions options() {
    PotOptions o;
    o.maxJumps = 2;
    o.maxStrength = 800;
    return o;
}

template<class M>
struct Separated {
    std::unique_ptr<M> m;
    std::vector<std::unique_ptr<EF>> fs;
};

// queries that every solver of separated problems answers
template<class H>
static void separatedQueries(Ctx &c, std::vector<Query<H>> &qs, bool symmetric, double a, double b, double lo, double hi) {
    double L = b - a;
    int n = (int) c.integer(2, 7);
    Pool<BC> lefts, rights;
    Pool<double> energies, widths;
    Pool<int> indices;
    for (int i = 0; i < n; ++i) {
        BC l = lefts(c, [&] { return genBC(c, L); }), r = symmetric ? l : rights(c, [&] { return genBC(c, L); });
        auto yl = toY(l), yr = toY(r);
        int k = indices(c, [&] { return (int) c.integer(0, 8); }), m = (int) c.integer(1, 3);
        double E = energies(c, [&] { return lo + (hi - lo) * c.real(0, 1) + c.real(0, 30) / L / L; });
        double E1 = E + widths(c, [&] { return c.real(0, 60) / L / L; });
        auto xs = genPoints(c, a, b);
        bool array = c.chance(.5);
        std::string bc = str(" with ", l.text(), " and ", r.text());
        switch (c.draw(6)) {
            case 0: qs.push_back({str("eigenvaluesByIndex ", k, "+", m, bc), [=](const H &h) { return pairs(h.m->eigenvaluesByIndex(k, k + m, yl, yr)); }});
                break;
            case 1: qs.push_back({str("eigenvalues [", E, ", ", E1, "]", bc), [=](const H &h) { return pairs(h.m->eigenvalues(E, E1, yl, yr)); }});
                break;
            case 2: qs.push_back({str("eigenvalueError ", k, bc), [=](const H &h) {
                    Answer r;
                    for (auto &e: h.m->eigenvaluesByIndex(k, k + 1, yl, yr)) r.push_back(h.m->eigenvalueError(e.second, yl, yr, e.first));
                    return r;
                }});
                break;
            case 3: qs.push_back({str("eigenpairsByIndex ", k, "+", m, bc), [=](const H &h) {
                    Answer r;
                    for (auto &e: h.m->eigenpairsByIndex(k, k + m, yl, yr)) {
                        r.push_back(std::get<0>(e));
                        r.push_back(std::get<1>(e));
                        for (double v: values(*std::get<2>(e), xs, array)) r.push_back(v);
                    }
                    return r;
                }});
                break;
            case 4: qs.push_back({str("eigenfunction ", E, bc), [=](const H &h) { return values(*h.m->eigenfunction(E, yl, yr), xs, array); }});
                break;
            default: qs.push_back({str("evaluation of an eigenfunction that is kept"), [=](const H &h) { return values(*h.fs[k % h.fs.size()], xs, array); }});
        }
    }
}

template<class H>
static void scalarQueries(Ctx &c, std::vector<Query<H>> &qs, const Pot &p, double lo, double hi) {
    Pool<double> energies, points, states;
    for (int i = (int) c.integer(0, 5); i > 0; --i) {
        double E = energies(c, [&] { return lo + (hi - lo) * c.real(0, 1) + c.real(0, 100) / p.length() / p.length(); });
        auto point = [&] { return p.a + p.length() * c.real(0, 1); };
        double a = points(c, point), b = points(c, point), u = states(c, [&] { return c.real(-1, 1); });
        double v = states(c, [&] { return c.real(-1, 1); });
        bool hh = c.chance(.5);
        if (c.chance(.5)) qs.push_back({str("propagate ", a, " ", b, " E=", E, " with ", u, " ", v, hh ? "" : " not use_h"), [=](const H &h) {
                auto r = h.m->propagate(E, mk(u, 1, .5, v), a, b, hh);
                return Answer{r.first.data[0], r.first.data[1], r.first.data[2], r.first.data[3], r.second};
            }});
        else qs.push_back({str("matchingError E=", E, " with ", u, " ", v, hh ? "" : " not use_h"), [=](const H &h) {
                auto r = h.m->matchingError(E, mk(u, 1), mk(1, v), hh);
                return Answer{std::get<0>(r), std::get<1>(r), std::get<2>(r)};
            }});
    }
    qs.push_back({"mesh and minimum", [](const H &h) {
        Answer r{h.m->estimatePotentialMinimum(), (double) h.m->sectorCount, (double) h.m->matchIndex};
        for (auto &s: h.m->sectors) {
            r.push_back(s->min);
            r.push_back(s->error());
        }
        return r;
    }});
}

static void full(Ctx &c) {
    Pot p = genPot(c, options()), q = genPot(c, options());
    double lo, hi, tol = coarse(c);
    p.range(lo, hi);
    Layout layout;
    if (c.chance(.3)) layout.uniform = (int) c.integer(2, 20);
    c.note("V", p.text());
    c.note("tol", tol);
    typedef Separated<Matslise<double>> H;
    auto make = [&](const Pot &p) {
        auto h = std::make_unique<H>();
        h->m = build(p, tol, layout);
        for (auto &e: h->m->eigenpairsByIndex(0, 2, mk(0, 1), mk(0, 1))) h->fs.push_back(std::move(std::get<2>(e)));
        return h;
    };
    std::vector<Query<H>> qs;
    separatedQueries(c, qs, false, p.a, p.b, lo, hi);
    scalarQueries(c, qs, p, lo, hi);
    q.a = p.a, q.b = p.b; // the queries have to make sense for the other problem too
    q.jumps.clear();
    q.pieces.resize(1);
    place(q.pieces[0], p.a, p.length());
    judge<H>(c, [&] { return make(p); }, [&] { return make(q); }, qs);
}

static void half(Ctx &c) {
    Pot p = genEvenPot(c, 800), q = genEvenPot(c, 800);
    double lo, hi, tol = coarse(c);
    p.range(lo, hi);
    c.note("V", p.text());
    c.note("tol", tol);
    typedef Separated<MatsliseHalf<double>> H;
    double X = p.b;
    auto make = [&](const Pot &p) {
        auto h = std::make_unique<H>();
        h->m = std::make_unique<MatsliseHalf<double>>([p](double x) { return p(x); }, X, tol, Auto(tol));
        for (auto &e: h->m->eigenpairsByIndex(0, 2, mk(0, 1), mk(0, 1))) h->fs.push_back(std::move(std::get<2>(e)));
        return h;
    };
    q.a = p.a, q.b = p.b;
    for (auto &s: q.pieces) place(s, p.a, p.length());
    std::vector<Query<H>> qs;
    separatedQueries(c, qs, true, p.a, p.b, lo, hi);
    judge<H>(c, [&] { return make(p); }, [&] { return make(q); }, qs);
}

static void coupledConditions(Ctx &c) {
    Pot p = genPot(c, options()), q = genPot(c, options());
    double lo, hi, tol = coarse(c), L = p.length();
    p.range(lo, hi);
    int kind;
    auto K = periodic::genK(c, L, kind);
    c.note("V", p.text());
    c.note("tol", tol);
    c.note("K", str(K[0], " ", K[1], " ", K[2], " ", K[3]));
    struct H {
        std::unique_ptr<PeriodicMatslise<double>> m;
        std::vector<std::unique_ptr<EF>> fs;
    };
    auto make = [&](const Pot &p) {
        auto h = std::make_unique<H>();
        Auto sb(tol);
        sb.jumps = p.jumps;
        h->m = std::make_unique<PeriodicMatslise<double>>([p](double x) { return p(x); }, p.a, p.b, tol, sb, periodic::toEigen(K));
        for (auto &e: h->m->eigenpairsByIndex(0, 2))
            for (auto &f: std::get<2>(e)) h->fs.push_back(std::move(f));
        return h;
    };
    auto triples = [](const std::vector<std::tuple<int, double, int>> &v) {
        Answer r;
        for (auto &t: v) {
            r.push_back(std::get<0>(t));
            r.push_back(std::get<1>(t));
            r.push_back(std::get<2>(t));
        }
        return r;
    };
    std::vector<Query<H>> qs;
    Pool<double> energies, widths;
    Pool<int> indices;
    for (int i = (int) c.integer(2, 6); i > 0; --i) {
        int k = indices(c, [&] { return (int) c.integer(0, 5); }), m = (int) c.integer(1, 3);
        double E = energies(c, [&] { return lo + (hi - lo) * c.real(0, 1) + c.real(0, 30) / L / L; });
        double E1 = E + widths(c, [&] { return c.real(0, 60) / L / L; });
        bool hh = c.chance(.5);
        auto xs = genPoints(c, p.a, p.b);
        bool array = c.chance(.5);
        auto all = [=](const auto &v) {
            Answer r;
            for (auto &t: v) {
                r.push_back(std::get<0>(t));
                r.push_back(std::get<1>(t));
                for (auto &f: std::get<2>(t))
                    for (double x: values(*f, xs, array)) r.push_back(x);
            }
            return r;
        };
        switch (c.draw(7)) {
            case 0: qs.push_back({str("eigenvaluesByIndex ", k, "+", m), [=](const H &h) { return triples(h.m->eigenvaluesByIndex(k, k + m)); }});
                break;
            case 1: qs.push_back({str("eigenvalues ", E, " ", E1), [=](const H &h) { return triples(h.m->eigenvalues(E, E1)); }});
                break;
            case 2: qs.push_back({str("eigenpairsByIndex ", k, "+", m), [=](const H &h) { return all(h.m->eigenpairsByIndex(k, k + m)); }});
                break;
            case 3: qs.push_back({str("eigenpairs ", E, " ", E1), [=](const H &h) { return all(h.m->eigenpairs(E, E1)); }});
                break;
            case 4: qs.push_back({str("eigenfunction(E) for eigenvalue ", k), [=](const H &h) {
                    Answer r;
                    for (auto &t: h.m->eigenvaluesByIndex(k, k + 1))
                        for (auto &f: h.m->eigenfunction(std::get<1>(t)))
                            for (double x: values(*f, xs, array)) r.push_back(x);
                    return r;
                }});
                break;
            case 5: qs.push_back({str("matchingError ", E, hh ? "" : " not use_h"), [=](const H &h) {
                    auto e = h.m->matchingError(E, hh);
                    Answer r{e.second[0], e.second[1]};
                    for (int i = 0; i < 4; ++i)
                        for (int j = 0; j < 2; ++j) r.push_back(e.first.data(i, j));
                    return r;
                }});
                break;
            default: qs.push_back({"evaluation of an eigenfunction that is kept", [=](const H &h) { return h.fs.empty() ? Answer{} : values(*h.fs[k % h.fs.size()], xs, array); }});
        }
    }
    q.a = p.a, q.b = p.b;
    q.jumps.clear();
    q.pieces.resize(1);
    place(q.pieces[0], p.a, p.length());
    judge<H>(c, [&] { return make(p); }, [&] { return make(q); }, qs);
}

static void sturmLiouville(Ctx &c) {
    sl::Problem p = sl::genProblem(c), q = sl::genProblem(c);
    q.a = p.a, q.b = p.b;
    for (auto *f: {&q.p, &q.w}) {
        f->x0 = p.a;
        f->L = p.length();
    }
    place(q.q, p.a, p.length());
    double tol = coarse(c);
    c.note("problem", p.text());
    c.note("tol", tol);
    struct H {
        std::unique_ptr<sl::SL> m;
        std::unique_ptr<sl::LT> t;
        std::vector<std::unique_ptr<EF>> fs;
    };
    auto make = [&](const sl::Problem &s) {
        auto h = std::make_unique<H>();
        std::function<double(double)> P = [s](double r) { return s.p(r); }, Qf = [s](double r) { return s.q(r); }, W = [s](double r) { return s.w(r); };
        matslise::Domain<double> D{s.a, s.b};
        h->m = std::make_unique<sl::SL>(P, Qf, W, D, tol);
        h->t = std::make_unique<sl::LT>(D, P, Qf, W);
        for (auto &e: h->m->eigenpairsByIndex(0, 2, mk(0, 1), mk(0, 1))) h->fs.push_back(std::move(std::get<2>(e)));
        return h;
    };
    std::vector<Query<H>> qs;
    Pool<int> indices;
    for (int i = (int) c.integer(2, 6); i > 0; --i) {
        int k = indices(c, [&] { return (int) c.integer(0, 5); }), m = (int) c.integer(1, 3);
        BC l = c.chance(.5) ? BC{0, 1} : BC{1, 0}, r = c.chance(.5) ? BC{0, 1} : BC{1, 0};
        auto yl = toY(l), yr = toY(r);
        auto xs = genPoints(c, p.a, p.b);
        bool array = c.chance(.5);
        switch (c.draw(5)) {
            case 0: qs.push_back({str("eigenvaluesByIndex ", k, "+", m), [=](const H &h) { return pairs(h.m->eigenvaluesByIndex(k, k + m, yl, yr)); }});
                break;
            case 1: qs.push_back({str("eigenvalueError ", k), [=](const H &h) {
                    Answer r;
                    for (auto &e: h.m->eigenvaluesByIndex(k, k + 1, yl, yr)) r.push_back(h.m->eigenvalueError(e.second, yl, yr, e.first));
                    return r;
                }});
                break;
            case 2: qs.push_back({str("eigenpairsByIndex ", k, "+", m), [=](const H &h) {
                    Answer r;
                    for (auto &e: h.m->eigenpairsByIndex(k, k + m, yl, yr)) {
                        r.push_back(std::get<1>(e));
                        for (double v: values(*std::get<2>(e), xs, array)) r.push_back(v);
                    }
                    return r;
                }});
                break;
            case 3: qs.push_back({"transformation", [=](const H &h) {
                    Answer r;
                    for (double x: xs) {
                        double X = h.t->r2x(x);
                        auto y = h.t->z2y(x, mk(1, .5, .25, 2)), z = h.t->y2z(X, y);
                        for (double v: {X, h.t->x2r(X), h.t->V(X), y.data[0], y.data[1], y.data[2], y.data[3], z.data[0], z.data[1]}) r.push_back(v);
                    }
                    return r;
                }});
                break;
            default: qs.push_back({"evaluation of an eigenfunction that is kept", [=](const H &h) { return h.fs.empty() ? Answer{} : values(*h.fs[k % h.fs.size()], xs, array); }});
        }
    }
    judge<H>(c, [&] { return make(p); }, [&] { return make(q); }, qs);
}

static void coupledSystem(Ctx &c) {
    cs::Options o;
    o.maxN = 3;
    auto p = cs::genPot(c, o), q = cs::genPot(c, o);
    double lo, hi, L = p.length();
    p.range(lo, hi);
    int uniform = c.chance(.5) ? (int) c.integer(1, 12) : 0;
    double tol = c.pick(std::vector<double>{1e-4, 1e-6});
    c.note("V", p.text());
    c.note("uniform", uniform);
    struct H {
        std::unique_ptr<cs::Matscs<double>> m;
    };
    int n = p.n;
    q = p.n == q.n ? q : p;
    q.a = p.a, q.b = p.b;
    if (!q.jumps.empty()) q = p;
    for (auto &m: q.pieces)
        for (auto &r: m)
            for (auto &s: r) place(s, p.a, L);
    auto make = [&](const cs::Pot &p) {
        auto h = std::make_unique<H>();
        h->m = cs::build(p, tol, uniform);
        return h;
    };
    std::vector<Query<H>> qs;
    Pool<double> energies, points, states;
    for (int i = (int) c.integer(2, 6); i > 0; --i) {
        double E = energies(c, [&] { return lo + c.real(0, 60) / L / L; });
        auto point = [&] { return p.a + L * c.real(0, 1); };
        double a = points(c, point), b = points(c, point), u = states(c, [&] { return c.real(-1, 1); });
        if (c.chance(.3)) a = p.a;
        if (c.chance(.3)) b = p.b;
        auto flat = [](const auto &m) {
            Answer r;
            for (int i = 0; i < m.rows(); ++i)
                for (int j = 0; j < m.cols(); ++j) r.push_back(m(i, j));
            return r;
        };
        auto start = [n, u](auto &y) {
            for (int i = 0; i < y.block().rows(); ++i)
                for (int j = 0; j < y.block().cols(); ++j) {
                    y.block()(i, j) = i == j ? u : 0;
                    y.block(matslise::dX)(i, j) = i == j ? 1 : 0;
                }
        };
        switch (c.draw(3)) {
            case 0: qs.push_back({str("propagate ", a, " ", b, " E=", E), [=](const H &h) {
                    cs::YD y(n);
                    start(y);
                    auto r = h.m->propagate(E, y, a, b);
                    Answer v = flat(r.first.block());
                    for (const Answer &w: std::vector<Answer>{flat(r.first.block(matslise::dX)), flat(r.first.block(matslise::dE)), Answer{r.second}}) v.insert(v.end(), w.begin(), w.end());
                    return v;
                }});
                break;
            case 1: qs.push_back({str("propagateColumn ", a, " ", b, " E=", E), [=](const H &h) {
                    cs::YC y(n);
                    start(y);
                    auto r = h.m->propagateColumn<1>(E, y, a, b);
                    return flat(r.block());
                }});
                break;
            default: qs.push_back({str("propagatePsi ", a, " ", b, " E=", E), [=](const H &h) {
                    cs::MD psi = u * cs::MD::Identity(n, n);
                    return flat(h.m->propagatePsi(E, psi, a, b));
                }});
        }
    }
    judge<H>(c, [&] { return make(p); }, [&] { return make(q); }, qs);
}

