// A small property-based testing engine.
//
// Every random decision of a case is one call to Ctx::draw(bound); the list of drawn numbers (the "choice sequence")
// determines the case completely.  Shrinking edits the choice sequence (delete / zero / minimise) and replays it, and a
// replay file is the choice sequence.  Case number i of sub-property p under seed s is generated from hash(s, p, i), so a
// run is a pure function of the code under test and VERIF_SEED, whatever the number of workers.
//
// Cases run in forked worker processes: a crash, a sanitizer abort or exceeding the (generous) CPU budget of one case is
// seen by the parent and treated as a failure of that case.
#pragma once

#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {
    struct Discard {
    };

    struct Failure {
        std::string msg;
        std::string key; // identifies a known finding, empty when there is none
    };

    class Ctx {
    public:
        // replay == nullptr: generate at random
        Ctx(uint64_t seed, const std::vector<uint64_t> *replay, bool verbose = false);

        // uniform in [0, bound); records the choice.  Simplest value is 0.
        uint64_t draw(uint64_t bound);

        // in [lo, hi]; shrinks to lo
        int64_t integer(int64_t lo, int64_t hi) { return lo + (int64_t) draw((uint64_t) (hi - lo) + 1); }

        // true with probability p; shrinks to false
        bool chance(double p) { return draw(1u << 16) >= (uint64_t) ((1 - p) * (1u << 16)); }

        template<typename T>
        const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }

        // real in [lo, hi] on a fine grid, with a bias for round values; shrinks to a round value near the middle
        double real(double lo, double hi);

        // magnitude between lo and hi (both > 0), logarithmically distributed
        double logreal(double lo, double hi);

        void label(const std::string &l) { labels.insert(l); }

        void metric(const std::string &name, double v) {
            auto it = metrics.find(name);
            if (it == metrics.end()) metrics[name] = v;
            else if (!(v <= it->second)) it->second = v;
        }

        void nontrivial(bool b = true) { isNontrivial = isNontrivial || b; }

        template<typename T>
        void note(const std::string &name, const T &v) {
            std::ostringstream o;
            o.precision(17);
            o << v;
            if (verbose) fprintf(stderr, "  %s: %s\n", name.c_str(), o.str().c_str());
            notes.emplace_back(name, o.str());
        }

        void count(const std::string &name, long n = 1) { counters[name] += n; }

        [[noreturn]] void fail(const std::string &msg, const std::string &key = "") { throw Failure{msg, key}; }

        void require(bool b, const std::string &msg) { if (!b) fail(msg); }

        [[noreturn]] void discard() { throw Discard{}; }

        uint64_t rng();

        std::vector<uint64_t> choices;
        std::set<std::string> labels;
        std::map<std::string, double> metrics;
        std::map<std::string, long> counters;
        std::vector<std::pair<std::string, std::string>> notes;
        bool isNontrivial = false;
        bool verbose = false;
    private:
        uint64_t state[2];
        const std::vector<uint64_t> *replay;
        size_t pos = 0;
    };

    struct Prop {
        std::string name;
        long quick, thorough; // number of cases
        std::function<void(Ctx &)> f;
        double cpuLimit = 30; // CPU-seconds for one case; typical cases take milliseconds
    };

    struct Suite {
        std::string property;
        std::string rule; // what makes a case non-trivial
        std::vector<Prop> props;
        std::vector<std::string> assumptions;
    };

    int run(int argc, char **argv, const Suite &suite);

    template<typename A>
    std::string str(const A &a) {
        std::ostringstream o;
        o.precision(17);
        o << a;
        return o.str();
    }

    template<typename A, typename... R>
    std::string str(const A &a, const R &... r) { return str(a) + str(r...); }
}
