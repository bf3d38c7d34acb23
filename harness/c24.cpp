// C24: queries are pure. Every answer is compared bit by bit with the answer of a fresh problem to that query alone.
#include "histories.h"

// what is written to standard output meanwhile
struct Capture {
    int fd, o;

    Capture() : fd(memfd_create("captured", 0)), o(dup(1)) {
        std::cout.flush();
        fflush(stdout);
        dup2(fd, 1);
    }

    std::string text() {
        std::cout.flush();
        fflush(stdout);
        std::string r((size_t) lseek(fd, 0, SEEK_END), ' ');
        if (pread(fd, r.data(), r.size(), 0) < 0) r = "?";
        return r;
    }

    ~Capture() {
        std::cout.flush();
        fflush(stdout);
        dup2(o, 1);
        close(o);
        close(fd);
    }
};

static bool same(const Answer &a, const Answer &b) {
    return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}

static std::string show(const Answer &a, const Answer &b) {
    if (a.size() != b.size()) return str(a.size(), " numbers instead of ", b.size());
    for (size_t i = 0; i < a.size(); ++i)
        if (memcmp(&a[i], &b[i], sizeof(double)) != 0) return str("number ", i, " is ", a[i], " instead of ", b[i]);
    return "equal";
}

template<class H>
static void judge(Ctx &c, const std::function<std::unique_ptr<H>()> &make, const std::function<std::unique_ptr<H>()> &decoy,
                  const std::vector<Query<H>> &qs) {
    int n = (int) qs.size();
    for (auto &q: qs) c.note("query", q.text);
    Capture out;
    std::vector<Answer> alone;
    for (auto &q: qs) {
        auto h = make();
        alone.push_back(guarded([&] { return q.f(*h); }));
        if (alone.back().size() > 1) c.nontrivial();
    }
    auto shared = make();
    std::unique_ptr<H> other;
    auto ask = [&](int i, const char *how) {
        Answer a = guarded([&] { return qs[i].f(*shared); });
        if (!same(a, alone[i])) c.fail(str(how, ": ", qs[i].text, ": ", show(a, alone[i])));
    };
    int steps = (int) c.integer(n, 3 * n);
    for (int i = 0; i < steps; ++i) {
        if (c.chance(.15)) { // another problem comes in between
            other = decoy();
            int j = (int) c.draw(n);
            guarded([&] { return qs[j].f(*other); });
            c.label("other problem in between");
        } else if (c.chance(.07)) { // another problem in the same memory
            int j = (int) c.draw(n);
            shared.reset();
            other.reset();
            shared = decoy();
            guarded([&] { return qs[j].f(*shared); });
            shared.reset();
            shared = make();
            c.label("problem built again");
        }
        ask((int) c.draw(n), "after other queries");
    }
    // several threads
    int T = (int) c.integer(2, 4);
    std::vector<std::vector<int>> plan(T);
    for (auto &p: plan) {
        int m = (int) c.integer(2, 6);
        for (int i = 0; i < m; ++i) p.push_back((int) c.draw(n));
    }
    bool build = c.chance(.3); // the last thread builds the problem once more
    std::mutex lock;
    std::string wrong;
    std::atomic<int> ready{0};
    std::vector<std::thread> threads;
    for (int t = 0; t < T; ++t)
        threads.emplace_back([&, t] {
            ++ready;
            while (ready < T) std::this_thread::yield();
            std::unique_ptr<H> mine;
            if (build && t == T - 1) mine = make();
            for (int i: plan[t]) {
                Answer a = guarded([&] { return qs[i].f(mine ? *mine : *shared); });
                if (!same(a, alone[i])) {
                    std::lock_guard<std::mutex> g(lock);
                    wrong = str("in one of ", T, " threads: ", qs[i].text, ": ", show(a, alone[i]));
                }
            }
        });
    for (auto &t: threads) t.join();
    if (!wrong.empty()) c.fail(wrong);
    // and in the end
    for (int i = 0; i < n; ++i) ask(i, "in the end");
    std::string text = out.text();
    if (!text.empty()) c.fail(str("written to standard output: ", text.substr(0, 100)));
    c.count("answers compared", steps + n + T);
}

int main(int argc, char **argv) {
    return pbt::run(argc, argv, {"C24", "some query returned at least two numbers",
                                 {{"full range", 3000, 60000, full},
                                  {"half range", 2000, 30000, half},
                                  {"coupled conditions", 1500, 30000, coupledConditions},
                                  {"Sturm-Liouville", 600, 10000, sturmLiouville},
                                  {"coupled system", 500, 20000, coupledSystem}},
                                 {"the answer of a freshly built problem to a single query"}});
}
