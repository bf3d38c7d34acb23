#include "pbt.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <unordered_set>

namespace pbt {
    static uint64_t mix(uint64_t x) {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }

    static uint64_t hashString(const std::string &s) {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c: s) h = (h ^ c) * 1099511628211ull;
        return h;
    }

    Ctx::Ctx(uint64_t seed, const std::vector<uint64_t> *replay, bool verbose) : verbose(verbose), replay(replay) {
        state[0] = mix(seed);
        state[1] = mix(state[0] ^ 0x1234567ull);
    }

    uint64_t Ctx::rng() {
        uint64_t s1 = state[0];
        const uint64_t s0 = state[1];
        const uint64_t result = s0 + s1;
        state[0] = s0;
        s1 ^= s1 << 23;
        state[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        return result;
    }

    uint64_t Ctx::draw(uint64_t bound) {
        uint64_t v;
        if (bound <= 1) return 0;
        if (replay) {
            v = pos < replay->size() ? (*replay)[pos] : 0;
            if (v >= bound) v = bound - 1;
            ++pos;
        } else {
            v = rng() % bound;
        }
        choices.push_back(v);
        if (choices.size() > 200000) throw Discard{};
        return v;
    }

    double Ctx::real(double lo, double hi) {
        // kind 0: round fraction of the range; otherwise a fine grid.
        uint64_t kind = draw(4);
        double f;
        if (kind == 0) {
            static const double nice[] = {.5, 0, 1, .25, .75, .125, .375, .625, .875, .1, .2, .3, .4, .6, .7, .8, .9};
            f = nice[draw(sizeof(nice) / sizeof(*nice))];
        } else
            f = (double) draw((1ull << 30) + 1) / (double) (1ull << 30);
        return lo + (hi - lo) * f;
    }

    double Ctx::logreal(double lo, double hi) {
        return std::exp(real(std::log(lo), std::log(hi)));
    }

    enum Outcome {
        PASS = 0, DISCARD = 1, FAIL = 2, CRASH = 3, TIMEOUT = 4, KNOWN = 5
    };

    static const char *outcomeName(int o) {
        static const char *names[] = {"pass", "discard", "fail", "crash", "timeout", "known"};
        return names[o];
    }

    struct Result {
        Outcome outcome = PASS;
        std::string msg, key;
        std::vector<uint64_t> choices;
        std::vector<std::pair<std::string, std::string>> notes;
    };

    static std::set<std::string> knownKeys;
    static std::map<std::string, std::string> knownText;

    static Result runInProcess(const Prop &p, Ctx &ctx) {
        Result r;
        try {
            p.f(ctx);
        } catch (const Discard &) {
            r.outcome = DISCARD;
        } catch (const Failure &f) {
            r.outcome = !f.key.empty() && knownKeys.count(f.key) ? KNOWN : FAIL;
            r.msg = f.msg;
            r.key = f.key;
        } catch (const std::exception &e) {
            r.outcome = FAIL;
            r.msg = std::string("unexpected exception: ") + e.what();
        } catch (...) {
            r.outcome = FAIL;
            r.msg = "unexpected exception of unknown type";
        }
        r.choices = ctx.choices;
        r.notes = ctx.notes;
        return r;
    }

    static void setCpuTimer(double seconds) {
        itimerval tv{};
        tv.it_value.tv_sec = (long) seconds;
        tv.it_value.tv_usec = (long) ((seconds - (long) seconds) * 1e6);
        setitimer(ITIMER_PROF, &tv, nullptr);
    }

    static void writeAll(int fd, const std::string &s) {
        size_t o = 0;
        while (o < s.size()) {
            ssize_t k = write(fd, s.data() + o, s.size() - o);
            if (k <= 0) return;
            o += k;
        }
    }

    static void putString(std::string &o, const std::string &s) {
        uint64_t n = s.size();
        o.append((const char *) &n, 8);
        o += s;
    }

    static void putU64(std::string &o, uint64_t v) { o.append((const char *) &v, 8); }

    struct Reader {
        const std::string &s;
        size_t p = 0;

        bool ok(size_t n) const { return p + n <= s.size(); }

        uint64_t u64() {
            uint64_t v = 0;
            if (ok(8)) memcpy(&v, &s[p], 8);
            p += 8;
            return v;
        }

        std::string str() {
            uint64_t n = u64();
            std::string r = ok(n) ? s.substr(p, n) : "";
            p += n;
            return r;
        }
    };

    // Run one choice sequence in a child process.
    static Result runForked(const Prop &p, const std::vector<uint64_t> *choices, uint64_t seed, bool quiet) {
        int fd[2];
        if (pipe(fd)) {
            perror("pipe");
            exit(3);
        }
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            if (quiet) {
                int dn = open("/dev/null", O_WRONLY);
                dup2(dn, 1);
                dup2(dn, 2);
            }
            signal(SIGPROF, SIG_DFL);
            setCpuTimer(p.cpuLimit);
            Ctx ctx(seed, choices, !quiet);
            Result r = runInProcess(p, ctx);
            setCpuTimer(0);
            std::string out;
            putU64(out, r.outcome);
            putString(out, r.msg);
            putString(out, r.key);
            putU64(out, r.choices.size());
            for (auto c: r.choices) putU64(out, c);
            putU64(out, r.notes.size());
            for (auto &n: r.notes) putString(out, n.first), putString(out, n.second);
            writeAll(fd[1], out);
            close(fd[1]);
            _exit(0);
        }
        close(fd[1]);
        std::string in;
        char buf[65536];
        ssize_t k;
        while ((k = read(fd[0], buf, sizeof buf)) > 0) in.append(buf, k);
        close(fd[0]);
        int status;
        waitpid(pid, &status, 0);
        Result r;
        if (WIFSIGNALED(status)) {
            r.outcome = WTERMSIG(status) == SIGPROF ? TIMEOUT : CRASH;
            r.msg = WTERMSIG(status) == SIGPROF
                    ? str("no result after ", p.cpuLimit, " CPU-seconds")
                    : str("terminated by signal ", WTERMSIG(status), " (", strsignal(WTERMSIG(status)), ")");
            if (choices) r.choices = *choices;
            return r;
        }
        if (WEXITSTATUS(status) != 0 || in.size() < 8) {
            r.outcome = CRASH;
            r.msg = str("process exited with status ", WEXITSTATUS(status));
            if (choices) r.choices = *choices;
            return r;
        }
        Reader rd{in};
        r.outcome = (Outcome) rd.u64();
        r.msg = rd.str();
        r.key = rd.str();
        r.choices.resize(rd.u64());
        for (auto &c: r.choices) c = rd.u64();
        r.notes.resize(rd.u64());
        for (auto &n: r.notes) n.first = rd.str(), n.second = rd.str();
        return r;
    }

    // choices drawn by a case that crashed: regenerate by running with a shared-memory recorder
    static std::vector<uint64_t> recordChoices(const Prop &p, uint64_t seed) {
        // Re-run in a child whose signal handlers copy the choices drawn so far to shared memory.
        const size_t cap = 200001;
        auto *mem = (uint64_t *) mmap(nullptr, (cap + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        mem[0] = 0;
        pid_t pid = fork();
        if (pid == 0) {
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            dup2(dn, 2);
            signal(SIGPROF, SIG_DFL);
            setCpuTimer(p.cpuLimit);
            Ctx ctx(seed, nullptr);
            ctx.choices.reserve(cap); // never reallocates, so the signal handler below may read it
            static Ctx *gctx;
            static uint64_t *gmem;
            gctx = &ctx;
            gmem = mem;
            auto handler = [](int sig) {
                size_t n = gctx->choices.size();
                for (size_t i = 0; i < n; ++i) gmem[i + 1] = gctx->choices[i];
                gmem[0] = n;
                signal(sig, SIG_DFL);
                _exit(1);
            };
            stack_t ss{};
            ss.ss_sp = malloc(1 << 16);
            ss.ss_size = 1 << 16;
            sigaltstack(&ss, nullptr);
            for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) {
                struct sigaction sa{};
                sa.sa_handler = handler;
                sa.sa_flags = SA_ONSTACK;
                sigaction(s, &sa, nullptr);
            }
            runInProcess(p, ctx);
            handler(SIGABRT);
        }
        int status;
        waitpid(pid, &status, 0);
        std::vector<uint64_t> c(mem + 1, mem + 1 + mem[0]);
        munmap(mem, (cap + 1) * 8);
        return c;
    }

    static double now() {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }

    // Evaluate several candidates at once; returns the index of the first that still fails, or -1
    static int firstFailing(const Prop &p, const std::vector<std::vector<uint64_t>> &cand, Outcome kind, Result &out,
                            int width) {
        for (size_t base = 0; base < cand.size(); base += width) {
            size_t n = std::min<size_t>(width, cand.size() - base);
            std::vector<pid_t> pids(n);
            std::vector<std::string> files(n);
            std::vector<int> fds(n);
            for (size_t i = 0; i < n; ++i) {
                int fd[2];
                if (pipe(fd)) exit(3);
                pid_t pid = fork();
                if (pid == 0) {
                    close(fd[0]);
                    Result r = runForked(p, &cand[base + i], 0, true);
                    std::string o;
                    putU64(o, r.outcome);
                    putString(o, r.msg);
                    putU64(o, r.choices.size());
                    for (auto c: r.choices) putU64(o, c);
                    writeAll(fd[1], o);
                    close(fd[1]);
                    _exit(0);
                }
                close(fd[1]);
                fds[i] = fd[0];
                pids[i] = pid;
            }
            int found = -1;
            for (size_t i = 0; i < n; ++i) {
                std::string in;
                char buf[65536];
                ssize_t k;
                while ((k = read(fds[i], buf, sizeof buf)) > 0) in.append(buf, k);
                close(fds[i]);
                int st;
                waitpid(pids[i], &st, 0);
                if (found >= 0 || in.size() < 8) continue;
                Reader rd{in};
                auto o = (Outcome) rd.u64();
                if (o != kind) continue;
                Result r;
                r.outcome = o;
                r.msg = rd.str();
                r.choices.resize(rd.u64());
                for (auto &c: r.choices) c = rd.u64();
                if (r.choices.size() > cand[base + i].size()) r.choices.resize(cand[base + i].size());
                out = r;
                found = (int) (base + i);
            }
            if (found >= 0) return found;
        }
        return -1;
    }

    static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    }

    static Result shrink(const Prop &p, Result best, double budget, int width, long &steps) {
        double end = now() + budget;
        auto trim = [](std::vector<uint64_t> v) {
            while (!v.empty() && v.back() == 0) v.pop_back();
            return v;
        };
        best.choices = trim(best.choices);
        bool improved = true;
        while (improved && now() < end) {
            improved = false;
            auto attempt = [&](const std::vector<std::vector<uint64_t>> &c) {
                std::vector<std::vector<uint64_t>> cc;
                for (auto v: c) {
                    v = trim(v);
                    if (simpler(v, best.choices)) cc.push_back(v);
                }
                if (cc.empty()) return false;
                Result r;
                steps += (long) cc.size();
                int k = firstFailing(p, cc, best.outcome, r, width);
                if (k < 0) return false;
                r.choices = trim(cc[k]);
                best = r;
                improved = true;
                return true;
            };
            for (size_t len: {32, 16, 8, 4, 3, 2, 1}) {
                for (size_t i = 0; i < best.choices.size() && now() < end;) {
                    std::vector<std::vector<uint64_t>> c;
                    size_t j = i;
                    for (int k = 0; k < width && j + len <= best.choices.size(); ++k, ++j) {
                        auto v = best.choices;
                        v.erase(v.begin() + (long) j, v.begin() + (long) (j + len));
                        c.push_back(v);
                    }
                    if (c.empty()) break;
                    if (!attempt(c)) i = j;
                }
            }
            for (size_t len: {8, 4, 2, 1}) {
                for (size_t i = 0; i < best.choices.size() && now() < end;) {
                    std::vector<std::vector<uint64_t>> c;
                    size_t j = i;
                    for (int k = 0; k < width && j + len <= best.choices.size(); ++k, j += len) {
                        auto v = best.choices;
                        bool any = false;
                        for (size_t l = 0; l < len; ++l) any = any || v[j + l], v[j + l] = 0;
                        if (any) c.push_back(v);
                    }
                    if (c.empty()) {
                        if (j + len > best.choices.size()) break;
                        i = j;
                        continue;
                    }
                    if (!attempt(c)) i = j;
                }
            }
            for (size_t i = 0; i < best.choices.size() && now() < end; ++i) {
                while (i < best.choices.size() && best.choices[i] > 0 && now() < end) {
                    std::vector<std::vector<uint64_t>> c;
                    uint64_t x = best.choices[i];
                    std::vector<uint64_t> vals = {1, 2, x / 16, x / 4, x / 2, x - x / 4, x - x / 16, x - 1};
                    if (x > (1u << 20)) { // round fine-grid fractions to coarse ones
                        for (int b: {28, 26, 24, 20}) vals.push_back(x >> b << b);
                    }
                    for (auto w: vals)
                        if (w < x) {
                            auto v = best.choices;
                            v[i] = w;
                            c.push_back(v);
                        }
                    uint64_t before = x;
                    if (!attempt(c)) break;
                    if (i >= best.choices.size() || best.choices[i] >= before) break;
                }
            }
        }
        return best;
    }

    static std::string json(const std::string &s) {
        std::string o = "\"";
        for (unsigned char c: s) {
            if (c == '"' || c == '\\') o += '\\', o += (char) c;
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            } else o += (char) c;
        }
        return o + "\"";
    }

    struct Shared {
        std::atomic<long> next;
        std::atomic<int> stop;
        std::atomic<long> current[64]; // case each worker is running, -1 when none
    };

    struct Stats {
        long evaluations = 0, discarded = 0, known = 0;
        std::map<std::string, long> labels, counters, knownHits;
        std::map<std::string, double> metrics;
        std::unordered_set<uint64_t> distinct;
        std::vector<std::string> samples; // "index\0json"
    };

    static std::string notesJson(const std::string &prop, long index, const std::vector<std::pair<std::string, std::string>> &notes) {
        std::string o = "{\"sub\":" + json(prop) + ",\"case\":" + std::to_string(index);
        for (auto &n: notes) {
            std::string v = n.second;
            if (v.size() > 1500) v = v.substr(0, 1500) + "...";
            o += "," + json(n.first) + ":" + json(v);
        }
        return o + "}";
    }

    static std::string serialise(const Stats &s) {
        std::string o;
        putU64(o, s.evaluations);
        putU64(o, s.discarded);
        putU64(o, s.known);
        for (auto *m: {&s.labels, &s.counters, &s.knownHits}) {
            putU64(o, m->size());
            for (auto &e: *m) putString(o, e.first), putU64(o, e.second);
        }
        putU64(o, s.metrics.size());
        for (auto &e: s.metrics) {
            putString(o, e.first);
            uint64_t b;
            memcpy(&b, &e.second, 8);
            putU64(o, b);
        }
        putU64(o, s.distinct.size());
        for (auto d: s.distinct) putU64(o, d);
        putU64(o, s.samples.size());
        for (auto &d: s.samples) putString(o, d);
        return o;
    }

    static void merge(Stats &s, const std::string &in) {
        if (in.empty()) return;
        Reader r{in};
        s.evaluations += (long) r.u64();
        s.discarded += (long) r.u64();
        s.known += (long) r.u64();
        for (auto *m: {&s.labels, &s.counters, &s.knownHits}) {
            uint64_t n = r.u64();
            for (uint64_t i = 0; i < n; ++i) {
                std::string k = r.str();
                (*m)[k] += (long) r.u64();
            }
        }
        uint64_t n = r.u64();
        for (uint64_t i = 0; i < n; ++i) {
            std::string k = r.str();
            uint64_t b = r.u64();
            double d;
            memcpy(&d, &b, 8);
            auto it = s.metrics.find(k);
            if (it == s.metrics.end()) s.metrics[k] = d;
            else if (!(d <= it->second)) it->second = d;
        }
        n = r.u64();
        for (uint64_t i = 0; i < n; ++i) s.distinct.insert(r.u64());
        n = r.u64();
        for (uint64_t i = 0; i < n; ++i) s.samples.push_back(r.str());
    }

    static std::string readFile(const std::string &f) {
        std::ifstream i(f, std::ios::binary);
        std::stringstream s;
        s << i.rdbuf();
        return s.str();
    }

    static uint64_t caseSeed(uint64_t seed, const Prop &p, long i) {
        return mix(mix(seed) ^ hashString(p.name) ^ mix((uint64_t) i * 0x9e3779b97f4a7c15ull + 17));
    }

    int run(int argc, char **argv, const Suite &suite) {
        uint64_t seed = 1;
        std::string tier = "quick", evidence, replayFile, outDir = ".", known, only;
        int workers = 8;
        double scale = 1, wall = 0;
        long single = -1;
        bool verboseStats = false, collect = false;
        if (getenv("VERIF_SEED") && *getenv("VERIF_SEED")) seed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
        if (getenv("VERIF_TIER") && *getenv("VERIF_TIER")) tier = getenv("VERIF_TIER");
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--tier") tier = val();
            else if (a == "--evidence") evidence = val();
            else if (a == "--replay") replayFile = val();
            else if (a == "--out") outDir = val();
            else if (a == "--known") known = val();
            else if (a == "--workers") workers = atoi(val().c_str());
            else if (a == "--scale") scale = atof(val().c_str());
            else if (a == "--only") only = val();
            else if (a == "--case") single = atol(val().c_str());
            else if (a == "--wall") wall = atof(val().c_str());
            else if (a == "--stats") verboseStats = true;
            else if (a == "--collect") collect = true; // development: list every failing case, shrink none
            else {
                std::cerr << "unknown argument " << a << std::endl;
                return 2;
            }
        }
        if (tier != "quick" && tier != "thorough") tier = "quick";
        if (wall == 0) wall = tier == "quick" ? 420 : 6 * 3600;
        workers = std::max(1, std::min(workers, 60));

        // known findings: lines "known: property=<id> key=<key> <text>"
        if (!known.empty()) {
            std::ifstream in(known);
            std::string line;
            while (std::getline(in, line)) {
                if (line.rfind("known:", 0) != 0) continue;
                std::istringstream ls(line.substr(6));
                std::string p, k, rest;
                ls >> p >> k;
                std::getline(ls, rest);
                if (p != "property=" + suite.property || k.rfind("key=", 0) != 0) continue;
                knownKeys.insert(k.substr(4));
                knownText[k.substr(4)] = rest;
            }
        }

        if (!replayFile.empty()) {
            std::istringstream in(readFile(replayFile));
            std::string line, sub;
            std::vector<uint64_t> choices;
            bool ok = false;
            while (std::getline(in, line)) {
                if (line.rfind("sub ", 0) == 0) sub = line.substr(4);
                if (line.rfind("choices", 0) == 0) {
                    std::istringstream ls(line.substr(7));
                    uint64_t c;
                    while (ls >> c) choices.push_back(c);
                    ok = true;
                }
            }
            for (auto &p: suite.props)
                if (p.name == sub && ok) {
                    Result r = runForked(p, &choices, 0, false);
                    for (auto &n: r.notes) std::cout << "  " << n.first << ": " << n.second << "\n";
                    std::cout << outcomeName(r.outcome) << ": " << r.msg << std::endl;
                    return r.outcome == FAIL || r.outcome == CRASH || r.outcome == TIMEOUT ? 1 : 0;
                }
            std::cerr << "cannot replay " << replayFile << std::endl;
            return 2;
        }

        double t0 = now();
        Stats stats;
        long violations = 0;
        std::string violationLine;
        bool budgetHit = false;
        std::map<std::string, std::pair<long, double>> perSub;

        for (auto &p: suite.props) {
            if (!only.empty() && p.name != only) continue;
            if (single >= 0) {
                Ctx ctx(caseSeed(seed, p, single), nullptr, true);
                Result r = runInProcess(p, ctx);
                for (auto &n: ctx.metrics) std::cout << "  metric " << n.first << ": " << n.second << "\n";
                for (auto &n: ctx.labels) std::cout << "  label " << n << "\n";
                std::cout << p.name << " " << outcomeName(r.outcome) << ": " << r.msg << std::endl;
                continue;
            }
            double tp = now();
            long n = (long) std::ceil((tier == "quick" ? p.quick : p.thorough) * scale);
            auto *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            sh->next = 0;
            sh->stop = 0;
            for (auto &c: sh->current) c = -1;
            std::map<pid_t, int> pids;
            std::vector<std::pair<long, Result>> failures;
            std::string tmp = outDir + "/.w." + suite.property + "." + std::to_string(getpid());
            auto spawn = [&](int w) {
                fflush(stdout);
                pid_t pid = fork();
                if (pid) {
                    pids[pid] = w;
                    return;
                }
                signal(SIGPROF, SIG_DFL);
                // keep the library quiet
                int dn = open("/dev/null", O_WRONLY);
                dup2(dn, 1);
                if (!getenv("PBT_STDERR")) dup2(dn, 2);
                Stats s;
                std::string failOut;
                std::map<std::string, int> sampled;
                while (!sh->stop) {
                    long i = sh->next++;
                    if (i >= n) break;
                    sh->current[w] = i;
                    setCpuTimer(p.cpuLimit);
                    Ctx ctx(caseSeed(seed, p, i), nullptr);
                    Result r = runInProcess(p, ctx);
                    setCpuTimer(0);
                    sh->current[w] = -1;
                    ++s.evaluations;
                    if (r.outcome == DISCARD) {
                        ++s.discarded;
                        continue;
                    }
                    for (auto &l: ctx.labels) ++s.labels[p.name + ":" + l];
                    for (auto &l: ctx.counters) s.counters[l.first] += l.second;
                    for (auto &m: ctx.metrics) {
                        auto it = s.metrics.find(p.name + ":" + m.first);
                        if (it == s.metrics.end()) s.metrics[p.name + ":" + m.first] = m.second;
                        else if (!(m.second <= it->second)) it->second = m.second;
                    }
                    if (r.outcome == KNOWN) {
                        ++s.known;
                        ++s.knownHits[r.key];
                        continue;
                    }
                    if (ctx.isNontrivial) {
                        uint64_t h = hashString(p.name);
                        for (auto c: ctx.choices) h = mix(h ^ c);
                        s.distinct.insert(h);
                        if (i < 400 && s.samples.size() < 3) s.samples.push_back(notesJson(p.name, i, ctx.notes));
                    }
                    if (r.outcome == FAIL) {
                        putU64(failOut, i);
                        putString(failOut, r.msg);
                        putU64(failOut, r.choices.size());
                        for (auto c: r.choices) putU64(failOut, c);
                        if (!collect) {
                            sh->stop = 1;
                            break;
                        }
                    }
                }
                // several incarnations of one worker may exist after crashes; append
                {
                    std::ofstream f(tmp + ".s" + std::to_string(w) + "." + std::to_string(getpid()), std::ios::binary);
                    std::string o = serialise(s);
                    f.write(o.data(), (long) o.size());
                }
                if (!failOut.empty()) {
                    std::ofstream f(tmp + ".f" + std::to_string(w) + "." + std::to_string(getpid()), std::ios::binary);
                    f.write(failOut.data(), (long) failOut.size());
                }
                _exit(0);
            };
            std::vector<pid_t> all;
            for (int w = 0; w < workers; ++w) spawn(w);
            std::vector<std::pair<int, pid_t>> done;
            while (!pids.empty()) {
                int status;
                pid_t pid = waitpid(-1, &status, WNOHANG);
                if (pid <= 0) {
                    usleep(2000);
                    if (now() - t0 > wall && !sh->stop) {
                        budgetHit = true;
                        sh->stop = 1;
                    }
                    continue;
                }
                int w = pids[pid];
                pids.erase(pid);
                done.emplace_back(w, pid);
                if (WIFSIGNALED(status) || WEXITSTATUS(status) != 0) {
                    long i = sh->current[w];
                    Result r;
                    bool to = WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF;
                    r.outcome = to ? TIMEOUT : CRASH;
                    r.msg = to ? str("no result after ", p.cpuLimit, " CPU-seconds")
                               : WIFSIGNALED(status) ? str("terminated by signal ", WTERMSIG(status), " (",
                                                           strsignal(WTERMSIG(status)), ")")
                                                     : str("process exited with status ", WEXITSTATUS(status));
                    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
                        std::cerr << "worker killed (out of memory?)" << std::endl;
                        if (i < 0) continue;
                    }
                    if (i >= 0) failures.emplace_back(i, r);
                    sh->stop = 1;
                }
            }
            for (auto &wp: done) {
                std::string base = std::to_string(wp.first) + "." + std::to_string(wp.second);
                std::string s = readFile(tmp + ".s" + base);
                long before = stats.evaluations;
                merge(stats, s);
                perSub[p.name].first += stats.evaluations - before;
                unlink((tmp + ".s" + base).c_str());
                std::string f = readFile(tmp + ".f" + base);
                if (!f.empty()) {
                    Reader rd{f};
                    while (rd.p < f.size()) {
                        long i = (long) rd.u64();
                        Result r;
                        r.outcome = FAIL;
                        r.msg = rd.str();
                        r.choices.resize(rd.u64());
                        for (auto &c: r.choices) c = rd.u64();
                        failures.emplace_back(i, r);
                    }
                    unlink((tmp + ".f" + base).c_str());
                }
            }
            munmap(sh, sizeof(Shared));
            perSub[p.name].second = now() - tp;
            std::stable_sort(failures.begin(), failures.end(), [](const auto &a, const auto &b) {
                int ta = a.second.outcome == TIMEOUT, tb = b.second.outcome == TIMEOUT;
                return ta != tb ? ta < tb : a.first < b.first;
            });
            if (collect) {
                for (auto &fi: failures)
                    std::cout << "  " << p.name << " case " << fi.first << " " << outcomeName(fi.second.outcome) << ": "
                              << fi.second.msg << "\n";
                continue;
            }
            for (auto &fi: failures) {
                Result r = fi.second;
                uint64_t cs = caseSeed(seed, p, fi.first);
                if (r.outcome != FAIL) {
                    Result again = runForked(p, nullptr, cs, true);
                    if (again.outcome == CRASH || again.outcome == TIMEOUT) r.choices = recordChoices(p, cs);
                    else r.choices = again.choices;
                }
                std::cout << suite.property << "/" << p.name << ": case " << fi.first << " " << outcomeName(r.outcome)
                          << ": " << r.msg << std::endl;
                // confirm
                int again = 0, tries = 0;
                for (; tries < 8 && again < 3; ++tries) {
                    Result c = runForked(p, &r.choices, 0, true);
                    if (c.outcome == FAIL || c.outcome == CRASH || c.outcome == TIMEOUT) {
                        ++again;
                        if (c.outcome != r.outcome) r.outcome = c.outcome, r.msg = c.msg;
                    } else if (tries >= 2 && again == 0) break;
                }
                if (again == 0) {
                    std::cout << "  not reproducible in " << tries << " replays" << std::endl;
                    stats.counters["unreproduced"]++;
                    continue;
                }
                long steps = 0;
                if (r.outcome != TIMEOUT)
                    r = shrink(p, r, tier == "quick" ? 25 : 60, 8, steps);
                Result fin = runForked(p, &r.choices, 0, true);
                if (fin.notes.empty()) fin.notes = r.notes;
                std::string dir = outDir + "/replay";
                mkdir(dir.c_str(), 0777);
                std::string file = dir + "/" + suite.property + "-" + p.name + "-s" + std::to_string(seed) + "-" +
                                   std::to_string(fi.first) + ".txt";
                std::ofstream o(file);
                o << "property " << suite.property << "\nsub " << p.name << "\nseed " << seed << " case " << fi.first
                  << "\noutcome " << outcomeName(r.outcome) << "\nmessage ";
                for (char c: r.msg) o << (c == '\n' ? ' ' : c);
                o << "\nchoices";
                for (auto c: r.choices) o << " " << c;
                o << "\n";
                for (auto &nt: fin.notes) o << "# " << nt.first << ": " << nt.second << "\n";
                o.close();
                std::cout << "  shrunk in " << steps << " steps to " << r.choices.size() << " choices: " << r.msg << "\n";
                for (auto &nt: fin.notes) std::cout << "    " << nt.first << ": " << nt.second.substr(0, 2000) << "\n";
                std::cout << "  reproduced " << again << " of " << tries << " replays" << std::endl;
                ++violations;
                violationLine = "VIOLATION property=" + suite.property + " replay=" + file;
                break;
            }
            if (violations || budgetHit) break;
        }
        if (single >= 0) return 0;
        double elapsed = now() - t0;

        std::cout << suite.property << " " << tier << " seed=" << seed << ": " << stats.evaluations << " cases, "
                  << stats.distinct.size() << " distinct non-trivial, " << stats.discarded << " discarded, "
                  << stats.known << " known, " << elapsed << " s" << (budgetHit ? " (wall budget hit)" : "") << std::endl;
        if (verboseStats) {
            for (auto &l: perSub) std::cout << "  sub " << l.first << ": " << l.second.first << " cases in " << l.second.second << " s\n";
            for (auto &l: stats.labels) std::cout << "  label " << l.first << ": " << l.second << "\n";
            for (auto &l: stats.counters) std::cout << "  counter " << l.first << ": " << l.second << "\n";
            for (auto &l: stats.metrics) std::cout << "  max " << l.first << ": " << l.second << "\n";
        }
        for (auto &k: stats.knownHits)
            std::cout << "KNOWN-FINDING: property=" << suite.property << " " << k.first << knownText[k.first] << std::endl;

        if (!evidence.empty()) {
            std::ofstream o(evidence);
            o << "{\n \"property\": " << json(suite.property) << ",\n \"tier\": " << json(tier) << ",\n \"seed\": " << seed
              << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << stats.evaluations
              << ",\n  \"distinct_nontrivial\": " << stats.distinct.size() << ",\n  \"rule\": " << json(suite.rule)
              << ",\n  \"samples\": [";
            size_t ns = std::min<size_t>(stats.samples.size(), 12);
            // spread the samples over the sub-properties
            std::vector<std::string> sel;
            for (size_t i = 0; i < ns; ++i) sel.push_back(stats.samples[i * stats.samples.size() / ns]);
            for (size_t i = 0; i < sel.size(); ++i) o << (i ? ",\n   " : "\n   ") << sel[i];
            o << "\n  ],\n  \"discarded\": " << stats.discarded << ",\n  \"known_finding_cases\": " << stats.known
              << ",\n  \"wall_budget_hit\": " << (budgetHit ? "true" : "false");
            auto dump = [&](const char *name, const std::map<std::string, long> &m) {
                o << ",\n  \"" << name << "\": {";
                bool first = true;
                for (auto &e: m) {
                    o << (first ? "\n   " : ",\n   ") << json(e.first) << ": " << e.second;
                    first = false;
                }
                o << "\n  }";
            };
            dump("labels", stats.labels);
            dump("counters", stats.counters);
            o << ",\n  \"cases_per_sub\": {";
            bool first = true;
            for (auto &e: perSub) {
                o << (first ? "\n   " : ",\n   ") << json(e.first) << ": " << e.second.first;
                first = false;
            }
            o << "\n  },\n  \"largest_observed\": {";
            first = true;
            for (auto &e: stats.metrics) {
                o << (first ? "\n   " : ",\n   ") << json(e.first) << ": ";
                if (std::isfinite(e.second)) o << e.second; else o << json(std::to_string(e.second));
                first = false;
            }
            o << "\n  }\n },\n \"assumptions\": [";
            for (size_t i = 0; i < suite.assumptions.size(); ++i) o << (i ? ", " : "") << json(suite.assumptions[i]);
            o << "],\n \"wall_s\": " << elapsed << ",\n \"violations\": " << violations << "\n}\n";
        }
        if (violations) {
            std::cout << violationLine << std::endl;
            return 1;
        }
        return 0;
    }
}
