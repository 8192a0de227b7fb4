#include "gen.h"
#include "sim.h"
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <set>

std::vector<Prop>& Props() {
    static std::vector<Prop> v;
    return v;
}
static std::string g_scratch;
std::string ScratchDir() { return g_scratch; }
static double Now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::string Esc(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '\n') o += "\\n";
        else if (c == '\\') o += "\\\\";
        else if (c == '\t') o += "\\t";
        else o += c;
    }
    return o;
}
static std::string Unesc(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\\' && i + 1 < s.size()) {
            ++i;
            o += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i];
        } else o += s[i];
    }
    return o;
}
static std::string Json(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32) o += ' ';
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

// ---- one run in this process ----------------------------------------------------------------------
static RunResult Execute(const Prop& p, const Spec& sp) {
    RunResult r;
    p.exec(sp, r);
    return r;
}
static std::string Encode(const RunResult& r) {
    std::ostringstream o;
    o << "H " << r.hash << "\nN " << (r.nontrivial ? 1 : 0) << "\nS " << r.shape << "\n";
    for (auto& v : r.violations) o << "V " << Esc(v.cls) << "\t" << Esc(v.msg) << "\n";
    o.precision(17);
    for (auto& s : r.stat) o << "C " << s.first << "\t" << s.second << "\n";
    for (auto s : r.states) o << "T " << s << "\n";
    return o.str();
}
static RunResult Decode(const std::string& text) {
    RunResult r;
    std::istringstream in(text);
    std::string l;
    while (std::getline(in, l)) {
        if (l.size() < 3) continue;
        std::string v = l.substr(2);
        switch (l[0]) {
            case 'H': r.hash = strtoull(v.c_str(), nullptr, 10); break;
            case 'N': r.nontrivial = v == "1"; break;
            case 'S': r.shape = strtoull(v.c_str(), nullptr, 10); break;
            case 'T': r.states.push_back(strtoull(v.c_str(), nullptr, 10)); break;
            case 'V': {
                auto t = v.find('\t');
                r.violations.push_back({Unesc(v.substr(0, t)), Unesc(v.substr(t + 1))});
                break;
            }
            case 'C': {
                auto t = v.find('\t');
                r.stat[v.substr(0, t)] = strtod(v.c_str() + t + 1, nullptr);
                break;
            }
            default: break;
        }
    }
    return r;
}

// ---- worker processes --------------------------------------------------------------------------------
static std::string MakeScratch(const std::string& tag) {
    std::string base = getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp";
    std::string t = base + "/hbsim-" + tag + "-XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!mkdtemp(b.data())) {
        perror("mkdtemp");
        exit(2);
    }
    return b.data();
}
static void Quiet(const std::string& errFile) {
    int fd = open(errFile.c_str(), O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0600);
    dup2(fd, 2);
    dup2(fd, 1);
    if (fd > 2) close(fd);
}
static std::string Tail(const std::string& file, size_t n = 600) {
    std::ifstream f(file, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    if (s.size() > n) s = s.substr(s.size() - n);
    return s;
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:exitcode=87:handle_abort=0"; }
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:die_after_fork=0:report_thread_leaks=0:report_signal_unsafe=0:atexit_sleep_ms=0:history_size=3"; }
static std::string DeathClass(int status, const std::string& errText) {
    for (const char* t : {"AddressSanitizer: ", "runtime error: ", "ThreadSanitizer: "}) {
        auto at = errText.find(t);
        if (at == std::string::npos) continue;
        std::string what;
        for (char c : errText.substr(at + strlen(t), 40)) {
            if (c == '\n' || isdigit(static_cast<unsigned char>(c))) break;
            what += c == ' ' ? '-' : c;
        }
        return "memory/" + what;
    }
    if (WIFSIGNALED(status)) {
        int sig = WTERMSIG(status);
        if (sig == SIGABRT) {
            if (errText.find("terminate called") != std::string::npos) return "crash/terminate";
            return "crash/abort";
        }
        if (sig == SIGKILL) return "hang";
        return "crash/signal-" + std::to_string(sig);
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 88) return "deadlock";
    if (WIFEXITED(status) && WEXITSTATUS(status) == 86) return "crash/eigen-out-of-range";
    return "crash/exit-" + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1);
}
struct Worker {
    pid_t pid = -1;
    int fd = -1;
    std::string buf, errFile;
    long current = -1;
    double since = 0, cpu0 = 0;
    size_t next = 0;  // position in its own list
    std::vector<long> list;
};
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
static const double kSlow = 2.0;
#else
static const double kSlow = 1.0;
#endif
static double CpuOf(pid_t pid) {
    clockid_t c;
    timespec t{};
    if (clock_getcpuclockid(pid, &c) != 0 || clock_gettime(c, &t) != 0) return 0;
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
static void LimitMemory() {
    rlimit rl{6ull << 30, 6ull << 30};
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    setrlimit(RLIMIT_AS, &rl);
#else
    (void)rl;
#endif
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
}
using SpecOf = std::function<Spec(long)>;
using Sink = std::function<void(long, RunResult&&)>;

// Runs the given indices over `jobs` forked workers; a worker that dies yields a crash violation.
static void RunMany(const Prop& p, const std::vector<long>& indices, int jobs, const SpecOf& spec, const Sink& sink,
                    double deadline) {
    std::string dir = MakeScratch("w");
    size_t taken = 0;
    std::vector<Worker> ws(static_cast<size_t>(std::max(1, std::min<int>(jobs, static_cast<int>(indices.size())))));
    // static interleaved assignment: independent of timing
    for (size_t i = 0; i < indices.size(); ++i) ws[i % ws.size()].list.push_back(indices[i]);
    (void)taken;
    auto start = [&](Worker& w, size_t wi) {
        int pf[2];
        if (pipe(pf) != 0) exit(2);
        w.errFile = dir + "/err" + std::to_string(wi);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            close(pf[0]);
            for (auto& o : ws)
                if (o.fd >= 0) close(o.fd);
            Quiet(w.errFile);
            LimitMemory();
            g_scratch = dir + "/s" + std::to_string(wi) + "_" + std::to_string(getpid());
            mkdir(g_scratch.c_str(), 0700);
            for (size_t k = w.next; k < w.list.size(); ++k) {
                if (Now() > deadline) break;
                std::string head = "B " + std::to_string(w.list[k]) + "\n";
                if (write(pf[1], head.data(), head.size()) < 0) _exit(3);
                if (ftruncate(2, 0) != 0) {}
                Spec sp = spec(w.list[k]);
                RunResult r = Execute(p, sp);
                std::string out = Encode(r) + "E " + std::to_string(w.list[k]) + "\n";
                size_t off = 0;
                while (off < out.size()) {
                    ssize_t n = write(pf[1], out.data() + off, out.size() - off);
                    if (n <= 0) _exit(3);
                    off += static_cast<size_t>(n);
                }
            }
            std::error_code ec;
            std::filesystem::remove_all(g_scratch, ec);
            _exit(0);
        }
        close(pf[1]);
        w.pid = pid;
        w.fd = pf[0];
        w.buf.clear();
        w.current = -1;
        w.since = Now();
    };
    for (size_t i = 0; i < ws.size(); ++i) start(ws[i], i);
    for (;;) {
        std::vector<pollfd> pfs;
        std::vector<size_t> who;
        for (size_t i = 0; i < ws.size(); ++i)
            if (ws[i].fd >= 0) {
                pfs.push_back({ws[i].fd, POLLIN, 0});
                who.push_back(i);
            }
        if (pfs.empty()) break;
        poll(pfs.data(), pfs.size(), 500);
        for (size_t k = 0; k < pfs.size(); ++k) {
            Worker& w = ws[who[k]];
            bool closed = false;
            if (pfs[k].revents) {
                char b[65536];
                ssize_t n = read(w.fd, b, sizeof b);
                if (n > 0) w.buf.append(b, static_cast<size_t>(n));
                else closed = true;
            }
            // consume complete records
            for (;;) {
                if (w.current < 0) {
                    auto nl = w.buf.find('\n');
                    if (nl == std::string::npos) break;
                    if (w.buf[0] == 'B') {
                        w.current = strtol(w.buf.c_str() + 2, nullptr, 10);
                        w.since = Now();
                        w.cpu0 = CpuOf(w.pid);
                    }
                    w.buf.erase(0, nl + 1);
                } else {
                    std::string end = "E " + std::to_string(w.current) + "\n";
                    size_t e = std::string::npos;
                    if (w.buf.compare(0, end.size(), end) == 0) e = 0;
                    else {
                        auto q = w.buf.find("\n" + end);
                        if (q != std::string::npos) e = q + 1;
                    }
                    if (e == std::string::npos) break;
                    sink(w.current, Decode(w.buf.substr(0, e)));
                    w.buf.erase(0, e + end.size());
                    w.current = -1;
                    w.next++;
                }
            }
            // A run hangs when it has used its time itself, or waits for something that does not come; on a busy
            // machine a slow run is neither.
            if (!closed && w.current >= 0 && Now() - w.since > p.timeout) {
                double wall = Now() - w.since, cpu = CpuOf(w.pid) - w.cpu0;
                if (cpu > p.timeout * kSlow || cpu < 0.01 * wall || wall > 6 * p.timeout * kSlow) kill(w.pid, SIGKILL);
            }
            if (closed) {
                int st = 0;
                waitpid(w.pid, &st, 0);
                close(w.fd);
                w.fd = -1;
                if (w.current >= 0) {
                    std::string err = Tail(w.errFile, 20000);
                    RunResult r;
                    std::string cls = DeathClass(st, err);
                    size_t at = cls.rfind("memory/", 0) == 0 ? std::min({err.find("AddressSanitizer: "), err.find("ThreadSanitizer: "), err.find("runtime error: ")}) : std::string::npos;
                    err = at != std::string::npos ? err.substr(at, 700) : err.substr(err.size() > 600 ? err.size() - 600 : 0);
                    r.bad(cls, "the process died (" + cls + "): " + err);
                    r.nontrivial = true;
                    sink(w.current, std::move(r));
                    w.next++;
                    if (w.next < w.list.size() && Now() < deadline) start(w, who[k]);
                }
            }
        }
    }
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
}
static RunResult RunIsolated(const Prop& p, const Spec& sp) {
    RunResult out;
    RunMany(p, {0}, 1, [&](long) { return sp; }, [&](long, RunResult&& r) { out = std::move(r); }, 1e18);
    return out;
}

// ---- minimisation -----------------------------------------------------------------------------------------
static bool HasClass(const RunResult& r, const std::string& cls) {
    for (auto& v : r.violations)
        if (v.cls == cls) return true;
    return false;
}
static Spec Minimise(const Prop& p, Spec sp, const std::string& cls, double budget, int jobs, int* tried) {
    double end = Now() + budget;
    auto firstGood = [&](const std::vector<Spec>& cand) -> int {
        if (cand.empty()) return -1;
        std::vector<long> idx;
        for (size_t i = 0; i < cand.size(); ++i) idx.push_back(static_cast<long>(i));
        std::map<long, bool> ok;
        RunMany(p, idx, jobs, [&](long i) { return cand[static_cast<size_t>(i)]; },
                [&](long i, RunResult&& r) { ok[i] = HasClass(r, cls); ++*tried; }, end);
        for (auto i : idx)
            if (ok[i]) return static_cast<int>(i);
        return -1;
    };
    bool progress = true;
    while (progress && Now() < end) {
        progress = false;
        // shorten the period / spin-up
        {
            std::vector<Spec> cand;
            Item* t = sp.find("timer");
            if (t) {
                int n = t->i("n"), su = t->i("spinup");
                for (int m : {n / 8, n / 4, n / 2, (3 * n) / 4, n - 1}) {
                    if (m < 1 || m >= n) continue;
                    Spec c = sp;
                    c.find("timer")->set("n", m);
                    if (c.find("timer")->i("spinup") > m) c.find("timer")->set("spinup", m);
                    cand.push_back(c);
                }
                for (int m : {0, su / 2, su - 1}) {
                    if (m < 0 || m >= su) continue;
                    Spec c = sp;
                    c.find("timer")->set("spinup", m);
                    cand.push_back(c);
                }
            }
            int g = firstGood(cand);
            if (g >= 0) {
                sp = cand[static_cast<size_t>(g)];
                progress = true;
            }
        }
        // drop items (chunks, then single)
        for (size_t chunk : {8u, 3u, 1u}) {
            size_t i = 0;
            while (i < sp.items.size() && Now() < end) {
                std::vector<Spec> cand;
                std::vector<size_t> at;
                for (int k = 0; k < jobs && i + static_cast<size_t>(k) * chunk < sp.items.size(); ++k) {
                    size_t from = i + static_cast<size_t>(k) * chunk;
                    Spec c = sp;
                    size_t to = std::min(from + chunk, c.items.size());
                    std::vector<Item> keep;
                    bool removed = false;
                    for (size_t q = 0; q < c.items.size(); ++q) {
                        bool fixed = c.items[q].kind == "model" || c.items[q].kind == "timer" || c.items[q].kind == "climate" ||
                                     c.items[q].kind == "prop";
                        if (q >= from && q < to && !fixed) removed = true;
                        else keep.push_back(c.items[q]);
                    }
                    if (!removed) continue;
                    c.items = keep;
                    bool anyUnit = !c.all("unit").empty() || sp.all("unit").empty();
                    if (!anyUnit) continue;
                    // connections and changes of removed units go with them
                    std::set<int> ids;
                    for (auto u : c.all("unit")) ids.insert(u->i("id"));
                    std::vector<Item> keep2;
                    for (auto& it : c.items) {
                        if (it.kind == "conn" && (!ids.count(it.i("from")) || !ids.count(it.i("to")))) continue;
                        if ((it.kind == "change" || it.kind == "init") && it.has("unit") && it.i("unit") != 0 && !ids.count(it.i("unit"))) continue;
                        keep2.push_back(it);
                    }
                    c.items = keep2;
                    cand.push_back(c);
                    at.push_back(from);
                }
                int g = firstGood(cand);
                if (g >= 0) {
                    sp = cand[static_cast<size_t>(g)];
                    progress = true;
                    i = at[static_cast<size_t>(g)];
                } else i += static_cast<size_t>(jobs) * chunk;
            }
        }
        // simplify optional model features
        {
            const Item& m = sp.one("model");
            std::vector<Spec> cand;
            for (auto& kv : m.kv) {
                std::string def;
                static const std::map<std::string, std::string> base = {
                    {"solver", "euler_explicit"}, {"soil", "1"}, {"retention", "0"}, {"refreeze", "0"}, {"subl", "none"},
                    {"redis", "none"}, {"ice", "none"}, {"canopy", "0"}, {"variants", "0"}, {"rainsnow", "0"}, {"split", "linear"},
                    {"melt", "degree_day"}, {"glacier", "fin"}, {"snow", "0"}, {"skipgl", "0"}};
                auto b = base.find(kv.first);
                if (b == base.end() || b->second == kv.second) continue;
                Spec c = sp;
                c.find("model")->set(kv.first, b->second);
                cand.push_back(c);
            }
            int g = firstGood(cand);
            if (g >= 0) {
                sp = cand[static_cast<size_t>(g)];
                progress = true;
            }
        }
    }
    return sp;
}

// ---- known findings ------------------------------------------------------------------------------------------
struct Known {
    std::string prop, cls, file, text;
};
static std::vector<Known> LoadKnown(const std::string& path, const std::string& prop) {
    // known: property=P.. class=<class> replay=<file> :: text      (entries "fixed: ..." suppress nothing)
    std::vector<Known> out;
    std::ifstream f(path);
    std::string l;
    while (std::getline(f, l)) {
        if (l.rfind("known:", 0) != 0) continue;
        auto sep = l.find(" :: ");
        Known k;
        std::istringstream in(l.substr(6, sep == std::string::npos ? std::string::npos : sep - 6));
        std::string tok;
        while (in >> tok) {
            if (tok.rfind("property=", 0) == 0) k.prop = tok.substr(9);
            if (tok.rfind("class=", 0) == 0) k.cls = tok.substr(6);
            if (tok.rfind("replay=", 0) == 0) k.file = tok.substr(7);
        }
        if (sep != std::string::npos) k.text = l.substr(sep + 4);
        if (k.prop == prop) out.push_back(k);
    }
    return out;
}

static const Prop* FindProp(const std::string& id) {
    for (auto& p : Props())
        if (p.id == id) return &p;
    return nullptr;
}
static Spec Generate(const Prop& p, uint64_t seed, long index) {
    Rng r(HashStr(p.id, Mix64(seed)) ^ Mix64(static_cast<uint64_t>(index) + 0x51ed));
    Spec sp = p.gen(r, static_cast<uint64_t>(index));
    if (sp.find("model") && p.id != "P13" && p.id != "P21") RenameBase(r, sp);
    Item it{"prop", {}};
    it.set("id", p.id).set("seed", seed).set("index", static_cast<int>(index));
    sp.items.insert(sp.items.begin(), it);
    return sp;
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> opt;
    std::vector<std::string> pos;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0) {
            std::string v = i + 1 < argc ? argv[++i] : "";
            opt[a.substr(2)] = v;
        } else pos.push_back(a);
    }
    if (pos.empty()) {
        fprintf(stderr, "usage: hbsim check|replay|show|list ...\n");
        return 2;
    }
    auto get = [&](const std::string& k, const std::string& d) { return opt.count(k) ? opt[k] : d; };
    signal(SIGPIPE, SIG_IGN);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    int jobs = atoi(get("jobs", "8").c_str());
    if (pos[0] == "list") {
        for (auto& p : Props()) printf("%s quick=%d thorough=%d\n", p.id.c_str(), p.quick, p.thorough);
        return 0;
    }
    if (pos[0] == "show") {
        const Prop* p = FindProp(get("property", ""));
        if (!p) return 2;
        printf("%s", Generate(*p, strtoull(get("seed", "1").c_str(), nullptr, 10), atol(get("index", "0").c_str())).text().c_str());
        return 0;
    }
    if (pos[0] == "replay" || pos[0] == "inproc") {
        std::ifstream f(pos.at(1));
        if (!f) {
            fprintf(stderr, "cannot read %s\n", pos[1].c_str());
            return 2;
        }
        std::string text((std::istreambuf_iterator<char>(f)), {});
        Spec sp = Spec::parse(text);
        const Prop* p = FindProp(get("property", sp.one("prop").str("id")));
        if (!p) return 2;
        RunResult r;
        if (pos[0] == "inproc") {
            g_scratch = MakeScratch("i");
            r = Execute(*p, sp);
            std::error_code ec;
            std::filesystem::remove_all(g_scratch, ec);
        } else r = RunIsolated(*p, sp);
        printf("hash %016llx\n", static_cast<unsigned long long>(r.hash));
        for (auto& s : r.stat) printf("stat %s %g\n", s.first.c_str(), s.second);
        for (auto& v : r.violations) printf("violation %s: %s\n", v.cls.c_str(), v.msg.c_str());
        if (!r.violations.empty()) {
            printf("VIOLATION property=%s replay=%s\n", p->id.c_str(), pos[1].c_str());
            return 1;
        }
        printf("no violation\n");
        return 0;
    }
    if (pos[0] != "check") return 2;

    const Prop* p = FindProp(get("property", ""));
    if (!p) {
        fprintf(stderr, "unknown property\n");
        return 2;
    }
    std::string tier = get("tier", "quick");
    uint64_t seed = strtoull(get("seed", "1").c_str(), nullptr, 10);
    std::string verif = get("verif", "/verif");
    long runs = tier == "thorough" ? p->thorough : p->quick;
    if (opt.count("runs")) runs = atol(opt["runs"].c_str());
    double budget = strtod(get("budget", tier == "thorough" ? "1500" : "200").c_str(), nullptr);
    double t0 = Now();

    std::vector<long> idx;
    for (long i = 0; i < runs; ++i) idx.push_back(i);
    std::map<std::string, double> stat;
    std::set<uint64_t> shapes, states;
    long evals = 0, nontrivial = 0;
    std::map<long, uint64_t> hashes;
    std::map<std::string, std::pair<long, std::string>> found;  // class -> first index, message
    std::map<std::string, long> foundCount;
    RunMany(*p, idx, jobs, [&](long i) { return Generate(*p, seed, i); },
            [&](long i, RunResult&& r) {
                ++evals;
                for (auto& s : r.stat) stat[s.first] += s.second;
                if (r.nontrivial) {
                    ++nontrivial;
                    shapes.insert(r.shape ? r.shape : r.hash);
                }
                for (auto s : r.states) states.insert(s);
                hashes[i] = r.hash;
                for (auto& v : r.violations) {
                    ++foundCount[v.cls];
                    auto it = found.find(v.cls);
                    if (it == found.end() || it->second.first > i) found[v.cls] = {i, v.msg};
                }
            },
            t0 + budget);

    // determinism: repeat a sample of the runs in other processes and compare every observation
    long repeats = 0, mismatches = 0;
    {
        std::vector<long> sample;
        long want = std::max<long>(8, runs / 40);
        for (long k = 0; k < want && k < runs; ++k) sample.push_back((k * 7919 + 3) % runs);
        std::set<long> uniq(sample.begin(), sample.end());
        sample.assign(uniq.begin(), uniq.end());
        RunMany(*p, sample, std::max(1, jobs - 1), [&](long i) { return Generate(*p, seed, i); },
                [&](long i, RunResult&& r) {
                    if (!hashes.count(i)) return;
                    ++repeats;
                    if (hashes[i] != r.hash) {
                        ++mismatches;
                        printf("NOTE run %ld did not repeat exactly (%016llx / %016llx)\n", i,
                               static_cast<unsigned long long>(hashes[i]), static_cast<unsigned long long>(r.hash));
                    }
                },
                1e18);
    }

    // known findings: their replays are executed on every check
    auto known = LoadKnown(verif + "/known_findings.txt", p->id);
    std::set<std::string> knownCls;
    for (auto& k : known) {
        knownCls.insert(k.cls);
        bool still = true;
        if (!k.file.empty()) {
            std::ifstream f(verif + "/" + k.file);
            std::string text((std::istreambuf_iterator<char>(f)), {});
            RunResult r = RunIsolated(*p, Spec::parse(text));
            still = HasClass(r, k.cls);
        }
        printf("KNOWN-FINDING: property=%s %s%s\n", p->id.c_str(), k.text.c_str(), still ? "" : " (no longer observed)");
    }

    long reported = 0;
    std::vector<std::string> vios;
    for (auto& fnd : found) {
        const std::string& cls = fnd.first;
        if (knownCls.count(cls)) continue;
        Spec sp = Generate(*p, seed, fnd.second.first);
        // gate: the violation has to repeat in fresh processes
        RunResult a = RunIsolated(*p, sp);
        RunResult b = RunIsolated(*p, sp);
        if (!HasClass(a, cls) || !HasClass(b, cls)) {
            printf("NOTE unreproducible %s at index %ld: %s\n", cls.c_str(), fnd.second.first, fnd.second.second.c_str());
            stat["unreproducible"] += 1;
                continue;
        }
        ++reported;
        if (reported > 4) {
            printf("also: %s (%ld runs) %s\n", cls.c_str(), foundCount[cls], fnd.second.second.c_str());
            continue;
        }
        int tried = 0;
        double mb = strtod(get("minimise", tier == "thorough" ? "90" : "25").c_str(), nullptr);
        Spec small = cls == "hang" ? sp : Minimise(*p, sp, cls, mb, jobs, &tried);
        RunResult rr = cls == "hang" ? a : RunIsolated(*p, small);
        RunResult rr2 = cls == "hang" ? a : RunIsolated(*p, small);
        if (!HasClass(rr, cls) || !HasClass(rr2, cls)) small = sp, rr = a;
        std::string msg;
        for (auto& v : rr.violations)
            if (v.cls == cls) msg = v.msg;
        std::string safe = cls;
        for (auto& c : safe)
            if (!isalnum(static_cast<unsigned char>(c))) c = '-';
        std::string dir = verif + "/build/replays";
        std::filesystem::create_directories(dir);
        std::string path = dir + "/" + p->id + "-" + safe + "-" + std::to_string(seed) + "-" + std::to_string(fnd.second.first) + ".sim";
        std::ofstream f(path);
        f << "# " << p->id << " " << cls << "\n# " << Esc(msg) << "\n# original run: seed " << seed << " index " << fnd.second.first
          << "; hash " << rr.hash << "; " << tried << " candidates tried while minimising\n"
          << small.text();
        f.close();
        printf("%s: %s (%ld of %ld runs)\n", cls.c_str(), msg.c_str(), foundCount[cls], evals);
        printf("VIOLATION property=%s replay=%s\n", p->id.c_str(), path.c_str());
        vios.push_back(cls + ": " + msg);
    }

    double wall = Now() - t0;
    std::filesystem::create_directories(verif + "/evidence");
    std::ofstream ev(verif + "/evidence/" + p->id + ".json");
    ev << "{\n \"property\": " << Json(p->id) << ",\n \"tier\": " << Json(tier) << ",\n \"seed\": " << seed << ",\n \"level\": " << Json(p->level)
       << ",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << shapes.size()
       << ",\n  \"rule\": " << Json(p->rule) << ",\n  \"samples\": [";
    for (long i = 0; i < std::min<long>(2, runs); ++i) {
        ev << (i ? ", " : "") << Json(Generate(*p, seed, i).text());
    }
    ev << "],\n  \"nontrivial_runs\": " << nontrivial << ",\n  \"seeds_per_hour\": " << static_cast<long>(static_cast<double>(evals) / std::max(0.001, wall) * 3600)
       << ",\n  \"simulated_days\": " << static_cast<long>(stat["simdays"]) << ",\n  \"simulated_steps\": " << static_cast<long>(stat["steps"])
       << ",\n  \"distinct_state_signatures\": " << states.size() << ",\n  \"determinism_repeats\": " << repeats
       << ",\n  \"determinism_mismatches\": " << mismatches << ",\n  \"faults_injected\": {";
    bool first = true;
    for (auto& s : stat)
        if (s.first.rfind("fault.", 0) == 0) {
            ev << (first ? "" : ", ") << Json(s.first.substr(6)) << ": " << static_cast<long>(s.second);
            first = false;
        }
    ev << "},\n  \"probes\": {";
    first = true;
    for (auto& s : stat)
        if (s.first.rfind("fault.", 0) != 0) {
            ev << (first ? "" : ", ") << Json(s.first) << ": " << s.second;
            first = false;
        }
    ev << "},\n  \"real_components\": " << Json(p->real) << ",\n  \"stubbed_components\": " << Json(p->stub) << "\n },\n \"wall_s\": " << wall
       << ",\n \"violations\": " << reported;
    ev << ",\n \"assumptions\": [\"the simulator's own reference computations and tolerances (DESIGN.md)\", \"gcc build with _GLIBCXX_ASSERTIONS, -O1, NDEBUG as the shipped Release build\"]\n}\n";
    ev.close();
    printf("%s %s seed=%llu: %ld runs (%zu distinct), %ld repeats, %ld mismatches, %ld violation classes, %.1f s\n", p->id.c_str(), tier.c_str(),
           static_cast<unsigned long long>(seed), evals, shapes.size(), repeats, mismatches, reported, wall);
    if (opt.count("stats"))
        for (auto& s : stat) printf("  %s = %g\n", s.first.c_str(), s.second);
    if (reported) return 1;
    if (evals == 0) return 2;
    return 0;
}
