#include "forks.h"
#include "iosim.h"
#include "sched.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>

// ---- P17: the log under threads --------------------------------------------------------------------------------
// Threads log, change the level and switch the file. The history of calls (each with the moment it began and
// ended) is checked against what the sinks contain.
sched::Options SchedOptions(const Spec& sp);

static Spec GenP17(Rng& r, uint64_t) {
    Spec sp;
    int threads = r.range(1, 4);
    int files = 0;
    double pLevel = r.p(0.6) ? r.uni(0.02, 0.25) : 0, pFile = r.p(0.7) ? r.uni(0.03, 0.25) : 0, pFlush = r.p(0.4) ? 0.08 : 0;
    double pAlloc = r.p(0.2) ? 0.1 : 0, pBig = r.p(0.4) ? 0.2 : 0.02;
    bool badDisk = r.p(0.4);
    auto setFile = [&](Item& o) {
        o.set("kind", "file");
        double u = r.u();
        o.set("where", badDisk && u < 0.35 ? "bad" : u < 0.5 ? "nowhere" : u < 0.55 ? "dir" : "good");
        o.set("file", files++);
    };
    if (r.p(0.5)) {
        Item& o = sp.add("op").set("thread", -1);
        setFile(o);
    }
    if (r.p(0.3)) sp.add("op").set("thread", -1).set("kind", "level").set("level", r.range(0, 3));
    for (int t = 0; t < threads; ++t) {
        int n = r.range(1, 14);
        for (int i = 0; i < n; ++i) {
            Item& o = sp.add("op").set("thread", t);
            double u = r.u();
            if (u < pLevel) o.set("kind", "level").set("level", r.range(0, 3));
            else if (u < pLevel + pFile) setFile(o);
            else if (u < pLevel + pFile + pFlush) o.set("kind", "flush");
            else {
                o.set("kind", "msg").set("level", r.range(0, 3)).set("size", r.p(pBig) ? r.range(500, 20000) : r.range(0, 60));
                if (r.p(0.3)) o.set("form", 1);  // the formatting overload
                if (r.p(0.05)) o.set("lines", 1);
                if (r.p(pAlloc)) o.set("oom", 1);
            }
        }
    }
    if (badDisk) {
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            Item& f = sp.add("fault");
            static const std::vector<std::string> k{"error", "error", "short", "partial", "close", "open", "full"};
            f.set("kind", r.pick(k)).set("at", r.range(0, 4)).set("last", r.p(0.4) ? 1000000000 : r.range(1, 3)).set("salt", static_cast<int>(r.range(1, 1000000)));
        }
    }
    if (r.p(0.1)) sp.add("stderr").set("fails", 1);
    Item& s = sp.add("sched");
    s.set("seed", static_cast<int>(r.range(1, 1000000000)));
    s.set("mode", r.p(0.3) ? 1 : 0);
    s.set("pswitch", r.p(0.5) ? 1.0 : r.uni(0.05, 0.9));
    s.set("palloc", r.p(0.5) ? 0.0 : r.uni(0.05, 0.9));
    s.set("changes", r.range(1, 8));
    s.set("horizon", r.range(10, 300));
    return sp;
}
struct LogOp {
    const Item* it = nullptr;
    int thread = -1, id = 0;
    uint64_t inv = 0, ret = ~0ull;
    std::string text;    // of a message: the exact record
    bool threw = false;
};
static const char* kPrefix[] = {"[Error] ", "[Warning] ", "[Info] ", "[Debug] "};
static std::string MessageBody(const LogOp& o) {
    std::string s = "m" + std::to_string(o.id) + ":";
    int n = o.it->i("size");
    for (int i = 0; i < n; ++i) s += static_cast<char>('a' + (i * 7 + o.id) % 26);
    if (o.it->i("lines")) s += "\nand more";
    return s + "." + std::to_string(o.id) + "#";
}
static std::string WholeFile(const std::string& f) {
    std::ifstream in(f, std::ios::binary);
    return {std::istreambuf_iterator<char>(in), {}};
}
struct LogRun {
    std::vector<LogOp> ops;
    std::string dir;
    std::string Path(const Item& o) const {
        std::string w = o.str("where");
        if (w == "dir") return dir + "/good";
        if (w == "nowhere") return dir + "/nowhere/f" + o.str("file");
        return dir + "/" + w + "/f" + o.str("file");
    }
    void Do(LogOp& o) {
        const Item& it = *o.it;
        std::string k = it.str("kind");
        sched::Yield();
        o.inv = sched::Tick();
        if (k == "level") LogSetLevel(static_cast<LogLevel>(std::clamp(it.i("level"), 0, 3)));
        else if (k == "file") LogSetFile(Path(it));
        else if (k == "flush") LogFlush();
        else {
            std::string b = MessageBody(o);
            if (it.i("oom")) hooks::ArmAlloc(0);
            try {
                bool form = it.i("form") != 0;
                switch (it.i("level")) {
                    case 0: form ? LogError("{}", b) : LogError(b); break;
                    case 1: form ? LogWarning("{}", b) : LogWarning(b); break;
                    case 2: form ? LogMessage("{}", b) : LogMessage(b); break;
                    default: form ? LogDebug("{}", b) : LogDebug(b); break;
                }
            } catch (const std::bad_alloc&) {
                o.threw = true;
            }
            hooks::DisarmAlloc();
        }
        o.ret = sched::Tick();
        sched::Yield();
    }
};
// The values a register may have held during [inv, ret], given its writes.
template <typename V>
static std::vector<V> Possible(const std::vector<std::pair<const LogOp*, V>>& writes, const V& initial, const LogOp& m) {
    std::vector<V> out;
    bool initialStill = true;
    for (auto& w : writes) {
        if (w.first->ret < m.inv) initialStill = false;
        if (w.first->inv > m.ret) continue;
        bool gone = false;
        for (auto& x : writes)
            if (w.first->ret < x.first->inv && x.first->ret < m.inv) gone = true;
        if (!gone) out.push_back(w.second);
    }
    if (initialStill) out.push_back(initial);
    return out;
}
static void CheckLog(const LogRun& run, const std::string& errText, bool errWorks, bool faultsStruck, RunResult& r) {
    std::vector<std::pair<const LogOp*, int>> levels;
    std::vector<std::pair<const LogOp*, std::string>> targets;
    std::vector<const LogOp*> msgs;
    std::set<std::string> files, unsure;
    for (auto& o : run.ops) {
        std::string k = o.it->str("kind");
        if (k == "level") levels.push_back({&o, std::clamp(o.it->i("level"), 0, 3)});
        else if (k == "flush") targets.push_back({&o, ""});
        else if (k == "file") {
            std::string w = o.it->str("where"), p = run.Path(*o.it);
            bool opens = w == "good" || w == "bad";
            targets.push_back({&o, opens ? p : ""});
            if (opens) files.insert(p);
            if (w == "bad" && faultsStruck) unsure.insert(p);
        } else msgs.push_back(&o);
    }
    // what each sink holds, as a sequence of whole records
    std::map<std::string, std::map<int, size_t>> where;  // sink -> message -> position
    auto parse = [&](const std::string& sink, const std::string& text, const std::string& cls) {
        size_t at = 0, pos = 0;
        while (at < text.size()) {
            const LogOp* hit = nullptr;
            for (auto m : msgs)
                if (text.compare(at, m->text.size(), m->text) == 0) hit = m;
            if (!hit) {
                r.bad("log/torn-" + cls, "the content of a sink is not a sequence of whole messages; at byte " + std::to_string(at) + ": '" +
                                             text.substr(at, 120) + "'");
                return;
            }
            if (where[sink].count(hit->id)) {
                r.bad("log/twice-" + cls, Fmt("message m%d is twice in a sink", hit->id));
                return;
            }
            where[sink][hit->id] = pos++;
            at += hit->text.size();
        }
    };
    if (errWorks) parse("", errText, "stderr");
    for (auto& f : files)
        if (!unsure.count(f)) parse(f, WholeFile(f), "file");
    if (!r.violations.empty()) return;
    long emitted = 0;
    for (auto m : msgs) {
        int lv = m->it->i("level");
        bool may = lv == 0, must = lv == 0;
        if (lv > 0) {
            auto ls = Possible(levels, static_cast<int>(LogLevel::Message), *m);
            may = false;
            must = true;
            for (int l : ls) (l >= lv ? may : must) = l >= lv;
        }
        bool onErr = errWorks && where[""].count(m->id);
        int inFiles = 0;
        std::string in;
        for (auto& f : files)
            if (where[f].count(m->id)) ++inFiles, in = f;
        if (m->threw) may = true, must = false;
        if (errWorks) {
            if (must && !onErr) r.bad("log/lost-stderr", Fmt("message m%d (level %d) did not reach the standard error", m->id, lv));
            if (!may && onErr) r.bad("log/unwanted", Fmt("message m%d is below the level in force (%d) but was written", m->id, lv));
            if (inFiles && !onErr && !m->threw) r.bad("log/file-only", Fmt("message m%d reached the file but not the standard error", m->id));
            if (!m->threw) must = onErr;
        }
        if (inFiles > 1) r.bad("log/several-files", Fmt("message m%d is in %d files", m->id, inFiles));
        if (inFiles && !may) r.bad("log/unwanted", Fmt("message m%d is below the level in force but is in a file", m->id));
        auto ts = Possible(targets, std::string(), *m);
        bool sure = true, allowed = false;
        for (auto& t : ts) {
            if (t.empty() || unsure.count(t)) sure = false;
            if (t == in) allowed = true;
        }
        if (inFiles && !allowed) r.bad("log/wrong-file", Fmt("message m%d is in a file that was not the target while it was logged", m->id));
        if (must && sure && inFiles == 0) r.bad("log/lost-file", Fmt("message m%d did not reach the log file", m->id));
        emitted += must;
    }
    // an earlier message comes first in every sink
    for (auto& s : where)
        for (auto a : msgs)
            for (auto b : msgs)
                if (a->ret < b->inv && s.second.count(a->id) && s.second.count(b->id) && s.second[a->id] > s.second[b->id])
                    r.bad("log/order", Fmt("message m%d was logged before m%d but comes after it", a->id, b->id));
    r.add("messages", static_cast<double>(msgs.size()));
    r.add("messages-written", static_cast<double>(emitted));
}
static std::string CaptureTail(const std::string& f) {
    std::string s = WholeFile(f);
    auto at = s.find("WARNING: ThreadSanitizer");
    return at == std::string::npos ? s.substr(s.size() > 3000 ? s.size() - 3000 : 0) : s.substr(at, 3000);
}
static void ExecP17(const Spec& sp, RunResult& r) {
    std::string dir = ScratchDir() + "/log";
    mkdir(ScratchDir().c_str(), 0700);
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
    mkdir(dir.c_str(), 0700);
    mkdir((dir + "/good").c_str(), 0700);
    mkdir((dir + "/bad").c_str(), 0700);
    std::string cap = dir + "/stderr";
    bool errWorks = sp.one("stderr").i("fails") == 0;
    std::string out = InFreshProcess(
        [&] {
            int fd = open(cap.c_str(), O_CREAT | O_RDWR | O_APPEND, 0600);
            dup2(fd, 2);
            close(fd);
            LogRun run;
            run.dir = dir;
            int id = 0, threads = 0;
            for (auto it : sp.all("op")) {
                LogOp o;
                o.it = it;
                o.thread = it->i("thread");
                o.id = id++;
                if (it->str("kind") == "msg") o.text = std::string(kPrefix[std::clamp(it->i("level"), 0, 3)]) + MessageBody(o) + "\n";
                run.ops.push_back(o);
                threads = std::max(threads, o.thread + 1);
            }
            std::vector<iosim::Fault> faults;
            for (auto f : sp.all("fault")) {
                iosim::Fault x;
                std::string k = f->str("kind");
                x.kind = k == "short" ? iosim::kShort : k == "partial" ? iosim::kPartial : iosim::kError;
                x.op = k == "close" ? iosim::kClose : k == "open" ? iosim::kOpen : iosim::kWrite;
                x.err = k == "full" ? ENOSPC : k == "open" ? EMFILE : EIO;
                x.at = f->i("at");
                x.last = f->i("last", 1);
                x.salt = static_cast<uint64_t>(f->i("salt"));
                faults.push_back(x);
            }
            iosim::Watch((dir + "/bad").c_str());
            iosim::SetFaults(faults.data(), static_cast<int>(faults.size()));
            if (!errWorks) iosim::SetErrFault(1);
            for (auto& o : run.ops)
                if (o.thread < 0) run.Do(o);
            sched::Stats st;
            if (threads > 0)
                st = sched::Run(threads,
                                [](void* arg, int i) {
                                    auto* c = static_cast<LogRun*>(arg);
                                    for (auto& o : c->ops)
                                        if (o.thread == i) c->Do(o);
                                },
                                &run, SchedOptions(sp));
            LogFlush();
            iosim::Unwatch();
            RunResult rr;
            long struck = 0;
            for (auto& f : faults) {
                struck += f.fired;
                if (f.fired) rr.add(f.op == iosim::kOpen ? "fault.log-open" : f.op == iosim::kClose ? "fault.log-close" : f.err == ENOSPC ? "fault.log-disk-full" : "fault.log-write", f.fired);
            }
            bool any = struck > 0;
            CheckLog(run, WholeFile(cap), errWorks, any, rr);
            Bytes b;
            b.putU(rr.violations.size());
            for (auto& v : rr.violations) b.put(v.cls), b.put(v.msg);
            b.putU(rr.stat.size());
            for (auto& s : rr.stat) b.put(s.first), b.putU(static_cast<uint64_t>(s.second));
            b.putU(static_cast<uint64_t>(st.yields));
            b.putU(static_cast<uint64_t>(st.switches));
            b.putU(st.hash);
            b.putU(static_cast<uint64_t>(st.steals));
            return b.s;
        },
        [&] { dprintf(2, "%s\n", CaptureTail(cap).c_str()); });
    Bytes b{out};
    for (size_t n = b.getU(); n > 0; --n) {
        std::string c = b.get();
        r.bad(c, b.get());
    }
    for (size_t n = b.getU(); n > 0; --n) {
        std::string k = b.get();
        r.add(k, static_cast<double>(b.getU()));
    }
    double y = static_cast<double>(b.getU()), sw = static_cast<double>(b.getU());
    uint64_t h = b.getU();
    uint64_t steals = b.getU();
    if (steals) r.add("schedules-not-decided", static_cast<double>(steals));
    r.add("yield-points", y);
    r.add("fault.context-switches", sw);
    if (!errWorks) r.add("fault.stderr-fails");
    for (auto o : sp.all("op")) r.add("ops." + o->str("kind"));
    r.mix(h);
    for (auto& v : r.violations) r.mix(HashStr(v.cls));
    r.states.push_back(h);
    r.nontrivial = sw > 1;
    r.shape = Mix64(h ^ HashStr(sp.text()));
    std::filesystem::remove_all(dir, ec);
}
static RegisterProp p17({"P17", 20000, 400000, 30, GenP17, ExecP17,
                         "a run counts when the scheduler switched between logging threads; distinct = distinct operations and schedule. distinct_state_signatures counts the distinct schedules",
                         "the log (Log.cpp) in real threads under a baton scheduler, real files; ThreadSanitizer build",
                         "thread scheduling, disk faults of the log files and of the standard error decided by the seed"});
