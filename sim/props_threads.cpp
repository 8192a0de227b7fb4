#include "forks.h"
#include "gen.h"
#include "sched.h"
#include <fcntl.h>

// ---- P16: several models in one process ---------------------------------------------------------------------
// Up to four scenarios, each with its own history of operations, on up to four simulated threads. What each model
// reports is compared bit for bit with what the same history gives in a process of its own.
struct Seen {
    std::string op;
    bool ok = false;
    std::string msg;
    Report rep;
};
struct Actor {
    Spec sp;
    std::unique_ptr<World> w;
    std::vector<Seen> seen;
    size_t nestAt = 0;
    std::function<void()> onStep;
    void Do(const Item& op) {
        std::string k = op.str("kind");
        Seen s;
        s.op = k;
        if (k == "build" || k == "rebuild") {
            w.reset();
            w = std::make_unique<World>(sp);
            s.ok = w->Build();
            s.msg = w->error;
            if (!s.ok) w.reset();
        } else if (!w) {
            return;
        } else if (k == "run" || k == "rerun" || k == "fail") {
            int n = 0, at = k == "fail" ? op.i("at") : -1;
            if (w->probe) {
                w->probe->onAdvance = [&, at]() mutable {
                    ++n;
                    sched::Yield();
                    if (onStep) onStep();
                    if (n == at) {
                        if (op.i("throw")) throw std::runtime_error("simulated failure");
                        return false;
                    }
                    return true;
                };
                w->probe->onSet = [&](double) {
                    sched::Yield();
                    return true;
                };
            }
            if (k != "run") w->model->Reset();
            RunOutcome o = RunModel(*w->model);
            s.ok = o.ok;
            s.msg = o.msg;
            if (o.ok) s.rep = Collect(*w->model);
            if (w->probe) w->probe->onAdvance = nullptr, w->probe->onSet = nullptr;
        } else if (k == "save") {
            w->model->SaveAsInitialState();
            s.ok = true;
        } else if (k == "destroy") {
            w.reset();
            s.ok = true;
        }
        seen.push_back(std::move(s));
        sched::Yield();
    }
};
static Spec SubSpec(const Spec& sp, int j) {
    Spec s;
    for (auto& it : sp.items)
        if (it.has("of") && it.i("of") == j && it.kind != "op") s.items.push_back(it);
    return s;
}
static Spec GenP16(Rng& r, uint64_t) {
    Spec sp;
    int n = r.range(2, 4), threads = r.p(0.2) ? 1 : r.range(2, std::min(n, 4));
    bool twins = r.p(0.3);  // the same model several times
    std::vector<std::vector<Item>> ops(static_cast<size_t>(n));
    Spec first;
    for (int j = 0; j < n; ++j) {
        GenOpt o;
        o.minN = 3;
        o.maxN = 16;
        o.maxUnits = 3;
        o.pVariants = 0.25;
        o.pEvo = 0.2;
        o.exchange = r.p(0.2);
        o.logall = r.p(0.8);
        Spec s = twins && j > 0 ? first : GenScenario(r, o);
        if (j == 0) first = s;
        if (twins && j > 0) s.find("climate")->set("seed", static_cast<int>(r.range(1, 1000000)));
        Clock c = Clock::from(s);
        for (auto& it : s.items) {
            Item k = it;
            k.set("of", j);
            sp.items.push_back(k);
        }
        auto add = [&](const std::string& kind) -> Item& {
            ops[static_cast<size_t>(j)].push_back(Item{"op", {}});
            ops[static_cast<size_t>(j)].back().set("of", j).set("kind", kind);
            return ops[static_cast<size_t>(j)].back();
        };
        add("build");
        bool clean = true;  // no run since the last reset
        int m = r.range(1, 4);
        for (int i = 0; i < m; ++i) {
            double u = r.u();
            if (u < 0.5 || i == 0) add(clean ? "run" : "rerun"), clean = false;
            else if (u < 0.7) add("fail").set("at", r.range(1, c.n)).set("throw", r.p(0.3) ? 1 : 0), clean = false;
            else if (u < 0.8) add("save");
            else add("rebuild"), clean = true;
        }
        if (r.p(0.3)) add("destroy");
    }
    for (int j = 0; j < n; ++j) sp.add("on").set("of", j).set("thread", j < threads ? j : r.range(0, threads - 1));
    // the operations of the actors in one order: those on one thread follow it
    std::vector<size_t> pos(static_cast<size_t>(n), 0);
    for (;;) {
        std::vector<int> left;
        for (int j = 0; j < n; ++j)
            if (pos[static_cast<size_t>(j)] < ops[static_cast<size_t>(j)].size()) left.push_back(j);
        if (left.empty()) break;
        int j = r.pick(left);
        sp.items.push_back(ops[static_cast<size_t>(j)][pos[static_cast<size_t>(j)]++]);
    }
    if (r.p(0.3)) {
        // one model's operations happen inside the steps of another
        int a = r.range(0, n - 1), b = r.range(0, n - 1);
        if (a != b) sp.add("nest").set("outer", a).set("inner", b).set("every", r.range(1, 4));
    }
    Item& s = sp.add("sched");
    s.set("seed", static_cast<int>(r.range(1, 1000000000)));
    s.set("mode", r.p(0.3) ? 1 : 0);
    s.set("pswitch", r.p(0.5) ? 1.0 : r.uni(0.05, 0.9));
    s.set("palloc", r.p(0.5) ? 0.0 : r.uni(0.001, 0.2));
    s.set("changes", r.range(1, 8));
    s.set("horizon", r.range(20, 2000));
    if (r.p(0.3)) s.set("prebuilt", 1);  // built by the main thread, run by the others
    return sp;
}
sched::Options SchedOptions(const Spec& sp) {
    const Item& s = sp.one("sched");
    sched::Options o;
    o.seed = static_cast<uint64_t>(s.i("seed"));
    o.mode = s.i("mode");
    o.pSwitch = s.num("pswitch", 0.5);
    o.pAlloc = s.num("palloc");
    o.changes = s.i("changes");
    o.horizon = s.i("horizon", 500);
    return o;
}
static void ExecP16(const Spec& sp, RunResult& r) {
    std::vector<const Item*> ons = sp.all("on");
    int n = static_cast<int>(ons.size());
    std::vector<std::vector<Seen>> ref(static_cast<size_t>(n));
    const Item& nest = sp.one("nest");
    std::vector<const Item*> ops = sp.all("op");
    for (int j = 0; j < n; ++j) {
        std::string out = InFreshProcess([&] {
            Actor a;
            a.sp = SubSpec(sp, ons[static_cast<size_t>(j)]->i("of"));
            for (auto o : ops)
                if (o->i("of") == ons[static_cast<size_t>(j)]->i("of")) a.Do(*o);
            Bytes b;
            b.putU(a.seen.size());
            for (auto& s : a.seen) {
                b.put(s.op);
                b.putU(s.ok);
                b.put(s.msg);
                b.put(s.rep);
            }
            return b.s;
        });
        Bytes b{out};
        size_t k = b.getU();
        for (size_t i = 0; i < k; ++i) {
            Seen s;
            s.op = b.get();
            s.ok = b.getU() != 0;
            s.msg = b.get();
            s.rep = b.getReport();
            ref[static_cast<size_t>(j)].push_back(std::move(s));
        }
    }
    int good = 0, fails = 0;
    for (int j = 0; j < n; ++j) {
        Spec s = SubSpec(sp, ons[static_cast<size_t>(j)]->i("of"));
        CountScenario(s, r);
        Clock c = Clock::from(s);
        bool any = false;
        for (auto& x : ref[static_cast<size_t>(j)]) {
            if (x.op == "run" || x.op == "rerun" || x.op == "fail") {
                r.add("steps", c.n);
                r.add("simdays", c.n * c.stepDays());
            }
            if (x.ok && !x.rep.data.empty()) any = true;
            if (x.op == "fail" && !x.ok) ++fails, r.add("fault.failing-model");
            if (x.op == "destroy" || x.op == "rebuild") r.add("fault.destroyed-model");
            if (x.op == "build" && !x.ok) r.add("refused");
        }
        good += any;
    }
    std::string out = InFreshProcess([&] {
        std::vector<Actor> actors(static_cast<size_t>(n));
        std::map<int, int> byId;
        std::vector<std::vector<std::pair<int, const Item*>>> todo(4);
        for (int j = 0; j < n; ++j) {
            actors[static_cast<size_t>(j)].sp = SubSpec(sp, ons[static_cast<size_t>(j)]->i("of"));
            byId[ons[static_cast<size_t>(j)]->i("of")] = j;
        }
        std::vector<const Item*> inner;
        size_t innerAt = 0;
        int ji = -1, jo = -1;
        if (nest.kind == "nest" && byId.count(nest.i("inner")) && byId.count(nest.i("outer"))) ji = byId[nest.i("inner")], jo = byId[nest.i("outer")];
        bool pre = sp.one("sched").i("prebuilt") != 0;
        std::set<int> built;
        for (auto o : ops) {
            if (!byId.count(o->i("of"))) continue;
            int j = byId[o->i("of")];
            if (j == ji) {
                inner.push_back(o);
                continue;
            }
            if (pre && o->str("kind") == "build" && !built.count(j)) {
                built.insert(j);
                actors[static_cast<size_t>(j)].Do(*o);
                continue;
            }
            todo[static_cast<size_t>(std::clamp(ons[static_cast<size_t>(j)]->i("thread"), 0, 3))].push_back({j, o});
        }
        long steps = 0;
        if (ji >= 0)
            actors[static_cast<size_t>(jo)].onStep = [&] {
                if (++steps % nest.i("every", 1) == 0 && innerAt < inner.size()) {
                    const Item* o = inner[innerAt++];
                    actors[static_cast<size_t>(ji)].Do(*o);
                }
            };
        struct Ctx {
            std::vector<std::vector<std::pair<int, const Item*>>>* todo;
            std::vector<Actor>* actors;
        } ctx{&todo, &actors};
        // threads without work are not started
        std::vector<std::vector<std::pair<int, const Item*>>> busy;
        for (auto& t : todo)
            if (!t.empty()) busy.push_back(t);
        ctx.todo = &busy;
        sched::Stats st;
        if (!busy.empty())
            st = sched::Run(static_cast<int>(busy.size()),
                            [](void* arg, int i) {
                                auto* c = static_cast<Ctx*>(arg);
                                for (auto& w : (*c->todo)[static_cast<size_t>(i)]) (*c->actors)[static_cast<size_t>(w.first)].Do(*w.second);
                            },
                            &ctx, SchedOptions(sp));
        if (ji >= 0) {
            actors[static_cast<size_t>(jo)].onStep = nullptr;
            while (innerAt < inner.size()) actors[static_cast<size_t>(ji)].Do(*inner[innerAt++]);
        }
        Bytes b;
        std::string cls, msg;
        for (int j = 0; j < n && cls.empty(); ++j) {
            auto& a = actors[static_cast<size_t>(j)].seen;
            auto& f = ref[static_cast<size_t>(j)];
            for (size_t i = 0; i < std::max(a.size(), f.size()) && cls.empty(); ++i) {
                if (i >= a.size() || i >= f.size() || a[i].op != f[i].op) {
                    cls = "threads/other-history";
                    msg = Fmt("model %d: %zu operations instead of %zu", j, a.size(), f.size());
                } else if (a[i].ok != f[i].ok || a[i].msg != f[i].msg) {
                    cls = "threads/outcome-" + a[i].op;
                    msg = Fmt("model %d, operation %zu (%s): beside other models %s '%s', alone %s '%s'", j, i, a[i].op.c_str(), a[i].ok ? "succeeds" : "fails",
                              a[i].msg.c_str(), f[i].ok ? "succeeds" : "fails", f[i].msg.c_str());
                } else {
                    std::string d = Compare(f[i].rep, a[i].rep);
                    if (d.empty()) continue;
                    cls = "threads/results-" + ItemClass(d);
                    msg = Fmt("model %d, operation %zu (%s) gives other results beside other models than alone: ", j, i, a[i].op.c_str()) + d;
                }
            }
        }
        b.put(cls);
        b.put(msg);
        b.putU(static_cast<uint64_t>(st.yields));
        b.putU(static_cast<uint64_t>(st.switches));
        b.putU(static_cast<uint64_t>(st.steals));
        b.putU(st.hash);
        b.putU(static_cast<uint64_t>(busy.size()));
        return b.s;
    });
    Bytes b{out};
    std::string cls = b.get(), msg = b.get();
    if (!cls.empty()) r.bad(cls, msg);
    double y = static_cast<double>(b.getU()), sw = static_cast<double>(b.getU()), steals = static_cast<double>(b.getU());
    uint64_t h = b.getU();
    size_t th = b.getU();
    r.add("yield-points", y);
    r.add("fault.context-switches", sw);
    if (steals > 0) r.add("schedules-not-decided", steals);
    r.mix(HashStr(cls, h));
    for (auto& f : ref)
        for (auto& s : f) r.mix(s.rep.data.empty() ? HashStr(s.msg) : HashReport(s.rep));
    r.states.push_back(h);
    r.nontrivial = good >= 2 && (th < 2 || sw > 2);
    r.shape = Mix64(h ^ r.hash);
    if (fails) r.add("probe.runs-with-failing-models");
}
static RegisterProp p16({"P16", 2500, 60000, 40, GenP16, ExecP16,
                         "a run counts when at least two models reported results and, with several threads, the scheduler switched between them; distinct = distinct schedule and results. "
                         "distinct_state_signatures counts the distinct schedules (sequences of scheduling decisions)",
                         "whole engine in real threads under a baton scheduler; ThreadSanitizer build: accesses ordered only by the schedule are reported as races",
                         "thread scheduling (who runs at every yield point: steps, operations, allocations, locks, static initialisation) decided by the seed; results files excluded (the NetCDF library is not reentrant)"});
