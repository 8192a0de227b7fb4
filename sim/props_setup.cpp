#include "gen.h"
#include "util.h"

// ---- P21: incomplete setups -------------------------------------------------------------------------
// A history of setup operations, some missing or wrong or struck by a failing allocation. Whatever the history, a run
// is refused or gives the results of a plainly built model; once everything is there it has to give them.
static Spec GenP21(Rng& r, uint64_t) {
    GenOpt o;
    o.minN = 3;
    o.maxN = 20;
    o.maxUnits = 3;
    o.pAction = 0;
    o.pEvo = 0;
    o.pInit = 0;
    o.pSpinup = 0.2;
    o.pSnow = 0.75;
    Spec sp = GenScenario(r, o);
    auto vars = NeededForcing(sp);
    std::vector<int> ids;
    for (auto u : sp.all("unit")) ids.push_back(u->i("id"));
    auto op = [&](const char* k) -> Item& { return sp.add("op").set("op", k); };
    auto series = [&](const std::string& v, bool bad) {
        Item& it = op("series").set("var", v);
        if (bad) {
            static const std::vector<std::string> kinds{"drop", "late", "early", "step", "gap", "drop", "rows", "cols", "name", "one", "norows", "nocols", "dupid", "lack", "lack", "lackstart", "raggedstep"};
            std::string k = r.pick(kinds);
            it.set("bad", k);
            if (k == "drop" || k == "lack" || k == "lackstart" || k == "raggedstep") it.set("unit", r.pick(ids));
        }
    };
    auto alloc = [&] {
        if (r.p(0.12)) sp.items.back().set("alloc", r.p(0.5) ? r.range(0, 30) : r.range(0, 600));
    };
    auto init = [&] {
        if (r.p(0.25)) {
            static const std::vector<std::string> kinds{"nosolver", "solver", "notimer", "order", "date", "step", "unit", "target", "covertype", "structure", "slope", "aspect", "process", "none", "cover", "empty", "logitem", "param", "secondonly", "secondonly"};
            op("init").set("bad", r.pick(kinds));
        } else op("init");
        alloc();
    };
    if (r.p(0.93)) init();
    int n = r.range(3, 14);
    bool inited = true;
    for (int i = 0; i < n; ++i) {
        double q = r.u();
        if (q < 0.22) op("run"), alloc();
        else if (q < 0.30) op("clear");
        else if (q < 0.50) series(r.pick(vars), r.p(0.35)), alloc();
        else if (q < 0.62) op("attach"), alloc();
        else if (q < 0.72) op("reset"), alloc();
        else if (q < 0.78) init();
        else {  // a nearly complete setup
            op("clear");
            auto vs = vars;
            r.shuffle(vs);
            std::string skip = r.p(0.4) ? r.pick(vs) : "";
            for (auto& v : vs) {
                if (v == skip && r.p(0.5)) continue;
                series(v, v == skip);
            }
            if (r.p(0.8)) op("attach");
            if (r.p(0.3)) op("reset");
            op("run");
        }
    }
    (void)inited;
    return sp;
}
// Settings and basin of the scenario with one thing missing or wrong.
static bool BadSettings(World& w, const std::string& bad) {
    auto& s = *w.settings;
    if (bad == "nosolver") s.SetSolver("");
    else if (bad == "solver") s.SetSolver("no_such_solver");
    else if (bad == "notimer") s.SetTimer("", "", 1, "day");
    else if (bad == "order") s.SetTimer("2010-03-01", "2010-02-01", 1, "day");
    else if (bad == "date") s.SetTimer("2010-03-01", "never", 1, "day");
    else if (bad == "step") s.SetTimer(DateText(w.clock.start), DateText(w.clock.at(w.clock.n - 1)), 0, "day");
    else if (bad == "unit") s.SetTimer(DateText(w.clock.start), DateText(w.clock.at(w.clock.n - 1)), 1, "fortnight");
    else if (bad == "target") {
        s.SelectHydroUnitBrick("ground");
        s.AddBrickProcess("lost", "outflow:linear", "no_such_storage");
    } else if (bad == "process") {
        s.SelectHydroUnitBrick("ground");
        s.AddBrickProcess("lost", "outflow:no_such_process", "outlet");
    } else if (bad == "none") {
        w.settings = std::make_unique<SettingsModel>();
        return true;
    } else if (bad == "structure") {
        w.settings = std::make_unique<SettingsModel>();
        w.settings->SetSolver("rk4");
        w.settings->SetTimer(DateText(w.clock.start), DateText(w.clock.at(w.clock.n - 1)), w.clock.step, w.clock.unit);
        return true;
    } else if (bad == "logitem") s.AddLoggingToItem("no_such_item");
    else if (bad == "param") {
        s.SelectHydroUnitBrick("ground");
        s.AddBrickProcess("lost", "outflow:linear", "outlet");
        s.AddProcessParameter("no_such_parameter", 1.0f);
    } else if (bad == "secondonly") {  // a basin storage that only a later structure variant declares
        if (s.GetStructureCount() < 2) s.AddStructure();
        s.SelectStructure(s.GetStructureCount());
        s.AddSubBasinBrick("late_pond", "storage");
        s.AddBrickProcess("outflow", "outflow:linear", "outlet");
        s.SelectStructure(1);
    } else if (bad == "covertype") s.AddLandCoverBrick("moor", "no_such_cover");
    else return false;
    return true;
}
static void ExecP21(const Spec& sp, RunResult& r) {
    CountScenario(sp, r);
    World plain(sp);
    if (!BuildOrNote(plain, r)) return;
    RunOutcome o = RunModel(*plain.model);
    if (!OkOrNote(o, r)) return;
    Report ref = Collect(*plain.model);
    auto vars = NeededForcing(sp);

    World w(sp);
    w.model = std::make_unique<ModelHydro>();
    std::vector<std::unique_ptr<World>> shells;  // settings and basins stay alive as long as the model
    bool ready = false;                          // initialised with the complete settings
    std::map<std::string, int> have;             // 1 complete, 2 incomplete
    bool failed = false, done = false, attached = false, moved = false, unsure = false;
    int runs = 1, k = 0;
    auto guarded = [&](const Item* op, const char* what, auto fn) {
        bool ok = false;
        if (op && op->has("alloc")) hooks::ArmAlloc(op->i("alloc"));
        std::string err;
        try {
            ok = fn();
        } catch (const std::exception& e) {
            hooks::DisarmAlloc();
            err = e.what();
        }
        bool fired = op && op->has("alloc") && hooks::allocFired;
        hooks::DisarmAlloc();
        if (fired) r.add(std::string("fault.alloc_") + what), unsure = true;
        r.mix(HashStr(err) ^ (ok ? 1 : 0));
        return std::make_pair(ok, fired);
    };
    auto initialise = [&](const Item* op) {
        std::string bad = op ? op->str("bad") : "";
        Spec s = sp;
        if (bad == "slope")
            for (auto& it : s.items)
                if (it.kind == "unit") it.set("noslope", 1);
        if (bad == "aspect")
            for (auto& it : s.items)
                if (it.kind == "unit") it.set("noaspect", 1);
        if (bad == "cover")
            for (auto& it : s.items)
                if (it.kind == "unit") {
                    it.set("covers", it.str("covers", "ground:1") + ",swamp:0.01");
                    break;
                }
        if (bad == "empty") {
            Spec e;
            for (auto& it : s.items)
                if (it.kind != "unit" && it.kind != "conn") e.items.push_back(it);
            s = e;
        }
        if (done) {  // an initialised model is not set up again: a new one takes its place
            w.model = std::make_unique<ModelHydro>();
            have.clear();
            ready = failed = done = false;
        }
        shells.push_back(std::make_unique<World>(s));
        World& x = *shells.back();
        try {
            x.MakeSettings();
            x.MakeBasin();
            BadSettings(x, bad);
        } catch (const std::exception&) {
            return;  // refused while declaring
        }
        std::string why;
        auto res = guarded(op, "init", [&] {
            auto i = w.model->InitializeWithBasin(*x.settings, x.basin);
            if (!i) why = i.error();
            return i.has_value();
        });
        ready = res.first && bad.empty();
        if (!res.second) unsure = false;
        if (!res.first || !bad.empty()) unsure = true;
        attached = false;
        moved = false;
        bool again = failed;
        done = res.first;
        failed = !res.first;
        if (failed && again && !op) {  // a model whose setup failed may refuse to be set up again
            w.model = std::make_unique<ModelHydro>();
            have.clear();
            failed = false;
            ready = w.model->InitializeWithBasin(*x.settings, x.basin).has_value();
            done = ready;
            if (!ready) r.bad("setup/init-refused", "complete settings and basin were refused by a new model");
            return;
        }
        if (bad.empty() && !res.second && !res.first && !again) r.bad("setup/init-refused", Fmt("op %d: complete settings and basin were refused: ", k) + why);
        // the series, added for the same clock, stay
    };
    auto addSeries = [&](const Item* op, const std::string& var) {
        World s(sp);
        std::string bad = op ? op->str("bad") : "";
        if (!bad.empty()) {
            Item& f = s.sp.add("forcing");
            f.set("var", var);
            if (bad == "drop") f.set("drop", op->i("unit"));
            else if (bad == "late") f.set("before", -1);
            else if (bad == "early") f.set("after", -1);
            else if (bad == "step") f.set("fstep", w.clock.stepMin * 2);
            else if (bad == "gap") f.set("gap", 1);
            else if (bad == "lack") f.set("ragged", op->i("unit")).set("lack", 1);  // one unit's values end (or start) a step short of the others'
            else if (bad == "lackstart") f.set("ragged", op->i("unit")).set("lackstart", 1);
            else if (bad == "raggedstep") f.set("ragged", op->i("unit")).set("raggedstep", w.clock.stepMin * 2);
        }
        s.model = std::move(w.model);
        auto odd = [&] {  // arrays that do not belong together
            int rows = w.clock.n + 2, nu = static_cast<int>(sp.all("unit").size()), dr = rows, dc = nu, ti = rows, ni = nu;
            if (bad == "rows") dr = rows - 2;
            else if (bad == "cols") dc = nu - 1;
            else if (bad == "one") dr = ti = 1;
            else if (bad == "norows") dr = ti = 0;
            else if (bad == "nocols") dc = ni = 0;
            axd time(ti);
            axi idArr(ni);
            axxd data(dr, dc);
            for (int i = 0; i < ti; ++i) time[i] = w.clock.mjd(i);
            for (int j = 0; j < ni; ++j) idArr[j] = sp.all("unit")[static_cast<size_t>(bad == "dupid" ? 0 : j)]->i("id");
            for (int i = 0; i < dr; ++i)
                for (int j = 0; j < dc; ++j) data(i, j) = s.Supplied(var, idArr[std::min(j, ni - 1)], w.clock.at(i));
            return s.model->CreateTimeSeries(bad == "name" ? "no_such_variable" : var, time, idArr, data);
        };
        static const std::set<std::string> odds{"rows", "cols", "one", "norows", "nocols", "dupid", "name"};
        auto res = guarded(op, "series", [&] { return odds.count(bad) ? odd() : s.AddSeries(var); });
        w.model = std::move(s.model);
        bool can = ready && !have.count(var);
        if (res.first) {
            if (have.count(var) && bad != "name") r.bad("setup/duplicate", Fmt("op %d: a second series of %s was accepted", k, var.c_str()));
            have[var] = bad.empty() ? 1 : 2;
            attached = false;
        } else if (can && bad.empty() && !res.second && !unsure)
            r.bad("setup/series-refused", Fmt("op %d: a complete series of %s was refused", k, var.c_str()));
    };
    auto attach = [&](const Item* op) {
        if (!shells.empty() && w.model->GetSubBasin() == nullptr) return;
        auto res = guarded(op, "attach", [&] { return w.model->GetSubBasin() ? w.model->AttachTimeSeriesToHydroUnits() : false; });
        attached = res.first;
    };
    auto complete = [&] {
        if (!ready || !attached || unsure) return false;
        for (auto& v : vars)
            if (!have.count(v) || have.at(v) != 1) return false;
        return true;
    };
    auto run = [&](const Item* op, bool must) {
        bool can = complete() && !moved;
        if (moved && !must && done) {  // a run starts from a reset
            guarded(nullptr, "reset", [&] {
                w.model->Reset();
                return true;
            });
            moved = false;
            can = complete();
        }
        RunOutcome a;
        if (op && op->has("alloc")) hooks::ArmAlloc(op->i("alloc"));
        a = RunModel(*w.model);
        bool fired = op && op->has("alloc") && hooks::allocFired;
        hooks::DisarmAlloc();
        ++runs;
        if (fired) r.add("fault.alloc_run");
        r.add(a.ok ? "probe.run_ok" : can ? "probe.run_failed" : "probe.run_refused");
        if (!a.ok) {
            r.mix(HashStr(a.msg));
            moved = true;  // it may have got anywhere
            if (can && !fired) r.bad("setup/run-refused", Fmt("op %d: the run was refused although nothing was missing: ", k) + a.msg);
            return;
        }
        moved = true;
        if (!ready) {
            if (!shells.empty()) return;  // accepted settings of another kind give results of their own
            r.bad("setup/no-model", Fmt("op %d: a model that was never initialised reported a successful run", k));
            return;
        }
        std::string d = Compare(ref, Collect(*w.model));
        if (!d.empty()) {
            std::string lack;
            for (auto& v : vars)
                if (!have.count(v) || have.at(v) != 1) lack += " " + v;
            r.bad(can ? "setup/wrong" : "setup/incomplete-run", Fmt("op %d: the run succeeded but differs from a plainly built model's (attached %d, missing or incomplete:%s): ", k, attached ? 1 : 0, lack.c_str()) + d);
        }
        r.mix(static_cast<double>(HashReport(ref) >> 12));
    };
    for (auto op : sp.all("op")) {
        ++k;
        if (!r.violations.empty()) return;
        std::string what = op->str("op");
        if (what == "init") initialise(op);
        else if (what == "series") addSeries(op, op->str("var"));
        else if (what == "attach") attach(op);
        else if (what == "clear") {
            w.model->ClearTimeSeries();
            have.clear();
            attached = false;
        } else if (what == "reset") {
            if (!done) continue;
            auto res = guarded(op, "reset", [&] {
                w.model->Reset();
                return true;
            });
            moved = !res.first;
        } else if (what == "run") run(op, false);
    }
    if (!r.violations.empty()) return;
    // complete the setup
    ++k;
    if (!ready || unsure) {
        w.model->ClearTimeSeries();
        have.clear();
        initialise(nullptr);
    }
    unsure = false;
    bool partial = false;
    for (auto& h : have) partial |= h.second != 1;
    if (partial) {
        w.model->ClearTimeSeries();
        have.clear();
    }
    for (auto& v : vars)
        if (!have.count(v)) addSeries(nullptr, v);
    if (!attached) attach(nullptr);
    if (moved && done) {
        w.model->Reset();
        moved = false;
    }
    if (!r.violations.empty()) return;
    run(nullptr, true);
    r.nontrivial = r.violations.empty();
    Steps(w, r, runs);
}
static RegisterProp p21({"P21", 15000, 500000, 60, GenP21, ExecP21,
                         "a run counts when, after the history of incomplete setups, the completed model was run; distinct = distinct structural signature with the operations",
                         "whole engine and settings: real; results compared bit for bit with a plainly built model", "climate generator; failing allocations come from the simulator"});
