#include "gen.h"
#include "util.h"

// What drives a step, when it happens and what is recorded of it.

static bool SameVal(double a, double b) { return SameBits(a, b) || a == b; }

// ---- P08: forcing alignment ---------------------------------------------------------------------------
static GenOpt RecOpt() {
    GenOpt o;
    o.minN = 5;
    o.maxN = 70;
    o.pSpinup = 0.3;
    o.pAction = 0.2;
    o.pEvo = 0.05;
    o.maxUnits = 5;
    o.pHourly = 0.3;
    o.pMultiDay = 0.2;
    return o;
}
static Spec GenP08(Rng& r, uint64_t) {
    GenOpt o = RecOpt();
    Spec sp = GenScenario(r, o);
    Clock c = Clock::from(sp);
    if (r.p(0.25)) sp.find("timer")->set("tail", r.range(1, c.stepMin - 1));
    for (auto& var : NeededForcing(sp)) {
        if (r.p(0.25)) continue;
        Item& f = sp.add("forcing").set("var", var);
        if (r.p(0.6)) f.set("before", r.range(0, 12));
        if (r.p(0.6)) f.set("after", r.range(0, 12));
        if (r.p(0.6)) f.set("perm", r.range(1, 100000));
        if (r.p(0.2)) f.set("shift", r.range(1, c.stepMin - 1));
        if (r.p(0.08)) f.set("uniform", 1);
    }
    sp.find("prop") ? void() : void(sp.add("prop"));
    sp.find("prop")->set("varorder", r.range(1, 100000));
    int k = r.range(1, 3);
    for (int i = 0; i < k; ++i) {
        double q = r.u();
        Item& op = sp.add("op");
        if (q < 0.2) op.set("op", "rerun");
        else if (q < 0.4) op.set("op", "outside");
        else if (q < 0.6) op.set("op", "causal").set("at", r.range(1, std::max(1, c.n - 1)));
        else if (q < 0.75) op.set("op", "isolate").set("pick", r.range(0, 9));
        else op.set("op", "replace").set("seed", r.range(1, 1000000)).set("before", r.range(0, 9)).set("after", r.range(0, 9)).set("perm", r.range(1, 100000));
    }
    if (r.p(0.3)) {
        auto vars = NeededForcing(sp);
        static const std::vector<std::string> how{"late", "early", "step", "gap", "twice", "drop", "raggedend", "raggedstart", "raggedstep"};
        sp.add("op").set("op", "refuse").set("var", r.pick(vars)).set("how", r.pick(how)).set("k", r.range(1, 6)).set("pick", r.range(0, 9));
    }
    return sp;
}
// Installs the check that what each unit's forcing holds during step i is what was supplied for it.
struct ForcingWatch {
    World& w;
    RunResult& r;
    std::vector<std::string> vars;
    std::map<std::string, const Item*> items;
    bool petOverridden;
    int step = 0, sets = 0, checked = 0;
    ForcingWatch(World& w_, RunResult& r_)
        : w(w_), r(r_), vars(NeededForcing(w_.sp)) {
        for (auto it : w.sp.all("forcing")) items[it->str("var")] = it;
        const Item& m = w.sp.one("model");
        std::string fam = m.str("family");
        petOverridden = fam == "gr4j" || fam == "gr6j" || m.i("canopy");
        w.probe->onSet = [this](double d) {
            ++sets;
            step = 0;
            if (std::abs(d - w.clock.mjd(0)) > 0.5 / 86400) r.bad("forcing/positioned", Fmt("the series were positioned at %.9g instead of the start %.9g", d, w.clock.mjd(0)));
            return true;
        };
        w.probe->onAdvance = [this] {
            Check(step++);
            return true;
        };
    }
    ~ForcingWatch() {
        if (w.probe) w.probe->onSet = nullptr, w.probe->onAdvance = nullptr;
    }
    void Check(int i) {
        SubBasin* sb = w.model->GetSubBasin();
        for (int u = 0; u < sb->GetHydroUnitCount(); ++u) {
            HydroUnit* unit = sb->GetHydroUnit(static_cast<size_t>(u));
            for (auto& v : vars) {
                VariableType t = VariableOf(v);
                if (!unit->HasForcing(t) || (petOverridden && v == "pet")) continue;
                const Item* f = items.count(v) ? items[v] : nullptr;
                int id = f && f->i("uniform") ? 0 : unit->GetId();
                double want = w.Supplied(v, id, w.clock.at(i) - (f ? f->i("shift") : 0)), got = unit->GetForcing(t)->GetValue();
                if (!SameVal(want, got))
                    r.bad("forcing/" + v, Fmt("step %d (phase %d): unit %d was driven by %s %.12g instead of %.12g", i, sets, unit->GetId(), v.c_str(), got, want));
                ++checked;
                r.mix(got);
            }
        }
    }
};
static std::string CompareRows(ModelHydro& a, ModelHydro& b, int rows, const std::set<int>& skipUnits, bool basin) {
    Logger *la = a.GetLogger(), *lb = b.GetLogger();
    if (basin)
        for (size_t q = 0; q < la->GetSubBasinLabels().size(); ++q)
            for (int k = 0; k < rows; ++k)
                if (!SameVal(la->GetSubBasinValues()[q][k], lb->GetSubBasinValues()[q][k])) return Fmt("%s at step %d is %.17g, was %.17g", la->GetSubBasinLabels()[q].c_str(), k, lb->GetSubBasinValues()[q][k], la->GetSubBasinValues()[q][k]);
    for (size_t q = 0; q < la->GetHydroUnitLabels().size(); ++q)
        for (size_t u = 0; u < la->GetHydroUnitIds().size(); ++u) {
            if (skipUnits.count(la->GetHydroUnitIds()[u])) continue;
            for (int k = 0; k < rows; ++k) {
                double x = la->GetHydroUnitValues()[q](k, static_cast<int>(u)), y = lb->GetHydroUnitValues()[q](k, static_cast<int>(u));
                // the storage constraints of the basin settle together, to within a small tolerance
                if (!skipUnits.empty() && std::fabs(x - y) <= 1e-6 * std::max(1.0, std::fabs(x))) continue;
                if (!SameVal(x, y)) return Fmt("%s of unit %d at step %d is %.17g, was %.17g", la->GetHydroUnitLabels()[q].c_str(), la->GetHydroUnitIds()[u], k, y, x);
            }
        }
    return "";
}
static void RefuseForcing(const Spec& base, const Item& op, RunResult& r) {
    Spec sp = base;
    Clock c = Clock::from(sp);
    std::string var = op.str("var"), how = op.str("how");
    if (how == "drop") var = "precipitation";  // the one every structure reads
    Item* f = nullptr;
    for (auto& it : sp.items)
        if (it.kind == "forcing" && it.str("var") == var) f = &it;
    if (!f) {
        Item& n = sp.add("forcing");
        n.set("var", var);
        f = &n;
    }
    int k = op.i("k", 1);
    std::vector<int> ids;
    for (auto u : sp.all("unit")) ids.push_back(u->i("id"));
    int id = ids[static_cast<size_t>(op.i("pick")) % ids.size()];
    if (how != "gap") f->set("uniform", 0);
    bool twice = false;
    if (how == "late") {
        if (c.n < 3) return;
        f->set("before", -std::min(k, c.n - 2)).set("shift", 0);
    } else if (how == "early") {
        if (c.n < 3) return;
        f->set("after", -std::min(k, c.n - 2)).set("shift", 0);
        sp.find("timer")->set("tail", 0);
    } else if (how == "step") f->set("fstep", k % 3 == 0 ? c.stepMin * 2 : k % 3 == 1 ? c.stepMin + 60 : c.stepMin > 60 ? c.stepMin - 60 : c.stepMin * 3).set("shift", 0).set("before", k).set("after", k + 2);
    else if (how == "gap") {
        if (c.n < 4) return;
        f->set("gap", 1 + k % (c.n - 2)).set("uniform", 0);
    } else if (how == "twice") twice = true;
    else if (how == "drop") {
        f->set("drop", id);
        if (ids.size() < 2) return;
    } else {
        if (c.n < 3 || ids.size() < 2) return;
        f->set("ragged", id).set("before", 0).set("after", 0).set("shift", 0);
        sp.find("timer")->set("tail", 0);
        int lack = std::min(k, c.n - 2);
        if (how == "raggedend") f->set("lack", lack);
        else if (how == "raggedstart") f->set("lackstart", lack);
        else {
            f->set("raggedstep", c.stepMin % 2 == 0 && k % 2 == 0 ? c.stepMin / 2 : c.stepMin * 2);
            f->set("before", 3).set("after", 3 + c.n);
        }
    }
    World w(sp);
    std::string outcome;
    try {
        if (!w.Build()) outcome = w.error;
        else if (twice && !w.AddSeries(var)) outcome = w.error;
        else {
            RunOutcome o = RunModel(*w.model);
            if (!o.ok) outcome = o.msg;
        }
    } catch (const std::exception& e) {
        outcome = e.what();
    }
    r.add("fault.forcing_" + how);
    r.mix(HashStr(outcome));
    if (outcome.empty()) r.bad("refusal/" + how, "data that " + std::string(how == "late" || how == "raggedstart" ? "start after the period" : how == "early" || how == "raggedend" ? "end before the period" : how == "step" ? "have another time step" : how == "gap" ? "are not regular" : how == "twice" ? "are already there" : "miss a unit") + " were accepted and the model ran (" + var + ")");
    else if (outcome.find("ssertion") != std::string::npos) r.bad("refusal/crash", outcome);
}
static void ExecP08(const Spec& spIn, RunResult& r) {
    Spec sp = spIn;
    sp.add("probe").set("first", 1);
    CountScenario(sp, r);
    World w(sp);
    if (!BuildOrNote(w, r)) {
        if (w.stage == "forcing" || w.stage == "attach") r.bad("forcing/refused", "data that cover the period were refused: " + w.error);
        return;
    }
    int runs = 0;
    {
        ForcingWatch f(w, r);
        RunOutcome o = RunModel(*w.model);
        ++runs;
        if (!o.ok && (o.msg.find("updating forcing") != std::string::npos || o.msg.find("ime series") != std::string::npos || o.msg.find("cursor") != std::string::npos)) {
            r.bad("forcing/refused", "data that cover the period were refused: " + o.msg);
            return;
        }
        if (!OkOrNote(o, r)) return;
        if (f.step != w.clock.n) r.bad("forcing/steps", Fmt("%d steps instead of %d", f.step, w.clock.n));
        if (f.checked) r.nontrivial = true;
    }
    Report ref = Collect(*w.model);
    for (auto op : sp.all("op")) {
        if (!r.violations.empty()) return;
        std::string k = op->str("op");
        if (k == "rerun") {
            w.model->Reset();
            ForcingWatch f(w, r);
            (void)RunModel(*w.model);
            ++runs;
        } else if (k == "outside" || k == "causal" || k == "isolate") {
            World v(sp);
            int64_t from = w.clock.start, to = w.clock.at(w.clock.n - 1);
            int at = op->i("at");
            int alone = 0;
            if (k == "isolate") {
                if (!sp.all("conn").empty()) continue;
                auto us = sp.all("unit");
                alone = us[static_cast<size_t>(op->i("pick")) % us.size()]->i("id");
                bool uni = false;
                for (auto it : sp.all("forcing")) uni |= it->i("uniform") != 0;
                if (us.size() < 2 || uni) continue;
            }
            if (k == "causal") {
                int spin = std::min(w.clock.spinSteps(), w.clock.n);
                if (at < spin) at = spin;
                if (at >= w.clock.n) continue;
            }
            // a datum holds from its date for one step
            v.forcing = [&, from, to, at](const std::string& var, int unit, int64_t minute, double val) {
                bool hit = k == "outside" ? minute + w.clock.stepMin <= from || minute > to : k == "causal" ? minute >= w.clock.at(at) : unit == alone;
                if (!hit) return val;
                if (var == "precipitation") return k == "outside" ? 5000.0 : val * 1.7 + 0.5;
                return k == "outside" ? 900.0 : val + 1.3;
            };
            if (!v.Build()) {
                r.bad("forcing/variant-refused", v.error);
                return;
            }
            RunOutcome o = RunModel(*v.model);
            ++runs;
            if (!o.ok) {
                if (k == "outside") r.bad("forcing/" + k, "values outside the period made the run fail: " + o.msg);
                continue;
            }
            std::string d = k == "outside" ? Compare(ref, Collect(*v.model)) : CompareRows(*w.model, *v.model, k == "causal" ? at : w.clock.n, k == "isolate" ? std::set<int>{alone} : std::set<int>{}, k == "causal");
            if (!d.empty()) r.bad("forcing/" + k, (k == "outside" ? "values dated outside the period changed the results: " : k == "causal" ? Fmt("values from step %d on changed earlier results: ", at) : Fmt("the values of unit %d changed another unit: ", alone)) + d);
            r.add("probe.twin_" + k);
        } else if (k == "replace") {
            Spec other = sp;
            other.find("climate")->set("seed", op->i("seed"));
            std::vector<Item> items;
            for (auto& it : other.items)
                if (it.kind != "forcing") items.push_back(it);
            other.items = items;
            for (auto& var : NeededForcing(sp)) other.add("forcing").set("var", var).set("before", op->i("before")).set("after", op->i("after") + 1).set("perm", op->i("perm"));
            World fresh(other);
            if (!fresh.Build()) {
                r.bad("forcing/replacement-refused", fresh.error);
                return;
            }
            RunOutcome of = RunModel(*fresh.model);
            w.probe = nullptr;
            w.model->ClearTimeSeries();
            w.sp = other;
            std::string bad;
            if (!w.AddProbe() || !w.AddForcing() || !w.Attach()) {
                r.bad("forcing/replacement-refused", w.error);
                return;
            }
            w.model->Reset();
            RunOutcome o;
            {
                ForcingWatch f(w, r);
                o = RunModel(*w.model);
            }
            ++runs;
            if (o.ok != of.ok) {
                r.bad("forcing/replaced-outcome", o.ok ? of.msg : o.msg);
                return;
            }
            if (!o.ok) return;
            std::string d = Compare(Collect(*fresh.model), Collect(*w.model));
            if (!d.empty()) r.bad("forcing/replaced", "after the forcing was replaced " + d + " (model built with it)");
            r.add("probe.replaced");
            return;
        } else if (k == "refuse") {
            RefuseForcing(sp, *op, r);
        }
    }
    Steps(w, r, runs);
}
static RegisterProp p08({"P08", 25000, 800000, 60, GenP08, ExecP08,
                         "a run counts when the forcing held by at least one unit was compared at every step; distinct = distinct structural signature",
                         "whole engine, forcing and series classes: real; forcing values read at every step through each unit's own forcing", "climate generator"});

// ---- P09: clock -----------------------------------------------------------------------------------------
static Spec GenP09(Rng& r, uint64_t) {
    GenOpt o;
    o.pGlacier = 0.1;
    o.pSecond = 0.1;
    o.pGR = 0.1;
    o.pHBV = 0.1;
    o.pGraph = 0.1;
    o.pLateral = 0.05;
    o.pSpinup = 0.2;
    o.pAction = 0.15;
    o.pCanopy = 0.05;
    o.pVariants = 0.05;
    o.pSnow = 0.2;
    o.maxUnits = 2;
    o.minN = 1;
    o.maxN = 60;
    Spec sp = GenScenario(r, o);
    Item* t = sp.find("timer");
    double q = r.u();
    std::string unit = "day";
    int step = 1;
    if (q < 0.35) {
        unit = "hour";
        step = r.p(0.6) ? r.range(1, 30) : r.pick(std::vector<int>{7, 13, 11, 24, 36, 48, 100});
    } else if (q < 0.65) {
        unit = "minute";
        step = r.p(0.5) ? r.pick(std::vector<int>{1, 3, 5, 7, 10, 20, 35, 45, 90, 100}) : r.range(1, 3000);
    } else if (q < 0.85) step = r.p(0.6) ? 1 : r.range(2, 45);
    int y = r.range(1900, 2090), mo = r.range(1, 12), d = r.range(1, 28);
    if (r.p(0.2)) mo = 2, d = r.range(25, 28);
    if (r.p(0.1)) mo = 12, d = r.range(25, 31);
    bool clockTime = r.p(0.5);
    t->set("start", clockTime ? Fmt("%04d-%02d-%02dT%02d:%02d", y, mo, d, r.range(0, 23), r.p(0.5) ? 0 : r.range(0, 59)) : Fmt("%04d-%02d-%02d", y, mo, d));
    int n = r.p(0.15) ? r.range(1, 3) : r.p(0.15) ? r.range(2000, 12000) : r.range(4, 400);
    int stepMin = step * (unit == "day" ? 1440 : unit == "hour" ? 60 : 1);
    n = std::min(n, static_cast<int>((2098LL - y) * 365 * 1440 / stepMin));  // dates beyond 2100 are refused
    t->set("n", n).set("step", step).set("unit", unit);
    if (r.p(0.4) && stepMin > 1) t->set("tail", r.p(0.3) ? stepMin - 1 : r.range(1, stepMin - 1));
    if (t->i("spinup") > 0) t->set("spinup", std::max(1, std::min(t->i("spinup"), 200 * stepMin / 1440)));
    if (r.p(0.4)) sp.add("op").set("op", "rerun");
    // only the days of changes that lie in the period matter here
    if (r.p(0.4)) {  // the clock alone, over much longer spans
        Item& k = sp.add("clock");
        static const std::vector<std::string> units{"minute", "minute", "hour", "hour", "day", "week"};
        std::string u = r.pick(units);
        long long per = u == "minute" ? 1 : u == "hour" ? 60 : u == "day" ? 1440 : 10080;
        long long st = r.p(0.4) ? r.range(1, 60) : r.range(1, 3000);
        long long most = std::min(60000LL, 800LL * 365 * 1440 / (per * st));  // eight centuries at most
        k.set("unit", u).set("step", static_cast<int>(st));
        k.set("n", static_cast<int>(1 + most * r.uni(0.05, 1)));
        k.set("day", r.range(1, 60000)).set("minute", r.p(0.5) ? 0 : r.range(0, 1439));
        if (r.p(0.5) && per * st > 1) k.set("tail", static_cast<int>(r.range(1, static_cast<int>(std::min(per * st - 1, 1000000LL)))));
        k.set("again", r.p(0.3) ? r.range(1, 50) : 0);
    }
    return sp;
}
// the clock on its own: minutes counted as integers are the reference
static void CheckClock(const Item& k, RunResult& r) {
    std::string u = k.str("unit");
    long long per = u == "minute" ? 1 : u == "hour" ? 60 : u == "day" ? 1440 : 10080;
    TimeUnit tu = u == "minute" ? TimeUnit::Minute : u == "hour" ? TimeUnit::Hour : u == "day" ? TimeUnit::Day : TimeUnit::Week;
    long long start = 1440LL * k.i("day") + k.i("minute"), st = k.i("step"), n = k.i("n");
    long long end = start + (n - 1) * per * st + k.i("tail", 0);
    auto mjd = [](long long m) { return static_cast<double>(m / 1440) + static_cast<double>(m % 1440) / 1440.0; };
    const double half = 0.5 / 86400;
    TimeMachine t;
    t.Initialize(mjd(start), mjd(end), static_cast<int>(st), tu);
    if (t.GetTimeStepCount() != n) r.bad("clock/count", Fmt("%lld steps of %lld %ss are declared and the clock counts %d", n, st, u.c_str(), t.GetTimeStepCount()));
    if (!(std::abs(*t.GetTimeStepPointer() - static_cast<double>(per * st) / 1440) < 1e-9)) r.bad("clock/step", Fmt("steps of %lld %ss last %.12g days", st, u.c_str(), *t.GetTimeStepPointer()));
    for (int i = 0; i < k.i("again", 0) && !t.IsOver(); ++i) t.IncrementTime();
    if (k.i("again", 0)) t.Reset();
    long long i = 0;
    while (!t.IsOver() && i <= n) {
        double want = mjd(start + i * per * st);
        if (!(std::abs(t.GetDate() - want) < half)) {
            r.bad("clock/date", Fmt("step %lld of %lld %ss shows %.10f instead of %.10f (%.1f s off)", i, st, u.c_str(), t.GetDate(), want, (t.GetDate() - want) * 86400));
            return;
        }
        t.IncrementTime();
        ++i;
    }
    if (i != n) r.bad("clock/steps", Fmt("the clock made %lld steps instead of %lld", i, n));
    r.add("clock.steps", static_cast<double>(i));
    r.mix(t.GetDate());
}
static void ExecP09(const Spec& sp, RunResult& r) {
    CountScenario(sp, r);
    if (auto k = sp.all("clock"); !k.empty()) CheckClock(*k[0], r);
    World w(sp);
    if (!BuildOrNote(w, r)) return;
    const Clock& c = w.clock;
    Logger* l = w.model->GetLogger();
    const double half = 0.5 / 86400;
    for (int run = 0; run < 1 + static_cast<int>(sp.all("op").size()); ++run) {
        if (run) w.model->Reset();
        int steps = 0, sets = 0;
        w.probe->onSet = [&](double) {
            ++sets;
            steps = 0;
            return true;
        };
        w.probe->onAdvance = [&] {
            double d = w.model->GetTimeMachine()->GetDate(), want = c.mjd(steps + 1);
            if (!(std::abs(d - want) < half)) r.bad("clock/date", Fmt("after step %d the clock shows %.10f instead of %.10f (%.1f s off)", steps, d, want, (d - want) * 86400));
            ++steps;
            return true;
        };
        RunOutcome o = RunModel(*w.model);
        w.probe->onAdvance = nullptr;
        w.probe->onSet = nullptr;
        if (!o.ok && (o.msg.find("updating forcing") != std::string::npos || o.msg.find("ime series") != std::string::npos || o.msg.find("cursor") != std::string::npos)) {
            r.bad("clock/forcing", "the run failed although the data cover the declared period: " + o.msg);
            return;
        }
        if (!OkOrNote(o, r)) return;
        if (steps != c.n) r.bad("clock/steps", Fmt("%d steps were simulated instead of %d", steps, c.n));
        const axd& t = l->GetTime();
        if (static_cast<int>(t.size()) != c.n) r.bad("clock/rows", Fmt("%d rows are recorded instead of %d", static_cast<int>(t.size()), c.n));
        for (int i = 0; i < std::min(static_cast<int>(t.size()), c.n); ++i)
            if (!(std::abs(t[i] - c.mjd(i)) < half)) {
                r.bad("clock/row-date", Fmt("row %d is dated %.10f instead of %.10f (%.1f s off)", i, t[i], c.mjd(i), (t[i] - c.mjd(i)) * 86400));
                break;
            }
        for (size_t q = 0; q < l->GetSubBasinValues().size(); ++q) {
            if (static_cast<int>(l->GetSubBasinValues()[q].size()) != c.n) r.bad("clock/rows", Fmt("%s has %d rows instead of %d", l->GetSubBasinLabels()[q].c_str(), static_cast<int>(l->GetSubBasinValues()[q].size()), c.n));
            for (int i = 0; i < static_cast<int>(l->GetSubBasinValues()[q].size()); ++i)
                if (std::isnan(l->GetSubBasinValues()[q][i])) {
                    r.bad("clock/incomplete", Fmt("row %d of %s was not recorded", i, l->GetSubBasinLabels()[q].c_str()));
                    break;
                }
        }
        for (size_t q = 0; q < l->GetHydroUnitValues().size(); ++q) {
            const axxd& m = l->GetHydroUnitValues()[q];
            for (int u = 0; u < m.cols(); ++u) {
                int missing = 0;
                for (int i = 0; i < m.rows(); ++i) missing += std::isnan(m(i, u)) ? 1 : 0;
                if (missing != 0 && missing != m.rows()) r.bad("clock/incomplete", Fmt("%d of %d rows of %s were not recorded", missing, static_cast<int>(m.rows()), l->GetHydroUnitLabels()[q].c_str()));
            }
        }
        r.mix(t.size() ? t[t.size() - 1] : 0.0);
        r.nontrivial = true;
    }
    Steps(w, r, 1 + static_cast<int>(sp.all("op").size()));
}
static RegisterProp p09({"P09", 12000, 300000, 120, GenP09, ExecP09,
                         "a run counts when it completed and every date and row was checked; distinct = distinct structural signature",
                         "whole engine, timer and logger: real; dates compared with an integer calendar", "climate generator"});

// ---- P10: recorded outputs -----------------------------------------------------------------------------
static Spec GenP10(Rng& r, uint64_t) {
    GenOpt o = RecOpt();
    o.pAction = 0.6;
    o.pEvo = 0.2;
    o.pVariants = 0.4;
    o.maxN = 50;
    Spec sp = GenScenario(r, o);
    if (r.p(0.2)) GenGlacierEvolution(r, sp);
    std::string fam = sp.one("model").str("family");
    if (fam == "gr4j" || fam == "gr6j" || fam == "hbv") {
        std::string b = fam == "hbv" ? "routing" : "uh_input";
        static const std::vector<std::string> items{"q_routing", "q_direct", "routing_store", "internal_storage"};
        if (fam == "hbv") {
            if (r.p(0.5)) sp.add("log").set("brick", b).set("proc", "routing").set("item", "internal_storage");
        } else
            for (auto& i : items)
                if (r.p(0.4)) sp.add("log").set("brick", b).set("proc", "routing").set("item", i);
    }
    if (fam == "graph" && r.p(0.6)) RenameStores(r, sp);
    if (r.p(0.4)) sp.add("op").set("op", "rerun");
    if (r.p(0.4)) sp.add("op").set("op", "partial").set("seed", r.range(1, 1000000));
    return sp;
}
struct Watched {
    int label = 0, unit = -1;  // unit index, -1: sub-basin
    const double* p = nullptr;
    bool et = false, content = false;
    std::string kind;          // water/snow/ice
    LandCover* cover = nullptr;
};
static const double* ItemOf(const BrickRef& b, const std::string& rest, bool& et) {
    et = false;
    if (rest == "water_content") return b.water;
    if (rest == "snow_content") return b.snow;
    if (rest == "ice_content") return b.ice;
    auto c = rest.find(':');
    if (c == std::string::npos) return nullptr;
    std::string pn = rest.substr(0, c), item = rest.substr(c + 1);
    for (size_t p = 0; p < b.brick->GetProcessCount(); ++p) {
        Process* pr = b.brick->GetProcess(p);
        if (pr->GetName() != pn) continue;
        if (item == "output") {
            et = pr->ToAtmosphere();
            return pr->GetOutputFluxCount() > 0 ? pr->GetOutputFlux(0)->GetAmountPointer() : nullptr;
        }
        return pr->GetValuePointer(item);
    }
    return nullptr;
}
static void ExecP10(const Spec& sp, RunResult& r) {
    CountScenario(sp, r);
    World w(sp);
    const Clock c = w.clock;
    // the state before the actions of each boundary is read by an action due first there
    SimAction before;
    for (int i = 0; i < c.n; ++i) before.AddDate(i == 0 ? c.mjd(0) - 4000 : MjdOfMinute(c.at(i)) + 20.0 / 86400);
    if (!(w.MakeSettings() && w.MakeBasin())) return;
    {
        bool ok = false;
        try {
            ok = w.InitModel() && w.model->AddAction(&before) && w.AddForcing() && w.Attach() && w.ApplyInitialStates() && w.AddActions() && w.AddProbe();
        } catch (const std::exception& e) {
            w.error = e.what();
        }
        if (!ok) {
            r.add("refused"); if (getenv("HBSIM_WHY")) r.add("refused: " + w.error);
            r.mix(HashStr(w.error));
            return;
        }
    }
    Logger* l = w.model->GetLogger();
    auto ids = l->GetHydroUnitIds();
    auto bricks = w.Bricks();
    double area = 0;
    for (int i = 0; i < static_cast<int>(ids.size()); ++i) area += l->GetHydroUnitAreas()[i];
    std::vector<Watched> items;
    auto outlet = w.model->GetSubBasin()->GetValuePointer("outlet");
    int outletLabel = -1;
    for (size_t q = 0; q < l->GetSubBasinLabels().size(); ++q) {
        const std::string& n = l->GetSubBasinLabels()[q];
        Watched it;
        it.label = static_cast<int>(q);
        if (n == "outlet") {
            it.p = outlet;
            outletLabel = static_cast<int>(q);
        }
        for (auto& b : bricks)
            if (b.sub && n.compare(0, b.brick->GetName().size() + 1, b.brick->GetName() + ":") == 0) {
                std::string rest = n.substr(b.brick->GetName().size() + 1);
                it.p = ItemOf(b, rest, it.et);
                it.content = rest == "water_content" || rest == "snow_content" || rest == "ice_content";
                it.kind = rest;
            }
        if (!it.p) r.bad("label/unknown", "the recorded label " + n + " names no component of the basin");
        else items.push_back(it);
    }
    std::set<std::pair<int, int>> has;
    for (size_t q = 0; q < l->GetHydroUnitLabels().size(); ++q)
        for (size_t u = 0; u < ids.size(); ++u) {
            const std::string& n = l->GetHydroUnitLabels()[q];
            for (auto& b : bricks) {
                if (b.sub || b.unit->GetId() != ids[u] || n.compare(0, b.brick->GetName().size() + 1, b.brick->GetName() + ":") != 0) continue;
                Watched it;
                it.label = static_cast<int>(q);
                it.unit = static_cast<int>(u);
                std::string rest = n.substr(b.brick->GetName().size() + 1);
                it.p = ItemOf(b, rest, it.et);
                it.content = rest == "water_content" || rest == "snow_content" || rest == "ice_content";
                it.kind = rest;
                it.cover = b.cover;
                if (!it.p) continue;
                items.push_back(it);
                has.insert({static_cast<int>(q), static_cast<int>(u)});
            }
        }
    std::vector<std::vector<LandCover*>> covers(l->GetHydroUnitFractionLabels().size(), std::vector<LandCover*>(ids.size(), nullptr));
    for (size_t j = 0; j < covers.size(); ++j)
        for (size_t u = 0; u < ids.size(); ++u)
            for (auto& b : bricks)
                if (!b.sub && b.unit->GetId() == ids[u] && b.brick->IsLandCover() && b.brick->GetName() == l->GetHydroUnitFractionLabels()[j]) covers[j][u] = b.cover;

    int runs = 0;
    for (int run = 0; run < 1 + static_cast<int>(sp.all("op").size()); ++run) {
        if (run) {
            if (sp.all("op")[static_cast<size_t>(run - 1)]->str("op") != "rerun") continue;
            w.model->Reset();
        }
        struct Row {
            std::vector<double> v, frac;
        };
        std::vector<Row> rows;
        Row first;
        auto snap = [&](Row& row) {
            row.v.clear();
            row.frac.clear();
            for (auto& it : items) row.v.push_back(*it.p);
            for (auto& cv : covers)
                for (auto* x : cv) row.frac.push_back(x ? x->GetAreaFraction() : std::nan(""));
        };
        before.onApply = [&](double) {
            rows.emplace_back();
            snap(rows.back());
            return true;
        };
        w.probe->onSet = [&](double) {
            snap(first);
            return true;
        };
        RunOutcome o = RunModel(*w.model);
        before.onApply = nullptr;
        w.probe->onSet = nullptr;
        ++runs;
        if (!OkOrNote(o, r)) return;
        if (static_cast<int>(rows.size()) != c.n) {
            r.bad("record/boundaries", Fmt("%d boundaries were seen for %d steps", static_cast<int>(rows.size()), c.n));
            return;
        }
        // values
        for (size_t k = 0; k < items.size(); ++k) {
            auto& it = items[k];
            const std::string& n = it.unit < 0 ? l->GetSubBasinLabels()[static_cast<size_t>(it.label)] : l->GetHydroUnitLabels()[static_cast<size_t>(it.label)];
            for (int i = 0; i < c.n; ++i) {
                double got = it.unit < 0 ? l->GetSubBasinValues()[static_cast<size_t>(it.label)][i] : l->GetHydroUnitValues()[static_cast<size_t>(it.label)](i, it.unit);
                if (!SameBits(got, rows[static_cast<size_t>(i)].v[k]) && !(got == rows[static_cast<size_t>(i)].v[k])) {
                    r.bad(it.unit < 0 ? "record/basin" : "record/unit", Fmt("run %d: %s of unit %d at step %d is recorded as %.12g but was %.12g", runs, n.c_str(), it.unit < 0 ? -1 : ids[static_cast<size_t>(it.unit)], i, got, rows[static_cast<size_t>(i)].v[k]));
                    break;
                }
            }
        }
        for (size_t q = 0; q < l->GetHydroUnitLabels().size(); ++q)
            for (size_t u = 0; u < ids.size(); ++u)
                if (!has.count({static_cast<int>(q), static_cast<int>(u)}))
                    for (int i = 0; i < c.n; ++i)
                        if (!std::isnan(l->GetHydroUnitValues()[q](i, static_cast<int>(u)))) {
                            r.bad("record/missing", Fmt("%s of unit %d, which has no such component, is recorded as %.9g at step %d", l->GetHydroUnitLabels()[q].c_str(), ids[u], l->GetHydroUnitValues()[q](i, static_cast<int>(u)), i));
                            break;
                        }
        for (size_t j = 0; j < covers.size(); ++j)
            for (size_t u = 0; u < ids.size(); ++u)
                for (int i = 0; i < c.n; ++i) {
                    double got = l->GetHydroUnitFractions()[j](i, static_cast<int>(u)), want = rows[static_cast<size_t>(i)].frac[j * ids.size() + u];
                    if (!(std::isnan(got) && std::isnan(want)) && got != want) {
                        r.bad("record/fraction", Fmt("fraction of %s in unit %d at step %d is recorded as %.12g but was %.12g", l->GetHydroUnitFractionLabels()[j].c_str(), ids[u], i, got, want));
                        break;
                    }
                }
        // totals from what was observed
        auto weight = [&](const Watched& it, const Row& row) {
            if (it.unit < 0) return 1.0;
            double f = 1;
            if (it.cover)
                for (size_t j = 0; j < covers.size(); ++j)
                    if (covers[j][static_cast<size_t>(it.unit)] == it.cover) f = row.frac[j * ids.size() + static_cast<size_t>(it.unit)];
            return f * l->GetHydroUnitAreas()[it.unit] / area;
        };
        auto near = [](double a, double b) { return std::abs(a - b) <= 1e-8 * (1 + std::max(std::abs(a), std::abs(b))); };
        double q = 0, et = 0;
        std::map<std::string, double> a0, a1;
        double scale = 0;
        for (size_t k = 0; k < items.size(); ++k) {
            auto& it = items[k];
            if (it.unit < 0 && it.label == outletLabel)
                for (auto& row : rows) q += row.v[k];
            if (it.et)
                for (auto& row : rows) et += row.v[k] * weight(it, row);
            if (it.content) {
                double x0 = first.v[k] * weight(it, first), x1 = rows.back().v[k] * weight(it, rows.back());
                a0[it.kind] += x0;
                a1[it.kind] += x1;
                scale = std::max({scale, std::abs(x0), std::abs(x1)});
            }
        }
        auto total = [&](const char* name, double got, double want) {
            if (!near(got, want) && std::abs(got - want) > 1e-9 * scale) r.bad(std::string("totals/") + name, Fmt("run %d: the reported %s is %.12g but the simulated values give %.12g", runs, name, got, want));
        };
        total("discharge", w.model->GetTotalOutletDischarge(), q);
        axd series = w.model->GetOutletDischarge();
        if (static_cast<int>(series.size()) != c.n) r.bad("totals/series", "the outlet series has another length");
        if (w.settings->LogAll()) {
            total("evapotranspiration", w.model->GetTotalET(), et);
            total("water_change", w.model->GetTotalWaterStorageChanges(), a1["water_content"] - a0["water_content"]);
            total("snow_change", w.model->GetTotalSnowStorageChanges(), a1["snow_content"] - a0["snow_content"]);
            bool inf = sp.one("model").str("glacier", "fin") == "inf";
            if (!inf) total("ice_change", w.model->GetTotalGlacierStorageChanges(), a1["ice_content"] - a0["ice_content"]);
        }
        r.mix(static_cast<double>(HashReport(Collect(*w.model)) >> 12));
        r.nontrivial = true;
    }
    // recording less must not change anything
    for (auto op : sp.all("op")) {
        if (op->str("op") != "partial" || !r.violations.empty()) continue;
        Rng g(static_cast<uint64_t>(op->num("seed")));
        Spec p = sp;
        p.find("model")->set("logall", 0).set("logfrac", g.p(0.5) ? 1 : 0);
        std::set<std::string> keep;
        auto pick = [&](const std::string& n) {
            if (n == "outlet" || !g.p(0.3)) return;
            auto parts = Split(n, ':');
            if (parts.size() == 2) p.add("log").set("brick", parts[0]).set("item", parts[1]);
            else if (parts.size() == 3) p.add("log").set("brick", parts[0]).set("proc", parts[1]).set("item", parts[2]);
            else return;
            keep.insert(n);
        };
        for (auto& n : l->GetSubBasinLabels()) pick(n);
        for (auto& n : l->GetHydroUnitLabels()) pick(n);
        World v(p), full(sp);
        if (!v.Build() || !full.Build()) {
            r.bad("partial/refused", "recording fewer components was refused: " + v.error);
            return;
        }
        RunOutcome a = RunModel(*full.model), b = RunModel(*v.model);
        runs += 2;
        if (a.ok != b.ok) {
            r.bad("partial/outcome", a.ok ? b.msg : a.msg);
            return;
        }
        if (!a.ok) return;
        Logger *x = full.model->GetLogger(), *y = v.model->GetLogger();
        auto find = [](const vecStr& v2, const std::string& n) {
            for (size_t k = 0; k < v2.size(); ++k)
                if (v2[k] == n) return static_cast<int>(k);
            return -1;
        };
        keep.insert("outlet");
        for (auto& n : keep) {
            int i1 = find(x->GetSubBasinLabels(), n), i2 = find(y->GetSubBasinLabels(), n), j1 = find(x->GetHydroUnitLabels(), n), j2 = find(y->GetHydroUnitLabels(), n);
            if ((i1 >= 0) != (i2 >= 0) || (j1 >= 0) != (j2 >= 0)) {
                r.bad("partial/label", "the component " + n + " selected for recording is not recorded");
                return;
            }
            for (int k = 0; k < c.n; ++k) {
                if (i1 >= 0 && !SameVal(x->GetSubBasinValues()[static_cast<size_t>(i1)][k], y->GetSubBasinValues()[static_cast<size_t>(i2)][k]))
                    r.bad("partial/value", Fmt("%s at step %d is %.17g when recording everything and %.17g when recording less", n.c_str(), k, x->GetSubBasinValues()[static_cast<size_t>(i1)][k], y->GetSubBasinValues()[static_cast<size_t>(i2)][k]));
                if (j1 >= 0)
                    for (int u = 0; u < static_cast<int>(ids.size()); ++u)
                        if (!SameVal(x->GetHydroUnitValues()[static_cast<size_t>(j1)](k, u), y->GetHydroUnitValues()[static_cast<size_t>(j2)](k, u)))
                            r.bad("partial/value", Fmt("%s of unit %d at step %d is %.17g when recording everything and %.17g when recording less", n.c_str(), ids[static_cast<size_t>(u)], k, x->GetHydroUnitValues()[static_cast<size_t>(j1)](k, u), y->GetHydroUnitValues()[static_cast<size_t>(j2)](k, u)));
            }
        }
        r.add("probe.partial_recording");
    }
    Steps(w, r, runs);
}
static RegisterProp p10({"P10", 25000, 700000, 60, GenP10, ExecP10,
                         "a run counts when every recorded value of every step was compared with the state observed at the end of that step; distinct = distinct structural signature",
                         "whole engine and logger: real", "climate generator; an observing action due first at each boundary"});
