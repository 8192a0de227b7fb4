#include "util.h"

// ---- P05: failures during a run -------------------------------------------------------------------
// One fault strikes a run at a chosen point; afterwards the model is reset and must behave like a fresh one.
static void AddFault(Rng& r, Spec& sp, const Clock& c, bool spin) {
    static const std::vector<std::string> kinds{"advfalse", "advthrow", "setfalse", "setthrow", "actfalse", "actthrow", "alloc", "alloc", "allocreset", "storm", "nan", "advodd"};
    int spinSteps = std::min(c.spinSteps(), c.n);
    Item& f = sp.add("fault");
    std::string k = r.pick(kinds);
    f.set("kind", k);
    if (k.rfind("adv", 0) == 0) f.set("at", r.range(1, c.n + (spin ? spinSteps : 0)));
    else if (k.rfind("set", 0) == 0) f.set("at", spin && r.p(0.6) ? 2 : 1);
    else if (k.rfind("act", 0) == 0) f.set("at", r.range(1, c.n)).set("yearly", r.p(0.4) ? 1 : 0);
    else if (k == "storm" || k == "nan") f.set("at", r.range(0, c.n - 1)).set("len", r.range(1, 3));
    else f.set("frac", r.u());  // which of the run's allocations fails
}
static Spec GenP05(Rng& r, uint64_t) {
    GenOpt o;
    o.minN = 4;
    o.maxN = 40;
    o.maxUnits = 4;
    o.pSpinup = 0.4;
    o.pAction = 0.5;
    o.pEvo = 0.25;
    o.exchange = r.p(0.2);
    Spec sp = GenScenario(r, o);
    if (r.p(0.2)) GenGlacierEvolution(r, sp);
    Clock c = Clock::from(sp);
    if (r.p(0.5)) sp.add("probe").set("first", 1);
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        AddFault(r, sp, c, c.spinupDays > 0);
        if (r.p(0.2)) sp.items.back().set("norecover", 1);  // the next fault strikes before any successful run
    }
    return sp;
}
// The forcing of the scenario with an impossible stretch in the precipitation.
static bool ReplaceForcing(World& w, const Item* bad) {
    w.model->ClearTimeSeries();
    w.probe = nullptr;
    bool first = w.sp.one("probe").i("first") != 0;
    if (first && !w.AddProbe()) return false;
    w.badFrom = bad ? bad->i("at") : -1;
    w.badLen = bad ? bad->i("len", 1) : 0;
    w.badValue = bad && bad->str("kind") == "nan" ? std::nan("") : 1e8;
    bool ok = w.AddForcing() && w.Attach() && (first || w.AddProbe());
    w.badLen = 0;
    return ok;
}
static void ExecP05(const Spec& sp, RunResult& r) {
    CountScenario(sp, r);
    World fresh(sp), w(sp);
    bool act = false;
    for (auto f : sp.all("fault")) act |= f->str("kind").rfind("act", 0) == 0;
    SimAction sa, sb;  // outlive the models' runs; the fresh model gets an idle twin
    if (!BuildOrNote(fresh, r)) return;
    if (!w.Build()) {
        r.bad("rebuild-refused", "a second identical model could not be built: " + w.error);
        return;
    }
    if (act) {
        // one date per step boundary so that a failure can strike at any of them
        // (or, for a yearly action, every day of the period)
        bool yearly = false;
        for (auto f : sp.all("fault")) yearly |= f->i("yearly") != 0;
        if (yearly) {
            for (int d = 0; d <= 365 && w.clock.mjd(0) + d < w.clock.mjd(w.clock.n - 1) + 1; ++d) {
                Time t = GetTimeStructFromMJD(std::floor(w.clock.mjd(0) + 1e-9) + d);
                sa.AddRecursiveDate(t.month, t.day), sb.AddRecursiveDate(t.month, t.day);
            }
            r.add("probe.yearly_action");
        } else {
            for (int i = 1; i < w.clock.n; ++i) sa.AddDate(w.clock.mjd(i)), sb.AddDate(w.clock.mjd(i));
        }
        if (!w.model->AddAction(&sa) || !fresh.model->AddAction(&sb)) {
            r.bad("action-refused", "a plain action was refused");
            return;
        }
    }
    int64_t allocs = 0;
    hooks::ArmAlloc(-1);
    RunOutcome o = RunModel(*fresh.model);
    allocs = hooks::allocSeen;
    hooks::DisarmAlloc();
    if (!OkOrNote(o, r)) return;
    Report ref = Collect(*fresh.model);
    r.mix(static_cast<double>(HashReport(ref) >> 12));
    bool dirty = false;
    int phase = 0;
    for (auto f : sp.all("fault")) {
        ++phase;
        std::string k = f->str("kind");
        if (dirty) w.model->Reset();
        dirty = true;
        bool fired = false, mayHide = false;
        int adv = 0, sets = 0, after = 0;
        auto hit = [&](bool odd) -> bool {
            fired = true;
            if (odd) throw 42;  // not even a std::exception
            if (k.find("throw") != std::string::npos) throw std::runtime_error("simulated failure");
            return false;
        };
        if ((k == "storm" || k == "nan") && !ReplaceForcing(w, f)) {
            r.bad("replace-refused", "replacing the forcing was refused: " + w.error);
            return;
        }
        if (w.probe) {
            w.probe->onAdvance = [&] {
                ++adv;
                if (fired) ++after;
                if (k.rfind("adv", 0) == 0 && adv == f->i("at")) return hit(k == "advodd");
                return true;
            };
            w.probe->onSet = [&](double) {
                ++sets;
                if (fired) ++after;
                if (k.rfind("set", 0) == 0 && sets == f->i("at")) return hit(false);
                return true;
            };
        }
        int acts = 0;
        sa.onApply = [&](double) {
            ++acts;
            if (fired) ++after;
            if (k.rfind("act", 0) == 0 && acts == f->i("at")) return hit(false);
            return true;
        };
        RunOutcome a;
        if (k == "alloc") {
            hooks::ArmAlloc(static_cast<int64_t>(f->num("frac") * static_cast<double>(allocs)));
            mayHide = true;
        }
        if (k == "allocreset") {
            // the run completes; memory runs out in the reset after it
            a = RunModel(*w.model);
            if (a.ok) {
                hooks::ArmAlloc(static_cast<int64_t>(f->num("frac") * 40));
                try {
                    w.model->Reset();
                } catch (const std::exception&) {
                }
                fired = hooks::allocFired;
                hooks::DisarmAlloc();
                if (fired) r.add("fault.allocreset");
            }
        } else {
            try {
                a = RunModel(*w.model);
            } catch (int) {
                a.threw = true;
                a.msg = "foreign exception";
            }
            if (k == "alloc") {
                fired = hooks::allocFired;
                hooks::DisarmAlloc();
            }
            if (k == "storm") fired = !a.ok;   // a storm may also pass
            if (k == "nan") fired = !a.ok;
            if (fired) r.add("fault." + k);
            if (fired && a.ok && !mayHide) r.bad("fault/unreported-" + k, Fmt("fault %d (%s) struck but the run reported success", phase, k.c_str()));
            if (!fired && !a.ok) r.bad("fault/unexpected", Fmt("run %d failed although its fault (%s) did not strike: ", phase, k.c_str()) + a.msg);
            if (fired && after > 0 && !mayHide) r.bad("fault/continued-" + k, Fmt("after fault %d (%s) the run went on for %d more calls", phase, k.c_str(), after));
            if (a.ok && (k != "storm" && k != "nan")) {
                std::string d = Compare(ref, Collect(*w.model));
                if (!d.empty()) r.bad("fault/success-wrong-" + k, Fmt("run %d (%s) reported success but differs from a fresh model's: ", phase, k.c_str()) + d);
            }
        }
        if (w.probe) w.probe->onAdvance = nullptr, w.probe->onSet = nullptr;
        sa.onApply = nullptr;
        if ((k == "storm" || k == "nan") && !ReplaceForcing(w, nullptr)) {
            r.bad("replace-refused", "replacing the forcing was refused: " + w.error);
            return;
        }
        r.mix(HashStr(a.msg));
        if (!r.violations.empty()) return;
        bool last = f == sp.all("fault").back();
        if (f->i("norecover") && !last) continue;
        w.model->Reset();
        RunOutcome b = RunModel(*w.model);
        if (!b.ok) {
            r.bad("recover/failed-" + k, Fmt("after fault %d (%s%s) and a reset the run failed: ", phase, k.c_str(), fired ? "" : ", not struck") + b.msg);
            return;
        }
        std::string d = Compare(ref, Collect(*w.model));
        if (!d.empty()) {
            r.bad("recover/" + k + "-" + ItemClass(d), Fmt("after fault %d (%s%s) and a reset the run differs from a fresh model's: ", phase, k.c_str(), fired ? "" : ", not struck") + d);
            return;
        }
        if (fired) r.nontrivial = true;
    }
    Steps(w, r, 2 * phase + 1);
}
static RegisterProp p05({"P05", 25000, 800000, 60, GenP05, ExecP05,
                         "a run counts when a fault struck a run and the model was reset and run again; distinct = distinct structural signature including the fault kinds and their positions",
                         "whole engine and logger: real; results compared bit for bit with a fresh model's",
                         "climate generator; failing series, actions and allocations come from the simulator"});
