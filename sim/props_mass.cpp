#include "ledger.h"

static void NoteStates(World& w, RunResult& r, uint64_t extra = 0) {
    // coarse signature of the storages: which are empty, how full (powers of two)
    uint64_t h = extra;
    for (auto& b : w.Bricks()) {
        auto bin = [](double v) { return v <= 0 ? 0 : static_cast<int>(std::log2(v + 1)) + 1; };
        h = Mix64(h ^ static_cast<uint64_t>(bin(*b.water)) ^ (static_cast<uint64_t>(b.snow ? bin(*b.snow) : 0) << 8) ^
                  (static_cast<uint64_t>(b.cover ? static_cast<int>(b.cover->GetAreaFraction() * 10) : 0) << 16));
    }
    r.states.push_back(h);
}

// ---- P01 -------------------------------------------------------------------------------------------
static Spec GenP01(Rng& r, uint64_t) {
    GenOpt o;
    o.infeasibleChanges = r.p(0.15);
    Spec sp = GenScenario(r, o);
    if (r.p(0.25)) sp.add("op").set("op", "rerun");
    return sp;
}
static void ExecP01(const Spec& sp, RunResult& r) {
    World w(sp);
    CountScenario(sp, r);
    if (!w.Build()) {
        r.add("refused");
        if (getenv("HBSIM_WHY")) r.add("refused: " + w.error.substr(0, 70));
        r.mix(HashStr(w.error));
        return;
    }
    int runs = 1 + static_cast<int>(sp.all("op").size());
    for (int k = 0; k < runs; ++k) {
        if (k > 0) w.model->Reset();
        Ledger led(w);
        led.Attach();
        for (auto a : sp.all("action")) led.iceActions |= a->str("kind") == "snow2ice";
        if (w.sp.all("action").empty()) w.actions.clear();
        int seen = 0;
        led.onStep = [&](int i) {
            if (!led.inSpinup) ++seen;
            if (i % 16 == 0) NoteStates(w, r, r.shape & 0xff);
            r.mix(led.wsPost);
            return true;
        };
        RunOutcome o = RunModel(*w.model);
        r.add("runs");
        r.add("steps", seen);
        r.add("simdays", seen * w.clock.stepDays());
        if (!o.ok) {
            r.add("aborted");
            if (getenv("HBSIM_WHY")) r.add("aborted: " + o.msg.substr(0, 70));
            r.mix(HashStr(o.msg));
            break;
        }
        if (seen > 0 && led.totalP > 0) r.nontrivial = true;
        if (!led.firstError.empty()) r.bad(led.firstClass, led.firstError);
        if (sp.one("model").i("logall", 1)) {
            ModelHydro& m = *w.model;
            double q = m.GetTotalOutletDischarge(), et = m.GetTotalET();
            double ds = m.GetTotalWaterStorageChanges() + m.GetTotalSnowStorageChanges() + m.GetTotalGlacierStorageChanges();
            double err = led.totalP + led.totalExt - (q + et + ds);
            double jump = led.totalIceJump - led.lastIceJump;  // the last boundary lies after the last record
            err += jump;
            double tol = (led.tolStep + 1e-11 * led.scale) * (seen + 1);
            r.mix(q);
            r.mix(et);
            r.mix(ds);
            if (!(std::abs(err) <= tol))
                r.bad("balance/reported-totals", Fmt("reported outlet %.9g + ET %.9g + storage changes %.9g against precipitation %.9g (+ice %.9g, ice moved by actions %.9g): %.6g mm missing",
                                                     q, et, ds, led.totalP, led.totalExt, jump, err));
            if (!(std::abs(q - led.totalQ) <= tol)) r.bad("balance/reported-outlet", Fmt("total outlet discharge %.9g but the steps sum to %.9g", q, led.totalQ));
            if (!(std::abs(et - led.totalET) <= tol)) r.bad("balance/reported-et", Fmt("total ET %.9g but the steps sum to %.9g", et, led.totalET));
        }
    }
}
static RegisterProp p01({"P01", 40000, 1500000, 60, GenP01, ExecP01,
                         "a run counts when the model ran to its end with precipitation; distinct = distinct structural signature (model options, solver, units, connections, events, clock kind)",
                         "SettingsModel, ModelBuilder, ModelHydro, Processor, solvers, bricks, processes, fluxes, actions, clock, logger: all real",
                         "climate generator; probe time series observing each step"});
