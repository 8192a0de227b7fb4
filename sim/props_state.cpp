#include "util.h"
#include "WaterContainer.h"
#include "IceContainer.h"
#include "SnowContainer.h"
#include "Snowpack.h"
#include "Glacier.h"

// ---- P02: physical storages and fluxes ---------------------------------------------------------------
static Spec GenP02(Rng& r, uint64_t) {
    GenOpt o;
    o.minN = 5;
    o.maxN = 90;
    o.exchange = r.p(0.35);
    o.pStorm = 0.4;
    o.pEvo = 0.2;
    o.pGraph = 0.32;
    o.pHourly = o.pMultiDay = 0.2;
    o.infeasibleChanges = r.p(0.1);
    Spec sp = GenScenario(r, o);
    if (r.p(0.2)) GenGlacierEvolution(r, sp);
    // extremes of the forcing
    Item* c = sp.find("climate");
    if (r.p(0.12)) c->set("pmean", r.uni(30, 80));
    if (r.p(0.1)) c->set("tmean", r.uni(-45, -20));
    if (r.p(0.1)) c->set("tmean", r.uni(18, 40));
    if (r.p(0.1)) c->set("petmax", r.uni(10, 30));
    if (r.p(0.05)) c->set("pwet", 0.0).set("petmax", r.uni(5, 15));
    // extremes of the parameters
    for (auto& it : sp.items) {
        if (it.kind != "param" || !r.p(0.06)) continue;
        double v = it.num("val");
        it.set("val", r.p(0.3) ? v * r.uni(1, 3) : r.p(0.4) ? v * 0.01 : v);
    }
    if (r.p(0.2)) sp.add("op").set("op", "rerun");
    return sp;
}
static bool BackwardCaps(const Spec& sp) {
    // a capped storage that a later one sends water to, or circular sends: water arrives after the cap was enforced
    std::map<std::string, int> pos;
    int k = 0;
    for (auto b : sp.all("brick")) pos[b->str("name")] = ++k;
    for (auto p : sp.all("proc"))
        if (pos.count(p->str("brick")) && pos.count(p->str("target")) && pos[p->str("target")] <= pos[p->str("brick")]) return true;
    return false;
}
static void ExecP02(const Spec& sp, RunResult& r) {
    CountScenario(sp, r);
    World w(sp);
    if (!BuildOrNote(w, r)) return;
    auto bricks = w.Bricks();
    bool caps = !BackwardCaps(sp);
    // the infiltration of GR4J/GR6J is the closed-form amount of one day: on longer steps its limit does not apply
    if (w.clock.stepMin > 1440 && sp.one("model").str("family").rfind("gr", 0) == 0) caps = false;
    struct F {
        std::string name;
        double* amount;
    };
    std::vector<F> fluxes;
    for (auto& b : bricks)
        for (size_t p = 0; p < b.brick->GetProcessCount(); ++p) {
            Process* pr = b.brick->GetProcess(p);
            for (int q = 0; q < pr->GetOutputFluxCount(); ++q)
                fluxes.push_back({b.key + "." + pr->GetName(), pr->GetOutputFlux(static_cast<size_t>(q))->GetAmountPointer()});
        }
    double* outlet = w.model->GetSubBasin()->GetValuePointer("outlet");
    int runs = 1 + static_cast<int>(sp.all("op").size());
    for (int run = 0; run < runs; ++run) {
        if (run) w.model->Reset();
        int steps = 0;
        auto look = [&](const char* when) {
            auto content = [&](const BrickRef& b, const char* what, double v, bool mayNeg, const double* cap) {
                if (!std::isfinite(v)) r.bad(std::string("state/not-finite-") + what, Fmt("%s step %d: %s of %s is %g", when, steps, what, b.key.c_str(), v));
                else if (!mayNeg && v < -1e-8) r.bad(std::string("state/negative-") + what, Fmt("%s step %d: %s of %s is %.12g", when, steps, what, b.key.c_str(), v));
                else if (cap && caps && v > *cap + 1e-7 + 1e-9 * *cap) r.bad(std::string("state/above-capacity"), Fmt("%s step %d: %s of %s is %.12g but its capacity is %.12g", when, steps, what, b.key.c_str(), v, *cap));
            };
            for (auto& b : bricks) {
                WaterContainer* wc = b.brick->GetWaterContainer();
                double cap = wc->HasMaximumCapacity() ? wc->GetMaximumCapacity() : 0;
                content(b, "water", *b.water, wc->AllowsNegativeContent(), wc->HasMaximumCapacity() ? &cap : nullptr);
                if (b.snow) content(b, "snow", *b.snow, false, nullptr);
                if (b.ice && !b.infiniteIce) content(b, "ice", *b.ice, false, nullptr);
                r.mix(*b.water);
            }
            for (auto& f : fluxes) {
                if (!std::isfinite(*f.amount)) r.bad("flux/not-finite", Fmt("%s step %d: flux of %s is %g", when, steps, f.name.c_str(), *f.amount));
                else if (*f.amount < -1e-9) r.bad("flux/negative", Fmt("%s step %d: flux of %s is %.12g", when, steps, f.name.c_str(), *f.amount));
            }
            if (!std::isfinite(*outlet)) r.bad("flux/not-finite", Fmt("%s step %d: the outlet discharge is %g", when, steps, *outlet));
            else if (*outlet < -1e-9) r.bad("flux/negative", Fmt("%s step %d: the outlet discharge is %.12g", when, steps, *outlet));
        };
        w.probe->onAdvance = [&] {
            ++steps;
            look("after");
            return true;
        };
        RunOutcome o = RunModel(*w.model);
        r.add("steps", steps);
        r.add("simdays", steps * w.clock.stepDays());
        if (!OkOrNote(o, r)) return;
        r.nontrivial = true;
    }
    // and what was recorded
    Report rep = Collect(*w.model);
    for (size_t i = 0; i < rep.names.size(); ++i)
        for (double v : rep.data[i])
            if (std::isinf(v) && rep.names[i].find("ice_content") == std::string::npos) {
                r.bad("record/not-finite", rep.names[i] + " holds an infinite value");
                break;
            }
}
static RegisterProp p02({"P02", 14000, 400000, 90, GenP02, ExecP02,
                         "a run counts when it reached its end; every storage, flux and the outlet are looked at after every step; distinct = distinct structural signature",
                         "whole engine and logger: real, compiled with AddressSanitizer and UndefinedBehaviorSanitizer",
                         "climate generator"});

// ---- P03: land-cover changes --------------------------------------------------------------------------
struct Change {
    double day;
    int unit;
    std::string cover;
    double frac;
};
static std::vector<Change> OrderedChanges(const Spec& sp) {
    std::vector<Change> v;
    for (auto a : sp.all("action"))
        if (a->str("kind") == "lcc")
            for (auto c : sp.all("change"))
                if (c->str("act") == a->str("id")) v.push_back({c->num("day"), c->i("unit"), c->str("cover"), c->num("frac")});
    std::stable_sort(v.begin(), v.end(), [](const Change& a, const Change& b) { return std::llround(a.day * 1440) < std::llround(b.day * 1440); });
    return v;
}
// Step boundary i lies between step i and step i+1. First boundary at or after the date.
static int BoundaryOf(const Clock& c, double day) {
    int64_t m = std::llround(day * 1440);
    if (m <= c.stepMin) return 0;
    return static_cast<int>((m + c.stepMin - 1) / c.stepMin) - 1;
}
static Spec GenP03(Rng& r, uint64_t) {
    GenOpt o;
    o.minN = 5;
    o.maxN = 50;
    o.maxUnits = 4;
    o.pSecond = 0.7;
    o.pAction = 0;
    o.pEvo = 0;
    o.pEmptyCover = 0.3;
    o.pInit = 0.6;
    o.pSpinup = 0.25;
    o.exchange = r.p(0.1);
    Spec sp = GenScenario(r, o);
    int na = r.p(0.25) ? 2 : 1;
    for (int i = 0; i < na; ++i) GenLandCoverAction(r, sp, "a" + std::to_string(i + 1), r.range(1, 14), r.p(0.3));
    // changes that can never be honoured
    if (r.p(0.25)) {
        Clock c = Clock::from(sp);
        std::vector<int> ids;
        for (auto u : sp.all("unit")) ids.push_back(u->i("id"));
        Item& ch = sp.add("change");
        ch.set("act", "a1").set("day", r.range(1, std::max(1, static_cast<int>(c.n * c.stepDays())))).set("unit", r.pick(ids)).set("cover", "forest").set("frac", 0.3);
        double q = r.u();
        if (q < 0.3) ch.set("cover", "lake");
        else if (q < 0.5) ch.set("unit", 9999);
        else if (q < 0.75) ch.set("frac", r.uni(1.01, 3));
        else ch.set("frac", -r.uni(0.01, 1));
    }
    std::vector<Item> items;  // before the start is outside the statement
    for (auto& it : sp.items)
        if (it.kind != "change" || it.num("day") >= 0) items.push_back(it);
    sp.items = items;
    if (r.p(0.3)) sp.add("op").set("op", "rerun");
    return sp;
}
static void ExecP03(const Spec& sp, RunResult& r) {
    CountScenario(sp, r);
    World w(sp);
    const Clock& c = w.clock;
    SimAction before;  // added first: fires at every boundary before that boundary's changes
    if (!(w.MakeSettings() && w.MakeBasin())) return;
    bool ok = false;
    try {
        ok = w.InitModel() && w.AddForcing() && w.Attach() && w.ApplyInitialStates();
        if (ok) {
            before.AddDate(c.mjd(0) - 5000);
            for (int i = 1; i < c.n; ++i) before.AddDate(c.mjd(i) + 1.0 / 86400);
            ok = w.model->AddAction(&before) && w.AddActions() && w.AddProbe();
        }
    } catch (const std::exception& e) {
        w.error = e.what();
        ok = false;
    }
    if (!ok) {
        r.add("refused");
        return;
    }
    auto bricks = w.Bricks();
    auto changes = OrderedChanges(sp);
    const std::string base = BaseCover(sp);
    using Frac = std::map<std::pair<int, std::string>, double>;
    Frac declared;
    for (auto u : sp.all("unit"))
        for (auto& x : BuiltCovers(sp, *u)) declared[{u->i("id"), x.first}] = x.second;
    auto fractions = [&] {
        Frac f;
        for (auto& b : bricks)
            if (b.brick->IsLandCover()) f[{b.unit->GetId(), b.brick->GetName()}] = b.cover->GetAreaFraction();
        return f;
    };
    auto volumes = [&] {  // water and snow per unit, mm over the unit
        std::map<int, double> v;
        for (auto& b : bricks) {
            if (b.sub) continue;
            double k = b.cover ? b.cover->GetAreaFraction() : 1;
            if (k > 0) v[b.unit->GetId()] += k * (*b.water + (b.snow ? *b.snow : 0));
        }
        return v;
    };
    auto same = [&](const Frac& a, const Frac& b) -> std::string {
        for (auto& x : a) {
            auto it = b.find(x.first);
            double y = it == b.end() ? 0 : it->second;
            if (!(std::abs(x.second - y) <= 1e-6)) return Fmt("cover %s of unit %d covers %.9g instead of %.9g", x.first.second.c_str(), x.first.first, x.second, y);
        }
        return "";
    };
    auto valid = [&](const Frac& f, const std::string& when) {
        std::map<int, double> sum;
        for (auto& x : f) {
            if (!(x.second >= -1e-12 && x.second <= 1 + 1e-9)) r.bad("fractions/range", Fmt("%s: cover %s of unit %d covers %.12g", when.c_str(), x.first.second.c_str(), x.first.first, x.second));
            sum[x.first.first] += x.second;
        }
        for (auto& s : sum)
            if (!(std::abs(s.second - 1) <= 1e-6)) r.bad("fractions/sum", Fmt("%s: the covers of unit %d sum to %.12g", when.c_str(), s.first, s.second));
    };
    auto conserved = [&](const std::map<int, double>& a, const std::map<int, double>& b, const std::string& when) {
        for (auto& x : a) {
            double y = b.at(x.first);
            if (!(std::abs(x.second - y) <= 1e-6 + 1e-9 * std::abs(x.second)))
                r.bad("storage/not-conserved", Fmt("%s: the water and snow of unit %d went from %.12g to %.12g mm", when.c_str(), x.first, x.second, y));
        }
    };
    // Rounded fractions are corrected so that the covers of a unit fill it: by no more than the rounding, and never by
    // giving area to a cover that has none.
    Frac built = fractions();
    std::map<int, double> total;
    for (auto& x : declared) total[x.first.first] += x.second;
    for (auto& x : declared) {
        double now = built.count(x.first) ? built.at(x.first) : 0;
        double slack = std::abs(total[x.first.first] - 1) + 1e-6;
        if (!(std::abs(now - x.second) <= slack) || (x.second == 0 && now != 0)) {
            r.bad("fractions/initial", Fmt("after the build cover %s of unit %d covers %.9g instead of %.9g", x.first.second.c_str(), x.first.first, now, x.second));
            return;
        }
    }
    valid(built, "after the build");
    declared = built;
    int runs = 1 + static_cast<int>(sp.all("op").size());
    for (int run = 0; run < runs && r.violations.empty(); ++run) {
        if (run) w.model->Reset();
        Frac ref = declared;
        size_t next = 0;
        int step = 0, sets = 0;
        bool spin = c.spinupDays > 0 && c.spinSteps() > 0;
        std::map<int, double> vol;
        bool snap = false, expectRefusal = false, vague = false;
        Change refused{};
        // what the changes of boundary i do to the reference; stops at one that must be refused
        auto advance = [&](int i) {
            while (next < changes.size() && BoundaryOf(c, changes[next].day) <= i) {
                const Change& ch = changes[next++];
                auto key = std::make_pair(ch.unit, ch.cover), gen = std::make_pair(ch.unit, base);
                if (!ref.count(key) || ch.frac < -1e-6 || ch.frac > 1 + 1e-6) {
                    expectRefusal = true;
                    refused = ch;
                    return;
                }
                double d = ch.frac - ref[key];
                bool fits = ch.cover == base ? std::abs(d) <= 1e-9 : ref[gen] - d >= -1e-9;
                bool never = ch.cover == base ? std::abs(d) > 1e-6 : ref[gen] - d < -1e-6;
                if (never) {
                    expectRefusal = true;
                    refused = ch;
                    return;
                }
                if (!fits) vague = true;  // between a rounding residue and a real excess: either outcome is fine
                ref[key] = ch.frac;
                if (ch.cover != base) ref[gen] = std::max(0.0, ref[gen] - d);
                r.add("probe.change");
                r.nontrivial = true;
            }
        };
        auto preRow = [&](int i) {  // recorded fractions are those in force during the step
            Logger* l = w.model->GetLogger();
            for (size_t j = 0; j < l->GetHydroUnitFractionLabels().size() && j < l->GetHydroUnitFractions().size(); ++j)
                for (size_t u = 0; u < l->GetHydroUnitIds().size(); ++u) {
                    double v = l->GetHydroUnitFractions()[j](i, static_cast<int>(u));
                    auto it = ref.find({l->GetHydroUnitIds()[u], l->GetHydroUnitFractionLabels()[j]});
                    if (it == ref.end() ? !(std::isnan(v) || v == 0) : !(std::abs(v - it->second) <= 1e-6))
                        r.bad("fractions/recorded", Fmt("step %d: recorded fraction of %s in unit %d is %.9g", i, l->GetHydroUnitFractionLabels()[j].c_str(), l->GetHydroUnitIds()[u], v));
                }
        };
        before.onApply = [&](double) {
            vol = volumes();
            snap = true;
            return true;
        };
        w.probe->onSet = [&](double) {
            ++sets;
            step = 0;
            if (std::string d = same(fractions(), declared); !d.empty()) r.bad("fractions/start", Fmt("at the start of phase %d ", sets) + d);
            return true;
        };
        w.probe->onAdvance = [&] {
            int i = step++;
            if (vague) return true;
            if (spin && sets == 1) {
                if (std::string d = same(fractions(), declared); !d.empty()) r.bad("fractions/spinup", Fmt("after spin-up step %d ", i) + d);
                return true;
            }
            preRow(i);
            Frac was = ref;
            advance(i);
            std::string when = Fmt("after step %d", i);
            Frac now = fractions();
            if (expectRefusal) {
                r.bad("refusal/accepted", when + Fmt(": the change of %s in unit %d to %.6g was not refused", refused.cover.c_str(), refused.unit, refused.frac));
                return false;
            }
            std::string d = same(now, ref);
            if (!d.empty() && i == c.n - 1 && same(now, was).empty()) d = "";  // beyond the last step
            if (!d.empty()) r.bad("fractions/value", when + " " + d);
            valid(now, when);
            if (snap) conserved(vol, volumes(), when);
            snap = false;
            for (auto& x : now) r.mix(x.second);
            return true;
        };
        RunOutcome o = RunModel(*w.model);
        r.add("runs");
        r.add("steps", step);
        r.add("simdays", step * c.stepDays());
        w.probe->onAdvance = nullptr;
        w.probe->onSet = nullptr;
        before.onApply = nullptr;
        if (!o.ok && r.violations.empty() && !vague) {
            // either a refusal that is due at the boundary after the last completed step, or an impossible state
            if (o.msg.find("action") == std::string::npos && o.msg.find("fraction") == std::string::npos) {
                r.add("aborted");
                if (getenv("HBSIM_WHY")) r.add("aborted: " + o.msg.substr(0, 90));
                return;
            }
            advance(step);
            std::string when = Fmt("when the change after step %d was refused", step);
            if (vague) {
                valid(fractions(), when);
                if (snap) conserved(vol, volumes(), when);
            } else if (!expectRefusal) r.bad("refusal/unexpected", Fmt("the run stopped after step %d although every change can be honoured: ", step) + o.msg);
            else {
                r.add("probe.refusal");
                if (std::string d = same(fractions(), ref); !d.empty()) r.bad("refusal/fractions", when + " " + d);
                valid(fractions(), when);
                if (snap) conserved(vol, volumes(), when);
            }
        }
    }
}
static RegisterProp p03({"P03", 30000, 1000000, 60, GenP03, ExecP03,
                         "a run counts when a change took effect or was refused during it; fractions and stored water are compared with an independent book at every boundary; distinct = distinct structural signature",
                         "whole engine, actions and logger: real", "climate generator; an observing action"});

// ---- P06: scheduled actions -----------------------------------------------------------------------------
static Spec GenP06(Rng& r, uint64_t) {
    GenOpt o;
    o.maxUnits = 1;
    o.pSpinup = 0.35;
    o.pHourly = 0.35;
    o.pMultiDay = 0.3;
    o.pAction = 0;
    o.pEvo = 0;
    o.pGR = 0;
    o.pHBV = 0;
    o.pGraph = 0;
    o.pGlacier = 0.1;
    o.logall = false;
    bool longRun = r.p(0.5);
    o.minN = 3;
    o.maxN = longRun ? 900 : 60;
    bool real = r.p(0.3);  // real land-cover changes as well
    if (real) o.maxUnits = 4, o.pAction = 1, o.maxN = std::min(o.maxN, 200);
    Spec sp = GenScenario(r, o);
    Clock c = Clock::from(sp);
    if (real && DeclaredCovers(sp).size() > 1 && r.p(0.4)) GenLandCoverAction(r, sp, "a2", r.range(1, 8), false);
    double span = c.n * c.stepDays();
    int na = r.range(real ? 0 : 1, 5);
    std::vector<double> used;
    for (int a = 0; a < na; ++a) {
        Item& it = sp.add("action");
        it.set("id", "s" + std::to_string(a + 1)).set("kind", "sim");
        if (r.p(0.35)) {
            std::string s;
            int k = r.range(1, 3);
            int y, mo, d;
            for (int i = 0; i < k; ++i) {
                // often an occurrence inside the period, also month ends and leap days
                CivilFromDays(c.start / 1440 + r.range(0, std::max(1, static_cast<int>(span))), y, mo, d);
                if (r.p(0.1)) mo = 2, d = r.range(27, 28);
                if (d > 28 && mo == 2) d = 28;
                s += (i ? "," : "") + std::to_string(mo) + "-" + std::to_string(d);
            }
            it.set("yearly", s);
        } else {
            std::string s;
            int k = r.range(1, 10);
            for (int i = 0; i < k; ++i) {
                double d;
                if (!used.empty() && r.p(0.3)) d = r.pick(used);
                else if (r.p(0.08)) d = -r.range(1, 50);
                else if (r.p(0.08)) d = span + r.range(0, 20);
                else if (r.p(0.5)) d = std::floor(r.uni(0, span));
                else d = std::round(r.uni(0, span) * 1440) / 1440;
                used.push_back(d);
                s += (i ? "," : "") + Num(d);
            }
            it.set("dates", s);
        }
        if (r.p(0.5)) it.set("late", 1);  // added between two runs' first and later ones only matters for the order
    }
    int k = r.range(0, 2);
    for (int i = 0; i < k; ++i) sp.add("op").set("op", "rerun");
    return sp;
}
struct Firing {
    int act, boundary;
    double date;
};
class DatedAction : public SimAction {
  public:
    // sporadic dates in the order the base keeps them (what an action such as a land-cover change does)
    double Current() const { return _cursor < static_cast<int>(_sporadicDates.size()) ? _sporadicDates[static_cast<size_t>(_cursor)] : std::nan(""); }
};
static void ExecP06(const Spec& sp, RunResult& r) {
    CountScenario(sp, r);
    World w(sp);
    const Clock& c = w.clock;
    if (!BuildOrNote(w, r)) return;
    std::vector<const Item*> items;
    for (auto it : sp.all("action"))
        if (it->str("kind") == "sim") items.push_back(it);
    std::vector<std::unique_ptr<DatedAction>> acts;
    std::vector<std::vector<int64_t>> dates(items.size());       // minutes from the start
    std::vector<std::vector<std::pair<int, int>>> yearly(items.size());
    for (size_t a = 0; a < items.size(); ++a) {
        auto act = std::make_unique<DatedAction>();
        if (items[a]->has("yearly")) {
            for (auto& s : Split(items[a]->str("yearly"), ',')) {
                int mo = 1, d = 1;
                if (sscanf(s.c_str(), "%d-%d", &mo, &d) != 2) continue;
                static_cast<Action*>(act.get())->AddRecursiveDate(mo, d);
                yearly[a].emplace_back(mo, d);
            }
        } else {
            for (auto& s : Split(items[a]->str("dates"), ',')) {
                if (s.empty()) continue;
                int64_t m = std::llround(strtod(s.c_str(), nullptr) * 1440);
                dates[a].push_back(m);
                act->AddDate(MjdOfMinute(c.start + m));
            }
        }
        if (!w.model->AddAction(act.get())) {
            r.bad("schedule/refused", "a valid action was refused");
            return;
        }
        acts.push_back(std::move(act));
    }
    auto bricks = w.Bricks();
    auto changes = OrderedChanges(sp);
    const std::string base = BaseCover(sp);
    std::map<std::pair<int, std::string>, double> declared;
    for (auto& b : bricks)
        if (b.brick->IsLandCover()) declared[{b.unit->GetId(), b.brick->GetName()}] = b.cover->GetAreaFraction();
    bool spin = c.spinupDays > 0 && c.spinSteps() > 0;
    int64_t periodEnd = static_cast<int64_t>(c.n - 1) * c.stepMin + c.tail;
    int runs = 1 + static_cast<int>(sp.all("op").size());
    for (int run = 0; run < runs && r.violations.empty(); ++run) {
        if (run) w.model->Reset();
        int steps = 0, sets = 0;
        std::vector<Firing> fired;
        std::vector<double> seen;  // scheduled dates in firing order
        for (size_t a = 0; a < acts.size(); ++a)
            acts[a]->onApply = [&, a](double) {
                if (spin && sets == 1) r.bad("schedule/spinup", Fmt("an action fired during the spin-up (step %d)", steps));
                // the boundary this firing belongs to follows the step being completed
                double cur = acts[a]->IsRecursive() ? std::nan("") : acts[a]->Current();
                fired.push_back({static_cast<int>(a), steps, cur});
                r.mix(cur);
                return true;
            };
        w.probe->onSet = [&](double) {
            ++sets;
            steps = 0;
            return true;
        };
        // the extents that the real changes leave: each unit's cover has that of its last change, from its boundary on
        std::map<std::pair<int, std::string>, double> ref = declared;
        size_t next = 0;
        bool vague = changes.empty();
        w.probe->onAdvance = [&] {
            int i = steps++;
            if (vague || (spin && sets == 1)) return true;
            auto was = ref;
            while (next < changes.size() && BoundaryOf(c, changes[next].day) <= i) {
                const Change& ch = changes[next++];
                auto key = std::make_pair(ch.unit, ch.cover), gen = std::make_pair(ch.unit, base);
                double d = ch.frac - ref[key];
                if (ch.day < 0 || ch.cover == base || ref[gen] - d < -1e-9) {
                    vague = true;
                    return true;
                }
                ref[key] = ch.frac;
                ref[gen] -= d;
                r.add("probe.change");
                r.nontrivial = true;
            }
            for (auto& b : bricks) {
                if (!b.brick->IsLandCover()) continue;
                std::pair<int, std::string> key{b.unit->GetId(), b.brick->GetName()};
                double f = b.cover->GetAreaFraction();
                if (std::abs(f - ref[key]) > 1e-6 && !(i == c.n - 1 && std::abs(f - was[key]) <= 1e-6)) {
                    r.bad("schedule/change", Fmt("after step %d (%s, run %d) %s covers %.9g of unit %d, not %.9g as the changes due by then give", i, DateText(c.at(i + 1)).c_str(), run + 1, key.second.c_str(), f, key.first, ref[key]));
                    vague = true;
                }
            }
            return true;
        };
        RunOutcome o = RunModel(*w.model);
        Steps(w, r);
        w.probe->onAdvance = nullptr;
        w.probe->onSet = nullptr;
        if (!OkOrNote(o, r)) return;
        r.add("probe.firings", static_cast<double>(fired.size()));
        // sporadic dates
        for (size_t a = 0; a < acts.size(); ++a) {
            std::map<int, int> got, need, may;  // boundary -> count
            for (auto& f : fired)
                if (f.act == static_cast<int>(a)) ++got[f.boundary];
            std::string what = "action " + items[a]->str("id");
            if (!items[a]->has("yearly")) {
                for (int64_t m : dates[a]) {
                    int b = m <= c.stepMin ? 0 : static_cast<int>((m + c.stepMin - 1) / c.stepMin) - 1;
                    bool inside = m >= 0 && m <= periodEnd;
                    if (inside) ++need[b];
                    else if (m < 0) ++may[0];
                    else if (b < c.n) ++may[b];
                }
            } else {
                // one occurrence per date of the year inside the period; that of the first day is optional
                for (auto& yd : yearly[a])
                    for (int64_t day = c.start / 1440; day * 1440 <= c.start + static_cast<int64_t>(c.n) * c.stepMin; ++day) {
                        int y, mo, d;
                        CivilFromDays(day, y, mo, d);
                        if (mo != yd.first || d != yd.second) continue;
                        int64_t m = day * 1440 - c.start;
                        int b = m <= c.stepMin ? 0 : static_cast<int>((m + c.stepMin - 1) / c.stepMin) - 1;
                        bool dup = false;  // the same day declared twice in one action fires once
                        for (auto& o2 : yearly[a])
                            if (&o2 < &yd && o2 == yd) dup = true;
                        if (dup) continue;
                        if (m > 0 && m <= periodEnd) ++need[b];
                        else if (m <= 0) ++may[0];
                        else if (b < c.n) ++may[b];
                    }
            }
            std::set<int> bs;
            for (auto& x : got) bs.insert(x.first);
            for (auto& x : need) bs.insert(x.first);
            for (int b : bs) {
                int g = got.count(b) ? got[b] : 0, n = need.count(b) ? need[b] : 0, m = may.count(b) ? may[b] : 0;
                std::string cls = items[a]->has("yearly") ? "schedule/recurring" : "schedule/dated";
                if (g < n) r.bad(cls + "-missed", what + Fmt(" took effect %d times instead of %d at the boundary after step %d (%s), run %d", g, n, b, DateText(c.at(b + 1)).c_str(), run + 1));
                if (g > n + m) r.bad(cls + "-extra", what + Fmt(" took effect %d times instead of %d at the boundary after step %d (%s), run %d", g, n, b, DateText(c.at(b + 1)).c_str(), run + 1));
            }
            if (!need.empty()) r.nontrivial = true;
        }
        double last = -1e18;
        for (auto& f : fired) {
            if (std::isnan(f.date)) continue;
            if (f.date < last - 1e-9) r.bad("schedule/order", Fmt("a change dated %.6f took effect after one dated %.6f", f.date, last));
            last = std::max(last, f.date);
        }
    }
}
static RegisterProp p06({"P06", 30000, 800000, 60, GenP06, ExecP06,
                         "a run counts when at least one action was due during it; firings are compared with the calendar of the simulator; distinct = distinct structural signature",
                         "clock, actions manager, Action, land-cover changes, engine: real", "the other actions only record; climate generator"});
