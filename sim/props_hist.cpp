#include "util.h"

// Properties about histories: what a model reports after resets, updates, saves and warm-ups must equal what a model
// built for the occasion reports.

static GenOpt HistOpt(Rng& r) {
    GenOpt o;
    o.maxN = 60;
    o.minN = 6;
    o.pSpinup = 0.3;
    o.pAction = 0.45;
    o.exchange = r.p(0.2);
    o.maxUnits = 4;
    return o;
}

// ---- P04: reset and run again ------------------------------------------------------------------------
static Spec GenP04(Rng& r, uint64_t) {
    GenOpt o = HistOpt(r);
    o.pEvo = 0.35;
    o.infeasibleChanges = r.p(0.05);
    Spec sp = GenScenario(r, o);
    if (r.p(0.3)) GenGlacierEvolution(r, sp);
    int k = r.range(1, 3);
    for (int i = 0; i < k; ++i) {
        double q = r.u();
        sp.add("op").set("op", q < 0.15 ? "idlereset" : q < 0.25 ? "dump" : q < 0.35 ? "totals" : "run");
    }
    sp.add("op").set("op", "run");
    return sp;
}
static void ExecP04(const Spec& sp, RunResult& r) {
    CountScenario(sp, r);
    World fresh(sp), w(sp);
    if (!BuildOrNote(fresh, r)) return;
    RunOutcome o = RunModel(*fresh.model);
    if (!OkOrNote(o, r)) return;
    Report ref = Collect(*fresh.model);
    r.mix(static_cast<double>(HashReport(ref) >> 12));
    if (!w.Build()) {
        r.bad("rebuild-refused", "a second identical model could not be built: " + w.error);
        return;
    }
    int runs = 0;
    auto go = [&](const std::string& when) {
        RunOutcome a = RunModel(*w.model);
        ++runs;
        if (!a.ok) {
            r.bad("rerun/failed", "run " + std::to_string(runs) + " (" + when + ") failed: " + a.msg);
            return false;
        }
        std::string d = Compare(ref, Collect(*w.model));
        if (!d.empty()) {
            r.bad("rerun/" + ItemClass(d), "run " + std::to_string(runs) + " (" + when + ") differs from a fresh model's: " + d);
            return false;
        }
        return true;
    };
    if (sp.one("prop").i("preset")) w.model->Reset();
    if (!go("first")) return;
    for (auto op : sp.all("op")) {
        std::string k = op->str("op");
        if (k == "idlereset") w.model->Reset();
        else if (k == "totals") Collect(*w.model);
        else if (k == "dump") {
            std::string dir = ScratchDir() + "/out";
            std::filesystem::create_directories(dir);
            (void)w.model->DumpOutputs(dir);
        } else {
            w.model->Reset();
            if (!go("after a reset")) return;
        }
    }
    r.nontrivial = runs > 1;
    Steps(w, r, runs + 1);
}
static RegisterProp p04({"P04", 30000, 1000000, 60, GenP04, ExecP04,
                         "a run counts when the model ran, was reset and ran again at least once; distinct = distinct structural signature",
                         "whole engine and logger: real; results compared bit for bit with a fresh model's", "climate generator"});

// ---- P07: the spin-up ---------------------------------------------------------------------------------
// A run with a spin-up of k steps is the tail of a plain run whose forcing replays the first k steps.
static Spec ReplaySpec(const Spec& sp, int k, bool repeatFirst) {
    Clock c = Clock::from(sp);
    Spec t = sp;
    t.find("timer")->set("n", c.n + k).set("spinup", 0);
    t.find("climate")->set("replay", k);
    std::vector<Item> items;
    for (auto& it : t.items) {
        if (it.kind != "change") {
            items.push_back(it);
            continue;
        }
        double d = it.num("day");
        if (repeatFirst && d <= k * c.stepDays() + 1e-9) items.push_back(it);
        Item s = it;
        s.set("day", d + k * c.stepDays());
        items.push_back(s);
    }
    t.items = items;
    return t;
}
// Rows of b from `shift` on against those of a.
static std::string CompareTail(const Report& a, const Report& b, int n, int shift) {
    for (size_t i = 0; i < a.names.size(); ++i) {
        if (a.names[i] == "time" || a.names[i] == "totals" || a.names[i].starts_with("initial/")) continue;
        size_t j = 0;
        while (j < b.names.size() && b.names[j] != a.names[i]) ++j;
        if (j == b.names.size()) return a.names[i] + " is missing";
        if (a.data[i].size() % n) return a.names[i] + " has an unexpected size";
        size_t cols = a.data[i].size() / static_cast<size_t>(n);
        size_t rowsB = b.data[j].size() / std::max<size_t>(1, cols);
        for (size_t u = 0; u < cols; ++u)
            for (int k = 0; k < n; ++k) {
                double x = a.data[i][u * n + k], y = b.data[j][u * rowsB + k + shift];
                if (!SameBits(x, y)) return Fmt("%s[step %d, column %zu] is %.17g instead of %.17g", a.names[i].c_str(), k, u, x, y);
            }
    }
    return "";
}
// What depends on the day of the year cannot be replayed; changes dated at the start fire in the first step only.
static void KeepChangesAfterStart(Spec& sp) {
    if (sp.one("model").str("ice") == "swat") sp.find("model")->set("ice", "const");
    std::vector<Item> items;
    for (auto& it : sp.items)
        if (it.kind != "change" || it.num("day") > 1e-9) items.push_back(it);
    sp.items = items;
}
static Spec GenP07(Rng& r, uint64_t) {
    GenOpt o = HistOpt(r);
    o.pSpinup = 1;
    o.pEvo = 0;
    Spec sp = GenScenario(r, o);
    KeepChangesAfterStart(sp);
    if (r.p(0.3)) sp.add("op").set("op", "rerun");
    return sp;
}
static void ExecP07(const Spec& sp0, RunResult& r) {
    Spec sp = sp0;
    KeepChangesAfterStart(sp);
    CountScenario(sp, r);
    World a(sp);
    int k = std::min(a.clock.spinSteps(), a.clock.n);
    if (k < 1) return;
    World c(ReplaySpec(sp, k, false));
    if (!BuildOrNote(a, r)) return;
    if (!c.Build()) {
        r.bad("twin-refused", "the plain model was refused: " + c.error);
        return;
    }
    bool recorded = false, moved = false;
    int sets = 0, adv = 0;
    std::vector<double> declared;
    auto bricks = a.Bricks();
    for (auto& b : bricks)
        if (b.brick->IsLandCover()) declared.push_back(b.cover->GetAreaFraction());
    auto fractionsKept = [&] {
        size_t q = 0;
        for (auto& b : bricks)
            if (b.brick->IsLandCover() && !SameBits(declared[q++], b.cover->GetAreaFraction())) return false;
        return true;
    };
    a.probe->onSet = [&](double) {
        ++sets;
        if (!fractionsKept()) moved = true;
        if (sets == 2) {
            for (auto& v : a.model->GetLogger()->GetHydroUnitValues())
                for (int q = 0; q < v.size(); ++q)
                    if (!std::isnan(v.data()[q])) recorded = true;
            for (auto& v : a.model->GetLogger()->GetSubBasinValues())
                for (int q = 0; q < v.size(); ++q)
                    if (!std::isnan(v.data()[q])) recorded = true;
        }
        return true;
    };
    a.probe->onAdvance = [&] {
        ++adv;
        if (sets == 1 && !fractionsKept()) moved = true;
        return true;
    };
    RunOutcome oa = RunModel(*a.model), oc = RunModel(*c.model);
    if (!OkOrNote(oa, r)) {
        if (oc.ok) r.bad("spinup/failed", "the run with spin-up failed but the plain run did not: " + oa.msg);
        return;
    }
    if (!oc.ok) {
        r.bad("spinup/plain-failed", "the plain run failed but the run with spin-up did not: " + oc.msg);
        return;
    }
    if (sets != 2 || adv != k + a.clock.n)
        r.bad("spinup/steps", Fmt("%d phases and %d steps instead of a spin-up of %d steps and %d steps", sets, adv, k, a.clock.n));
    if (recorded) r.bad("spinup/recorded", "the spin-up wrote into the records");
    if (moved) r.bad("spinup/fractions", "land-cover fractions were not the declared ones during the spin-up or at the start of the run");
    Report ra = Collect(*a.model), rc = Collect(*c.model);
    r.mix(static_cast<double>(HashReport(ra) >> 12));
    std::string d = CompareTail(ra, rc, a.clock.n, k);
    if (!d.empty()) r.bad("spinup/" + ItemClass(d), Fmt("after a spin-up of %d steps ", k) + d + " (plain run over the same steps)");
    if (r.violations.empty()) {
        // what the run reports as totals is what the plain run reports beyond its first k steps
        Spec sf = ReplaySpec(sp, k, false);
        sf.find("timer")->set("n", k);
        std::vector<Item> keep;
        for (auto& it : sf.items)
            if (it.kind != "change" && it.kind != "action") keep.push_back(it);
        sf.items = keep;
        World first(sf);
        if (first.Build() && RunModel(*first.model).ok) {
            static const char* names[] = {"discharge", "evapotranspiration", "water-change", "snow-change", "ice-change"};
            Report rf = Collect(*first.model);
            auto tot = [](const Report& x) { return x.data[static_cast<size_t>(std::find(x.names.begin(), x.names.end(), "totals") - x.names.begin())]; };
            auto ta = tot(ra), tc = tot(rc), tf = tot(rf);
            for (size_t i = 0; i < 5; ++i) {
                double want = tc[i] - tf[i];
                if (!std::isfinite(want)) continue;
                if (!(std::abs(ta[i] - want) <= 1e-7 * (1 + std::abs(tc[i]) + std::abs(tf[i]))))
                    r.bad(std::string("spinup/total-") + names[i], Fmt("after a spin-up of %d steps the total %s is %.12g instead of %.12g (plain run: %.12g, its first steps: %.12g)", k, names[i], ta[i], want, tc[i], tf[i]));
            }
            r.add("probe.totals");
        }
    }
    if (!sp.all("op").empty() && r.violations.empty()) {
        a.probe->onSet = nullptr;
        a.probe->onAdvance = nullptr;
        a.model->Reset();
        RunOutcome o2 = RunModel(*a.model);
        if (!o2.ok) r.bad("spinup/rerun-failed", o2.msg);
        else {
            d = CompareTail(Collect(*a.model), rc, a.clock.n, k);
            if (!d.empty()) r.bad("spinup/rerun", "on the second run " + d);
        }
    }
    r.nontrivial = true;
    Steps(a, r);
    r.add("spinup_steps", k);
}
static RegisterProp p07({"P07", 25000, 800000, 60, GenP07, ExecP07,
                         "a run counts when both the model with spin-up and the plain replaying model ran; distinct = distinct structural signature",
                         "whole engine and logger: real", "climate generator (the twin's forcing replays the first steps)"});

// ---- P15: saved states --------------------------------------------------------------------------------
static Spec GenP15(Rng& r, uint64_t) {
    GenOpt o = HistOpt(r);
    o.pSpinup = 0.15;
    o.pEvo = 0;
    o.pAction = 0.35;
    Spec sp = GenScenario(r, o);
    KeepChangesAfterStart(sp);
    Clock c = Clock::from(sp);
    sp.add("op").set("op", "save").set("at", r.p(0.4) ? c.n : r.range(1, c.n)).set("again", r.p(0.3) ? 1 : 0);
    return sp;
}
static void ExecP15(const Spec& sp0, RunResult& r) {
    Spec sp = sp0;
    KeepChangesAfterStart(sp);
    CountScenario(sp, r);
    World a(sp);
    const Item& op = sp.one("op");
    int k = std::min(op.i("at", a.clock.n), a.clock.n);
    if (k < 1) return;
    bool spin = a.clock.spinupDays > 0;
    World c(ReplaySpec(sp, k, true));
    if (!BuildOrNote(a, r)) return;
    auto bricks = a.Bricks();
    std::vector<std::pair<std::string, double*>> memory;  // what processes hold themselves
    for (auto& b : bricks)
        for (size_t p = 0; p < b.brick->GetProcessCount(); ++p)
            for (auto name : {"internal_storage", "routing_store", "exp_store"})
                if (double* x = b.brick->GetProcess(p)->GetValuePointer(name)) memory.push_back({b.key + "." + name, x});
    auto state = [&] {
        std::vector<double> v;
        for (auto& b : bricks) {
            v.push_back(*b.water);
            v.push_back(b.snow ? *b.snow : 0);
            v.push_back(b.ice ? *b.ice : 0);
            v.push_back(b.brick->IsLandCover() ? b.cover->GetAreaFraction() : 1);
        }
        for (auto& m : memory) v.push_back(*m.second);
        return v;
    };
    std::vector<double> saved;
    int step = 0;
    a.probe->onSet = [&](double) {
        step = 0;
        return true;
    };
    int sets = 0;
    a.probe->onSet = [&](double) {
        ++sets;
        step = 0;
        return true;
    };
    a.probe->onAdvance = [&] {
        bool mainRun = !spin || sets == 2;
        if (mainRun && ++step == k) {
            a.model->SaveAsInitialState();
            saved = state();
        }
        return true;
    };
    RunOutcome o = RunModel(*a.model);
    if (!OkOrNote(o, r) || saved.empty()) return;
    a.probe->onSet = nullptr;
    a.probe->onAdvance = nullptr;
    auto restored = [&](const char* when) {
        auto v = state();
        for (size_t i = 0; i < v.size(); ++i)
            if (!SameBits(v[i], saved[i])) {
                static const char* what[] = {"water", "snow", "ice", "area fraction"};
                if (i >= 4 * bricks.size()) {
                    r.bad("save/restore-memory", Fmt("%s: %s is %.17g instead of %.17g", when, memory[i - 4 * bricks.size()].first.c_str(), v[i], saved[i]));
                    return false;
                }
                r.bad(std::string("save/restore-") + what[i % 4], Fmt("%s: %s of %s is %.17g instead of %.17g", when, what[i % 4], bricks[i / 4].key.c_str(), v[i], saved[i]));
                return false;
            }
        return true;
    };
    a.model->Reset();
    if (!restored("after the first reset")) return;
    RunOutcome o1 = RunModel(*a.model);
    if (!o1.ok) {
        // the scheduled changes may be impossible from the saved extents
        r.add("second_run_refused");
        return;
    }
    Report r1 = Collect(*a.model);
    a.model->Reset();
    if (!restored("after the second reset")) return;
    RunOutcome o2 = RunModel(*a.model);
    if (!o2.ok) {
        r.bad("save/rerun-failed", "the second run from the saved state failed: " + o2.msg);
        return;
    }
    std::string d = Compare(r1, Collect(*a.model));
    if (!d.empty()) r.bad("save/rerun-" + ItemClass(d), "two runs from the same saved state differ: " + d);
    r.mix(static_cast<double>(HashReport(r1) >> 12));
    if (!spin) {
        if (!c.Build()) {
            r.bad("twin-refused", c.error);
            return;
        }
        RunOutcome oc = RunModel(*c.model);
        if (!oc.ok) {
            r.bad("save/continuing-failed", "continuing the run failed, restarting from the saved state did not: " + oc.msg);
            return;
        }
        d = CompareTail(r1, Collect(*c.model), a.clock.n, k);
        if (!d.empty()) r.bad("save/continue-" + ItemClass(d), Fmt("state saved after %d steps: ", k) + d + " (continuing the run)");
    }
    r.nontrivial = true;
    Steps(a, r, 4);
}
static RegisterProp p15({"P15", 25000, 800000, 60, GenP15, ExecP15,
                         "a run counts when a state was saved during or after a run and the model ran again from it; distinct = distinct structural signature",
                         "whole engine and logger: real", "climate generator (the continuing twin's forcing replays the first steps)"});

// ---- P14: parameter updates ---------------------------------------------------------------------------
struct ParamRef {
    std::string comp, type, name;
    float value;
};
// every occurrence of every parameter: (structure variant, level, component, parameter)
static std::vector<ParamRef> AllParameters(SettingsModel& s, bool distinct = true) {
    std::vector<ParamRef> out;
    auto add = [&](const std::string& comp, const std::string& type, const std::vector<Parameter>& ps, std::set<std::string>& own) {
        for (auto& p : ps) {
            if (!own.insert(p.GetName()).second) continue;  // of two processes of a brick with it, the first is meant
            bool seen = false;
            if (distinct)
                for (auto& o : out) seen |= o.comp == comp && o.name == p.GetName();
            if (!seen) out.push_back({comp, type, p.GetName(), *p.GetValuePointer()});
        }
    };
    for (int k = 1; k <= s.GetStructureCount(); ++k) {
        s.SelectStructure(k);
        auto brick = [&](const BrickSettings& b) {
            std::set<std::string> own;
            add(b.name, b.type, b.parameters, own);
            for (auto& p : b.processes) add(b.name, b.type, p.parameters, own);
        };
        for (int i = 0; i < s.GetHydroUnitBrickCount(); ++i) brick(s.GetHydroUnitBrickSettings(i));
        for (int i = 0; i < s.GetSubBasinBrickCount(); ++i) brick(s.GetSubBasinBrickSettings(i));
        for (int i = 0; i < s.GetHydroUnitSplitterCount(); ++i) {
            std::set<std::string> own;
            add(s.GetHydroUnitSplitterSettings(i).name, "", s.GetHydroUnitSplitterSettings(i).parameters, own);
        }
    }
    s.SelectStructure(1);
    return out;
}
// the name under which the parameter is set: the component, its type or a list
static std::string Selector(const std::vector<ParamRef>& all, SettingsModel& s, const ParamRef& p, int how) {
    if (how == 0 || p.type.empty()) return p.comp;
    if (how == 3) {
        for (auto& o : all)
            if (o.comp != p.comp && o.name == p.name) return p.comp + ", " + o.comp;
        return p.comp;
    }
    bool cover = p.type == "generic_land_cover" || p.type == "glacier";
    bool meta = how == 2 && cover;
    auto in = [&](const std::string& t) { return t == p.type || (meta && (t == "generic_land_cover" || t == "glacier")); };
    // only when every component of the type has the parameter (others are refused by name)
    for (int k = 1; k <= s.GetStructureCount(); ++k) {
        s.SelectStructure(k);
        for (int lvl = 0; lvl < 2; ++lvl)
            for (int i = 0; i < (lvl ? s.GetSubBasinBrickCount() : s.GetHydroUnitBrickCount()); ++i) {
                const BrickSettings& b = lvl ? s.GetSubBasinBrickSettings(i) : s.GetHydroUnitBrickSettings(i);
                if (!in(b.type)) continue;
                bool has = false;
                for (auto& q : b.parameters) has |= q.GetName() == p.name;
                for (auto& pr : b.processes)
                    for (auto& q : pr.parameters) has |= q.GetName() == p.name;
                if (!has) {
                    s.SelectStructure(1);
                    return p.comp;
                }
            }
    }
    s.SelectStructure(1);
    return meta ? "type:land_cover" : "type:" + p.type;
}
static Spec GenP14(Rng& r, uint64_t) {
    GenOpt o = HistOpt(r);
    o.pVariants = 0.35;
    Spec sp = GenScenario(r, o);
    if (auto m = sp.find("model"); m && r.p(0.4)) m->set("glflag", 1);
    int groups = r.range(1, 3);
    for (int g = 0; g < groups; ++g) {
        int k = r.range(1, 5);
        for (int i = 0; i < k; ++i)
            sp.add("op").set("op", "set").set("pick", r.range(0, 100000)).set("how", r.p(0.5) ? 0 : r.range(1, 3)).set("scale", std::round(100 * (r.p(0.2) ? r.uni(1, 1.6) : r.uni(0.3, 1))) / 100);
        sp.add("op").set("op", "update");
        if (r.p(0.7)) sp.add("op").set("op", "run");
    }
    sp.add("op").set("op", "run");
    return sp;
}
static void ExecP14(const Spec& sp, RunResult& r) {
    CountScenario(sp, r);
    World w(sp);
    if (!BuildOrNote(w, r)) return;
    if (sp.one("prop").i("prerun", 0)) (void)RunModel(*w.model);
    Spec now = sp;
    int runs = 0, updates = 0;
    bool dirty = false;
    for (auto op : sp.all("op")) {
        std::string k = op->str("op");
        if (k == "set") {
            auto ps = AllParameters(*w.settings);
            if (ps.empty()) continue;
            auto p = ps[static_cast<size_t>(op->i("pick")) % ps.size()];
            float v = static_cast<float>(p.value * op->num("scale", 1));
            static const std::set<std::string> flags{"no_melt_when_snow_cover", "infinite_storage"};
            if (flags.count(p.name)) v = p.value != 0 ? 0.0f : 1.0f;
            if (p.name == "infinite_storage") {  // the evolution of a glacier needs ice that can be counted
                bool evolves = false;
                for (auto a : sp.all("action")) evolves |= a->str("kind") != "lcc";
                if (evolves) continue;
            }
            if (v == 0) v = 0.0f;
            std::string comp = Selector(ps, *w.settings, p, op->i("how", 0));
            auto before = AllParameters(*w.settings, false);
            bool ok = false;
            try {
                ok = w.settings->SetParameterValue(comp, p.name, v);
            } catch (const std::exception& e) {
                r.bad("update/set-threw", "setting " + comp + "." + p.name + " threw: " + e.what());
                return;
            }
            if (!ok) {
                r.bad("update/set-refused", "setting " + comp + "." + p.name + " was refused");
                return;
            }
            auto after = AllParameters(*w.settings, false);
            auto meant = [&](const ParamRef& q) {
                if (q.name != p.name) return false;
                if (comp.compare(0, 5, "type:") == 0) return q.type == comp.substr(5) || (comp == "type:land_cover" && (q.type == "glacier" || q.type == "generic_land_cover"));
                for (auto& c : Split(comp, ','))
                    if (c == q.comp || c == " " + q.comp) return true;
                return false;
            };
            for (size_t q = 0; q < after.size() && q < before.size(); ++q) {
                float want = meant(after[q]) ? v : before[q].value;
                if (std::memcmp(&want, &after[q].value, sizeof want) != 0) {
                    r.bad(meant(after[q]) ? "update/not-set" : "update/other-changed", Fmt("after setting %s.%s to %.9g, %s.%s is %.9g", comp.c_str(), p.name.c_str(), v, after[q].comp.c_str(), after[q].name.c_str(), after[q].value));
                    return;
                }
            }
            now.add("param").set("comp", comp).set("name", p.name).set("val", static_cast<double>(v)).set("direct", 1);
            r.add("probe.param." + p.name);
            if (op->i("how", 0)) r.add("probe.param_by_type_or_list");
            dirty = true;
        } else if (k == "update") {
            w.model->UpdateParameters(*w.settings);
            ++updates;
            dirty = false;
        } else {
            if (dirty) w.model->UpdateParameters(*w.settings), dirty = false;
            World fresh(now);
            if (!fresh.Build()) {
                r.bad("update/fresh-refused", "a model built with the final values was refused: " + fresh.error);
                return;
            }
            RunOutcome of = RunModel(*fresh.model);
            if (runs > 0 || sp.one("prop").i("prerun", 0)) w.model->Reset();
            RunOutcome ow = RunModel(*w.model);
            ++runs;
            if (of.ok != ow.ok) {
                r.bad("update/outcome", Fmt("run %d after %d updates: updated model %s, model built with the values %s: ", runs, updates, ow.ok ? "ran" : "failed", of.ok ? "ran" : "failed") + (of.ok ? ow.msg : of.msg));
                return;
            }
            if (!OkOrNote(of, r)) continue;
            Report ref = Collect(*fresh.model);
            r.mix(static_cast<double>(HashReport(ref) >> 12));
            std::string d = Compare(ref, Collect(*w.model));
            if (!d.empty()) {
                r.bad("update/" + ItemClass(d), Fmt("run %d after %d updates differs from a model built with the values: ", runs, updates) + d);
                return;
            }
            if (updates) r.nontrivial = true;
        }
    }
    Steps(w, r, 2 * runs);
}
static RegisterProp p14({"P14", 25000, 800000, 60, GenP14, ExecP14,
                         "a run counts when parameters were updated and the model ran afterwards; distinct = distinct structural signature",
                         "whole engine and logger: real", "climate generator"});

// ---- P20: declaration order ---------------------------------------------------------------------------
static Spec Permuted(const Spec& sp, uint64_t seed) {
    Rng r(seed);
    Spec t = sp;
    for (const char* kind : {"unit", "conn", "change"}) {
        std::vector<size_t> at;
        std::vector<Item> v;
        for (size_t k = 0; k < t.items.size(); ++k)
            if (t.items[k].kind == kind) at.push_back(k), v.push_back(t.items[k]);
        r.shuffle(v);
        for (size_t k = 0; k < at.size(); ++k) t.items[at[k]] = v[k];
    }
    {  // actions: the order in which they are added
        std::vector<size_t> at;
        std::vector<Item> v;
        for (size_t k = 0; k < t.items.size(); ++k)
            if (t.items[k].kind == "action") at.push_back(k), v.push_back(t.items[k]);
        r.shuffle(v);
        for (size_t k = 0; k < at.size(); ++k) t.items[at[k]] = v[k];
    }
    // two names of one type
    for (auto& it : t.items)
        if (it.kind == "proc" && r.p(0.5)) {
            std::string ty = it.str("type");
            if (ty == "overflow") it.set("type", "outflow:overflow");
            else if (ty == "outflow:overflow") it.set("type", "overflow");
            else if (ty == "percolation:constant") it.set("type", "outflow:percolation");
        }
    for (auto& var : NeededForcing(sp))
        if (r.p(0.5)) t.add("forcing").set("var", var).set("perm", r.range(1, 100000));
    return t;
}
static Spec GenP20(Rng& r, uint64_t) {
    GenOpt o = HistOpt(r);
    o.pCycle = 0;
    o.pLateral = 0.6;
    o.maxUnits = 6;
    o.pEvo = 0.1;
    o.pSpinup = 0.2;
    Spec sp = GenScenario(r, o);
    // two changes of one unit on one day depend on their order by definition
    std::set<std::string> seen;
    std::vector<Item> items;
    for (auto& it : sp.items) {
        if (it.kind == "change" && !seen.insert(it.str("unit") + "@" + it.str("day")).second) continue;
        items.push_back(it);
    }
    sp.items = items;
    sp.add("op").set("op", "permute").set("seed", r.range(1, 1000000));
    return sp;
}
static void ExecP20(const Spec& sp, RunResult& r) {
    CountScenario(sp, r);
    World a(sp);
    if (!BuildOrNote(a, r)) return;
    World b(Permuted(sp, static_cast<uint64_t>(sp.one("op").num("seed", 1))));
    if (!b.Build()) {
        r.bad("order/refused", "the same model declared in another order was refused: " + b.error);
        return;
    }
    RunOutcome oa = RunModel(*a.model), ob = RunModel(*b.model);
    if (oa.ok != ob.ok) {
        r.bad("order/outcome", std::string("only one of both orders runs: ") + (oa.ok ? ob.msg : oa.msg));
        return;
    }
    if (!OkOrNote(oa, r)) return;
    Logger *la = a.model->GetLogger(), *lb = b.model->GetLogger();
    auto ia = la->GetHydroUnitIds(), ib = lb->GetHydroUnitIds();
    auto same = [&](double x, double y) {
        if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y);
        return std::abs(x - y) <= 1e-6 * (1 + std::max(std::abs(x), std::abs(y)));
    };
    for (size_t q = 0; q < la->GetSubBasinLabels().size(); ++q)
        for (int k = 0; k < a.clock.n; ++k)
            if (!same(la->GetSubBasinValues()[q][k], lb->GetSubBasinValues()[q][k])) {
                r.bad("order/basin", Fmt("%s at step %d is %.12g, and %.12g in the other order", la->GetSubBasinLabels()[q].c_str(), k, la->GetSubBasinValues()[q][k], lb->GetSubBasinValues()[q][k]));
                return;
            }
    for (size_t q = 0; q < la->GetHydroUnitLabels().size(); ++q)
        for (size_t u = 0; u < ia.size(); ++u) {
            size_t v = 0;
            while (v < ib.size() && ib[v] != ia[u]) ++v;
            for (int k = 0; k < a.clock.n; ++k) {
                double x = la->GetHydroUnitValues()[q](k, static_cast<int>(u)), y = lb->GetHydroUnitValues()[q](k, static_cast<int>(v));
                if (!same(x, y)) {
                    r.bad("order/units", Fmt("%s of unit %d at step %d is %.12g, and %.12g in the other order", la->GetHydroUnitLabels()[q].c_str(), ia[u], k, x, y));
                    return;
                }
            }
        }
    Report ra = Collect(*a.model);
    r.mix(static_cast<double>(HashReport(ra) >> 12));
    r.nontrivial = true;
    Steps(a, r, 2);
}
static RegisterProp p20({"P20", 25000, 800000, 60, GenP20, ExecP20,
                         "a run counts when both declaration orders ran; distinct = distinct structural signature",
                         "whole engine and logger: real", "climate generator"});
