#include "gen.h"
#include "util.h"

// ---- P19: glacier evolution ---------------------------------------------------------------------------
static double Round3(double v) { return std::round(v * 1000) / 1000; }

static Spec GenP19(Rng& r, uint64_t) {
    GenOpt o;
    o.pGlacier = 1;
    o.pInf = 0;
    o.pAction = 0;
    o.pEvo = 0;
    o.pVariants = 0.1;
    o.pSecond = 0.2;
    o.pLateral = 0.1;
    o.pGraph = 0.1;
    o.pGR = 0.1;
    o.pHBV = 0.1;
    o.pHourly = 0;
    o.pMultiDay = 0.25;
    o.pSpinup = 0.3;
    o.pEmptyCover = 0.25;
    o.maxUnits = 4;
    o.minN = 60;
    o.maxN = 600;
    Spec sp;
    for (int tries = 0; tries < 20; ++tries) {
        sp = GenScenario(r, o);
        bool any = false;
        for (auto u : sp.all("unit")) any |= UnitCovers(*u).count("glacier") && UnitCovers(*u)["glacier"] > 0;
        if (any) break;
    }
    bool snow = sp.one("model").i("snow") != 0;
    // extents the tables give instead of the declaration
    for (auto& it : sp.items) {
        if (it.kind != "unit") continue;
        auto cv = UnitCovers(it);
        if (!cv.count("glacier") || cv["glacier"] > 0) continue;
        double q = r.u();
        if (q < 0.5 && cv["ground"] > 0.05) it.set("gl0", r.p(0.15) && std::abs(cv["ground"] * 1000 - std::round(cv["ground"] * 1000)) < 1e-9 ? cv["ground"] : Round3(cv["ground"] * r.uni(0.05, 0.95)));
        else if (q < 0.75) it.set("glz", 1);
    }
    int y, mo, d;
    CivilFromDays(Clock::from(sp).start / 1440, y, mo, d);
    int k = r.p(0.15) ? 2 : 1;
    std::string kind = r.p(0.5) ? "deltah" : "areascaling";
    for (int i = 0; i < k; ++i) {  // twice = two evolution dates in the year with the same tables
        Item& a = sp.add("action");
        if (i == 0) {
            a.set("id", "g" + std::to_string(i)).set("kind", kind).set("month", (mo + r.range(0, 5)) % 12 + 1).set("cover", "glacier");
            a.set("rows", r.pick(std::vector<int>{2, 5, 11, 21, 50, 101})).set("thick", Round3(r.p(0.3) ? r.uni(0.05, 1) : r.p(0.5) ? r.uni(0.5, 5) : r.uni(2, 60)));
            double q = r.u();
            if (q < 0.35) a.set("table", "bands");
            else if (q < 0.5 && kind == "areascaling" && a.i("rows") > 3) a.set("table", "early").set("early", r.range(1, 2));
        } else {
            Item first = *sp.find("action");
            a.kv = first.kv;
            a.set("id", "g1").set("month", (mo + r.range(0, 8)) % 12 + 1);
        }
    }
    if (snow && r.p(0.5)) {
        Item& a = sp.add("action");
        a.set("id", "s1").set("kind", "snow2ice").set("month", (mo + r.range(0, 6)) % 12 + 1).set("mday", r.p(0.4) ? 1 : r.range(1, 28)).set("cover", "glacier");
        if (r.p(0.5)) {  // registered before the evolution
            Item moved = a;
            sp.items.pop_back();
            size_t at = 0;
            while (sp.items[at].kind != "action") ++at;
            sp.items.insert(sp.items.begin() + static_cast<long>(at), moved);
        }
    }
    Item& pr = sp.add("prop");
    pr.set("len", r.range(15, 200)).set("phase", r.range(0, 1)).set("warm", Round3(r.uni(0, 18))).set("cold", Round3(r.uni(0, 20))).set("wet", Round3(r.p(0.5) ? 1.0 : r.uni(1, 15)));
    int nops = r.range(0, 2);
    for (int i = 0; i < nops; ++i) sp.add("op").set("op", r.p(0.6) ? "rerun" : "save");
    return sp;
}

struct GlacierWatch {
    World& w;
    RunResult& r;
    std::vector<BrickRef> bricks;
    std::vector<size_t> ices, snows;
    double vPre = 0, sPre = 0, vPost = 0;
    std::vector<double> fracPre;
    bool havePre = false, havePost = false, changed = false, iceProcess = false;
    int pre = 0, post = 0, evolved = 0, converted = 0;
    double tol;
    std::set<int> evoAt, convAt;

    GlacierWatch(World& w_, RunResult& r_)
        : w(w_), r(r_), bricks(w_.Bricks()), iceProcess(w_.sp.one("model").str("ice", "none") != "none") {
        for (size_t k = 0; k < bricks.size(); ++k) {
            if (bricks[k].ice) ices.push_back(k);
            if (bricks[k].snow) snows.push_back(k);
        }
        // the boundaries of the declared dates
        for (auto a : w.sp.all("action")) {
            int y0, m0, d0, mday = a->str("kind") == "snow2ice" ? a->i("mday", 1) : 1;
            CivilFromDays(w.clock.start / 1440, y0, m0, d0);
            for (int y = y0; y < y0 + 20; ++y) {
                int64_t at = DaysFromCivil(y, a->i("month"), mday) * 1440;
                if (at <= w.clock.start) continue;
                int64_t i = (at - w.clock.start + w.clock.stepMin - 1) / w.clock.stepMin - 1;
                if (i >= w.clock.n) break;
                (a->str("kind") == "snow2ice" ? convAt : evoAt).insert(static_cast<int>(std::max<int64_t>(0, i)));
            }
        }
        double v, s;
        Sum(v, s);
        tol = 1e-9 * (v + s) + 1e-9;
    }
    void Sum(double& v, double& s) {
        v = s = 0;
        for (auto k : ices) v += bricks[k].unit->GetArea() * bricks[k].cover->GetAreaFraction() * *bricks[k].ice;
        for (auto k : snows) s += bricks[k].unit->GetArea() * (bricks[k].cover ? bricks[k].cover->GetAreaFraction() : 1.0) * *bricks[k].snow;
    }
    void Sane(const std::string& when) {
        std::map<int, double> sum;
        for (auto& b : bricks) {
            if (b.ice) {
                if (!std::isfinite(*b.ice)) r.bad("glacier/ice-not-finite", Fmt("%s: %s holds %g mm of ice", when.c_str(), b.key.c_str(), *b.ice));
                else if (*b.ice < -1e-9) r.bad("glacier/ice-negative", Fmt("%s: %s holds %g mm of ice", when.c_str(), b.key.c_str(), *b.ice));
            }
            if (b.brick->IsLandCover()) {
                double f = b.cover->GetAreaFraction();
                if (!(f >= 0 && f <= 1)) r.bad("glacier/extent", Fmt("%s: %s has the area fraction %.17g", when.c_str(), b.key.c_str(), f));
                sum[b.unit->GetId()] += f;
            }
        }
        for (auto& s : sum)
            if (!(std::abs(s.second - 1) < 1e-9)) r.bad("glacier/extents", Fmt("%s: the cover fractions of unit %d sum to %.12g", when.c_str(), s.first, s.second));
    }
    void OnBefore() {
        int i = pre++;
        Sane(Fmt("step %d", i));
        Sum(vPre, sPre);
        if (havePost && !iceProcess && vPre > vPost + tol) r.bad("glacier/ice-gained", Fmt("step %d: the ice grew from %.12g to %.12g during the step", i, vPost, vPre));
        fracPre.clear();
        for (auto k : ices) fracPre.push_back(bricks[k].cover->GetAreaFraction());
        havePre = true;
    }
    void OnAfter() {
        if (!havePre) return;  // spin-up: no actions
        havePre = false;
        int i = post++;
        double v, s;
        std::string when = Fmt("boundary %d", i);
        Sane(when);
        Sum(v, s);
        bool evo = evoAt.count(i) > 0, conv = convAt.count(i) > 0;
        tol = std::max(tol, 1e-9 * (v + s));
        for (size_t q = 0; q < ices.size(); ++q)
            if (std::abs(bricks[ices[q]].cover->GetAreaFraction() - fracPre[q]) > 1e-12) {
                changed = true;
                if (!evo) r.bad("glacier/unexpected-change", Fmt("%s: the extent of %s changed although no evolution was due", when.c_str(), bricks[ices[q]].key.c_str()));
            }
        if (!(std::abs((v + s) - (vPre + sPre)) <= tol))
            r.bad(evo ? "glacier/evolution-balance" : "glacier/balance", Fmt("%s: ice and snow went from %.12g to %.12g mm*m2 (evolution %s, snow to ice %s)", when.c_str(), vPre + sPre, v + s, evo ? "due" : "no", conv ? "due" : "no"));
        if (!conv && !(std::abs(v - vPre) <= tol))
            r.bad("glacier/evolution-ice", Fmt("%s: the ice went from %.12g to %.12g mm*m2 (evolution %s)", when.c_str(), vPre, v, evo ? "due" : "no"));
        if (conv && !(v >= vPre - tol)) r.bad("glacier/conversion-ice", Fmt("%s: the ice fell from %.12g to %.12g mm*m2 at a snow to ice conversion", when.c_str(), vPre, v));
        if (conv && !evo) {
            for (auto k : snows)
                if (bricks[k].cover && bricks[k].cover->GetName() == "glacier" && bricks[k].cover->GetAreaFraction() > 1e-8 && *bricks[k].snow > 1e-9)
                    r.bad("glacier/conversion-left", Fmt("%s: %g mm of snow left on %s", when.c_str(), *bricks[k].snow, bricks[k].key.c_str()));
            ++converted;
        }
        if (evo && !conv) {
            ++evolved;
            Extents(i);
        } else if (evo) ++evolved;
        vPost = v;
        havePost = true;
        r.mix(v);
    }
    // the extents follow the tables
    void Extents(int i) {
        const axxd &A = w.tableArea, &V = w.tableVolume;
        int rows = static_cast<int>(A.rows());
        bool delta = false;
        for (auto a : w.sp.all("action")) delta |= a->str("kind") == "deltah";
        auto holds = [&](int row, int j, double f, HydroUnit* u) { return std::abs(A(row, j) / u->GetArea() - f) < 1e-6; };
        auto left = [&](double v, double v0) { return v0 > 0 ? v / v0 : 0.0; };
        auto rowsOf = [&](double l) {
            double x = std::max(0.0, 1 - l) * (rows - 1);
            std::set<int> c{std::min(rows - 1, static_cast<int>(x)), std::min(rows - 1, static_cast<int>(x + 1e-6)), std::max(0, static_cast<int>(x - 1e-6))};
            return c;
        };
        double tv = 0, tv0 = V.row(0).sum() * constants::iceDensity;
        std::map<int, size_t> at;
        for (size_t q = 0; q < ices.size(); ++q)
            if (bricks[ices[q]].brick->GetName() == "glacier") at[bricks[ices[q]].unit->GetId()] = q;
        std::vector<double> vol;
        for (size_t j = 0; j < w.tableIds.size(); ++j) {
            auto& b = bricks[ices[at[w.tableIds[j]]]];
            vol.push_back(b.unit->GetArea() * b.cover->GetAreaFraction() * *b.ice);
            tv += vol.back();
        }
        for (size_t j = 0; j < w.tableIds.size(); ++j) {
            size_t q = at[w.tableIds[j]];
            auto& b = bricks[ices[q]];
            int J = static_cast<int>(j);
            double f = b.cover->GetAreaFraction();
            bool ok = false;
            double l = delta ? left(tv, tv0) : left(vol[j], V(0, J) * constants::iceDensity);
            for (int row : rowsOf(l)) {
                ok |= holds(row, J, f, b.unit);
                if (A(row, J) < 1e-6) ok = ok || (!delta && vol[j] > 0);  // no extent for what is left: kept as it was
            }
            if (!delta && (vol[j] < 1e-6 || fracPre[q] < 1e-8)) ok = f < 1e-8 || ok;
            if (!ok) r.bad("glacier/extent-table", Fmt("boundary %d: with %.6g of the ice left the glacier of unit %d covers %.9g of it, not what the table gives", i, l, w.tableIds[j], f));
        }
        // the ice is spread as the table says
        if (delta && tv > 1e-6) {
            for (int row : rowsOf(left(tv, tv0))) {
                double sum = V.row(row).sum();
                bool ok = sum > 0;
                for (size_t j = 0; ok && j < vol.size(); ++j) ok = std::abs(vol[j] / tv - V(row, static_cast<int>(j)) / sum) < 1e-6;
                if (ok) return;
            }
            r.bad("glacier/spread", Fmt("boundary %d: the ice is not spread over the units as the table gives", i));
        }
    }
};

static void ExecP19(const Spec& sp, RunResult& r) {
    SimAction before;  // due first at each boundary
    World w(sp);
    for (int i = 0; i < w.clock.n; ++i) before.AddDate(i == 0 ? w.clock.mjd(0) - 4000 : MjdOfMinute(w.clock.at(i)) + 20.0 / 86400);
    CountScenario(sp, r);
    const Item& pv = sp.one("prop");
    {
        const Item* pr = &pv;
        int len = std::max(1, pr->i("len", 100)), phase = pr->i("phase");
        double warm = pr->num("warm"), cold = pr->num("cold"), wet = pr->num("wet", 1);
        int64_t start = w.clock.start;
        w.forcing = [=](const std::string& var, int, int64_t minute, double v) {
            int64_t day = (minute - start) / 1440 + 100000LL * len * 2;
            bool isCold = (day / len) % 2 == phase;
            if (var == "temperature") return v + (isCold ? -cold : warm);
            if (var == "precipitation" && isCold) return v * wet;
            return v;
        };
    }
    if (!BuildOrNote(w, r)) {
        for (auto a : sp.all("action"))
            if (w.error.find("AddAction refused " + a->str("kind")) != std::string::npos) r.bad("glacier/refused", w.error);
        return;
    }
    if (!w.model->AddAction(&before)) {
        r.bad("harness/action", "the observing action was refused");
        return;
    }
    GlacierWatch first(w, r);
    auto extents = [&] {
        std::vector<double> v;
        for (auto& b : first.bricks) {
            if (b.brick->IsLandCover()) v.push_back(b.cover->GetAreaFraction());
            if (b.ice) v.push_back(*b.ice);
        }
        return v;
    };
    auto fractions = [&] {
        std::vector<double> v;
        for (auto& b : first.bricks)
            if (b.brick->IsLandCover()) v.push_back(b.cover->GetAreaFraction());
        return v;
    };
    // declared extents and ice
    first.Sane("start");
    for (size_t j = 0; j < w.tableIds.size(); ++j)
        for (auto& b : first.bricks)
            if (b.ice && b.unit->GetId() == w.tableIds[j] && b.brick->GetName() == "glacier") {
                double a = b.unit->GetArea() * b.cover->GetAreaFraction(), want = w.tableArea(0, static_cast<int>(j)), wv = w.tableVolume(0, static_cast<int>(j)) * constants::iceDensity;
                if (!(std::abs(a - want) <= 1e-6 * (1 + want))) r.bad("glacier/start-extent", Fmt("unit %d starts with a glacier of %.12g instead of %.12g", w.tableIds[j], a, want));
                if (!(std::abs(a * *b.ice - wv) <= 1e-6 * (1 + wv))) r.bad("glacier/start-ice", Fmt("unit %d starts with %.12g mm*m2 of ice instead of %.12g", w.tableIds[j], a * *b.ice, wv));
            }
    if (!r.violations.empty()) return;
    std::vector<double> start = extents(), startFrac = fractions(), saved = start;
    Report rep;
    bool haveRep = false;
    auto run = [&](const std::string& what) -> bool {
        GlacierWatch g(w, r);
        before.onApply = [&](double) {
            g.OnBefore();
            return true;
        };
        w.probe->onAdvance = [&] {
            g.OnAfter();
            return true;
        };
        w.probe->onSet = [&](double) {
            auto f = fractions();
            for (size_t k = 0; k < f.size(); ++k)
                if (!SameBits(f[k], startFrac[k])) r.bad("glacier/run-start", Fmt("%s: a cover starts with the fraction %.17g instead of %.17g", what.c_str(), f[k], startFrac[k]));
            return true;
        };
        RunOutcome o = RunModel(*w.model);
        before.onApply = nullptr;
        w.probe->onAdvance = nullptr;
        w.probe->onSet = nullptr;
        r.add("probe.evolutions", g.evolved);
        r.add("probe.conversions", g.converted);
        if (g.changed) r.add("probe.extent_changed");
        for (auto k : g.ices)
            if (*g.bricks[k].ice <= 1e-9) r.add("probe.melted_out");
        if (!OkOrNote(o, r)) {
            if (o.threw && o.msg.find("action") != std::string::npos) r.bad("glacier/apply-failed", o.msg);
            return false;
        }
        Steps(w, r);
        if (g.evolved && g.changed) r.nontrivial = true;
        uint64_t h = r.shape & 0xffff;
        for (auto k : g.ices) h = Mix64(h ^ static_cast<uint64_t>(g.bricks[k].cover->GetAreaFraction() * 64));
        r.states.push_back(h);
        return true;
    };
    if (!run("first run")) return;
    rep = Collect(*w.model);
    haveRep = true;
    for (auto op : sp.all("op")) {
        if (!r.violations.empty()) return;
        if (op->str("op") == "save") {
            w.model->SaveAsInitialState();
            saved = extents();
            startFrac = fractions();
            haveRep = false;
        }
        w.model->Reset();
        auto now = extents();
        for (size_t k = 0; k < now.size(); ++k)
            if (!SameBits(now[k], saved[k])) {
                r.bad("glacier/restart", Fmt("after the reset an extent or ice content is %.17g instead of %.17g", now[k], saved[k]));
                return;
            }
        if (!run("re-run")) return;
        Report again = Collect(*w.model);
        if (haveRep) {
            std::string d = Compare(rep, again);
            if (!d.empty()) r.bad("glacier/rerun", "re-run: " + d);
        }
        rep = again;
        haveRep = true;
        r.add("probe.reruns");
    }
}
static RegisterProp p19({"P19", 15000, 400000, 60, GenP19, ExecP19,
                         "a run counts when at least one evolution changed an extent; distinct = distinct structural signature",
                         "whole engine and the glacier actions: real", "climate generator with imposed warm and cold periods; lookup tables computed by the simulator; an observing action due first at each boundary"});
