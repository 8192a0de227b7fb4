#include "gen.h"

std::vector<std::pair<std::string, std::string>> DeclaredCovers(const Spec& sp) {
    std::vector<std::pair<std::string, std::string>> out;
    for (auto& c : Split(sp.one("model").str("covers", "ground:generic_land_cover"), ',')) {
        auto p = Split(c, ':');
        out.emplace_back(p[0], p.size() > 1 ? p[1] : "generic_land_cover");
    }
    return out;
}
std::map<std::string, double> UnitCovers(const Item& unit) {
    std::map<std::string, double> m;
    for (auto& c : Split(unit.str("covers", "ground:1"), ',')) {
        auto p = Split(c, ':');
        if (!p[0].empty()) m[p[0]] = p.size() > 1 ? strtod(p[1].c_str(), nullptr) : 1.0;
    }
    return m;
}
int VariantOf(const Spec& sp, const Item& unit) {
    std::set<std::string> present;
    for (auto& c : UnitCovers(unit))
        if (c.second > 0) present.insert(c.first);
    auto vs = VariantCovers(sp);
    int best = -1;
    for (size_t k = 0; k < vs.size(); ++k) {
        std::set<std::string> v(vs[k].begin(), vs[k].end());
        if (v == present) return static_cast<int>(k);
        if (std::includes(v.begin(), v.end(), present.begin(), present.end()) && (best < 0 || vs[k].size() < vs[static_cast<size_t>(best)].size())) best = static_cast<int>(k);
    }
    return best;
}
std::map<std::string, double> BuiltCovers(const Spec& sp, const Item& unit) {
    std::map<std::string, double> m;
    auto all = UnitCovers(unit);
    auto vs = VariantCovers(sp);
    for (auto& c : vs[static_cast<size_t>(VariantOf(sp, unit))]) m[c] = all.count(c) ? all[c] : 1.0;
    return m;
}

static double R2(double v) { return std::round(v * 100) / 100; }
static double R4(double v) { return std::round(v * 10000) / 10000; }

static void Param(Spec& sp, const std::string& comp, const std::string& name, double val) {
    sp.add("param").set("comp", comp).set("name", name).set("val", R4(val)).set("opt", 1);
}

static void GenGraph(Rng& r, Spec& sp, const std::vector<std::pair<std::string, std::string>>& covers) {
    // a forward-only network: direct unit storages, solver unit storages, sub-basin storages
    int nDirect = r.p(0.35) ? r.range(1, 2) : 0;
    int nUnit = r.range(1, 4);
    int nSub = r.p(0.5) ? r.range(1, 2) : 0;
    struct B {
        std::string name;
        int level;  // 0 direct, 1 solver unit, 2 sub-basin
        double cap;
    };
    std::vector<B> bs;
    for (int i = 0; i < nDirect; ++i) bs.push_back({"dir_" + std::to_string(i + 1), 0, r.p(0.35) ? R2(r.p(0.4) ? r.uni(1, 10) : r.uni(5, 100)) : 0});
    for (int i = 0; i < nUnit; ++i) bs.push_back({"store_" + std::to_string(i + 1), 1, r.p(0.35) ? R2(r.p(0.4) ? r.uni(2, 30) : r.uni(15, 300)) : 0});
    for (int i = 0; i < nSub; ++i) bs.push_back({"basin_" + std::to_string(i + 1), 2, r.p(0.2) ? R2(r.p(0.4) ? r.uni(2, 30) : r.uni(15, 300)) : 0});
    bool backward = r.p(0.25);
    auto target = [&](size_t i) -> std::string {  // i: own position (size_t(-1) for covers)
        std::vector<std::string> t;
        for (size_t j = i + 1; j < bs.size(); ++j) t.push_back(bs[j].name);
        if (backward)  // also to storages declared before, as capillary fluxes do
            for (size_t j = 0; j < i; ++j)
                if (bs[j].level == bs[i].level && bs[i].level > 0) t.push_back(bs[j].name);
        if (t.empty() || r.p(0.35)) return "outlet";
        return r.pick(t);
    };
    auto proc = [&](const std::string& b, const std::string& name, const std::string& type, const std::string& t, bool st, bool inst) {
        Item& p = sp.add("proc");
        p.set("brick", b).set("name", name).set("type", type);
        if (!t.empty()) p.set("target", t);
        if (st) p.set("static", 1);
        if (inst) p.set("inst", 1);
    };
    bool hasSolverUnit = nUnit > 0;
    (void)hasSolverUnit;
    auto levelOf = [&](const std::string& n) {
        for (auto& b : bs)
            if (b.name == n) return b.level;
        return 3;
    };
    for (auto& c : covers) {
        if (c.second == "glacier") continue;
        if (r.p(0.3)) proc(c.first, "et", "et:open_water", "", false, false);
        std::string t1 = bs[static_cast<size_t>(r.range(0, static_cast<int>(bs.size()) - 1))].name;
        // a store without an overflow must not be overfilled by direct inflow: caps always come with one
        int l = levelOf(t1);
        bool sub = l == 2;
        if (sub && r.p(0.5)) t1 = bs[static_cast<size_t>(nDirect)].name, l = 1;
        if (r.p(0.35)) {
            proc(c.first, "leak", "outflow:linear", t1, l == 1, l == 0);
            std::string t2 = bs[static_cast<size_t>(r.range(0, nDirect + nUnit - 1))].name;
            if (t2 != t1) {
                int l2 = levelOf(t2);
                proc(c.first, "rest", "outflow:rest", t2, l2 == 1, l2 == 0);
                continue;
            }
            proc(c.first, "rest", "outflow:rest", "outlet", false, false);
            continue;
        }
        proc(c.first, "rest", "outflow:rest", t1, l == 1, l == 0);
    }
    for (size_t i = 0; i < bs.size(); ++i) {
        auto& b = bs[i];
        Item& it = sp.add("brick");
        it.set("name", b.name).set("level", b.level == 2 ? "basin" : "unit");
        if (b.level == 0) it.set("direct", 1);
        if (b.cap > 0) it.set("cap", b.cap);
        auto fix = [&](const std::string& t, bool& st, bool& inst) {
            int l = levelOf(t);
            st = b.level == 0 && l >= 1 && l < 3;
            inst = b.level == 0 && l == 0;
        };
        bool st, inst;
        if (b.level != 2 && r.p(0.4)) {
            static const std::vector<std::string> et{"et:linear", "et:power_law", "et:exponential", "et:hbv", "et:socont"};
            std::string e = b.cap > 0 ? r.pick(et) : "et:open_water";
            proc(b.name, "et", e, "", false, false);
        }
        if (r.p(0.35)) {
            std::string t = target(i);
            if (b.level == 0 && levelOf(t) == 2 && r.p(0.5)) t = "outlet";
            fix(t, st, inst);
            proc(b.name, "perc", r.p(0.5) ? "percolation:constant" : "outflow:threshold", t, st, inst);
        }
        std::string t = target(i);
        if (b.level == 0 && levelOf(t) == 2 && r.p(0.5)) t = "outlet";
        fix(t, st, inst);
        bool rest = b.level == 0 && r.p(0.4);
        auto spill = [&] {
            std::string to = r.p(0.6) ? std::string("outlet") : target(i);
            bool st2, inst2;
            fix(to, st2, inst2);
            proc(b.name, "overflow", r.p(0.25) ? "outflow:overflow" : "overflow", to, st2, inst2);
        };
        bool early = b.cap > 0 && b.level == 0 && r.p(0.3);
        if (early) spill();
        if (b.level == 0) proc(b.name, "out", rest ? "outflow:rest" : "outflow:linear", t, st, inst);
        else if (b.level == 1 && r.p(0.2)) proc(b.name, "out", "runoff:hbv", t, st, inst);
        else proc(b.name, "out", "outflow:linear", t, st, inst);
        if (b.cap > 0 && !early) spill();
        if (!rest && r.p(0.6)) Param(sp, b.name, "response_factor", r.uni(0.01, 0.95));
    }
    // Constant percolation inside a loop of stores keeps passing water round through stores that are all but empty:
    // the engine's sweeps then approach the balance too slowly for the tolerance of the checks (DESIGN.md).
    bool loop = false;
    auto indexOf = [&](const std::string& n) {
        for (size_t i = 0; i < bs.size(); ++i)
            if (bs[i].name == n) return static_cast<int>(i);
        return -1;
    };
    for (auto p : sp.all("proc")) {
        int from = indexOf(p->str("brick")), to = indexOf(p->str("target"));
        if (from >= 0 && to >= 0 && to <= from) loop = true;
    }
    if (loop)
        for (auto& it : sp.items)
            if (it.kind == "proc" && it.str("type") == "percolation:constant") it.set("type", "outflow:threshold");
}

void GenLandCoverAction(Rng& r, Spec& sp, const std::string& id, int nChanges, bool infeasible) {
    Clock c = Clock::from(sp);
    sp.add("action").set("id", id).set("kind", "lcc");
    auto covers = DeclaredCovers(sp);
    std::vector<Item> units;
    for (auto u : sp.all("unit")) units.push_back(*u);
    std::map<int, std::map<std::string, double>> cur;
    for (auto& u : units) cur[u.i("id")] = BuiltCovers(sp, u);
    std::vector<double> days;
    int span = static_cast<int>(c.n * c.stepDays());
    for (int k = 0; k < nChanges; ++k) {
        double d;
        if (r.p(0.08)) d = r.range(-3, 0);
        else if (r.p(0.05)) d = span + r.range(0, 3);
        else if (r.p(0.25) && !days.empty()) d = days.back();  // same date, another unit or cover
        else d = r.range(0, std::max(1, span));
        if (c.stepMin < 1440 && r.p(0.5)) d += r.range(0, 23) / 24.0;
        days.push_back(d);
    }
    std::sort(days.begin(), days.end());
    size_t first = sp.items.size();
    double prev = -1e9;
    std::vector<std::pair<int, std::string>> usedAtDate;
    for (double d : days) {
        if (d != prev) usedAtDate.clear();
        prev = d;
        const Item& u = r.pick(units);
        int uid = u.i("id");
        std::vector<std::string> cand;
        for (auto& cv : covers)
            if (cur[uid].count(cv.first)) cand.push_back(cv.first);
        std::vector<std::string> nonBase;
        for (auto& n : cand)
            if (n != "ground") nonBase.push_back(n);
        if (nonBase.empty() && !infeasible) continue;
        std::string cover = nonBase.empty() || (infeasible && r.p(0.15)) ? "ground" : r.pick(nonBase);
        bool dup = false;
        for (auto& x : usedAtDate)
            if (x.first == uid && x.second == cover) dup = true;
        if (dup) continue;
        usedAtDate.emplace_back(uid, cover);
        double avail = cur[uid][cover] + cur[uid]["ground"];
        double f;
        double q = r.u();
        if (infeasible && q < 0.25) f = avail + r.uni(0.05, 0.6);
        else if (q < 0.45) f = 0;
        else if (q < 0.55) f = avail;
        else if (q < 0.6) f = std::min(avail, r.p(0.5) ? r.uni(1e-5, 3e-4) : r.uni(3e-4, 5e-3));  // next to nothing
        else if (q < 0.63) f = std::max(0.0, avail - (r.p(0.5) ? r.uni(1e-5, 3e-4) : r.uni(3e-4, 5e-3)));
        else f = R4(r.uni(0, avail));
        Item& ch = sp.add("change");
        ch.set("act", id).set("day", d).set("unit", uid).set("cover", cover).set("frac", f);
        if (f <= avail + 1e-12) {
            cur[uid][cover] = f;
            cur[uid]["ground"] = std::max(0.0, avail - f);
        }
    }
    // declared in any order; those of one date keep theirs
    if (r.p(0.5) && sp.items.size() > first + 1) {
        std::vector<Item> list(sp.items.begin() + static_cast<long>(first), sp.items.end());
        std::map<std::string, uint64_t> at;
        for (auto& x : list) at[x.str("day")] = static_cast<uint64_t>(r.u() * 1e9);
        std::stable_sort(list.begin(), list.end(), [&](const Item& a, const Item& b) { return at[a.str("day")] < at[b.str("day")]; });
        std::copy(list.begin(), list.end(), sp.items.begin() + static_cast<long>(first));
    }
}

Spec GenScenario(Rng& r, const GenOpt& o) {
    Spec sp;
    Item& m = sp.add("model");
    double f = r.u();
    std::string fam = f < o.pGraph ? "graph" : f < o.pGraph + o.pGR ? (r.p(0.6) ? "gr4j" : "gr6j") : f < o.pGraph + o.pGR + o.pHBV ? "hbv" : "socont";
    bool gr = fam == "gr4j" || fam == "gr6j";
    m.set("family", fam);
    static const std::vector<std::string> solvers{"rk4", "euler_explicit", "heun_explicit", "analytic_linear", "implicit_euler", "crank_nicolson", "exponential_euler"};
    m.set("solver", r.pick(solvers));
    bool snow = r.p(o.pSnow);
    m.set("snow", snow ? 1 : 0);
    bool disc = !gr || r.p(0.7);
    if (gr) m.set("discrete", disc ? 1 : 0);
    if (fam == "socont") m.set("soil", r.range(1, 2)).set("surf", r.p(0.6) ? "runoff" : "linear");
    bool ceman = snow && r.p(gr ? 0.6 : 0.08);
    bool retention = snow && !ceman && r.p(0.3);
    std::string melt = "degree_day";
    if (ceman) melt = "cemaneige";
    else if (r.p(0.25)) melt = r.p(0.5) ? "degree_day_aspect" : "temperature_index";
    std::string split = !snow ? "linear" : ceman && r.p(0.7) ? "cemaneige" : r.p(0.2) ? "threshold" : "linear";
    m.set("melt", melt).set("split", split);
    if (retention) m.set("retention", 1).set("rainsnow", r.p(0.6) ? 1 : 0).set("refreeze", melt == "degree_day" && r.p(0.6) ? 1 : 0);
    if (snow && r.p(0.25)) m.set("subl", r.p(0.5) ? "constant" : "pet");
    bool glacier = r.p(o.pGlacier), second = r.p(o.pSecond);
    bool twoGl = glacier && r.p(0.2);
    int nu = r.range(1, o.maxUnits);
    bool lateral = snow && nu > 1 && r.p(o.pLateral);
    if (lateral) {
        double q = r.u();
        m.set("redis", q < 0.5 ? "slide" : q < 0.8 ? "frey" : "freydyn");
        if (glacier && r.p(0.3)) m.set("skipgl", 1);
    }
    if (glacier && snow && r.p(0.35)) m.set("ice", r.p(0.5) ? "const" : "swat");
    if (glacier) m.set("glacier", r.p(o.pInf) ? "inf" : "fin");
    if (glacier && r.p(0.2)) m.set("gmelt", melt == "cemaneige" ? "degree_day" : melt);
    if (r.p(o.pCanopy)) m.set("canopy", 1);
    bool variants = glacier && nu > 1 && r.p(o.pVariants);
    std::string cv = "ground:generic_land_cover";
    std::vector<std::pair<std::string, std::string>> covers{{"ground", "generic_land_cover"}};
    if (second) {
        cv += ",forest:generic_land_cover";
        covers.emplace_back("forest", "generic_land_cover");
    }
    if (glacier) {
        cv += ",glacier:glacier";
        covers.emplace_back("glacier", "glacier");
    }
    if (twoGl) {
        cv += ",debris:glacier";
        covers.emplace_back("debris", "glacier");
    }
    m.set("covers", cv);
    if (variants) m.set("variants", twoGl && r.p(0.6) ? 2 : 1);
    m.set("logall", o.logall ? 1 : 0);
    auto put = [&](Item it) { sp.items.push_back(it); };

    // clock
    {
        Item t{"timer", {}};
        int y = r.range(1979, 2023), mo = r.range(1, 12), d = r.range(1, 28);
        if (r.p(0.15)) mo = 2, d = r.range(20, 28), y = r.pick(std::vector<int>{1980, 1999, 2000, 2012, 2020});
        std::string unit = "day";
        int step = 1, n = r.range(o.minN, o.maxN), h = 0, mi = 0;
        double q = r.u();
        if (q < o.pHourly) {
            unit = r.p(0.8) ? "hour" : "minute";
            step = unit == "hour" ? r.pick(std::vector<int>{1, 1, 2, 3, 6, 12, 7, 5}) : r.pick(std::vector<int>{15, 30, 90});
            if (r.p(0.4)) h = r.range(0, 23);
        } else if (q < o.pHourly + o.pMultiDay) {
            step = r.pick(std::vector<int>{2, 3, 5, 7, 10});
            n = std::max(5, n / 2);
        }
        t.set("start", h || mi ? Fmt("%04d-%02d-%02dT%02d:%02d", y, mo, d, h, mi) : Fmt("%04d-%02d-%02d", y, mo, d));
        t.set("n", n).set("step", step).set("unit", unit);
        if (r.p(o.pSpinup)) {
            double stepDays = unit == "day" ? step : unit == "hour" ? step / 24.0 : step / 1440.0;
            t.set("spinup", std::max(1, static_cast<int>(n * stepDays * r.uni(0.05, 1.2))));
        }
        put(t);
    }
    // climate
    {
        Item c{"climate", {}};
        c.set("seed", static_cast<int>(r.next() % 1000000000));
        c.set("pwet", R2(r.uni(0.1, 0.8))).set("pmean", R2(r.uni(1, 20))).set("pstorm", r.p(o.pStorm) ? R2(r.uni(0.01, 0.08)) : 0.0);
        if (r.p(o.pDry)) c.set("pwet", 0.02);
        c.set("tmean", R2(r.uni(-6, 12))).set("tamp", R2(r.uni(2, 14))).set("tday", R2(r.uni(1, 12))).set("lapse", R4(r.uni(0.003, 0.008)));
        c.set("tdiur", R2(r.uni(0, 6))).set("petmax", R2(r.uni(0, 7)));
        put(c);
    }
    // units
    std::vector<int> ids;
    {
        double elev = r.uni(400, 1500);
        int id = r.range(1, 9);
        bool equal = r.p(0.15);
        double a0 = R2(r.uni(10, 5000));
        for (int i = 0; i < nu; ++i) {
            Item u{"unit", {}};
            u.set("id", id);
            ids.push_back(id);
            id += r.range(1, 7);
            u.set("area", equal ? a0 : R2(r.uni(10, 5000)));
            u.set("elev", R2(elev));
            elev += r.uni(50, 500);
            u.set("slope", R2(r.p(0.5) ? r.uni(0, 30) : r.uni(25, 80)));
            u.set("aspect", r.pick(std::vector<std::string>{"N", "S", "E", "W"}));
            // fractions
            std::vector<double> w;
            bool tacit = variants && r.p(0.5);
            double sum = 0;
            for (size_t k = 0; k < covers.size(); ++k) {
                double x = r.uni(0.1, 1);
                if (k > 0 && r.p(o.pEmptyCover)) x = 0;
                if (variants && covers[k].second == "glacier" && (i == 0 || r.p(0.3))) x = 0;
                w.push_back(x);
                sum += x;
            }
            // the rest of the unit is bare ground, or some other cover when there is none
            size_t sink = 0;
            if (covers.size() > 1 && r.p(0.06)) {
                std::vector<size_t> some;
                for (size_t k = 1; k < w.size(); ++k)
                    if (w[k] > 0) some.push_back(k);
                if (!some.empty()) {
                    sink = r.pick(some);
                    sum -= w[0];
                    w[0] = 0;
                }
            }
            std::vector<double> fr(covers.size(), 0.0);
            double rest = 1;
            for (size_t k = 0; k < covers.size(); ++k) {
                if (k == sink) continue;
                fr[k] = std::round(w[k] / sum * 1000) / 1000;
                rest -= fr[k];
            }
            fr[sink] = std::max(std::round(rest * 1000) / 1000, 0.0);
            // the last remnants of a cover
            if (covers.size() > 1 && r.p(0.06)) {
                size_t k = static_cast<size_t>(r.range(0, static_cast<int>(covers.size()) - 1));
                if (k != sink && fr[k] > 0) {
                    double tiny = std::round(r.uni(0.2, 9) * 10) * 1e-6;
                    fr[sink] = std::round((fr[sink] + fr[k] - tiny) * 1e6) / 1e6;
                    fr[k] = tiny;
                }
            }
            // fractions are given rounded: their sum is then only close to one
            if (covers.size() > 1 && r.p(0.1)) fr[sink] = std::max(std::round((fr[sink] + r.uni(-9e-5, 9e-5)) * 1e6) / 1e6, 0.0);
            // a unit that has no ice at all may say nothing of glaciers
            bool noIce = true;
            for (size_t k = 0; k < covers.size(); ++k)
                if (covers[k].second == "glacier" && fr[k] != 0) noIce = false;
            std::string s;
            for (size_t k = 0; k < covers.size(); ++k) {
                if (variants && covers[k].second == "glacier" && tacit && noIce) continue;
                s += (s.empty() ? "" : ",") + covers[k].first + ":" + Num(fr[k]);
            }
            u.set("covers", s);
            put(u);
        }
        if (lateral) {
            // mostly from higher to lower units; sometimes circular, as connectivities computed per pixel can be
            if (r.p(o.pCycle)) {
                int a = r.range(0, nu - 1), b = (a + r.range(1, nu - 1)) % nu;
                Item c{"conn", {}};
                c.set("from", ids[static_cast<size_t>(std::min(a, b))]).set("to", ids[static_cast<size_t>(std::max(a, b))]).set("frac", R2(r.uni(0.2, 1)));
                put(c);
            }
            for (int i = nu - 1; i > 0; --i) {
                if (r.p(0.2)) continue;
                int k = r.range(1, std::min(2, i));
                if (k == 1) {
                    Item c{"conn", {}};
                    c.set("from", ids[static_cast<size_t>(i)]).set("to", ids[static_cast<size_t>(r.range(0, i - 1))]).set("frac", r.p(0.8) ? 1.0 : R2(r.uni(0.2, 0.9)));
                    put(c);
                } else {
                    int a = r.range(0, i - 1), b = (a + 1) % i;
                    double fa = R2(r.uni(0.1, 0.9));
                    Item c{"conn", {}}, d{"conn", {}};
                    c.set("from", ids[static_cast<size_t>(i)]).set("to", ids[static_cast<size_t>(a)]).set("frac", fa);
                    d.set("from", ids[static_cast<size_t>(i)]).set("to", ids[static_cast<size_t>(b)]).set("frac", R2(1 - fa));
                    put(c);
                    put(d);
                }
            }
            // the same pair of units may be listed more than once, each time with a part of the flow
            if (r.p(0.15))
                for (size_t k = 0; k < sp.items.size(); ++k) {
                    if (sp.items[k].kind != "conn" || !r.p(0.5)) continue;
                    double f = sp.items[k].num("frac", 1), part = R2(f * r.uni(0.05, 0.6));
                    if (part <= 0 || part >= f) continue;
                    Item c = sp.items[k];
                    sp.items[k].set("frac", R2(f - part));
                    c.set("frac", part);
                    sp.items.insert(sp.items.begin() + static_cast<long>(r.p(0.5) ? k + 1 : k), c);
                    ++k;
                }
        }
    }
    if (r.p(0.4)) {  // the order of declaration is not the order of elevation
        std::vector<size_t> at;
        std::vector<Item> us;
        for (size_t k = 0; k < sp.items.size(); ++k)
            if (sp.items[k].kind == "unit") at.push_back(k), us.push_back(sp.items[k]);
        r.shuffle(us);
        for (size_t k = 0; k < at.size(); ++k) sp.items[at[k]] = us[k];
    }
    if (fam == "graph") GenGraph(r, sp, covers);
    if (fam == "graph" && covers.size() == 1 && !sp.one("model").i("canopy") && !sp.one("model").i("rainsnow") && r.p(0.4)) {
        std::vector<std::string> to{"outlet"};
        for (auto b : sp.all("brick"))
            if (b->str("level") == "basin") to.push_back(b->str("name")), to.push_back(b->str("name"));
        sp.find("model")->set("pond", r.pick(to));
    }
    // parameters
    for (auto& c : covers) {
        if (snow && r.p(0.6)) {
            std::string sn = c.first + "_snowpack";
            if (melt == "temperature_index") Param(sp, sn, "melt_factor", r.uni(1, 8));
            else if (melt == "degree_day_aspect") {
                Param(sp, sn, "degree_day_factor_n", r.uni(1, 6));
                Param(sp, sn, "degree_day_factor_s", r.uni(1, 9));
                Param(sp, sn, "degree_day_factor_ew", r.uni(1, 8));
            } else Param(sp, sn, "degree_day_factor", r.uni(1, 9));
            if (melt == "cemaneige") {
                Param(sp, sn, "cold_content_factor", r.uni(0, 0.95));
                Param(sp, sn, "mean_annual_snow", r.uni(30, 400));
            }
            if (retention) Param(sp, sn, "water_holding_capacity", r.uni(0, 0.25));
        }
        if (c.second == "glacier" && r.p(0.7)) {
            std::string gm = sp.one("model").str("gmelt", "degree_day");
            if (gm == "temperature_index") Param(sp, c.first, "melt_factor", r.uni(2, 9));
            else if (gm == "degree_day_aspect") Param(sp, c.first, "degree_day_factor_n", r.uni(2, 9));
            else Param(sp, c.first, "degree_day_factor", r.uni(2, 12));
        }
    }
    if (lateral) {
        std::string redis = sp.one("model").str("redis");
        if (redis == "slide") {
            Param(sp, "type:snowpack", "coeff", r.p(0.5) ? 3178.4 : r.uni(50, 500));
            Param(sp, "type:snowpack", "min_snow_holding_depth", r.uni(5, 120));
            if (r.p(0.3)) Param(sp, "type:snowpack", "max_snow_depth", r.uni(100, 2000));
        } else {
            Param(sp, "type:snowpack", "snow_holding_capacity", r.uni(5, 150));
            Param(sp, "type:snowpack", "correction", r.uni(0.2, 1.5));
            if (r.p(0.3)) Param(sp, "type:snowpack", "max_snow_depth", r.uni(100, 2000));
        }
        if (sp.one("model").i("skipgl"))
            for (size_t k = 0; k < sp.items.size();) {  // 'type:' would miss the process on glacier snowpacks
                if (sp.items[k].kind == "param" && sp.items[k].str("comp") == "type:snowpack") {
                    Item it = sp.items[k];
                    sp.items.erase(sp.items.begin() + static_cast<long>(k));
                    for (auto& c : covers)
                        if (c.second != "glacier") {
                            Item n = it;
                            n.set("comp", c.first + "_snowpack");
                            sp.items.push_back(n);
                        }
                    k = 0;
                } else ++k;
            }
    }
    if (fam == "socont") {
        Param(sp, "slow_reservoir", "response_factor", r.uni(0.001, 0.6));
        Param(sp, "slow_reservoir", "capacity", r.uni(20, 400));
        if (sp.one("model").i("soil") == 2) {
            Param(sp, "slow_reservoir", "percolation_rate", r.uni(0, 4));
            Param(sp, "slow_reservoir_2", "response_factor", r.uni(0.001, 0.3));
        }
        if (sp.one("model").str("surf") == "runoff") Param(sp, "surface_runoff", "beta", r.uni(50, 3000));
        else Param(sp, "surface_runoff", "response_factor", r.uni(0.1, 0.95));
    } else if (fam == "hbv") {
        for (auto& c : covers)
            if (c.second != "glacier") Param(sp, c.first, "beta", r.uni(0.8, 5));
        Param(sp, "soil_moisture", "capacity", r.uni(50, 500));
        Param(sp, "soil_moisture", "lp", r.uni(0.3, 1));
        Param(sp, "upper_zone", "response_factor", r.uni(0.02, 0.5));
        Param(sp, "upper_zone", "alpha", r.uni(0, 1.2));
        Param(sp, "upper_zone", "percolation_rate", r.uni(0, 5));
        Param(sp, "upper_zone", "max_capillary_flux", r.p(0.5) ? 0 : r.uni(0, 2));
        Param(sp, "lower_zone", "response_factor", r.uni(0.002, 0.2));
        Param(sp, "routing", "maxbas", r.uni(1, 7));
    } else if (gr) {
        Param(sp, "production_store", "capacity", r.uni(50, 900));
        Param(sp, "uh_input", "routing_capacity", r.uni(10, 300));
        Param(sp, "uh_input", "uh_base_time", r.uni(0.6, 5));
        if (fam == "gr6j") Param(sp, "uh_input", "exp_store_coeff", r.uni(1, 20));
        if (o.exchange && r.p(0.5)) Param(sp, "uh_input", "exchange_factor", r.uni(-3, 3));
    }
    if (glacier) {
        Param(sp, "glacier_area_rain_snowmelt_storage", "response_factor", r.uni(0.05, 0.9));
        Param(sp, "glacier_area_icemelt_storage", "response_factor", r.uni(0.05, 0.9));
    }
    if (o.exchange && r.p(0.3)) Param(sp, snow ? "snow_rain_transition" : "rain", "rain_correction_factor", r.uni(0.8, 1.3));
    // initial states
    if (r.p(o.pInit)) {
        for (int id : ids) {
            auto init = [&](const std::string& b, const std::string& type, double v) {
                sp.add("init").set("unit", id).set("brick", b).set("type", type).set("val", R2(v));
            };
            if (fam == "socont" && r.p(0.6)) init("slow_reservoir", "water", r.uni(0, 20));
            if (fam == "hbv" && r.p(0.6)) init("soil_moisture", "water", r.uni(0, 50));
            if (gr && r.p(0.6)) init("production_store", "water", r.uni(0, 50));
            if (fam == "graph" && r.p(0.6)) init("store_1", "water", r.uni(0, 15));
            for (auto& c : covers) {
                if (snow && r.p(0.5)) init(c.first + "_snowpack", "snow", r.uni(0, 900));
                if (c.second == "glacier" && sp.one("model").str("glacier") == "fin" && r.p(0.8)) init(c.first, "ice", r.p(0.3) ? r.uni(0, 50) : r.uni(500, 20000));
            }
        }
    }
    // scheduled events
    bool toIce = glacier && snow && sp.one("model").str("glacier") == "fin" && r.p(o.pEvo);
    if (covers.size() > 1 && r.p(o.pAction) && !toIce) GenLandCoverAction(r, sp, "a1", r.range(1, 8), o.infeasibleChanges);
    if (toIce) {
        int y, mo, d;
        CivilFromDays(Clock::from(sp).start / 1440, y, mo, d);
        sp.add("action").set("id", "g1").set("kind", "snow2ice").set("month", (mo + r.range(0, 3)) % 12 + 1).set("mday", r.range(1, 28)).set("cover", "glacier");
    }
    return sp;
}

bool GenGlacierEvolution(Rng& r, Spec& sp) {
    const Item& m = sp.one("model");
    if (m.str("covers").find("glacier:glacier") == std::string::npos || m.str("glacier", "fin") != "fin") return false;
    for (auto a : sp.all("action"))
        if (a->str("kind") == "lcc") return false;  // both would change the glacier extent
    bool any = false;
    for (auto u : sp.all("unit")) any |= UnitCovers(*u).count("glacier") && UnitCovers(*u)["glacier"] > 0;
    if (!any) return false;
    int y, mo, d;
    CivilFromDays(Clock::from(sp).start / 1440, y, mo, d);
    Item& a = sp.add("action");
    a.set("id", "g2").set("kind", r.p(0.5) ? "deltah" : "areascaling").set("month", (mo + r.range(0, 2)) % 12 + 1).set("cover", "glacier");
    a.set("rows", r.pick(std::vector<int>{2, 5, 11, 21, 101})).set("thick", R2(r.p(0.4) ? r.uni(0.05, 1) : r.uni(1, 60)));
    return true;
}

uint64_t ShapeOf(const Spec& sp) {
    uint64_t h = 7;
    const Item& m = sp.one("model");
    for (auto& kv : m.kv) h = HashStr(kv.first + "=" + kv.second, h);
    h = Mix64(h ^ sp.all("unit").size() ^ (sp.all("conn").size() << 8) ^ (sp.all("change").size() << 16) ^ (sp.all("action").size() << 24));
    const Item& t = sp.one("timer");
    h = HashStr(t.str("unit") + t.str("step"), h) ^ (t.i("spinup") > 0 ? 99 : 0);
    for (auto p : sp.all("proc")) h = HashStr(p->str("brick") + p->str("type") + p->str("target"), h);
    for (auto p : sp.all("fault")) h = HashStr(p->line(), h);
    for (auto p : sp.all("op")) h = HashStr(p->str("op"), h);
    return Mix64(h);
}
void CountScenario(const Spec& sp, RunResult& r) {
    const Item& m = sp.one("model");
    Clock c = Clock::from(sp);
    r.shape = ShapeOf(sp);
    r.add("scenario.family." + m.str("family"));
    r.add("scenario.solver." + m.str("solver"));
    if (m.str("redis", "none") != "none" && !sp.all("conn").empty()) r.add("scenario.lateral");
    if (!sp.all("change").empty()) r.add("scenario.land_cover_changes");
    if (c.spinupDays) r.add("scenario.spinup");
    if (c.unit != "day") r.add("scenario.subdaily");
    else if (c.step > 1) r.add("scenario.multiday");
    if (m.i("variants")) r.add("scenario.variants");
}

std::string BaseCover(const Spec& sp) {
    auto covers = DeclaredCovers(sp);
    for (auto n : {"open", "ground", "generic", "generic_land_cover"})
        for (auto& c : covers)
            if (c.first == n) return n;
    return "";
}
void RenameBase(Rng& r, Spec& sp) {
    std::map<std::string, std::string> ren;
    auto covers = DeclaredCovers(sp);
    if (covers.empty() || covers[0].first != "ground" || !r.p(0.15)) return;
    ren["ground"] = r.pick(std::vector<std::string>{"open", "open", "generic", "generic_land_cover"});
    if (r.p(0.5)) ren["forest"] = ren["ground"] == "open" ? "ground" : ren["ground"] == "generic" ? "generic_land_cover" : "rock";
    auto word = [](char c) { return isalnum(static_cast<unsigned char>(c)) || c == '_'; };
    for (auto& it : sp.items)
        for (auto& kv : it.kv) {
            std::string out, tok;
            bool type = false;  // names follow a start or a comma, types and values a colon
            auto flush = [&] {
                std::string head = tok, tail;
                for (auto suffix : {"_snowpack", "_canopy"})
                    if (size_t n = std::string(suffix).size(); tok.size() > n && tok.compare(tok.size() - n, n, suffix) == 0) {
                        head = tok.substr(0, tok.size() - n);
                        tail = suffix;
                    }
                out += !type && ren.count(head) ? ren[head] + tail : tok;
                tok.clear();
            };
            for (char ch : kv.second) {
                if (word(ch)) {
                    tok += ch;
                    continue;
                }
                flush();
                out += ch;
                type = ch == ':' && kv.first == "covers";
            }
            flush();
            kv.second = out;
        }
}
void RenameStores(Rng& r, Spec& sp) {
        static const std::vector<std::string> to{"outlet_pond", "store_10", "store_1_outlet", "ground_store", "et_outlet"};
        auto names = to;
        r.shuffle(names);
        std::map<std::string, std::string> ren;
        for (auto b : sp.all("brick"))
            if (ren.size() < names.size() && r.p(0.7)) ren.emplace(b->str("name"), names[ren.size()]);
        for (auto& it : sp.items)
            for (auto& kv : it.kv)
                if ((kv.first == "name" || kv.first == "brick" || kv.first == "target" || kv.first == "comp" || kv.first == "pond") && ren.count(kv.second)) kv.second = ren[kv.second];
    }
