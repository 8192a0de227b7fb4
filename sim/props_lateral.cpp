#include "FluxToBrick.h"
#include "ProcessLateral.h"
#include "Snowpack.h"
#include "gen.h"
#include "util.h"

// ---- P18: lateral snow transport -----------------------------------------------------------------------
static Spec GenP18(Rng& r, uint64_t) {
    GenOpt o;
    o.pSnow = 1;
    o.pLateral = 1;
    o.pGlacier = 0.45;
    o.pSecond = 0.5;
    o.pAction = 0.5;
    o.pEvo = 0.15;
    o.pEmptyCover = 0.25;
    o.pCycle = 0.15;
    o.pInit = 0.7;
    o.pSpinup = 0.2;
    o.maxUnits = 7;
    o.minN = 5;
    o.maxN = 90;
    o.pGR = 0.1;
    o.pHBV = 0.1;
    o.pGraph = 0.1;
    Spec sp;
    for (int tries = 0; tries < 10; ++tries) {
        sp = GenScenario(r, o);
        if (!sp.all("conn").empty()) break;
    }
    if (r.p(0.2)) GenGlacierEvolution(r, sp);
    if (r.p(0.6)) {  // cold enough for snow to pile up
        sp.find("climate")->set("tmean", r.range(-12, 0)).set("pwet", 0.7).set("pmean", r.range(5, 40));
    }
    if (r.p(0.3)) {  // small and uneven covers
        for (auto& it : sp.items) {
            if (it.kind != "unit") continue;
            auto cv = UnitCovers(it);
            if (cv.size() < 2) continue;
            std::string s;
            double rest = 1;
            for (auto& c : cv) {
                if (c.first == "ground") continue;
                double f = r.p(0.5) ? r.range(1, 60) / 1000.0 : std::min(c.second, 0.4);
                rest -= f;
                s += "," + c.first + ":" + Num(f);
            }
            bool evo = false;
            for (auto a : sp.all("action")) evo |= a->str("kind") != "snow2ice";
            if (!evo) it.set("covers", "ground:" + Num(std::round(rest * 1000) / 1000) + s);
        }
    }
    if (r.p(0.5)) sp.add("op").set("op", "twin");
    if (r.p(0.25)) sp.add("op").set("op", "rerun");
    return sp;
}

struct SnowWatch {
    struct Pack {
        size_t at;  // in bricks
        Snowpack* pack;
        WaterContainer* snow;
        double start = 0, frac = 0;
    };
    struct Move {
        size_t from, to;  // in packs
        Flux* flux;
        double weight;
    };
    World& w;
    RunResult& r;
    std::vector<BrickRef> bricks;
    std::vector<Pack> packs;
    std::vector<Move> moves;
    std::map<size_t, std::vector<std::pair<Process*, Flux*>>> others;  // other processes drawing on the snow
    std::map<size_t, std::vector<Flux*>> refrozen;                     // from the water held by the snow itself
    int step = 0, moved = 0, cut = 0;
    double volume = 0;
    bool started = false;

    SnowWatch(World& w_, RunResult& r_)
        : w(w_), r(r_), bricks(w_.Bricks()) {
        std::map<Brick*, size_t> of;
        for (size_t k = 0; k < bricks.size(); ++k)
            if (auto p = dynamic_cast<Snowpack*>(bricks[k].brick)) {
                of[p] = packs.size();
                packs.push_back({k, p, p->GetSnowContainer()});
            }
        for (size_t p = 0; p < packs.size(); ++p)
            for (size_t q = 0; q < packs[p].pack->GetProcessCount(); ++q) {
                Process* pr = packs[p].pack->GetProcess(q);
                bool lateral = dynamic_cast<ProcessLateral*>(pr) != nullptr;
                for (int k = 0; k < pr->GetOutputFluxCount(); ++k) {
                    Flux* f = pr->GetOutputFlux(static_cast<size_t>(k));
                    if (lateral) {
                        auto tb = dynamic_cast<FluxToBrick*>(f);
                        size_t to = of.at(tb->GetTargetBrick());
                        double wgt = 0;
                        int idF = bricks[packs[p].at].unit->GetId(), idT = bricks[packs[to].at].unit->GetId();
                        for (auto c : w.sp.all("conn"))
                            if (c->i("from") == idF && c->i("to") == idT) wgt += c->num("frac", 1);
                        if (idF == idT || wgt == 0) r.bad("lateral/receiver", Fmt("%s sends snow to %s although no connection was declared", bricks[packs[p].at].key.c_str(), bricks[packs[to].at].key.c_str()));
                        moves.push_back({p, to, f, wgt});
                    } else if (pr->GetWaterContainer() == packs[p].snow) others[p].emplace_back(pr, f);
                    else if (auto tb = dynamic_cast<FluxToBrick*>(f); tb && tb->GetTargetBrick() == packs[p].pack && f->GetType() == ContentType::Snow && f->IsInstantaneous()) refrozen[p].push_back(f);
                }
            }
        // every declared connection carries snow to all snowpacks of the receiver
        bool skip = w.sp.one("model").i("skipgl") != 0;
        for (auto c : w.sp.all("conn"))
            for (size_t p = 0; p < packs.size(); ++p) {
                auto& b = bricks[packs[p].at];
                bool glacier = b.cover && b.cover->GetCategory() == BrickCategory::Glacier;
                if (b.unit->GetId() != c->i("from") || (skip && glacier)) continue;
                int n = 0, m = 0;
                for (auto& mv : moves)
                    if (mv.from == p && bricks[packs[mv.to].at].unit->GetId() == c->i("to")) ++n;
                for (auto& q : packs)
                    if (bricks[q.at].unit->GetId() == c->i("to")) ++m;
                if (n == 0 && m > 0) r.bad("lateral/connection", Fmt("%s does not send snow along the declared connection to unit %d", b.key.c_str(), c->i("to")));
            }
    }
    double Frac(size_t p) const { return packs[p].pack->GetParentAreaFraction(); }
    double Area(size_t p) const { return bricks[packs[p].at].unit->GetArea(); }
    void Start() {
        for (size_t p = 0; p < packs.size(); ++p) packs[p].start = packs[p].snow->GetContentWithoutChanges(), packs[p].frac = Frac(p);
        started = true;
    }
    void End() {  // before the actions of the boundary
        if (!started) return;
        int i = step++;
        std::vector<double> in(packs.size(), 0), out(packs.size(), 0), other(packs.size(), 0), fall(packs.size(), 0);
        double volIn = 0, volOut = 0;
        std::map<size_t, std::vector<std::pair<const Move*, double>>> by;
        for (auto& m : moves) {
            double a = *m.flux->GetAmountPointer();
            if (!(a >= 0)) r.bad("lateral/negative", Fmt("step %d: %g mm of snow moved from %s", i, a, bricks[packs[m.from].at].key.c_str()));
            if (a == 0 && packs[m.from].frac < 1e-8) continue;
            by[m.from].emplace_back(&m, a * Area(m.to) * Frac(m.to));
            if (a == 0) continue;
            if (packs[m.from].frac < 1e-8 || Frac(m.to) < 1e-8) {
                r.bad("lateral/no-area", Fmt("step %d: %g mm of snow moved from %s to %s, one of which has no area", i, a, bricks[packs[m.from].at].key.c_str(), bricks[packs[m.to].at].key.c_str()));
                continue;
            }
            double v = a * Area(m.to) * Frac(m.to);
            in[m.to] += a;
            out[m.from] += v / (Area(m.from) * Frac(m.from));
            volIn += v;
            ++moved;
        }
        volume += volIn;
        for (size_t p = 0; p < packs.size(); ++p) {
            if (packs[p].frac < 1e-8) continue;
            double f = packs[p].frac;
            for (auto& o : others[p]) other[p] += *o.second->GetAmountPointer() / (o.second->NeedsWeighting() ? f : 1.0);
            fall[p] = packs[p].snow->SumIncomingFluxes();
            for (auto x : refrozen[p]) fall[p] += *x->GetAmountPointer() / (x->NeedsWeighting() ? f : 1.0);
            double now = packs[p].snow->GetContentWithoutChanges();
            double want = packs[p].start + fall[p] + in[p] - out[p] - other[p];
            double tol = 1e-9 * (1 + packs[p].start + fall[p] + in[p]) + 1e-9 / std::max(f, 1e-6) + 2e-8;
            if (!(std::abs(now - want) <= tol)) {
                std::string cls = out[p] > 0 ? "lateral/donor" : in[p] > 0 ? "lateral/receiver-content" : "lateral/other";
                r.bad(cls, Fmt("step %d: %s (fraction %.6g) holds %.12g mm of snow instead of %.12g = %.12g + snowfall %.9g + received %.9g - sent %.9g - lost otherwise %.9g", i,
                               bricks[packs[p].at].key.c_str(), f, now, want, packs[p].start, fall[p], in[p], out[p], other[p]));
            }
            r.mix(now);
        }
        (void)volOut;
        // in the declared proportions
        for (auto& d : by) {
            // several connections to the same receiver add up
            std::vector<std::pair<const Move*, double>> sums;
            for (auto& x : d.second) {
                auto it = std::find_if(sums.begin(), sums.end(), [&](auto& y) { return y.first->to == x.first->to; });
                if (it == sums.end()) sums.push_back(x);
                else it->second += x.second;
            }
            d.second.swap(sums);
            bool limited = false;
            double sum = 0;
            for (auto& x : d.second) {
                sum += x.second;
                limited |= packs[x.first->to].snow->GetContentWithoutChanges() > limit || packs[x.first->to].start > limit;
            }
            if (sum <= 1e-6 * Area(d.first)) continue;
            if (limited) {
                ++cut;
                continue;
            }
            // every cover of the receivers has its part
            for (auto c : w.sp.all("conn")) {
                if (bricks[packs[d.first].at].unit->GetId() != c->i("from") || c->num("frac", 1) <= 0) continue;
                for (size_t q = 0; q < packs.size(); ++q) {
                    if (bricks[packs[q].at].unit->GetId() != c->i("to") || packs[q].frac < 1e-8 || Frac(q) < 1e-8) continue;
                    if (std::none_of(d.second.begin(), d.second.end(), [&](auto& y) { return y.first->to == q; }))
                        r.bad("lateral/left-out", Fmt("step %d: %s sends snow to unit %d, but nothing to %s", i, bricks[packs[d.first].at].key.c_str(), c->i("to"), bricks[packs[q].at].key.c_str()));
                }
            }
            const Move* big = nullptr;  // the share of the largest stream is the reference
            double most = 0, bigK = 0;
            for (auto& x : d.second)
                if (x.second > most) most = x.second, big = x.first, bigK = x.first->weight * Frac(x.first->to);
            if (!big || bigK <= 0) continue;
            for (auto& x : d.second) {
                double k = x.first->weight * Frac(x.first->to), want = most / bigK * k;
                if (Frac(x.first->to) < 1e-8) continue;
                // rates below the numerical precision are not applied
                if (!(std::abs(x.second - want) <= 1e-7 * most + 5e-7 * std::max(1.0, w.clock.stepDays()) * Area(d.first)))
                    r.bad("lateral/proportions", Fmt("step %d: %s sends %.9g to a receiver whose declared share is %.9g", i, bricks[packs[d.first].at].key.c_str(), x.second, want));
            }
        }
    }
    double limit = 0;
};

static void ExecP18(const Spec& sp, RunResult& r) {
    SimAction before;
    World w(sp);
    Clock c = w.clock;
    for (int i = 0; i < c.n; ++i) before.AddDate(i == 0 ? c.mjd(0) - 4000 : MjdOfMinute(c.at(i)) + 20.0 / 86400);
    CountScenario(sp, r);
    bool ok = false;
    try {
        ok = w.MakeSettings() && w.MakeBasin() && w.InitModel() && w.model->AddAction(&before) && w.AddForcing() && w.Attach() && w.ApplyInitialStates() && w.AddActions() && w.AddProbe();
    } catch (const std::exception& e) {
        w.error = e.what();
    }
    if (!ok) {
        r.add("refused");
        if (getenv("HBSIM_WHY")) r.add("refused: " + w.error.substr(0, 90));
        r.mix(HashStr(w.error));
        return;
    }
    double maxDepth = 20000;
    for (auto p : sp.all("param"))
        if (p->str("name") == "max_snow_depth") maxDepth = std::min(maxDepth, p->num("val"));
    int runs = 0;
    for (int run = 0;; ++run) {
        SnowWatch g(w, r);
        g.limit = 1.4 * maxDepth * (sp.one("model").str("redis") == "freydyn" ? 0.09 : 0.2);
        if (!r.violations.empty()) return;
        before.onApply = [&](double) {
            g.End();
            return true;
        };
        w.probe->onSet = [&](double) {
            g.started = false;
            g.step = 0;
            g.Start();
            return true;
        };
        w.probe->onAdvance = [&] {
            g.Start();
            return true;
        };
        RunOutcome o = RunModel(*w.model);
        before.onApply = nullptr;
        w.probe->onSet = nullptr;
        w.probe->onAdvance = nullptr;
        if (!OkOrNote(o, r)) return;
        ++runs;
        r.add("probe.moves", g.moved);
        r.add("probe.limited", g.cut);
        if (g.moved) r.nontrivial = true;
        uint64_t h = r.shape & 0xffff;
        for (auto& p : g.packs) h = Mix64(h ^ static_cast<uint64_t>(std::log2(1 + p.snow->GetContentWithoutChanges()) * 2));
        r.states.push_back(h);
        bool again = false;
        for (auto op : sp.all("op")) again |= op->str("op") == "rerun";
        if (run > 0 || !again || !r.violations.empty()) break;
        w.model->Reset();
    }
    if (!r.violations.empty()) return;
    // a pair of units listed several times is one connection carrying the sum of the parts
    {
        Spec t = sp;
        bool merged = false;
        for (size_t k = 0; k < t.items.size(); ++k)
            for (size_t q = k + 1; q < t.items.size() && t.items[k].kind == "conn";)
                if (t.items[q].kind == "conn" && t.items[q].i("from") == t.items[k].i("from") && t.items[q].i("to") == t.items[k].i("to")) {
                    t.items[k].set("frac", Fmt("%.12g", t.items[k].num("frac", 1) + t.items[q].num("frac", 1)));
                    t.items.erase(t.items.begin() + static_cast<long>(q));
                    merged = true;
                } else ++q;
        if (merged) {
            World v(t), full(sp);
            if (!v.Build() || !full.Build()) {
                r.bad("merged/refused", v.error + full.error);
                return;
            }
            RunOutcome a = RunModel(*full.model), b = RunModel(*v.model);
            runs += 2;
            if (a.ok && b.ok) {
                r.add("probe.merged");
                Logger *x = full.model->GetLogger(), *y = v.model->GetLogger();
                auto ids = x->GetHydroUnitIds();
                for (size_t q = 0; q < x->GetHydroUnitLabels().size(); ++q) {
                    const std::string& n = x->GetHydroUnitLabels()[q];
                    if (n.find("_snowpack:snow") == std::string::npos) continue;
                    for (size_t p = 0; p < y->GetHydroUnitLabels().size(); ++p) {
                        if (y->GetHydroUnitLabels()[p] != n) continue;
                        for (size_t u = 0; u < ids.size(); ++u)
                            for (int k = 0; k < c.n; ++k) {
                                double s = x->GetHydroUnitValues()[q](k, static_cast<int>(u)), z = y->GetHydroUnitValues()[p](k, static_cast<int>(u));
                                if (!SameBits(s, z) && !(std::fabs(s - z) <= 1e-4 * std::max(1.0, std::fabs(s)))) {
                                    r.bad("merged/value", Fmt("%s of unit %d is %.17g at step %d with a connection listed in parts and %.17g with it listed once", n.c_str(), ids[u], s, k, z));
                                    u = ids.size() - 1;
                                    break;
                                }
                            }
                    }
                }
            }
        }
    }
    if (!r.violations.empty()) return;
    // units that take no part keep their snow as if nothing moved anywhere
    for (auto op : sp.all("op")) {
        if (op->str("op") != "twin") continue;
        bool shared = false;  // the delta-h evolution depends on the ice of the whole glacier
        for (auto a : sp.all("action")) shared |= a->str("kind") == "deltah";
        if (shared) continue;
        Spec t = sp;
        t.find("model")->set("redis", "none");
        for (size_t k = 0; k < t.items.size();)
            if (t.items[k].kind == "param" && (t.items[k].str("comp") == "type:snowpack" || [&] {
                    static const std::set<std::string> lat{"coeff", "exp", "min_slope", "max_slope", "min_snow_holding_depth", "max_snow_depth", "snow_holding_capacity", "correction"};
                    return lat.count(t.items[k].str("name")) > 0;
                }()))
                t.items.erase(t.items.begin() + static_cast<long>(k));
            else ++k;
        World v(t), full(sp);
        if (!v.Build() || !full.Build()) {
            r.bad("twin/refused", v.error + full.error);
            return;
        }
        RunOutcome a = RunModel(*full.model), b = RunModel(*v.model);
        runs += 2;
        if (!a.ok || !b.ok) continue;
        std::set<int> involved, all;
        for (auto cn : sp.all("conn")) involved.insert(cn->i("from")), involved.insert(cn->i("to"));
        Logger *x = full.model->GetLogger(), *y = v.model->GetLogger();
        auto ids = x->GetHydroUnitIds();
        for (size_t q = 0; q < x->GetHydroUnitLabels().size(); ++q) {
            const std::string& n = x->GetHydroUnitLabels()[q];
            if (n.find("_snowpack:") == std::string::npos) continue;
            for (size_t p = 0; p < y->GetHydroUnitLabels().size(); ++p) {
                if (y->GetHydroUnitLabels()[p] != n) continue;
                for (size_t u = 0; u < ids.size(); ++u) {
                    if (involved.count(ids[u])) continue;
                    for (int k = 0; k < c.n; ++k) {
                        double s = x->GetHydroUnitValues()[q](k, static_cast<int>(u)), z = y->GetHydroUnitValues()[p](k, static_cast<int>(u));
                        if (!SameBits(s, z) && !(std::fabs(s - z) <= 1e-6 * std::max(1.0, std::fabs(s)))) r.bad("twin/value", Fmt("%s of unit %d, which takes no part in the transport, is %.17g at step %d and %.17g when nothing is transported", n.c_str(), ids[u], s, k, z));
                    }
                    r.add("probe.isolated");
                }
            }
        }
    }
    Steps(w, r, runs);
}
static RegisterProp p18({"P18", 50000, 1500000, 60, GenP18, ExecP18,
                         "a run counts when snow moved between units at least once; distinct = distinct structural signature",
                         "whole engine, lateral processes and connections: real", "climate generator; an observing action due first at each boundary"});
