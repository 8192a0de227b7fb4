#include "FluxToBrick.h"
#include "Glacier.h"
#include "Snowpack.h"
#include "Splitter.h"
#include "gen.h"
#include "ledger.h"
#include "util.h"

// ---- P27: water goes where the structure says ---------------------------------------------------------
static Spec GenP27(Rng& r, uint64_t) {
    GenOpt o;
    o.pGraph = 0.4;
    o.pGR = 0.12;
    o.pVariants = 0.45;
    o.pSecond = 0.55;
    o.pLateral = 0.15;
    o.pAction = 0.35;
    o.pEvo = 0.1;
    o.minN = 5;
    o.maxN = 50;
    o.maxUnits = 4;
    Spec sp = GenScenario(r, o);
    if (sp.one("model").str("family") == "graph" && r.p(0.3)) RenameStores(r, sp);
    if (r.p(0.2)) sp.add("op").set("op", "allocbuild").set("frac", std::round(r.u() * 1000) / 1000);
    int k = r.p(0.5) ? 0 : r.range(1, 2);
    for (int i = 0; i < k; ++i) {
        double q = r.u();
        Item& op = sp.add("op");
        if (q < 0.5) op.set("op", "rerun");
        else op.set("op", "failrun").set("at", r.range(0, 12));
    }
    return sp;
}

namespace {
struct Node {
    size_t brick = 0;
    int content = 0;  // 0 water, 1 snow, 2 ice
    double start = 0, in = 0, out = 0;
    bool skip = false;
};
struct Paths {
    World& w;
    RunResult& r;
    std::vector<BrickRef> bricks;
    std::vector<Node> nodes;
    std::map<std::pair<int, std::string>, size_t> at;  // (unit id or -1, brick)
    std::vector<std::array<int, 3>> nodeOf;
    std::vector<Declared> declared;
    std::map<int, int> variant;  // per unit
    double area = 0, tol = 0;
    double* outlet = nullptr;
    int step = -1, sets = 0, spin = 0, steps = 0;
    bool inSpin = false;
    struct Label {
        int label, unit;
    };
    std::vector<std::array<Label, 3>> rows;  // where the recorded contents of a brick are

    Paths(World& world, RunResult& res) : w(world), r(res) {}

    double* Content(const BrickRef& b, int c) const { return c == 0 ? b.water : c == 1 ? b.snow : b.ice; }

    bool Attach() {
        const Spec& sp = w.sp;
        bricks = w.Bricks();
        area = w.model->GetSubBasin()->GetArea();
        outlet = w.model->GetSubBasin()->GetValuePointer("outlet");
        spin = std::min(w.clock.spinSteps(), w.clock.n);
        tol = (5e-7 + 5e-7 * w.clock.stepDays()) * 2;
        for (size_t k = 0; k < VariantCovers(sp).size(); ++k) declared.push_back(DeclaredPaths(sp, k));
        for (auto u : sp.all("unit")) variant[u->i("id")] = VariantOf(sp, *u);
        for (size_t b = 0; b < bricks.size(); ++b) {
            at[{bricks[b].sub ? -1 : bricks[b].unit->GetId(), bricks[b].brick->GetName()}] = b;
            nodeOf.push_back({-1, -1, -1});
            for (int c = 0; c < 3; ++c) {
                if (!Content(bricks[b], c)) continue;
                Node n;
                n.brick = b;
                n.content = c;
                nodeOf[b][static_cast<size_t>(c)] = static_cast<int>(nodes.size());
                nodes.push_back(n);
            }
        }
        Logger* l = w.model->GetLogger();
        auto ids = l->GetHydroUnitIds();
        const auto& labels = l->GetHydroUnitLabels();
        rows.assign(bricks.size(), {Label{-1, -1}, Label{-1, -1}, Label{-1, -1}});
        static const char* what[3] = {":water_content", ":snow_content", ":ice_content"};
        for (size_t b = 0; b < bricks.size(); ++b) {
            if (bricks[b].sub) continue;
            for (size_t q = 0; q < labels.size(); ++q)
                for (size_t c = 0; c < 3; ++c)
                    if (labels[q] == bricks[b].brick->GetName() + what[c])
                        for (size_t u = 0; u < ids.size(); ++u)
                            if (ids[u] == bricks[b].unit->GetId()) rows[b][c] = {static_cast<int>(q), static_cast<int>(u)};
        }
        w.probe->onSet = [this](double) {
            inSpin = spin > 0 && sets == 0;
            ++sets;
            step = 0;
            for (auto& n : nodes) n.start = *Content(bricks[n.brick], n.content);
            return onBegin ? onBegin() : true;
        };
        w.probe->onAdvance = [this]() { return Advance(); };
        return Built();
    }
    std::function<bool()> onBegin, onStep;

    // the stores of every unit are those of the variant that fits it
    bool Built() {
        for (auto u : w.sp.all("unit")) {
            int id = u->i("id");
            std::set<std::string> want, have;
            for (auto& b : declared[static_cast<size_t>(variant[id])].bricks)
                if (!b.basin) want.insert(b.name);
            for (auto& b : bricks)
                if (!b.sub && b.unit->GetId() == id) have.insert(b.brick->GetName());
            if (want == have) continue;
            std::string d;
            for (auto& n : want)
                if (!have.count(n)) d += " without " + n;
            for (auto& n : have)
                if (!want.count(n)) d += " with " + n;
            r.bad("structure/stores", Fmt("unit %d is built%s", id, d.c_str()));
            return false;
        }
        for (auto& b : declared[0].bricks)
            if (b.basin && !at.count({-1, b.name})) {
                r.bad("structure/stores", "the catchment is built without " + b.name);
                return false;
            }
        return true;
    }
    Process* Find(const BrickRef& b, const std::string& name) const {
        for (size_t p = 0; p < b.brick->GetProcessCount(); ++p)
            if (b.brick->GetProcess(p)->GetName() == name) return b.brick->GetProcess(p);
        return nullptr;
    }
    int SourceContent(const BrickRef& b, Process* p) const {
        WaterContainer* c = p->GetWaterContainer();
        if (c == b.brick->GetWaterContainer()) return 0;
        if (auto s = dynamic_cast<Snowpack*>(b.brick))
            if (c == s->GetSnowContainer()) return 1;
        if (auto g = dynamic_cast<Glacier*>(b.brick))
            if (c == g->GetIceContainer()) return 2;
        return -1;
    }
    Node* At(int unit, const DeclaredTarget& t) {
        auto it = at.find({unit, t.brick});
        if (it == at.end()) it = at.find({-1, t.brick});
        if (it == at.end()) return nullptr;
        int n = nodeOf[it->second][t.content == "snow" ? 1 : t.content == "ice" ? 2 : 0];
        return n < 0 ? nullptr : &nodes[static_cast<size_t>(n)];
    }
    bool Fail(const std::string& cls, const std::string& text) {
        r.bad(cls, text);
        return true;
    }
    bool Advance() {
        int i = step++;
        if (!inSpin) ++steps;
        std::vector<double> frac(bricks.size(), 1.0);
        if (inSpin) {
            for (size_t b = 0; b < bricks.size(); ++b)
                if (bricks[b].cover) frac[b] = bricks[b].cover->GetAreaFraction();
        } else frac = RecordedFractions(w, bricks, i);
        for (auto& n : nodes) n.in = n.out = 0, n.skip = false;
        double toOutlet = 0;
        auto deliver = [&](int unit, const DeclaredTarget& t, double a) {
            if (t.brick == "outlet") {
                toOutlet += a;
                return;
            }
            if (Node* n = At(unit, t)) n->in += a;
            else if (r.violations.empty()) r.bad("structure/target", "there is no " + t.brick + " (" + t.content + ")");
        };
        auto take = [&](size_t b, const DeclaredProcess& p) {
            Process* pr = Find(bricks[b], p.name);
            if (!pr) {
                if (r.violations.empty()) r.bad("structure/process", bricks[b].key + " has no process " + p.name);
                return;
            }
            int c = SourceContent(bricks[b], pr);
            int n = c < 0 ? -1 : nodeOf[b][static_cast<size_t>(c)];
            int unit = bricks[b].sub ? -1 : bricks[b].unit->GetId();
            if (p.to.empty()) {
                if (pr->ToAtmosphere() && pr->GetOutputFluxCount() > 0 && n >= 0) nodes[static_cast<size_t>(n)].out += *pr->GetOutputFlux(0)->GetAmountPointer();
                return;
            }
            if (pr->GetOutputFluxCount() != static_cast<int>(p.to.size())) {
                if (r.violations.empty()) r.bad("structure/outputs", Fmt("%s of %s has %d outputs", p.name.c_str(), bricks[b].key.c_str(), pr->GetOutputFluxCount()));
                return;
            }
            for (size_t q = 0; q < p.to.size(); ++q) {
                double a = *pr->GetOutputFlux(q)->GetAmountPointer();
                double k = 1;
                auto local = at.find({unit, p.to[q].brick});
                bool away = !bricks[b].sub && local == at.end();
                if (away) k *= bricks[b].unit->GetArea() / area;
                if (bricks[b].cover && (away || !bricks[local->second].cover)) k *= frac[b];
                if (n >= 0) nodes[static_cast<size_t>(n)].out += a / k;
                deliver(unit, p.to[q], a);
            }
        };
        for (auto u : w.sp.all("unit")) {
            int id = u->i("id");
            const Declared& d = declared[static_cast<size_t>(variant[id])];
            HydroUnit* hu = bricks[at[{id, d.covers[0]}]].unit;
            Splitter* s = hu->TryGetSplitter(d.snow ? "snow_rain_transition" : "rain");
            if (!s) {
                if (r.violations.empty()) r.bad("structure/splitter", "no precipitation splitter");
                continue;
            }
            double rain = *s->GetValuePointer("rain"), snow = d.snow ? *s->GetValuePointer("snow") : 0;
            double p = ForcingValue(w.sp, "precipitation", id, w.clock.at(i), w.clock.stepMin);
            if (!(std::abs(rain + snow - p) <= 1e-9 * std::max(1.0, p)) && r.violations.empty())
                r.bad("paths/precipitation", Fmt("step %d: unit %d receives %.9g of rain and %.9g of snow, but %.9g fell", i, id, rain, snow, p));
            for (auto& t : d.rain) deliver(id, t, at.count({id, t.brick}) ? rain : rain * hu->GetArea() / area);
            for (auto& t : d.snowTo) deliver(id, t, snow);
            for (auto& b : d.bricks) {
                if (b.basin) continue;
                size_t k = at[{id, b.name}];
                if (bricks[k].cover && frac[k] < 1e-7) {  // no area to speak of
                    for (int c = 0; c < 3; ++c)
                        if (nodeOf[k][static_cast<size_t>(c)] >= 0) nodes[static_cast<size_t>(nodeOf[k][static_cast<size_t>(c)])].skip = true;
                    continue;
                }
                for (auto& pr : b.processes) take(k, pr);
            }
        }
        for (auto& b : declared[0].bricks)
            if (b.basin)
                for (auto& pr : b.processes) take(at[{-1, b.name}], pr);
        bool lateral = declared[0].lateral && !w.sp.all("conn").empty();
        Logger* l = w.model->GetLogger();
        bool acts = !w.sp.all("action").empty() && !inSpin;
        static const char* what[3] = {"water", "snow", "ice"};
        for (auto& n : nodes) {
            const BrickRef& b = bricks[n.brick];
            double end = *Content(b, n.content);
            double now = end;
            if (acts && !b.sub) {
                Label lb = rows[n.brick][static_cast<size_t>(n.content)];
                if (lb.label >= 0) end = l->GetHydroUnitValues()[static_cast<size_t>(lb.label)](i, lb.unit);
                else n.skip = true;
            }
            if (!n.skip && !(n.content == 2 && b.infiniteIce) && !(n.content == 1 && lateral) && r.violations.empty()) {
                double err = (end - n.start) - (n.in - n.out);
                double t = tol + 1e-10 * (std::abs(end) + std::abs(n.start) + n.in + std::abs(n.out));
                if (!(std::abs(err) <= t))
                    r.bad("paths/store", Fmt("step %d%s: the %s of %s goes from %.9g to %.9g, but %.9g is declared to arrive and %.9g to leave: %.3g mm %s", i, inSpin ? " of the spin-up" : "",
                                             what[n.content], b.key.c_str(), n.start, end, n.in, n.out, err, err > 0 ? "too much" : "missing"));
                if (n.in != 0 || n.out != 0) r.add("probe.store_steps");
            }
            n.start = now;
        }
        if (!(std::abs(toOutlet - *outlet) <= tol * 4 + 1e-9 * std::abs(toOutlet)) && r.violations.empty())
            r.bad("paths/outlet", Fmt("step %d%s: %.9g is declared to reach the outlet, which delivers %.9g", i, inSpin ? " of the spin-up" : "", toOutlet, *outlet));
        r.mix(*outlet);
        return onStep ? onStep() : true;
    }
};
}  // namespace

static void ExecP27(const Spec& sp, RunResult& r) {
    CountScenario(sp, r);
    for (auto op : sp.all("op")) {
        if (op->str("op") != "allocbuild") continue;
        int64_t count = 0;
        {
            World probe(sp);
            hooks::ArmAlloc(-1);
            probe.Build();
            count = hooks::allocSeen;
            hooks::DisarmAlloc();
        }
        World v(sp);
        hooks::ArmAlloc(static_cast<int64_t>(op->num("frac") * static_cast<double>(count)));
        v.Build();
        bool fired = hooks::allocFired;
        hooks::DisarmAlloc();
        if (fired) r.add("fault.allocbuild");
    }
    World w(sp);
    if (!w.Build()) {
        r.bad("setup/refused", "a complete setup was refused: " + w.error);
        return;
    }
    std::vector<const Item*> ops{nullptr};
    for (auto op : sp.all("op"))
        if (op->str("op") != "allocbuild") ops.push_back(op);
    for (size_t k = 0; k < ops.size(); ++k) {
        if (k > 0) w.model->Reset();
        Paths p(w, r);
        bool fail = ops[k] && ops[k]->str("op") == "failrun", failed = false;
        if (!p.Attach()) return;
        if (fail)
            p.onStep = [&] {
                if (p.step - 1 < ops[k]->i("at") || p.inSpin) return true;
                failed = true;
                return false;
            };
        RunOutcome o = RunModel(*w.model);
        r.add("runs");
        r.add("steps", p.steps);
        r.add("simdays", p.steps * w.clock.stepDays());
        if (failed) r.add("fault.failrun");
        w.probe->onSet = nullptr;
        w.probe->onAdvance = nullptr;
        if (!r.violations.empty()) return;
        if (o.ok && p.steps > 0) r.nontrivial = true;
        if (!o.ok && !failed) {
            r.add("aborted");
            if (sp.all("action").empty() && sp.one("model").str("family") != "graph") r.add("aborted.plain." + sp.one("model").str("solver") + "." + sp.one("model").str("family"));
            if (getenv("HBSIM_WHY")) r.add("aborted: " + o.msg.substr(0, 40));
            return;
        }
    }
}
static RegisterProp p27({"P27", 25000, 800000, 60, GenP27, ExecP27,
                         "a run counts when a complete setup was built and followed store by store to its end; distinct = distinct structural signature",
                         "SettingsModel, ModelBuilder, ModelHydro, Processor, solvers, bricks, processes, fluxes, splitters, actions, clock, logger: all real",
                         "climate generator; probe time series observing each step; record of the declared paths"});
