#include "ledger.h"
#include "FluxToBrick.h"
#include "Glacier.h"

std::vector<double> RecordedFractions(World& w, const std::vector<BrickRef>& bricks, int row) {
    std::vector<double> f(bricks.size(), 1.0);
    Logger* l = w.model->GetLogger();
    auto labels = l->GetHydroUnitFractionLabels();
    auto ids = l->GetHydroUnitIds();
    for (size_t b = 0; b < bricks.size(); ++b) {
        if (!bricks[b].cover) continue;
        f[b] = bricks[b].cover->GetAreaFraction();
        for (size_t j = 0; j < labels.size() && j < l->GetHydroUnitFractions().size(); ++j) {
            if (labels[j] != bricks[b].cover->GetName()) continue;
            for (size_t u = 0; u < ids.size(); ++u)
                if (ids[u] == bricks[b].unit->GetId()) {
                    const auto& m = l->GetHydroUnitFractions()[j];
                    if (row >= 0 && row < m.rows() && !std::isnan(m(row, static_cast<int>(u)))) f[b] = m(row, static_cast<int>(u));
                }
        }
    }
    return f;
}

void Ledger::Attach() {
    bricks = w.Bricks();
    area = w.model->GetSubBasin()->GetArea();
    outlet = w.model->GetSubBasin()->GetValuePointer("outlet");
    spinupSteps = std::min(w.clock.spinSteps(), w.clock.n);
    size_t perUnit = 1;
    for (auto& b : bricks)
        if (b.sub || (b.unit && b.unit == bricks[0].unit)) ++perUnit;
    tolStep = 2e-7 + 6e-8 * static_cast<double>(perUnit) * std::max(1.0, w.clock.stepDays());
    w.probe->onSet = [this](double d) { return Begin(d); };
    w.probe->onAdvance = [this]() { return Advance(); };
}

void Ledger::State(const std::vector<double>* fractions, double& ws, double& ice) const {
    ws = ice = 0;
    for (size_t i = 0; i < bricks.size(); ++i) {
        auto& r = bricks[i];
        double k = 1;
        if (!r.sub) k = r.unit->GetArea() / area * (r.cover ? (fractions ? (*fractions)[i] : r.cover->GetAreaFraction()) : 1.0);
        ws += k * (*r.water + (r.snow ? *r.snow : 0));
        if (r.ice && !r.infiniteIce) ice += k * *r.ice;
    }
}

double Ledger::Step1Precip(int i) const {
    double p = 0;
    for (auto u : w.sp.all("unit"))
        p += u->num("area", 100) / area * ForcingValue(w.sp, "precipitation", u->i("id"), w.clock.at(i), w.clock.stepMin);
    return p;
}

bool Ledger::Begin(double) {
    ++sets;
    inSpinup = spinupSteps > 0 && sets == 1;
    step = 0;
    State(nullptr, wsPost, icePost);
    if (!inSpinup) {
        initialWS = wsPost;
        initialIce = icePost;
        totalP = totalQ = totalET = totalExt = totalIceJump = 0;
    }
    amounts.assign(bricks.size(), {});
    for (size_t i = 0; i < bricks.size(); ++i)
        amounts[i] = {*bricks[i].water, bricks[i].snow ? *bricks[i].snow : 0, bricks[i].ice ? *bricks[i].ice : 0};
    if (onBegin) onBegin(step);
    return true;
}

bool Ledger::Advance() {
    int i = step++;
    if (!keepBooks) return onStep ? onStep(i) : true;
    std::vector<double> frac(bricks.size(), 1.0);
    if (inSpinup) {
        for (size_t b = 0; b < bricks.size(); ++b)
            if (bricks[b].cover) frac[b] = bricks[b].cover->GetAreaFraction();
    } else frac = RecordedFractions(w, bricks, i);
    double et = 0, ext = 0;
    for (size_t b = 0; b < bricks.size(); ++b) {
        auto& r = bricks[b];
        double k = r.sub ? 1.0 : r.unit->GetArea() / area * frac[b];
        if (k == 0) continue;
        for (size_t p = 0; p < r.brick->GetProcessCount(); ++p) {
            Process* pr = r.brick->GetProcess(p);
            if (pr->ToAtmosphere() && pr->GetOutputFluxCount() > 0) et += k * *pr->GetOutputFlux(0)->GetAmountPointer();
            // the melt of an unlimited ice body enters the catchment from outside its books; the amount of a flux is
            // expressed over the area it arrives on
            if (r.infiniteIce && pr->GetName() == "melt") {
                for (int q = 0; q < pr->GetOutputFluxCount(); ++q) {
                    Flux* f = pr->GetOutputFlux(q);
                    auto* tb = dynamic_cast<FluxToBrick*>(f);
                    double wgt = 1.0;
                    if (tb && tb->GetTargetBrick()->GetHydroUnit()) wgt = r.unit->GetArea() / area * (tb->GetTargetBrick() == r.brick ? frac[b] : 1.0);
                    ext += wgt * *f->GetAmountPointer();
                }
            }
        }
        // and snow turned into unlimited ice leaves them
        if (r.infiniteIce) ext -= k * static_cast<Glacier*>(r.brick)->GetIceContainer()->SumIncomingFluxes();
    }
    if (getenv("HBSIM_TRACE")) {
        fprintf(stderr, "-- step %d%s\n", i, inSpinup ? " (spin-up)" : "");
        for (auto& r : bricks) {
            fprintf(stderr, "  %d %s water %.9g snow %.9g ice %.9g frac %.4g |", r.sub ? -1 : r.unit->GetId(), r.brick->GetName().c_str(), *r.water,
                    r.snow ? *r.snow : 0, r.ice ? *r.ice : 0, r.cover ? r.cover->GetAreaFraction() : 1);
            for (size_t p = 0; p < r.brick->GetProcessCount(); ++p) {
                Process* pr = r.brick->GetProcess(p);
                for (size_t q = 0; q < static_cast<size_t>(pr->GetOutputFluxCount()); ++q) fprintf(stderr, " %s=%.9g", pr->GetName().c_str(), *pr->GetOutputFlux(q)->GetAmountPointer());
            }
            fprintf(stderr, "\n");
        }
        fprintf(stderr, "  outlet %.9g\n", *outlet);
    }
    double p = Step1Precip(i);
    lastQ = *outlet;
    // the state before the actions of this boundary: contents of the recorded row are the same objects unless an
    // action fired; the difference between both is attributed below
    double wsNow, iceNow;
    State(nullptr, wsNow, iceNow);
    bool moved = false;
    double wsPre = wsNow, icePre = iceNow;
    if (!inSpinup) {
        Logger* l = w.model->GetLogger();
        auto& labels = l->GetHydroUnitLabels();
        auto ids = l->GetHydroUnitIds();
        wsPre = icePre = 0;
        for (size_t b = 0; b < bricks.size(); ++b) {
            auto& r = bricks[b];
            double k = r.sub ? 1.0 : r.unit->GetArea() / area * (r.cover ? frac[b] : 1.0);
            double wv = *r.water, sv = r.snow ? *r.snow : 0, iv = r.ice ? *r.ice : 0;
            if (!r.sub && !w.actions.empty()) {
                for (size_t u = 0; u < ids.size(); ++u) {
                    if (ids[u] != r.unit->GetId()) continue;
                    for (size_t q = 0; q < labels.size(); ++q) {
                        const std::string& n = r.brick->GetName();
                        if (labels[q].compare(0, n.size(), n) != 0) continue;
                        const auto& m = l->GetHydroUnitValues()[q];
                        if (labels[q] == n + ":water_content") wv = m(i, static_cast<int>(u));
                        else if (r.snow && labels[q] == n + ":snow_content") sv = m(i, static_cast<int>(u));
                        else if (r.ice && labels[q] == n + ":ice_content") iv = m(i, static_cast<int>(u));
                    }
                }
            }
            wsPre += k * (wv + sv);
            if (r.ice && !r.infiniteIce) icePre += k * iv;
        }
        moved = wsPre != wsNow || icePre != iceNow;
    }
    scale = std::max({scale, std::abs(wsPre), std::abs(icePre), p});
    double err = (wsPre + icePre) - (wsPost + icePost) - (p - lastQ - et + ext);
    double tol = tolStep + 1e-11 * scale;
    if (!(std::abs(err) <= tol) && firstError.empty()) {
        firstClass = inSpinup ? "balance/spinup-step" : "balance/step";
        firstError = Fmt("step %d (%s)%s: storage %.9g -> %.9g but P %.9g - Q %.9g - ET %.9g + ice supply %.9g: %.3g mm %s", i,
                         DateText(w.clock.at(i)).c_str(), inSpinup ? " of the spin-up" : "", wsPost + icePost, wsPre + icePre, p, lastQ, et, ext, err,
                         err > 0 ? "appear" : "vanish");
    }
    // snow turned into ice by an action stays in the catchment; the other actions leave water and snow alone
    double shift = wsNow - wsPre + (iceActions ? iceNow - icePre : 0);
    if (moved && !(std::abs(shift) <= tol) && firstError.empty()) {
        firstClass = "balance/action";
        firstError = Fmt("the actions after step %d (%s) changed water+snow from %.9g to %.9g mm", i, DateText(w.clock.at(i + 1)).c_str(), wsPre, wsNow);
    }
    totalP += p;
    totalQ += lastQ;
    totalET += et;
    totalExt += ext;
    lastIceJump = (iceNow - icePre) + (iceActions ? wsNow - wsPre : 0);
    totalIceJump += lastIceJump;
    wsPost = wsNow;
    icePost = iceNow;
    for (size_t b = 0; b < bricks.size(); ++b)
        amounts[b] = {*bricks[b].water, bricks[b].snow ? *bricks[b].snow : 0, bricks[b].ice ? *bricks[b].ice : 0};
    return onStep ? onStep(i) : true;
}
