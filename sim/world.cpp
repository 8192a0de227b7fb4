#include "world.h"
#include <cstdarg>

std::string Fmt(const char* f, ...) {
    char b[1200];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}

int64_t DaysFromCivil(int y, int m, int d) {
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = static_cast<unsigned>(y - era * 400);
    unsigned doy = (153u * static_cast<unsigned>(m + (m > 2 ? -3 : 9)) + 2) / 5 + static_cast<unsigned>(d) - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + static_cast<int64_t>(doe) - 719468;
}
void CivilFromDays(int64_t z, int& y, int& m, int& d) {
    z += 719468;
    int64_t era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = static_cast<unsigned>(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    unsigned mp = (5 * doy + 2) / 153;
    d = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
    m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
    y = static_cast<int>(static_cast<int64_t>(yoe) + era * 400) + (m <= 2);
}
static int64_t FloorDiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
double MjdOfMinute(int64_t minute) {
    // one rounding only: total minutes since the MJD epoch / 1440
    return static_cast<double>(minute + kMjdEpochDays * 1440) / 1440.0;
}
std::string DateText(int64_t minute) {
    int64_t day = FloorDiv(minute, 1440);
    int mod = static_cast<int>(minute - day * 1440);
    int y, m, d;
    CivilFromDays(day, y, m, d);
    if (mod == 0) return Fmt("%04d-%02d-%02d", y, m, d);
    return Fmt("%04d-%02d-%02d %02d:%02d", y, m, d, mod / 60, mod % 60);
}
double Clock::mjd(int i) const { return MjdOfMinute(at(i)); }
Clock Clock::from(const Spec& sp) {
    const Item& t = sp.one("timer");
    Clock c;
    int y = 2000, mo = 1, d = 1, h = 0, mi = 0;
    sscanf(t.str("start", "2000-01-01").c_str(), "%d-%d-%dT%d:%d", &y, &mo, &d, &h, &mi);
    c.start = DaysFromCivil(y, mo, d) * 1440 + h * 60 + mi;
    c.n = t.i("n", 30);
    c.step = t.i("step", 1);
    c.unit = t.str("unit", "day");
    c.stepMin = c.step * (c.unit == "day" ? 1440 : c.unit == "hour" ? 60 : 1);
    c.tail = t.i("tail", 0);
    if (c.tail >= c.stepMin) c.tail = c.stepMin - 1;
    c.spinupDays = t.i("spinup", 0);
    return c;
}

// ---- climate ------------------------------------------------------------------------------
double ForcingValue(const Spec& sp, const std::string& var, int unitId, int64_t minute, int stepMin) {
    const Item& c = sp.one("climate");
    uint64_t seed = Mix64(static_cast<uint64_t>(c.num("seed", 1)));
    if (c.has("replay")) {  // the period is simulated twice: k steps, then everything from the start
        Clock k = Clock::from(sp);
        int64_t at = k.at(c.i("replay"));
        if (minute >= at) minute -= at - k.start;
    }
    double elev = 500;
    for (auto u : sp.all("unit"))
        if (u->i("id") == unitId) elev = u->num("elev", 500);
    int64_t day = FloorDiv(minute, 1440);
    double doyPhase = 2 * 3.141592653589793 * (static_cast<double>(day % 365) / 365.0);
    double dt = stepMin / 1440.0;
    auto h = [&](const char* tag, int64_t a, int64_t b) {
        return U01(Mix64(HashStr(tag, seed) ^ Mix64(static_cast<uint64_t>(a) * 1000003u + static_cast<uint64_t>(b))));
    };
    auto temp = [&]() {
        double t = c.num("tmean", 5) - c.num("tamp", 12) * std::cos(doyPhase) + c.num("tday", 6) * (h("t", day, 0) - 0.5);
        t -= c.num("lapse", 0.006) * (elev - 500);
        t += c.num("tdiur", 4) * std::sin(2 * 3.141592653589793 * static_cast<double>(minute - day * 1440) / 1440.0);
        return t;
    };
    if (var == "precipitation") {
        if (c.has("pconst")) return c.num("pconst") * dt;
        bool wet = h("wet", day, 0) < c.num("pwet", 0.4);
        if (!wet) return 0;
        double u = h("p", day, c.i("puniform", 0) ? 0 : unitId);
        double mm = -c.num("pmean", 8) * std::log(1 - 0.999 * u);
        if (h("storm", day, 0) < c.num("pstorm", 0.0)) mm *= 12;
        return mm * dt * (stepMin < 1440 ? 2 * h("ps", minute, unitId) : 1);
    }
    if (var == "temperature") return temp();
    if (var == "temperature_min") return temp() - 3 - 3 * h("tn", day, unitId);
    if (var == "temperature_max") return temp() + 3 + 3 * h("tx", day, unitId);
    if (var == "solar_radiation") return 50 + 250 * h("r", day, unitId);
    if (var == "pet") return std::max(0.0, c.num("petmax", 4) * (0.55 - 0.45 * std::cos(doyPhase)) * (0.3 + h("e", day, unitId)));
    return h(var.c_str(), minute, unitId);
}

static std::vector<std::pair<std::string, std::string>> Covers(const Spec& sp) {
    std::vector<std::pair<std::string, std::string>> out;
    for (auto& c : Split(sp.one("model").str("covers", "ground:generic_land_cover"), ',')) {
        auto p = Split(c, ':');
        out.emplace_back(p[0], p.size() > 1 ? p[1] : "generic_land_cover");
    }
    return out;
}

std::vector<std::string> NeededForcing(const Spec& sp) {
    const Item& m = sp.one("model");
    std::vector<std::string> v{"precipitation", "temperature", "pet"};
    if (m.str("split") == "cemaneige") {
        v.push_back("temperature_min");
        v.push_back("temperature_max");
    }
    if (m.str("melt") == "temperature_index") v.push_back("solar_radiation");
    return v;
}

// ---- model structures -----------------------------------------------------------------------
template <class S>
static void SnowPart(S& s, const Item& m, const std::vector<std::pair<std::string, std::string>>& covers) {
    std::string melt = "melt:" + m.str("melt", "degree_day");
    bool rainToSnow = m.i("rainsnow") != 0;
    if (m.i("canopy")) {
        for (auto& c : covers)
            if (c.second != "glacier")
                s.GenerateCanopyInterception(c.first, (m.i("retention") && rainToSnow) ? c.first + "_snowpack" : c.first);
    }
    if (m.i("retention")) s.GenerateSnowpacksWithWaterRetention(melt, "outflow:snow_holding", rainToSnow);
    else s.GenerateSnowpacks(melt);
    if (m.i("retention") && m.i("refreeze")) s.AddSnowpackRefreezing("refreeze:degree_day");
    std::string subl = m.str("subl", "none");
    if (subl != "none") s.AddSnowpackSublimation("sublimation:" + subl);
    std::string redis = m.str("redis", "none");
    if (redis == "slide") s.AddSnowRedistribution("transport:snow_slide", m.i("skipgl") != 0);
    else if (redis == "frey") s.AddSnowRedistribution("transport:snow_redistribution_frey", m.i("skipgl") != 0);
    else if (redis == "freydyn") s.AddSnowRedistribution("transport:snow_redistribution_frey_dynamic", m.i("skipgl") != 0);
    std::string ice = m.str("ice", "none");
    bool hasGlacier = false;
    for (auto& c : covers) hasGlacier |= c.second == "glacier";
    if (hasGlacier) {
        if (ice == "const") s.AddSnowIceTransformation("transform:snow_ice_constant");
        else if (ice == "swat") s.AddSnowIceTransformation("transform:snow_ice_swat");
    }
}

// The land covers of every structure variant, in the order of declaration.
std::vector<std::vector<std::string>> VariantCovers(const Spec& sp) {
    std::vector<std::string> soil, ice;
    for (auto& c : Covers(sp)) (c.second == "glacier" ? ice : soil).push_back(c.first);
    auto with = [&](unsigned mask) {
        std::vector<std::string> v = soil;
        for (size_t k = 0; k < ice.size(); ++k)
            if (mask >> k & 1) v.push_back(ice[k]);
        return v;
    };
    unsigned all = (1u << ice.size()) - 1;
    int kind = sp.one("model").i("variants");
    if (kind == 0) return {with(all)};
    if (kind == 1) return {with(0), with(all)};
    std::vector<std::vector<std::string>> out;
    for (unsigned k : {0u, all, 1u, 2u}) out.push_back(with(k & all));
    return out;
}

template <class S>
static void Recipe(S& s, const Spec& sp, const std::vector<std::string>& include) {
    const Item& m = sp.one("model");
    std::string fam = m.str("family", "socont");
    bool snow = m.i("snow", 1) != 0;
    auto all = Covers(sp);
    std::vector<std::pair<std::string, std::string>> covers;
    bool anyGlacier = false;
    for (auto& c : all) {
        anyGlacier |= c.second == "glacier";
        if (std::find(include.begin(), include.end(), c.first) != include.end()) covers.push_back(c);
    }
    std::string split = "snow_rain:" + m.str("split", "linear");
    s.GeneratePrecipitationSplitters(snow, split);
    for (auto& c : covers) s.AddLandCoverBrick(c.first, c.second);
    if (snow) SnowPart(s, m, covers);
    else if (m.i("canopy"))
        for (auto& c : covers)
            if (c.second != "glacier") s.GenerateCanopyInterception(c.first, c.first);

    for (auto& c : covers) {
        if (c.second != "glacier") continue;
        s.SelectHydroUnitBrick(c.first);
        s.AddBrickProcess("outflow_rain_snowmelt", "outflow:direct", "glacier_area_rain_snowmelt_storage");
        if (snow) s.AddBrickParameter("no_melt_when_snow_cover", 1.0f);
        if (m.str("glacier", "fin") == "inf") s.AddBrickParameter("infinite_storage", 1.0f);
        else if (m.i("glflag")) s.AddBrickParameter("infinite_storage", 0.0f);
        std::string gm = m.str("gmelt", "degree_day");
        s.AddBrickProcess("melt", "melt:" + gm, "glacier_area_icemelt_storage");
        s.SetProcessOutputsAsInstantaneous();
    }
    if (anyGlacier) {
        s.AddSubBasinBrick("glacier_area_rain_snowmelt_storage", "storage");
        s.AddBrickProcess("outflow", "outflow:linear", "outlet");
        s.AddSubBasinBrick("glacier_area_icemelt_storage", "storage");
        s.AddBrickProcess("outflow", "outflow:linear", "outlet");
    }

    auto eachSoil = [&](auto fn) {
        for (auto& c : covers)
            if (c.second != "glacier") {
                s.SelectHydroUnitBrick(c.first);
                fn(c.first);
            }
    };
    if (fam == "socont") {
        eachSoil([&](const std::string&) {
            s.AddBrickProcess("infiltration", "infiltration:socont", "slow_reservoir");
            s.AddBrickProcess("runoff", "outflow:rest", "surface_runoff");
            s.SetProcessOutputsAsStatic();
        });
        bool two = m.i("soil", 1) == 2;
        s.AddHydroUnitBrick("slow_reservoir", "storage");
        s.AddBrickParameter("capacity", 200.0f);
        s.AddBrickProcess("et", "et:socont");
        s.AddBrickProcess("outflow", "outflow:linear", "outlet");
        if (two) s.AddBrickProcess("percolation", "percolation:constant", "slow_reservoir_2");
        s.AddBrickProcess("overflow", "overflow", "outlet");
        if (two) {
            s.AddHydroUnitBrick("slow_reservoir_2", "storage");
            s.AddBrickProcess("outflow", "outflow:linear", "outlet");
            s.SetProcessParameterValue("response_factor", 0.02f);
        }
        s.AddHydroUnitBrick("surface_runoff", "storage");
        if (m.str("surf", "runoff") == "runoff") s.AddBrickProcess("runoff", "runoff:socont", "outlet");
        else {
            s.AddBrickProcess("outflow", "outflow:linear", "outlet");
            s.SetProcessParameterValue("response_factor", 0.8f);
        }
    } else if (fam == "hbv") {
        eachSoil([&](const std::string&) {
            s.AddBrickProcess("infiltration", "infiltration:hbv", "soil_moisture");
            s.AddBrickProcess("recharge", "outflow:rest", "upper_zone");
            s.SetProcessOutputsAsStatic();
        });
        s.AddHydroUnitBrick("upper_zone", "storage");
        s.AddBrickProcess("capillary", "capillary:hbv", "soil_moisture");
        s.AddBrickProcess("percolation", "percolation:constant", "lower_zone");
        s.AddBrickProcess("runoff", "runoff:hbv", "routing");
        s.AddHydroUnitBrick("lower_zone", "storage");
        s.AddBrickProcess("outflow", "outflow:linear", "routing");
        s.AddHydroUnitBrick("soil_moisture", "storage");
        s.AddBrickParameter("capacity", 250.0f);
        s.AddBrickProcess("et", "et:hbv");
        s.AddBrickProcess("overflow", "overflow", "routing");
        s.AddHydroUnitBrick("routing", "storage");
        s.AddBrickProcess("routing", "routing:hbv", "outlet");
    } else if (fam == "gr4j" || fam == "gr6j") {
        bool disc = m.i("discrete", 1) != 0;
        eachSoil([&](const std::string&) {
            s.AddBrickProcess("interception", "interception:gr4j");
            s.AddBrickProcess("throughfall", "outflow:rest", disc ? "production_store" : "ground_soil");
            s.SetProcessOutputsAsInstantaneous();
        });
        if (!disc) {
            s.AddHydroUnitBrick("ground_soil", "storage");
            s.AddBrickProcess("production", "infiltration:gr4j", "production_store");
            s.AddBrickProcess("runoff", "outflow:rest", "uh_input");
        }
        s.AddHydroUnitBrick("production_store", "storage");
        s.AddBrickParameter("capacity", 350.0f);
        if (disc) s.AddBrickProcess("production", "production:gr4j", "uh_input");
        else s.AddBrickProcess("percolation", "percolation:gr4j", "uh_input");
        s.AddBrickProcess("et", "et:gr4j");
        if (disc) s.SetCurrentBrickComputedDirectly();
        s.AddHydroUnitBrick("uh_input", "storage");
        s.AddBrickProcess("routing", "routing:" + fam, "outlet");
        if (disc) s.SetCurrentBrickComputedDirectly();
    } else {  // graph: declared by "brick" and "proc" items
        auto bricks = sp.all("brick");
        auto procs = sp.all("proc");
        auto addProcs = [&](const std::string& owner) {
            for (auto p : procs) {
                if (p->str("brick") != owner) continue;
                s.AddBrickProcess(p->str("name"), p->str("type"), p->str("target"));
                if (p->i("static")) s.SetProcessOutputsAsStatic();
                if (p->i("inst")) s.SetProcessOutputsAsInstantaneous();
            }
        };
        eachSoil([&](const std::string& c) { addProcs(c); });
        for (auto b : bricks) {
            if (b->str("level", "unit") == "unit") s.AddHydroUnitBrick(b->str("name"), "storage");
            else s.AddSubBasinBrick(b->str("name"), "storage");
            if (b->has("cap")) s.AddBrickParameter("capacity", static_cast<float>(b->num("cap")));
            addProcs(b->str("name"));
            if (b->i("direct")) s.SetCurrentBrickComputedDirectly();
        }
    }
    if (m.has("pond") && covers.size() == 1) {  // the rain bypasses the cover
        s.SelectHydroUnitSplitter("rain_splitter");
        s.ChangeSplitterOutputTarget(covers[0].first, m.str("pond"));
    }
    s.AddLoggingToItem("outlet");
}


// Notes where the declarations above send the water.
namespace {
struct Recorder {
    Declared d;
    std::string brick;
    std::vector<std::string> covers;
    std::map<std::string, std::string> rain, snow;  // per cover
    std::map<std::string, bool> glacier;
    DeclaredProcess* last = nullptr;
    void Brick(const std::string& n, bool basin) {
        brick = n;
        d.bricks.push_back({n, basin, {}});
    }
    void AddHydroUnitBrick(const std::string& n, const std::string& = "storage") { Brick(n, false); }
    void AddSubBasinBrick(const std::string& n, const std::string& = "storage") { Brick(n, true); }
    void AddLandCoverBrick(const std::string& n, const std::string& type) {
        Brick(n, false);
        covers.push_back(n);
        rain[n] = n;
        glacier[n] = type == "glacier";
    }
    void SelectHydroUnitBrick(const std::string& n) { brick = n; }
    void AddBrickProcess(const std::string& n, const std::string& type, const std::string& target = "") {
        for (auto& b : d.bricks) {
            if (b.name != brick) continue;
            DeclaredProcess p{n, type, {}};
            if (!target.empty()) {
                auto at = target.find(':');
                p.to.push_back({target.substr(0, at), at == std::string::npos ? "water" : target.substr(at + 1)});
            }
            b.processes.push_back(p);
        }
    }
    void GenerateCanopyInterception(const std::string& c, const std::string& to) {
        Brick(c + "_canopy", false);
        AddBrickProcess("throughfall", "", to);
        AddBrickProcess("interception_et", "");
        rain[c] = c + "_canopy";
    }
    void GenerateSnowpacks(const std::string&) {
        for (auto& c : covers) {
            Brick(c + "_snowpack", false);
            snow[c] = c + "_snowpack";
            AddBrickProcess("melt", "", c);
        }
    }
    void GenerateSnowpacksWithWaterRetention(const std::string&, const std::string&, bool rainToSnow) {
        for (auto& c : covers) {
            Brick(c + "_snowpack", false);
            snow[c] = c + "_snowpack";
            AddBrickProcess("melt", "", c + "_snowpack");
            AddBrickProcess("meltwater", "", c);
            if (rainToSnow && rain[c] == c) rain[c] = c + "_snowpack";
        }
    }
    void Each(const std::string& name, const std::string& to, bool ice) {
        for (auto& c : covers) {
            if (ice && !glacier[c]) continue;
            brick = c + "_snowpack";
            AddBrickProcess(name, "", to.empty() ? "" : to == "ice" ? c + ":ice" : c + "_snowpack:snow");
        }
    }
    void AddSnowpackRefreezing(const std::string&) { Each("refreeze", "snow", false); }
    void AddSnowpackSublimation(const std::string&) { Each("sublimation", "", false); }
    void AddSnowIceTransformation(const std::string&) { Each("snow_ice_transfo", "ice", true); }
    void AddSnowRedistribution(const std::string&, bool) { d.lateral = true; }
    void GeneratePrecipitationSplitters(bool snowToo, const std::string&) { d.snow = snowToo; }
    void AddBrickParameter(const std::string&, float) {}
    void SetProcessParameterValue(const std::string&, float) {}
    void SetProcessOutputsAsInstantaneous() {}
    void SetProcessOutputsAsStatic() {}
    void SetCurrentBrickComputedDirectly() {}
    void AddLoggingToItem(const std::string&) {}
    void SelectHydroUnitSplitter(const std::string&) {}
    void ChangeSplitterOutputTarget(const std::string& from, const std::string& to) {
        for (auto& c : rain)
            if (c.second == from) c.second = to;
    }
};
}  // namespace
Declared DeclaredPaths(const Spec& sp, size_t variant) {
    Recorder r;
    Recipe(r, sp, VariantCovers(sp)[variant]);
    r.d.covers = r.covers;
    for (auto& c : r.covers) {
        r.d.rain.push_back({r.rain[c], "water"});
        if (r.d.snow) r.d.snowTo.push_back({r.snow[c], "snow"});
    }
    return r.d;
}

static float F(double v) { return static_cast<float>(v); }

static bool TypeMatches(const std::string& comp, const std::string& type) {
    if (comp.compare(0, 5, "type:") != 0) return false;
    std::string t = comp.substr(5);
    return t == type || (t == "land_cover" && (type == "generic_land_cover" || type == "glacier" || type == "ground" || type == "open"));
}
void World::DeclareParameter(const std::string& comp, const std::string& name, float value) {
    for (auto& c : Split(comp, ',')) {
        std::string want = c.substr(c.find_first_not_of(' ') == std::string::npos ? 0 : c.find_first_not_of(' '));
        for (int k = 1; k <= settings->GetStructureCount(); ++k) {
            settings->SelectStructure(k);
            for (int lvl = 0; lvl < 2; ++lvl) {
                int nb = lvl ? settings->GetSubBasinBrickCount() : settings->GetHydroUnitBrickCount();
                for (int i = 0; i < nb; ++i) {
                    BrickSettings b = lvl ? settings->GetSubBasinBrickSettings(i) : settings->GetHydroUnitBrickSettings(i);
                    if (b.name != want && !TypeMatches(want, b.type)) continue;
                    if (lvl) settings->SelectSubBasinBrick(i);
                    else settings->SelectHydroUnitBrick(i);
                    bool own = false;
                    for (auto& p : b.parameters) own |= p.GetName() == name;
                    if (own) {
                        settings->SetBrickParameterValue(name, value);
                        continue;
                    }
                    for (size_t q = 0; q < b.processes.size(); ++q) {
                        bool has = false;
                        for (auto& p : b.processes[q].parameters) has |= p.GetName() == name;
                        if (!has) continue;
                        settings->SelectProcess(static_cast<int>(q));
                        settings->SetProcessParameterValue(name, value);
                        break;
                    }
                }
            }
            for (int i = 0; i < settings->GetHydroUnitSplitterCount(); ++i) {
                const SplitterSettings& s = settings->GetHydroUnitSplitterSettings(i);
                if (s.name != want) continue;
                for (auto& p : s.parameters)
                    if (p.GetName() == name) {
                        settings->SelectHydroUnitSplitter(i);
                        settings->SetSplitterParameterValue(name, value);
                        break;
                    }
            }
        }
    }
    settings->SelectStructure(1);
}

bool World::MakeSettings() {
    stage = "settings";
    const Item& m = sp.one("model");
    settings = std::make_unique<SettingsModel>();
    settings->SetSolver(m.str("solver", "heun_explicit"));
    std::string end = DateText(clock.at(clock.n - 1) + clock.tail);
    if (sp.one("timer").has("end")) end = sp.one("timer").str("end");
    settings->SetTimer(DateText(clock.start), end, clock.step, clock.unit);
    if (clock.spinupDays > 0) settings->SetSpinupDays(clock.spinupDays);
    if (m.i("logall", 1)) settings->SetLogAll();
    else if (m.i("logfrac")) settings->SetRecordFractions();
    bool next = false;
    for (auto& v : VariantCovers(sp)) {
        if (next) settings->AddStructure();
        Recipe(*settings, sp, v);
        next = true;
    }
    settings->SelectStructure(1);
    for (auto p : sp.all("param")) {
        if (p->i("direct")) {  // given while declaring, as a builder of the structure would
            DeclareParameter(p->str("comp"), p->str("name"), F(p->num("val")));
            continue;
        }
        bool ok = settings->SetParameterValue(p->str("comp"), p->str("name"), F(p->num("val")));
        if (!ok && !p->i("opt")) {
            error = "SetParameterValue refused " + p->str("comp") + "." + p->str("name");
            return false;
        }
    }
    settings->SelectStructure(1);
    for (auto l : sp.all("log")) {
        if (!l->has("brick")) {
            settings->AddLoggingToItem(l->str("item"));
            continue;
        }
        for (int k = 1; k <= settings->GetStructureCount(); ++k) {  // a recorded item of one component
            settings->SelectStructure(k);
            if (!settings->SelectHydroUnitBrickIfFound(l->str("brick")) && !settings->SelectSubBasinBrickIfFound(l->str("brick"))) continue;
            if (!l->has("proc")) {
                settings->AddBrickLogging(l->str("item"));
                continue;
            }
            for (int q = 0; q < settings->GetProcessCount(); ++q)
                if (settings->GetProcessSettings(q).name == l->str("proc")) {
                    settings->SelectProcess(q);
                    settings->AddProcessLogging(l->str("item"));
                }
        }
        settings->SelectStructure(1);
    }
    return true;
}

bool World::MakeBasin() {
    stage = "basin";
    auto covers = Covers(sp);
    for (auto u : sp.all("unit")) {
        int id = u->i("id");
        basin.AddHydroUnit(id, u->num("area", 100), u->num("elev", 500));
        for (auto& c : Split(u->str("covers", "ground:1"), ',')) {
            if (c.empty()) continue;
            auto p = Split(c, ':');
            std::string type = "generic_land_cover";
            for (auto& k : covers)
                if (k.first == p[0]) type = k.second;
            basin.AddLandCover(p[0], type, p.size() > 1 ? strtod(p[1].c_str(), nullptr) : 1.0);
        }
        if (!u->i("noslope")) {
            double deg = u->num("slope", 20);
            basin.AddHydroUnitPropertyDouble("slope", deg, "degrees");
        }
        basin.AddHydroUnitPropertyDouble("elevation", u->num("elev", 500), "m");
        if (!u->i("noaspect")) basin.AddHydroUnitPropertyString("aspect_class", u->str("aspect", "N"));
    }
    for (auto c : sp.all("conn")) basin.AddLateralConnection(c->i("from"), c->i("to"), c->num("frac", 1));
    return true;
}

bool World::InitModel() {
    stage = "init";
    model = std::make_unique<ModelHydro>();
    auto r = model->InitializeWithBasin(*settings, basin);
    if (!r) {
        error = r.error();
        return false;
    }
    return true;
}

VariableType VariableOf(const std::string& v) {
    return v == "precipitation" ? VariableType::Precipitation : v == "temperature" ? VariableType::Temperature : v == "pet" ? VariableType::PET
         : v == "temperature_min" ? VariableType::TemperatureMin : v == "temperature_max" ? VariableType::TemperatureMax : VariableType::Radiation;
}
// "forcing" items: before/after = rows supplied beyond the period (negative: missing), shift = minutes the data are
// dated ahead of the model's steps, fstep = other data step, uniform, perm = order of the columns, drop = unit left out,
// ragged = unit whose own column misses `lack` rows at the end (or at the start with lackstart), gap = irregular row.
bool World::AddSeries(const std::string& var) {
    std::vector<int> ids;
    for (auto u : sp.all("unit")) ids.push_back(u->i("id"));
    const Item* f = nullptr;
    for (auto it : sp.all("forcing"))
        if (it->str("var") == var) f = it;
    static const Item none{"forcing", {}};
    if (!f) f = &none;
    if (f->i("omit")) return true;
    int before = f->i("before"), after = f->i("after"), shift = f->i("shift");
    int fstep = f->i("fstep", clock.stepMin);
    std::vector<int> order;
    for (int id : ids)
        if (id != f->i("drop", -1)) order.push_back(id);
    if (f->has("perm")) {
        Rng r(static_cast<uint64_t>(f->num("perm")));
        r.shuffle(order);
    }
    int rows = before + clock.n + after;
    if (after >= 0)
        while (clock.at(-before) - shift + static_cast<int64_t>(rows - 1) * clock.stepMin < clock.at(clock.n - 1) + clock.tail) ++rows;  // the data has to reach the declared end
    if (fstep != clock.stepMin) rows = static_cast<int>((static_cast<int64_t>(rows) * clock.stepMin) / fstep) + 2;
    if (rows < 2) rows = 2;  // a series needs at least two dates
    auto minuteOf = [&](int r) { return clock.at(-before) - shift + static_cast<int64_t>(r) * fstep; };
    auto valueOf = [&](int r, int id) {
        int i = r - before;
        if (badLen > 0 && var == "precipitation" && i >= badFrom && i < badFrom + badLen) return badValue;
        return Supplied(var, id, minuteOf(r));
    };
    if (f->i("uniform") || f->has("ragged")) {
        TimeUnit tu = fstep % 1440 == 0 ? TimeUnit::Day : fstep % 60 == 0 ? TimeUnit::Hour : TimeUnit::Minute;
        int ts = fstep % 1440 == 0 ? fstep / 1440 : fstep % 60 == 0 ? fstep / 60 : fstep;
        auto column = [&](int id, int from, int to, int other = 0) {
            if (other > 0) {  // another step than the other columns
                auto d = std::make_unique<TimeSeriesDataRegular>(MjdOfMinute(minuteOf(from)), MjdOfMinute(minuteOf(from) + static_cast<int64_t>(to - from - 1) * other), other, TimeUnit::Minute);
                (void)d->SetValues(std::vector<double>(static_cast<size_t>(to - from), valueOf(from, id)));
                return d;
            }
            auto d = std::make_unique<TimeSeriesDataRegular>(MjdOfMinute(minuteOf(from)), MjdOfMinute(minuteOf(to - 1)), ts, tu);
            std::vector<double> v;
            for (int r = from; r < to; ++r) v.push_back(valueOf(r, id));
            (void)d->SetValues(std::move(v));
            return d;
        };
        std::unique_ptr<TimeSeries> series;
        VariableType type = VariableOf(var);
        if (f->i("uniform")) {
            auto u = std::make_unique<TimeSeriesUniform>(type);
            u->SetData(column(0, 0, rows));
            series = std::move(u);
        } else {
            auto d = std::make_unique<TimeSeriesDistributed>(type);
            for (int id : order) {
                bool odd = id == f->i("ragged");
                d->AddData(column(id, odd ? f->i("lackstart") : 0, odd ? rows - f->i("lack") : rows, odd ? f->i("raggedstep") : 0), id);
            }
            series = std::move(d);
        }
        if (!model->AddTimeSeries(std::move(series))) {
            error = "AddTimeSeries refused " + var;
            return false;
        }
        return true;
    }
    axd time(rows);
    axxd data(rows, static_cast<int>(order.size()));
    axi idArr(static_cast<int>(order.size()));
    for (size_t j = 0; j < order.size(); ++j) idArr[static_cast<int>(j)] = order[j];
    for (int r = 0; r < rows; ++r) {
        time[r] = MjdOfMinute(minuteOf(r));
        if (f->has("gap") && r >= f->i("gap")) time[r] += fstep / 1440.0;
        for (size_t j = 0; j < order.size(); ++j) data(r, static_cast<int>(j)) = valueOf(r, order[j]);
    }
    if (!model->CreateTimeSeries(var, time, idArr, data)) {
        error = "CreateTimeSeries refused " + var;
        return false;
    }
    return true;
}
bool World::AddForcing() {
    stage = "forcing";
    auto vars = NeededForcing(sp);
    if (sp.one("prop").has("varorder")) {
        Rng r(static_cast<uint64_t>(sp.one("prop").num("varorder")));
        r.shuffle(vars);
    }
    for (auto& var : vars)
        if (!AddSeries(var)) return false;
    return true;
}

bool World::Attach() {
    stage = "attach";
    if (!model->AttachTimeSeriesToHydroUnits()) {
        error = "AttachTimeSeriesToHydroUnits refused";
        return false;
    }
    return true;
}

bool World::ApplyInitialStates() {
    stage = "initstates";
    bool any = false;
    for (auto it : sp.all("init")) {
        Brick* b = nullptr;
        if (it->i("unit") == 0) {
            if (model->GetSubBasin()->HasBrick(it->str("brick"))) b = model->GetSubBasin()->GetBrick(it->str("brick"));
        } else {
            HydroUnit* u = model->GetSubBasin()->GetHydroUnitById(it->i("unit"));
            if (u) b = u->TryGetBrick(it->str("brick"));
        }
        if (!b) continue;
        std::string t = it->str("type", "water");
        b->SetInitialState(it->num("val"), t == "snow" ? ContentType::Snow : t == "ice" ? ContentType::Ice : ContentType::Water);
        any = true;
    }
    if (any) model->Reset();
    return true;
}

bool World::AddProbe() {
    stage = "probe";
    auto p = std::make_unique<StepProbe>(VariableType::Custom3, clock.mjd(0) - 10, clock.mjd(clock.n) + 10);
    probe = p.get();
    if (!model->AddTimeSeries(std::move(p))) {
        error = "AddTimeSeries refused the probe";
        return false;
    }
    return true;
}

bool World::AddActions() {
    stage = "actions";
    for (auto a : sp.all("action")) {
        std::string kind = a->str("kind");
        std::unique_ptr<Action> act;
        if (kind == "lcc") {
            auto lc = std::make_unique<ActionLandCoverChange>();
            for (auto c : sp.all("change")) {
                if (c->str("act") != a->str("id")) continue;
                double area = 0;
                for (auto u : sp.all("unit"))
                    if (u->i("id") == c->i("unit")) area = u->num("area", 100) * c->num("frac");
                lc->AddChange(MjdOfMinute(clock.start + static_cast<int64_t>(std::llround(c->num("day") * 1440))),
                              c->i("unit"), c->str("cover"), area);
            }
            act = std::move(lc);
        } else if (kind == "snow2ice") {
            act = std::make_unique<ActionGlacierSnowToIceTransformation>(a->i("month", 10), a->i("mday", 1), a->str("cover", "glacier"));
        } else if (kind == "deltah" || kind == "areascaling") {
            // Tables derived from the declared glacier: area shrinks as V^(1/1.36), row 0 = declared extent.
            int rows = a->i("rows", 21);
            std::string cover = a->str("cover", "glacier"), table = a->str("table", "");
            std::vector<int> ids;
            std::vector<double> a0;
            for (auto u : sp.all("unit")) {
                auto cv = Split(u->str("covers", ""), ',');
                for (auto& c : cv) {
                    auto p = Split(c, ':');
                    if (p[0] != cover || p.size() < 2) continue;
                    double f = strtod(p[1].c_str(), nullptr);
                    if (f <= 0) f = u->num("gl0", 0);  // extent given by the table only
                    else if (HydroUnit* hu = model->GetSubBasin()->GetHydroUnitById(u->i("id")); hu && hu->TryGetLandCover(cover)) {
                        // rounded fractions are corrected by the model: the table gives the extent in use
                        double built = hu->TryGetLandCover(cover)->GetAreaFraction();
                        if (std::abs(built - f) <= 1.1e-4) f = built;
                    }
                    if (f > 0 || u->i("glz")) {
                        ids.push_back(u->i("id"));
                        a0.push_back(u->num("area", 100) * f);
                    }
                }
            }
            int k = static_cast<int>(ids.size());
            tableIds = ids;
            tableArea = axxd::Zero(rows, k);
            tableVolume = axxd::Zero(rows, k);
            double tot = 0;
            std::vector<double> v0;
            for (int j = 0; j < k; ++j) {
                v0.push_back(a0[static_cast<size_t>(j)] * a->num("thick", 20) * (0.5 + U01(Mix64(static_cast<uint64_t>(ids[static_cast<size_t>(j)]) * 77u + 5))));
                tot += v0.back();
            }
            for (int r = 0; r < rows; ++r) {
                double left = 1.0 - static_cast<double>(r) / (rows - 1), gone = tot - tot * left;
                for (int j = 0; j < k; ++j) {
                    size_t q = static_cast<size_t>(j);
                    double l = left;
                    if (table == "bands" && v0[q] > 0) {  // the units melt out one after the other
                        l = std::clamp(1 - gone / v0[q], 0.0, 1.0);
                        gone -= v0[q] * (1 - l);
                        if (r == rows - 1) l = 0;
                    } else if (table == "early" && r >= rows - 1 - a->i("early", 1)) l = 0;  // extent gone before all the ice
                    if (a0[q] <= 0) continue;
                    tableArea(r, j) = r == 0 ? a0[q] : a0[q] * std::pow(l, 1 / 1.36);
                    tableVolume(r, j) = v0[q] * l;
                }
            }
            axi idArr(k);
            for (int j = 0; j < k; ++j) idArr[j] = ids[static_cast<size_t>(j)];
            const axxd &areas = tableArea, &vols = tableVolume;
            if (kind == "deltah") {
                auto d = std::make_unique<ActionGlacierEvolutionDeltaH>();
                d->AddLookupTables(a->i("month", 10), a->str("cover", "glacier"), idArr, areas, vols);
                act = std::move(d);
            } else {
                auto d = std::make_unique<ActionGlacierEvolutionAreaScaling>();
                d->AddLookupTables(a->i("month", 10), a->str("cover", "glacier"), idArr, areas, vols);
                act = std::move(d);
            }
        } else {
            continue;  // kinds handled by the property itself
        }
        Action* raw = act.get();
        actions.push_back(std::move(act));
        if (!model->AddAction(raw)) {
            error = "AddAction refused " + kind;
            return false;
        }
    }
    return true;
}

bool World::Build() {
    try {
        bool first = sp.one("probe").i("first") != 0;  // before or after the real series
        return MakeSettings() && MakeBasin() && InitModel() && (!first || AddProbe()) && AddForcing() && Attach() &&
               ApplyInitialStates() && AddActions() && (first || AddProbe());
    } catch (const std::exception& e) {
        error = std::string("exception in ") + stage + ": " + e.what();
        return false;
    }
}

// ---- observation ------------------------------------------------------------------------------
std::vector<BrickRef> World::Bricks() {
    std::vector<BrickRef> out;
    bool inf = sp.one("model").str("glacier", "fin") == "inf";
    SubBasin* sb = model->GetSubBasin();
    auto fill = [&](BrickRef& r) {
        r.water = r.brick->GetWaterContainer()->GetContentPointer();
        r.snow = r.brick->GetValuePointer("snow_content");
        r.ice = r.brick->GetValuePointer("ice_content");
        r.infiniteIce = inf && r.brick->GetCategory() == BrickCategory::Glacier;
    };
    for (int i = 0; i < sb->GetHydroUnitCount(); ++i) {
        HydroUnit* u = sb->GetHydroUnit(static_cast<size_t>(i));
        for (int b = 0; b < u->GetBrickCount(); ++b) {
            BrickRef r;
            r.unit = u;
            r.brick = u->GetBrick(static_cast<size_t>(b));
            r.key = "u" + std::to_string(u->GetId()) + ":" + r.brick->GetName();
            if (r.brick->IsLandCover()) r.cover = dynamic_cast<LandCover*>(r.brick);
            else if (auto sc = dynamic_cast<SurfaceComponent*>(r.brick)) r.cover = sc->HasParent() ? sc->GetParent() : nullptr;
            fill(r);
            out.push_back(r);
        }
    }
    for (int b = 0; b < sb->GetBrickCount(); ++b) {
        BrickRef r;
        r.sub = true;
        r.brick = sb->GetBrick(static_cast<size_t>(b));
        r.key = "basin:" + r.brick->GetName();
        fill(r);
        out.push_back(r);
    }
    return out;
}

std::vector<Cell> World::StateCells() {
    std::vector<Cell> out;
    for (auto& r : Bricks()) {
        out.push_back({r.key + ".water", r.water});
        if (r.snow) out.push_back({r.key + ".snow", r.snow});
        if (r.ice) out.push_back({r.key + ".ice", r.ice});
        if (r.brick->IsLandCover()) out.push_back({r.key + ".fraction", r.cover->GetAreaFractionPointer()});
        for (size_t p = 0; p < r.brick->GetProcessCount(); ++p) {
            Process* pr = r.brick->GetProcess(p);
            for (int k = 0; k < pr->GetOutputFluxCount(); ++k)
                out.push_back({r.key + "." + pr->GetName() + ".flux" + std::to_string(k),
                               pr->GetOutputFlux(static_cast<size_t>(k))->GetAmountPointer()});
        }
    }
    return out;
}

double World::StorageTotal() {
    double total = 0, area = model->GetSubBasin()->GetArea();
    for (auto& r : Bricks()) {
        double w = 1;
        if (!r.sub) w = r.unit->GetArea() / area * (r.cover ? r.cover->GetAreaFraction() : 1.0);
        double c = *r.water;
        if (r.snow) c += *r.snow;
        if (r.ice && !r.infiniteIce) c += *r.ice;
        total += w * c;
    }
    return total;
}

RunOutcome RunModel(ModelHydro& m) {
    RunOutcome o;
    try {
        auto r = m.Run();
        o.ok = r.has_value();
        if (!o.ok) o.msg = r.error();
    } catch (const std::exception& e) {
        o.threw = true;
        o.msg = e.what();
    }
    return o;
}

Report Collect(ModelHydro& m) {
    Report r;
    Logger* l = m.GetLogger();
    auto put = [&](const std::string& n, const double* p, int64_t k) {
        r.names.push_back(n);
        r.data.emplace_back(p, p + k);
    };
    put("time", l->GetTime().data(), l->GetTime().size());
    for (size_t i = 0; i < l->GetSubBasinLabels().size(); ++i)
        put("basin/" + l->GetSubBasinLabels()[i], l->GetSubBasinValues()[i].data(), l->GetSubBasinValues()[i].size());
    for (size_t i = 0; i < l->GetHydroUnitLabels().size(); ++i)
        put("units/" + l->GetHydroUnitLabels()[i], l->GetHydroUnitValues()[i].data(), l->GetHydroUnitValues()[i].size());
    for (size_t i = 0; i < l->GetHydroUnitFractionLabels().size() && i < l->GetHydroUnitFractions().size(); ++i)
        put("fraction/" + l->GetHydroUnitFractionLabels()[i], l->GetHydroUnitFractions()[i].data(), l->GetHydroUnitFractions()[i].size());
    double t[5] = {m.GetTotalOutletDischarge(), m.GetTotalET(), m.GetTotalWaterStorageChanges(), m.GetTotalSnowStorageChanges(),
                   m.GetTotalGlacierStorageChanges()};
    put("totals", t, 5);
    if (l->GetTime().size() > 0) {  // the states before the first step, per kind of store
        auto store = [](const std::string& n) {
            for (auto e : {"content", ":snow", ":ice", "internal_storage", "routing_store"})
                if (n.find(e) != std::string::npos) return true;
            return false;
        };
        for (auto& n : l->GetSubBasinLabels())
            if (store(n)) { double v = l->GetSubBasinInitialStorageState(n); put("initial/basin/" + n, &v, 1); }
        for (auto& n : l->GetHydroUnitLabels())
            if (store(n)) { double v = l->GetHydroUnitsInitialStorageState(n); put("initial/units/" + n, &v, 1); }
    }
    return r;
}

bool SameBits(double a, double b) {
    if (std::isnan(a) && std::isnan(b)) return true;
    return memcmp(&a, &b, sizeof a) == 0 || (a == 0 && b == 0);
}
std::string Compare(const Report& a, const Report& b) {
    if (a.names != b.names) return "the recorded items differ";
    for (size_t i = 0; i < a.names.size(); ++i) {
        if (a.data[i].size() != b.data[i].size())
            return Fmt("%s has %zu values instead of %zu", a.names[i].c_str(), b.data[i].size(), a.data[i].size());
        for (size_t k = 0; k < a.data[i].size(); ++k)
            if (!SameBits(a.data[i][k], b.data[i][k]))
                return Fmt("%s[%zu] is %.17g instead of %.17g", a.names[i].c_str(), k, b.data[i][k], a.data[i][k]);
    }
    return "";
}
uint64_t HashDouble(double v, uint64_t h) {
    uint64_t b;
    if (std::isnan(v)) b = 0x7ff8000000000000ULL;
    else {
        if (v == 0) v = 0;
        memcpy(&b, &v, sizeof b);
    }
    return Mix64(h ^ b);
}
uint64_t HashReport(const Report& r) {
    uint64_t h = 0x1234;
    for (size_t i = 0; i < r.names.size(); ++i) {
        h = HashStr(r.names[i], h);
        for (double v : r.data[i]) h = HashDouble(v, h);
    }
    return h;
}
