// Small helpers to build and run a model through the public interface.
#pragma once
#include "Includes.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "Action.h"
#include "ActionLandCoverChange.h"
#include "Brick.h"
#include "HydroUnit.h"
#include "LandCover.h"
#include "Log.h"
#include "Logger.h"
#include "ModelHydro.h"
#include "Process.h"
#include "SettingsBasin.h"
#include "SettingsModel.h"
#include "Snowpack.h"
#include "SubBasin.h"
#include "TimeSeries.h"

struct Unit {
    int id;
    double area, elev;
    std::vector<std::pair<std::string, double>> covers;
    double slope = 20;
};

struct Demo {
    std::string start = "2000-01-01", end = "2000-01-31", stepUnit = "day", solver = "heun_explicit";
    int step = 1, spinup = 0;
    std::vector<std::pair<std::string, std::string>> covers{{"ground", "generic_land_cover"}};
    std::vector<Unit> units{{1, 100, 500, {{"ground", 1}}}};
    std::vector<std::tuple<int, int, double>> lateral;
    std::vector<std::string> vars{"precipitation", "temperature", "pet"};
    std::function<double(const std::string&, int, int)> forcing;  // variable, unit id, row
    std::function<void(SettingsModel&)> structure;
    int before = 0, after = 0;

    SettingsModel settings;
    SettingsBasin basin;
    std::unique_ptr<ModelHydro> model;

    static void Die(const std::string& m) {
        printf("FAIL %s\n", m.c_str());
        exit(97);
    }
    double Days() const { return stepUnit == "hour" ? step / 24.0 : stepUnit == "minute" ? step / 1440.0 : step; }
    double Start() const { return ParseDate(start, guess); }
    int Rows() const { return static_cast<int>((ParseDate(end, guess) - Start()) / Days() + 1e-6) + 1; }
    double Date(double day) const { return Start() + day; }

    void Settings() {
        settings.SetLogAll();
        settings.SetSolver(solver);
        settings.SetTimer(start, end, step, stepUnit);
        if (spinup) settings.SetSpinupDays(spinup);
        structure(settings);
        settings.AddLoggingToItem("outlet");
        settings.SelectStructure(1);
    }
    void Init() {
        for (auto& u : units) {
            basin.AddHydroUnit(u.id, u.area, u.elev);
            for (auto& c : u.covers) {
                std::string type = "generic_land_cover";
                for (auto& k : covers)
                    if (k.first == c.first) type = k.second;
                basin.AddLandCover(c.first, type, c.second);
            }
            basin.AddHydroUnitPropertyDouble("slope", u.slope, "degrees");
            basin.AddHydroUnitPropertyDouble("elevation", u.elev, "m");
        }
        for (auto& l : lateral) basin.AddLateralConnection(std::get<0>(l), std::get<1>(l), std::get<2>(l));
        model = std::make_unique<ModelHydro>();
        auto r = model->InitializeWithBasin(settings, basin);
        if (!r) Die("init: " + r.error());
    }
    bool AddForcing() {
        int n = Rows() + before + after;
        axd t(n);
        axi ids(static_cast<int>(units.size()));
        for (size_t j = 0; j < units.size(); ++j) ids[static_cast<int>(j)] = units[j].id;
        for (int i = 0; i < n; ++i) t[i] = Start() + (i - before) * Days();
        for (auto& v : vars) {
            axxd d(n, static_cast<int>(units.size()));
            for (int i = 0; i < n; ++i)
                for (size_t j = 0; j < units.size(); ++j) d(i, static_cast<int>(j)) = forcing(v, units[j].id, i - before);
            if (!model->CreateTimeSeries(v, t, ids, d)) return false;
        }
        return model->AttachTimeSeriesToHydroUnits();
    }
    void Build() {
        Settings();
        Init();
        if (!AddForcing()) Die("forcing refused");
    }
    std::string Run() {  // empty when it succeeded
        try {
            auto r = model->Run();
            return r ? "" : "error: " + r.error();
        } catch (const std::exception& e) {
            return std::string("exception: ") + e.what();
        }
    }
    void MustRun() {
        std::string e = Run();
        if (!e.empty()) Die("run: " + e);
    }
    Brick* brick(int unit, const std::string& name) { return model->GetSubBasin()->GetHydroUnitById(unit)->GetBrick(name); }
    double water(int unit, const std::string& name) { return brick(unit, name)->GetContent(ContentType::Water); }
    double snow(int unit, const std::string& name) { return brick(unit, name)->GetContent(ContentType::Snow); }
    LandCover* cover(int unit, const std::string& name) { return dynamic_cast<LandCover*>(brick(unit, name)); }
};

inline void Socont(SettingsModel& s, const std::vector<std::pair<std::string, std::string>>& covers, bool snow = true,
                   std::function<void(SettingsModel&)> extra = nullptr) {
    s.GeneratePrecipitationSplitters(snow, "snow_rain:linear");
    for (auto& c : covers) s.AddLandCoverBrick(c.first, c.second);
    if (snow) s.GenerateSnowpacks("melt:degree_day");
    if (extra) extra(s);
    for (auto& c : covers) {
        s.SelectHydroUnitBrick(c.first);
        s.AddBrickProcess("infiltration", "infiltration:socont", "slow_reservoir");
        s.AddBrickProcess("runoff", "outflow:rest", "surface_runoff");
        s.SetProcessOutputsAsStatic();
    }
    s.AddHydroUnitBrick("slow_reservoir", "storage");
    s.AddBrickParameter("capacity", 200.0f);
    s.AddBrickProcess("et", "et:socont");
    s.AddBrickProcess("outflow", "outflow:linear", "outlet");
    s.SetProcessParameterValue("response_factor", 0.05f);
    s.AddBrickProcess("overflow", "overflow", "outlet");
    s.AddHydroUnitBrick("surface_runoff", "storage");
    s.AddBrickProcess("outflow", "outflow:linear", "outlet");
    s.SetProcessParameterValue("response_factor", 0.5f);
}

inline double Wave(double a, double b, int i, int k = 7) { return a + (b - a) * ((i * 37 + 11 * k) % 101) / 100.0; }

inline bool Same(const axd& a, const axd& b) {
    if (a.size() != b.size()) return false;
    for (int i = 0; i < a.size(); ++i)
        if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
    return true;
}
