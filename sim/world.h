#pragma once
#include "pch.h"
#include "spec.h"
#include "rng.h"

#include "Action.h"
#include "Parameter.h"
#include "ActionGlacierEvolutionAreaScaling.h"
#include "ActionGlacierEvolutionDeltaH.h"
#include "ActionGlacierSnowToIceTransformation.h"
#include "ActionLandCoverChange.h"
#include "LandCover.h"
#include "Log.h"
#include "ModelHydro.h"
#include "SettingsBasin.h"
#include "SettingsModel.h"
#include "SubBasin.h"
#include "SurfaceComponent.h"
#include "Forcing.h"
#include "TimeSeries.h"
#include "TimeSeriesDistributed.h"
#include "TimeSeriesUniform.h"

// ---- calendar of the simulator (independent of the code under test) -------------------
int64_t DaysFromCivil(int y, int m, int d);  // days since 1970-01-01
void CivilFromDays(int64_t z, int& y, int& m, int& d);
constexpr int64_t kMjdEpochDays = 40587;  // MJD of 1970-01-01

// Declared clock of a scenario, in integer minutes since 1970-01-01T00:00.
struct Clock {
    int64_t start = 0;
    int stepMin = 1440;
    int n = 30;        // steps the declared period holds
    int tail = 0;      // minutes of the declared end beyond the last step
    int step = 1;
    std::string unit = "day";
    int spinupDays = 0;
    int64_t at(int i) const { return start + static_cast<int64_t>(i) * stepMin; }
    double mjd(int i) const;          // exact (correctly rounded) date of step i
    int spinSteps() const { return static_cast<int>(static_cast<int64_t>(spinupDays) * 1440 / stepMin); }
    double stepDays() const { return stepMin / 1440.0; }
    static Clock from(const Spec& sp);
};
double MjdOfMinute(int64_t minute);
std::string DateText(int64_t minute);

// ---- climate: a pure function of (seed, variable, unit, absolute minute) -----------------
double ForcingValue(const Spec& sp, const std::string& var, int unitId, int64_t minute, int stepMin);
std::vector<std::string> NeededForcing(const Spec& sp);
VariableType VariableOf(const std::string& v);

// A series of a custom variable that nothing reads: the simulator's hook on every step.
class StepProbe : public TimeSeries {
  public:
    StepProbe(VariableType t, double start, double end)
        : TimeSeries(t), _start(start), _end(end) {}
    std::function<bool(double)> onSet;      // called by SetCursorToDate
    std::function<bool()> onAdvance;        // called after every step (actions already applied)
    bool SetCursorToDate(double date) override { return onSet ? onSet(date) : true; }
    bool AdvanceOneTimeStep() override { return onAdvance ? onAdvance() : true; }
    bool IsDistributed() const override { return false; }
    double GetStart() const override { return _start; }
    double GetEnd() const override { return _end; }
    double GetTotal(const SettingsBasin*) override { return 0; }
    TimeSeriesData* GetDataPointer(int) override { return nullptr; }
    bool IsValid() const override { return true; }

  private:
    double _start, _end;
};

// An action whose behaviour is decided by the simulator.
class SimAction : public Action {
  public:
    std::function<bool(double)> onApply;
    bool Init() override { return true; }
    void Reset() override {}
    bool Apply(double date) override { return onApply ? onApply(date) : true; }
    void AddDate(double date) {
        int i = GetIndexForInsertion(date);
        _sporadicDates.insert(_sporadicDates.begin() + i, date);
    }
};

struct Cell {
    std::string name;
    double* p;
};

struct BrickRef {
    HydroUnit* unit = nullptr;  // null for a sub-basin brick
    Brick* brick = nullptr;
    std::string key;
    LandCover* cover = nullptr;      // the cover whose fraction weights it (itself or its parent)
    bool infiniteIce = false;
    bool sub = false;
    double* water = nullptr;
    double* snow = nullptr;
    double* ice = nullptr;
};

std::vector<std::vector<std::string>> VariantCovers(const Spec& sp);
// Where the declared processes and splitters of a structure variant send the water.
struct DeclaredTarget {
    std::string brick, content;
};
struct DeclaredProcess {
    std::string name, type;
    std::vector<DeclaredTarget> to;  // empty: the atmosphere
};
struct DeclaredBrick {
    std::string name;
    bool basin = false;
    std::vector<DeclaredProcess> processes;
};
struct Declared {
    bool snow = false, lateral = false;
    std::vector<std::string> covers;
    std::vector<DeclaredBrick> bricks;
    std::vector<DeclaredTarget> rain, snowTo;  // of the precipitation splitters
};
Declared DeclaredPaths(const Spec& sp, size_t variant);
struct World {
    Spec sp;
    Clock clock;
    std::unique_ptr<SettingsModel> settings;
    SettingsBasin basin;
    std::vector<std::unique_ptr<Action>> actions;
    std::vector<int> tableIds;          // of the (last) glacier evolution action
    axxd tableArea, tableVolume;
    std::unique_ptr<ModelHydro> model;  // destroyed first
    StepProbe* probe = nullptr;
    std::string error;                  // stage and message of a refusal
    std::string stage;
    int badFrom = -1, badLen = 0;       // impossible precipitation over these steps
    double badValue = 0;

    std::function<double(const std::string&, int unit, int64_t minute, double)> forcing;  // alters supplied values
    double Supplied(const std::string& var, int unit, int64_t minute) const {
        double v = ForcingValue(sp, var, unit, minute, clock.stepMin);
        return forcing ? forcing(var, unit, minute, v) : v;
    }
    bool AddSeries(const std::string& var);
    explicit World(const Spec& s) : sp(s), clock(Clock::from(s)) {}
    bool MakeSettings();
    void DeclareParameter(const std::string& comp, const std::string& name, float value);
    bool MakeBasin();
    bool InitModel();
    bool AddForcing();
    bool Attach();
    bool AddActions();
    bool ApplyInitialStates();
    bool AddProbe();
    bool Build();  // all of the above in order; false = refused (see error)

    // state access
    std::vector<Cell> StateCells();
    std::vector<BrickRef> Bricks();
    double StorageTotal();  // area weighted mm of all water, snow, ice (infinite ice excluded)
    int logRows() const { return static_cast<int>(model->GetLogger()->GetTime().size()); }
};

struct RunOutcome {
    bool ok = false;
    bool threw = false;
    std::string msg;
};
RunOutcome RunModel(ModelHydro& m);

// Everything a run reports, for bit-exact comparison.
struct Report {
    std::vector<std::string> names;
    std::vector<std::vector<double>> data;
};
Report Collect(ModelHydro& m);
// Empty if identical, otherwise the first difference.
std::string Compare(const Report& a, const Report& b);
bool SameBits(double a, double b);
uint64_t HashReport(const Report& r);
uint64_t HashDouble(double v, uint64_t h);
std::string Fmt(const char* f, ...);
