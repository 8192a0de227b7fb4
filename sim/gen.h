#pragma once
#include "sim.h"

// What a property wants its scenarios to contain (probabilities; swarm style: each run draws its own subset).
struct GenOpt {
    double pLateral = 0.4, pGlacier = 0.5, pSecond = 0.45, pVariants = 0.12, pSpinup = 0.35, pHourly = 0.15, pMultiDay = 0.12;
    double pGraph = 0.22, pGR = 0.22, pHBV = 0.2;
    double pCycle = 0.15;        // circular lateral connections
    double pSnow = 0.88, pCanopy = 0.3, pInf = 0.35, pAction = 0.5, pEvo = 0.15, pInit = 0.3, pStorm = 0.25, pDry = 0.1;
    double pEmptyCover = 0.15;  // some declared covers have fraction 0 in some units
    int maxUnits = 5, minN = 20, maxN = 140;
    bool infeasibleChanges = false;
    bool exchange = false;      // GR groundwater exchange and precipitation correction (not mass conserving by design)
    bool logall = true;
};
Spec GenScenario(Rng& r, const GenOpt& o);
// One land-cover change action with changes generated around the declared fractions.
void GenLandCoverAction(Rng& r, Spec& sp, const std::string& id, int nChanges, bool infeasible);
bool GenGlacierEvolution(Rng& r, Spec& sp);  // adds a delta-h or area-scaling action where a finite glacier allows it
std::vector<std::pair<std::string, std::string>> DeclaredCovers(const Spec& sp);
std::map<std::string, double> UnitCovers(const Item& unit);
// The cover that absorbs the area changes, by its documented names; some scenarios use other names than 'ground'.
std::string BaseCover(const Spec& sp);
void RenameBase(Rng& r, Spec& sp);
void RenameStores(Rng& r, Spec& sp);  // names that contain or extend other names
int VariantOf(const Spec& sp, const Item& unit);  // the structure variant that fits its covers (from 0)
std::map<std::string, double> BuiltCovers(const Spec& sp, const Item& unit);  // those of its variant
uint64_t ShapeOf(const Spec& sp);  // structural signature of a scenario
void CountScenario(const Spec& sp, RunResult& r);
