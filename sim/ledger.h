#pragma once
#include "gen.h"

// Follows one run step by step through the probe series and keeps the books of the catchment.
struct Ledger {
    World& w;
    std::vector<BrickRef> bricks;
    double area = 0;
    int step = -1;              // completed steps of the current phase
    bool started = false;
    bool inSpinup = false;
    double wsPost = 0, icePost = 0;   // after the last boundary (actions applied)
    double totalP = 0, totalQ = 0, totalET = 0, totalExt = 0, totalIceJump = 0;
    bool iceActions = false;          // an action may turn snow into ice
    double lastIceJump = 0;           // moved by the actions of the last boundary
    double initialWS = 0, initialIce = 0;
    double tolStep = 0;
    double scale = 0;
    std::string firstError, firstClass;
    std::function<bool(int step)> onStep;   // after the books of the step are closed; false = advance fails
    std::function<void(int step)> onBegin;  // cursors positioned: start of a phase
    bool keepBooks = true;

    explicit Ledger(World& world) : w(world) {}
    void Attach();
    void State(const std::vector<double>* fractions, double& ws, double& ice) const;
    bool Begin(double date);
    bool Advance();
    int SetCalls() const { return sets; }
    double Step1Precip(int i) const;
    double LastQ() const { return lastQ; }
    std::vector<std::vector<double>> amounts;  // per brick, contents (water, snow, ice) at the last boundary

  private:
    int sets = 0;
    double lastQ = 0;
    double* outlet = nullptr;
    int spinupSteps = 0;
};
// Fractions recorded by the logger for row i, per brick (1 when not weighted).
std::vector<double> RecordedFractions(World& w, const std::vector<BrickRef>& bricks, int row);
