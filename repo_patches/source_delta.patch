From e4a94f14625eee461679c9c5cbc7a6ea7571c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 01/49] fix: keep the clock exact for hourly and minute time
 steps

The date was advanced by adding the time step in days, so rounding errors
accumulated and sub-daily runs could lose or gain their last step.
---
 core/src/base/TimeMachine.cpp | 30 +++++++++++++++++++++++++++---
 core/src/base/TimeMachine.h   |  9 +++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index 4e3e0d1..5be6bd6 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -1,5 +1,11 @@
 #include "TimeMachine.h"
 
+namespace {
+// Half a second: dates are compared at this resolution, as a date in days cannot hold
+// most hours and minutes exactly.
+constexpr double DATE_TOLERANCE = 0.5 / 86400.0;
+}  // namespace
+
 TimeMachine::TimeMachine()
     : _date(0),
       _start(0),
@@ -7,11 +13,13 @@ TimeMachine::TimeMachine()
       _timeStep(0),
       _timeStepUnit(TimeUnit::Day),
       _timeStepInDays(0),
+      _stepIndex(0),
       _parametersUpdater(nullptr),
       _actionsManager(nullptr) {}
 
 void TimeMachine::Initialize(double start, double end, int timeStep, TimeUnit timeStepUnit) {
     _date = start;
+    _stepIndex = 0;
     _start = start;
     _end = end;
     _timeStep = timeStep;
@@ -23,6 +31,7 @@ void TimeMachine::Initialize(const TimerSettings& settings) {
     _start = ParseDate(settings.start, guess);
     _end = ParseDate(settings.end, guess);
     _date = _start;
+    _stepIndex = 0;
     _timeStep = settings.timeStep;
 
     if (settings.timeStepUnit == "day") {
@@ -40,15 +49,19 @@ void TimeMachine::Initialize(const TimerSettings& settings) {
 
 void TimeMachine::Reset() {
     _date = _start;
+    _stepIndex = 0;
 }
 
 bool TimeMachine::IsOver() const {
-    return _date > _end;
+    return _date > _end + DATE_TOLERANCE;
 }
 
 void TimeMachine::IncrementTime() {
     assert(_timeStepInDays > 0);
-    _date += _timeStepInDays;
+
+    // Computed from the start, so that rounding errors do not accumulate over the steps.
+    _stepIndex++;
+    _date = GetDateOfStep(_stepIndex);
 
     if (_parametersUpdater) {
         _parametersUpdater->DateUpdate(_date);
@@ -60,7 +73,18 @@ void TimeMachine::IncrementTime() {
 
 int TimeMachine::GetTimeStepCount() const {
     assert(_timeStepInDays > 0);
-    return static_cast<int>(1 + (_end - _start) / _timeStepInDays);
+    return static_cast<int>(1 + (_end - _start + DATE_TOLERANCE) / _timeStepInDays);
+}
+
+double TimeMachine::GetDateOfStep(int64_t index) const {
+    switch (_timeStepUnit) {
+        case TimeUnit::Hour:
+            return _start + static_cast<double>(index * _timeStep) / 24.0;
+        case TimeUnit::Minute:
+            return _start + static_cast<double>(index * _timeStep) / 1440.0;
+        default:
+            return _start + static_cast<double>(index) * _timeStepInDays;
+    }
 }
 
 void TimeMachine::UpdateTimeStepInDays() {
diff --git a/core/src/base/TimeMachine.h b/core/src/base/TimeMachine.h
index 3673196..ae75d5b 100644
--- a/core/src/base/TimeMachine.h
+++ b/core/src/base/TimeMachine.h
@@ -137,6 +137,7 @@ class TimeMachine {
     int _timeStep;
     TimeUnit _timeStepUnit;
     double _timeStepInDays;
+    int64_t _stepIndex;  // number of steps since the start
     ParametersUpdater* _parametersUpdater;  // non-owning reference
     ActionsManager* _actionsManager;        // non-owning reference
 
@@ -144,6 +145,14 @@ class TimeMachine {
      * Update the time step in days.
      */
     void UpdateTimeStepInDays();
+
+    /**
+     * Get the date of a given time step.
+     *
+     * @param index index of the time step (0 = start).
+     * @return date of the time step as a MJD.
+     */
+    [[nodiscard]] double GetDateOfStep(int64_t index) const;
 };
 
 #endif  // HYDROBRICKS_TIME_MACHINE_H
-- 
2.43.0


From 2ed49c78b244002da6b0b53002a1a824c007d30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 02/49] fix: process donors of lateral fluxes before their
 receivers

Snow sent to a hydro unit declared earlier stayed pending until the next
time step: it was in no recorded storage and results depended on the
declaration order.
---
 core/src/base/Processor.cpp | 38 ++++++++++++++++++++++++++++++++++---
 core/src/base/Processor.h   |  6 ++++++
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index bb83db0..f38f7b3 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -1,5 +1,8 @@
 #include "Processor.h"
 
+#include <algorithm>
+#include <unordered_map>
+
 #include "FluxToBrick.h"
 #include "ModelHydro.h"
 #include "SubBasin.h"
@@ -20,6 +23,7 @@ void Processor::Initialize(const SolverSettings& solverSettings) {
 
     _solver = Solver::Factory(solverSettings);
     _solver->Connect(this);
+    OrderHydroUnits();
     ConnectToElementsToSolve();
     ValidateFluxTopology();
     _solver->InitializeContainers();
@@ -55,6 +59,36 @@ void Processor::SetModel(ModelHydro* model) {
     _model = model;
 }
 
+void Processor::OrderHydroUnits() {
+    // A hydro unit sending content laterally must be processed before its receivers, whatever
+    // the declaration order. Otherwise, the transported content would stay pending (neither in
+    // the donor nor in the recorded receiver) until the following time step.
+    SubBasin* basin = _model->GetSubBasin();
+    vector<HydroUnit*> remaining;
+    std::unordered_map<HydroUnit*, int> pendingDonors;
+    for (int iUnit = 0; iUnit < basin->GetHydroUnitCount(); ++iUnit) {
+        HydroUnit* unit = basin->GetHydroUnit(iUnit);
+        remaining.push_back(unit);
+        for (auto connection : unit->GetLateralConnections()) {
+            pendingDonors[connection->GetReceiver()]++;
+        }
+    }
+
+    _orderedHydroUnits.clear();
+    while (!remaining.empty()) {
+        auto next = std::ranges::find_if(remaining, [&](HydroUnit* unit) { return pendingDonors[unit] == 0; });
+        if (next == remaining.end()) {
+            next = remaining.begin();  // Circular connections: keep the declaration order.
+        }
+        HydroUnit* unit = *next;
+        remaining.erase(next);
+        for (auto connection : unit->GetLateralConnections()) {
+            pendingDonors[connection->GetReceiver()]--;
+        }
+        _orderedHydroUnits.push_back(unit);
+    }
+}
+
 void Processor::ConnectToElementsToSolve() {
     SubBasin* basin = _model->GetSubBasin();
 
@@ -241,9 +275,7 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
 
     // Process the bricks that do not need a solver.
     int ptIndex = 0;
-    int hydroUnitCount = basin->GetHydroUnitCount();
-    for (int iUnit = 0; iUnit < hydroUnitCount; ++iUnit) {
-        HydroUnit* unit = basin->GetHydroUnit(iUnit);
+    for (HydroUnit* unit : _orderedHydroUnits) {
         int splitterCount = unit->GetSplitterCount();
         for (int iSplitter = 0; iSplitter < splitterCount; ++iSplitter) {
             Splitter* splitter = unit->GetSplitter(iSplitter);
diff --git a/core/src/base/Processor.h b/core/src/base/Processor.h
index 35263b4..e175123 100644
--- a/core/src/base/Processor.h
+++ b/core/src/base/Processor.h
@@ -152,11 +152,17 @@ class Processor {
     int _solvableConnectionCount;
     int _directConnectionCount;
     vecDoublePt _stateVariableChanges;
+    vector<HydroUnit*> _orderedHydroUnits;  // non-owning, donors of lateral fluxes before their receivers
     vector<Brick*> _iterableBricks;  // non-owning views into HydroUnits/SubBasin
     axd _changeRatesNoSolver;
     axd _ratesBeforeSweep;  // scratch buffer for the constraint fixpoint iteration
 
   private:
+    /**
+     * Order the hydro units so that the donors of lateral fluxes come before their receivers.
+     */
+    void OrderHydroUnits();
+
     /**
      * Validate the flux topology of the two-phase time step: no solved brick may send
      * water to a brick computed directly, as direct bricks are processed before the solver.
-- 
2.43.0


From 8f609e1701343f6957ce1aae8b3d3803e108493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 03/49] fix: stop the fluxes of a land cover that has vanished

When the area fraction of a land cover dropped to zero during a run, its
bricks were skipped but the output fluxes of their last active step were
read again at every following step, creating water.
---
 core/src/base/Processor.cpp | 12 ++++++++++++
 core/src/base/Processor.h   |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index f38f7b3..1aa0e37 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -288,6 +288,9 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
                 continue;
             }
             if (brick->IsNull()) {
+                // The cover may have vanished since the previous step: do not let the fluxes
+                // of its last active step be read again.
+                ResetOutputFluxes(brick);
                 continue;
             }
 
@@ -307,6 +310,15 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
     return true;
 }
 
+void Processor::ResetOutputFluxes(Brick* brick) {
+    for (int i = 0; i < brick->GetProcessCount(); ++i) {
+        auto process = brick->GetProcess(i);
+        for (int j = 0; j < process->GetOutputFluxCount(); ++j) {
+            process->GetOutputFlux(j)->Reset();
+        }
+    }
+}
+
 void Processor::ApplyDirectChanges(Brick* brick, int& ptIndex, double timeStepInDays) {
     brick->UpdateContentFromInputs();
 
diff --git a/core/src/base/Processor.h b/core/src/base/Processor.h
index e175123..f460b57 100644
--- a/core/src/base/Processor.h
+++ b/core/src/base/Processor.h
@@ -178,6 +178,13 @@ class Processor {
      */
     void StoreStateVariableChanges(std::span<double*> values);
 
+    /**
+     * Set the amounts of the output fluxes of a brick to zero.
+     *
+     * @param brick brick for which the output fluxes are reset.
+     */
+    static void ResetOutputFluxes(Brick* brick);
+
     /**
      * Apply direct changes to the brick.
      *
-- 
2.43.0


From 5e12e72ce333fe4e48cea2fb4fa7eaf00df9ee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 04/49] fix: do not count the inputs of directly computed
 bricks twice

The constraints of bricks computed directly are applied after the inputs
were added to the content, so that the inputs were counted twice and more
water than available could leave (e.g. with time steps of several days).
---
 core/src/base/Processor.cpp            | 2 +-
 core/src/containers/IceContainer.cpp   | 4 ++--
 core/src/containers/IceContainer.h     | 2 +-
 core/src/containers/WaterContainer.cpp | 7 ++++++-
 core/src/containers/WaterContainer.h   | 5 +++--
 5 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index 1aa0e37..3b60eba 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -352,7 +352,7 @@ void Processor::ApplyDirectChanges(Brick* brick, int& ptIndex, double timeStepIn
         }
 
         // Apply constraints for the current brick (e.g. maximum capacity or avoid negative values)
-        process->GetWaterContainer()->ApplyConstraints(timeStepInDays);
+        process->GetWaterContainer()->ApplyConstraints(timeStepInDays, true);
 
         // Apply changes
         for (int j = 0; j < rates.size(); ++j) {
diff --git a/core/src/containers/IceContainer.cpp b/core/src/containers/IceContainer.cpp
index 8b6de7d..94239d1 100644
--- a/core/src/containers/IceContainer.cpp
+++ b/core/src/containers/IceContainer.cpp
@@ -7,7 +7,7 @@ IceContainer::IceContainer(Brick* brick)
       _noMeltWhenSnowCover(false),
       _relatedSnowpack(nullptr) {}
 
-void IceContainer::ApplyConstraints(double timeStep) {
+void IceContainer::ApplyConstraints(double timeStep, bool inputsApplied) {
     if (_noMeltWhenSnowCover) {
         if (_relatedSnowpack == nullptr) {
             throw ModelConfigError("No snowpack provided for the glacier melt limitation.");
@@ -16,7 +16,7 @@ void IceContainer::ApplyConstraints(double timeStep) {
             SetOutgoingRatesToZero();
         }
     }
-    WaterContainer::ApplyConstraints(timeStep);
+    WaterContainer::ApplyConstraints(timeStep, inputsApplied);
 }
 
 bool IceContainer::ContentAccessible() const {
diff --git a/core/src/containers/IceContainer.h b/core/src/containers/IceContainer.h
index 543a8aa..0c1ce98 100644
--- a/core/src/containers/IceContainer.h
+++ b/core/src/containers/IceContainer.h
@@ -14,7 +14,7 @@ class IceContainer : public WaterContainer {
     /**
      * @copydoc WaterContainer::ApplyConstraints()
      */
-    void ApplyConstraints(double timeStep) override;
+    void ApplyConstraints(double timeStep, bool inputsApplied = false) override;
 
     /**
      * Set the option to not melt when snow cover is present.
diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 5599f4d..a50c073 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -52,7 +52,7 @@ void WaterContainer::AddAmountToStaticContentChange(double change) {
     _contentChangeStatic += change;
 }
 
-void WaterContainer::ApplyConstraints(double timeStep) {
+void WaterContainer::ApplyConstraints(double timeStep, bool inputsApplied) {
     if (_infiniteStorage) return;
 
     // Change rates are quantities per unit time: the content update integrates them over the
@@ -120,6 +120,11 @@ void WaterContainer::ApplyConstraints(double timeStep) {
 
     double change = inputs - outputs;
     double content = GetContentWithDynamicChanges();
+    if (inputsApplied) {
+        // The inputs are already part of the content changes: they must not be counted twice.
+        content = GetContentWithChanges();
+        inputsStatic = 0;
+    }
 
     // Avoid negative content (unless the container is allowed to go negative, e.g. a bottomless
     // routing store whose level can be negative).
diff --git a/core/src/containers/WaterContainer.h b/core/src/containers/WaterContainer.h
index 36bec2d..036b77c 100644
--- a/core/src/containers/WaterContainer.h
+++ b/core/src/containers/WaterContainer.h
@@ -51,9 +51,10 @@ class WaterContainer {
     /**
      * Apply the constraints to the water container.
      *
-     * @param timeStep time step [s]
+     * @param timeStep time step [d]
+     * @param inputsApplied true if the inputs of the time step have already been added to the content changes
      */
-    virtual void ApplyConstraints(double timeStep);
+    virtual void ApplyConstraints(double timeStep, bool inputsApplied = false);
 
     /**
      * Set the outgoing rates to zero.
-- 
2.43.0


From 026a9e889a574553ef928b7555bf71c5c3db6c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 05/49] fix: report a missing capacity instead of crashing

---
 core/src/containers/WaterContainer.cpp | 8 ++++++++
 core/src/containers/WaterContainer.h   | 5 +----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index a50c073..ffed9c4 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -179,6 +179,14 @@ void WaterContainer::ApplyConstraints(double timeStep, bool inputsApplied) {
     }
 }
 
+double WaterContainer::GetMaximumCapacity() const {
+    if (_capacity == nullptr) {
+        throw ModelConfigError(
+            std::format("The brick {} has no capacity although one of its processes needs it.", _parent->GetName()));
+    }
+    return *_capacity;
+}
+
 void WaterContainer::SetOutgoingRatesToZero() {
     for (int i = 0; i < _parent->GetProcessCount(); ++i) {
         auto process = _parent->GetProcess(i);
diff --git a/core/src/containers/WaterContainer.h b/core/src/containers/WaterContainer.h
index 036b77c..a305d0a 100644
--- a/core/src/containers/WaterContainer.h
+++ b/core/src/containers/WaterContainer.h
@@ -97,10 +97,7 @@ class WaterContainer {
      *
      * @return maximum capacity [mm]
      */
-    [[nodiscard]] double GetMaximumCapacity() const {
-        assert(_capacity);
-        return *_capacity;
-    }
+    [[nodiscard]] double GetMaximumCapacity() const;
 
     /**
      * Set the maximum capacity of the water container.
-- 
2.43.0


From b39133baded1ac487b8243e1dd724ad95e63b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 06/49] fix: align hourly and minute forcing data with the
 model clock

The time step of the data was only detected in whole hours or days, the
length check and the period checks compared dates exactly, and the cursor
was placed at the first hour of the day and ignored the data time step.
---
 core/src/base/ModelHydro.cpp     |  7 ++-
 core/src/base/TimeSeries.cpp     | 95 ++++++++++++++++++++++----------
 core/src/base/TimeSeries.h       |  9 ++-
 core/src/base/TimeSeriesData.cpp | 32 +++++------
 core/src/base/TimeSeriesData.h   |  7 +++
 5 files changed, 97 insertions(+), 53 deletions(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 369a304..a0361a9 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -276,12 +276,15 @@ bool ModelHydro::AddTimeSeries(std::unique_ptr<TimeSeries> timeSeries) {
         }
     }
 
-    if (timeSeries->GetStart() > _timer.GetStart()) {
+    // Half a second: a date in days cannot hold most hours and minutes exactly.
+    constexpr double dateTolerance = 0.5 / 86400.0;
+
+    if (timeSeries->GetStart() > _timer.GetStart() + dateTolerance) {
         LogError("The data starts after the beginning of the modelling period.");
         return false;
     }
 
-    if (timeSeries->GetEnd() < _timer.GetEnd()) {
+    if (timeSeries->GetEnd() < _timer.GetEnd() - dateTolerance) {
         LogError("The data ends before the end of the modelling period.");
         return false;
     }
diff --git a/core/src/base/TimeSeries.cpp b/core/src/base/TimeSeries.cpp
index c5bf0ee..d926979 100644
--- a/core/src/base/TimeSeries.cpp
+++ b/core/src/base/TimeSeries.cpp
@@ -22,17 +22,11 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
         int timeLength = file.GetDimLen("time");
 
         // Get time
-        vecFloat time = file.GetVarFloat1D("time", timeLength);
-        Time startSt = GetTimeStructFromMJD(time[0]);
-        Time endSt = GetTimeStructFromMJD(time[time.size() - 1]);
-        double start = GetMJD(startSt.year, startSt.month, startSt.day, startSt.hour, startSt.min);
-        double end = GetMJD(endSt.year, endSt.month, endSt.day, endSt.hour, endSt.min);
-
-        // Time step
+        vecDouble time = file.GetVarDouble1D("time", timeLength);
+        double start, end;
         int timeStep;
         TimeUnit timeUnit;
-        double timeStepData = time[1] - time[0];
-        ExtractTimeStep(timeStepData, timeStep, timeUnit);
+        ExtractTimeProperties(time, start, end, timeStep, timeUnit);
 
         // Get ids
         vecInt ids = file.GetVarInt1D("id", unitCount);
@@ -64,7 +58,9 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                 for (int i = 0; i < values.rows(); ++i) {
                     axd valuesUnit = values.row(i);
                     auto forcingData = std::make_unique<TimeSeriesDataRegular>(start, end, timeStep, timeUnit);
-                    forcingData->SetValues(vector<double>(valuesUnit.data(), valuesUnit.data() + valuesUnit.rows()));
+                    if (!forcingData->SetValues(vecDouble(valuesUnit.data(), valuesUnit.data() + valuesUnit.rows()))) {
+                        throw RuntimeError("Time series creation failed.");
+                    }
                     timeSeries->AddData(std::move(forcingData), ids[i]);
                 }
             } else {
@@ -73,7 +69,9 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                     // A column of a column-major array is contiguous, so copy it straight into the vector.
                     const double* colStart = values.col(i).data();
                     auto forcingData = std::make_unique<TimeSeriesDataRegular>(start, end, timeStep, timeUnit);
-                    forcingData->SetValues(vecDouble(colStart, colStart + values.rows()));
+                    if (!forcingData->SetValues(vecDouble(colStart, colStart + values.rows()))) {
+                        throw RuntimeError("Time series creation failed.");
+                    }
                     timeSeries->AddData(std::move(forcingData), ids[i]);
                 }
             }
@@ -92,16 +90,10 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
 std::unique_ptr<TimeSeries> TimeSeries::Create(const string& varName, const axd& time, const axi& ids,
                                                const axxd& data) {
     // Get time
-    Time startSt = GetTimeStructFromMJD(time[0]);
-    Time endSt = GetTimeStructFromMJD(time[time.size() - 1]);
-    double start = GetMJD(startSt.year, startSt.month, startSt.day, startSt.hour, startSt.min);
-    double end = GetMJD(endSt.year, endSt.month, endSt.day, endSt.hour, endSt.min);
-
-    // Time step
+    double start, end;
     int timeStep;
     TimeUnit timeUnit;
-    double timeStepData = time[1] - time[0];
-    ExtractTimeStep(timeStepData, timeStep, timeUnit);
+    ExtractTimeProperties(vecDouble(time.data(), time.data() + time.size()), start, end, timeStep, timeUnit);
 
     // Get forcing type
     VariableType varType = MatchVariableType(varName);
@@ -156,18 +148,63 @@ VariableType TimeSeries::MatchVariableType(const string& varName) {
     return varType;
 }
 
-void TimeSeries::ExtractTimeStep(double timeStepData, int& timeStep, TimeUnit& timeUnit) {
-    timeStep = 0;
-    timeUnit = TimeUnit::Day;
-    if (timeStepData == 1.0) {
-        timeStep = 1;
-    } else if (timeStepData > 1.0) {
-        timeStep = static_cast<int>(round(timeStepData));
-    } else if (timeStepData < 1.0) {
+void TimeSeries::ExtractTimeProperties(const vecDouble& time, double& start, double& end, int& timeStep,
+                                       TimeUnit& timeUnit) {
+    if (time.empty()) {
+        throw InputError("The forcing data contains no date.");
+    }
+
+    // Time step in minutes. The dates can be stored in single precision (about 6 minutes for a MJD), so
+    // that the mean interval is more accurate than the first one.
+    const double minutesPerDay = 1440.0;
+    const double singlePrecision = 1.0 / 256;
+    auto stepCount = static_cast<int64_t>(time.size()) - 1;
+    bool isSinglePrecision = std::ranges::all_of(
+        time, [](double date) { return static_cast<double>(static_cast<float>(date)) == date; });
+    int64_t stepMinutes = 1440;
+    if (stepCount > 0) {
+        double interval = (time.back() - time.front()) / static_cast<double>(stepCount);
+        stepMinutes = std::llround(interval * minutesPerDay);
+        if (isSinglePrecision && stepMinutes % 60 != 0) {
+            int64_t stepHours = (stepMinutes + 30) / 60;
+            if (stepHours > 0 &&
+                std::abs(interval * 24 - static_cast<double>(stepHours)) * static_cast<double>(stepCount) / 24 <=
+                    singlePrecision) {
+                stepMinutes = stepHours * 60;
+            }
+        }
+    }
+    if (stepMinutes <= 0) {
+        throw InputError("The dates of the forcing data must be increasing.");
+    }
+
+    // Start date: to the minute or, in single precision, to the time step.
+    auto startMinutes = std::llround(time.front() * minutesPerDay);
+    if (isSinglePrecision && stepMinutes < 1440 && 1440 % stepMinutes == 0) {
+        auto aligned = std::llround(time.front() * minutesPerDay / static_cast<double>(stepMinutes)) * stepMinutes;
+        if (std::abs(static_cast<double>(aligned) / minutesPerDay - time.front()) <= singlePrecision / 2) {
+            startMinutes = aligned;
+        }
+    }
+
+    for (int64_t i = 0; i <= stepCount; ++i) {
+        double expected = static_cast<double>(startMinutes + i * stepMinutes) / minutesPerDay;
+        if (std::abs(time[i] - expected) > (isSinglePrecision ? singlePrecision : 1 / minutesPerDay)) {
+            throw InputError("The dates of the forcing data are not regularly spaced.");
+        }
+    }
+
+    start = static_cast<double>(startMinutes) / minutesPerDay;
+    end = static_cast<double>(startMinutes + stepCount * stepMinutes) / minutesPerDay;
+    if (stepMinutes % 1440 == 0) {
+        timeUnit = TimeUnit::Day;
+        timeStep = static_cast<int>(stepMinutes / 1440);
+    } else if (stepMinutes % 60 == 0) {
         timeUnit = TimeUnit::Hour;
-        timeStep = static_cast<int>(round(timeStepData * 24));
+        timeStep = static_cast<int>(stepMinutes / 60);
     } else {
-        throw ShouldNotHappen(std::format("TimeSeries::ExtractTimeStep - Invalid time step value: {}", timeStepData));
+        timeUnit = TimeUnit::Minute;
+        timeStep = static_cast<int>(stepMinutes);
     }
 }
 
diff --git a/core/src/base/TimeSeries.h b/core/src/base/TimeSeries.h
index a5c7384..8846c13 100644
--- a/core/src/base/TimeSeries.h
+++ b/core/src/base/TimeSeries.h
@@ -115,13 +115,16 @@ class TimeSeries {
 
   private:
     /**
-     * Extract the time step and time unit from the provided time step data.
+     * Extract the start, the end, and the (regular) time step from the dates of the data.
      *
-     * @param timeStepData time step data.
+     * @param time dates of the data as MJD.
+     * @param start reference to store the start date.
+     * @param end reference to store the end date.
      * @param timeStep reference to store the extracted time step.
      * @param timeUnit reference to store the extracted time unit.
      */
-    static void ExtractTimeStep(double timeStepData, int& timeStep, TimeUnit& timeUnit);
+    static void ExtractTimeProperties(const vecDouble& time, double& start, double& end, int& timeStep,
+                                      TimeUnit& timeUnit);
 
     /**
      * Match the variable name to the corresponding variable type.
diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index 42b7ee5..f2d12ed 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -2,6 +2,11 @@
 
 #include <utility>
 
+namespace {
+// Half a second: a date in days cannot hold most hours and minutes exactly.
+constexpr double DATE_TOLERANCE = 0.5 / 86400.0;
+}  // namespace
+
 /*
  * TimeSeriesData
  */
@@ -39,7 +44,7 @@ TimeSeriesDataRegular::TimeSeriesDataRegular(double start, double end, int timeS
 
 bool TimeSeriesDataRegular::SetValues(vecDouble values) {
     double calcEnd = IncrementDateBy(_start, _timeStep * static_cast<int>(values.size() - 1), _timeStepUnit);
-    if (calcEnd != _end) {
+    if (std::abs(calcEnd - _end) > DATE_TOLERANCE) {
         LogError("The size of the time series data does not match the time properties.");
         LogError("End of the data ({}) != end of the dates ({}).", calcEnd, _end);
         return false;
@@ -67,31 +72,16 @@ double TimeSeriesDataRegular::GetSum() {
 }
 
 bool TimeSeriesDataRegular::SetCursorToDate(double date) {
-    if (date < _start) {
+    if (date < _start - DATE_TOLERANCE) {
         LogError("The desired date is before the data starting date.");
         return false;
     }
-    if (date > _end) {
+    if (date > _end + DATE_TOLERANCE) {
         LogError("The desired date is after the data ending date.");
         return false;
     }
 
-    double dt = date - _start;
-
-    switch (_timeStepUnit) {
-        case TimeUnit::Day:
-            _cursor = static_cast<int>(dt);
-            break;
-        case TimeUnit::Hour:
-            _cursor = static_cast<int>(dt) * 24;
-            break;
-        case TimeUnit::Minute:
-            _cursor = static_cast<int>(dt) * 1440;
-            break;
-        default:
-            throw NotImplemented(std::format("TimeSeriesDataRegular::SetCursorToDate - Time unit {} not supported",
-                                             static_cast<int>(_timeStepUnit)));
-    }
+    _cursor = static_cast<int>((date - _start + DATE_TOLERANCE) / GetTimeStepInDays());
 
     return true;
 }
@@ -106,6 +96,10 @@ bool TimeSeriesDataRegular::AdvanceOneTimeStep() {
     return true;
 }
 
+double TimeSeriesDataRegular::GetTimeStepInDays() const {
+    return IncrementDateBy(0, _timeStep, _timeStepUnit);
+}
+
 double TimeSeriesDataRegular::GetStart() const {
     return _start;
 }
diff --git a/core/src/base/TimeSeriesData.h b/core/src/base/TimeSeriesData.h
index a33cafe..bb5b7b8 100644
--- a/core/src/base/TimeSeriesData.h
+++ b/core/src/base/TimeSeriesData.h
@@ -146,6 +146,13 @@ class TimeSeriesDataRegular : public TimeSeriesData {
     void Validate() const override;
 
   protected:
+    /**
+     * Get the time step of the data in days.
+     *
+     * @return the time step in days.
+     */
+    [[nodiscard]] double GetTimeStepInDays() const;
+
     double _start;
     double _end;
     int _timeStep;
-- 
2.43.0


From 400459660c5ffa7ce8570476990e729573c12145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 07/49] fix: refuse forcing data with another time step than
 the model

The values were consumed one per model step whatever their time step.
---
 core/src/base/ModelHydro.cpp            |  8 ++++++++
 core/src/base/TimeSeries.h              |  9 +++++++++
 core/src/base/TimeSeriesData.h          | 21 ++++++++++++++-------
 core/src/base/TimeSeriesDistributed.cpp |  5 +++++
 core/src/base/TimeSeriesDistributed.h   |  5 +++++
 core/src/base/TimeSeriesUniform.cpp     |  5 +++++
 core/src/base/TimeSeriesUniform.h       |  5 +++++
 7 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index a0361a9..24a75a6 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -289,6 +289,14 @@ bool ModelHydro::AddTimeSeries(std::unique_ptr<TimeSeries> timeSeries) {
         return false;
     }
 
+    double dataTimeStep = timeSeries->GetTimeStepInDays();
+    if (dataTimeStep > 0 && timeSeries->GetEnd() > timeSeries->GetStart() &&
+        std::abs(dataTimeStep - *_timer.GetTimeStepPointer()) > dateTolerance) {
+        LogError("The time step of the data ({} d) differs from the time step of the model ({} d).", dataTimeStep,
+                 *_timer.GetTimeStepPointer());
+        return false;
+    }
+
     _timeSeries.push_back(std::move(timeSeries));
 
     return true;
diff --git a/core/src/base/TimeSeries.h b/core/src/base/TimeSeries.h
index 8846c13..7340087 100644
--- a/core/src/base/TimeSeries.h
+++ b/core/src/base/TimeSeries.h
@@ -69,6 +69,15 @@ class TimeSeries {
      */
     [[nodiscard]] virtual double GetEnd() const = 0;
 
+    /**
+     * Get the time step of the time series.
+     *
+     * @return the time step in days (0 if there is no fixed time step).
+     */
+    [[nodiscard]] virtual double GetTimeStepInDays() const {
+        return 0;
+    }
+
     /**
      * Get the sum of the time series data for the provided basin settings.
      *
diff --git a/core/src/base/TimeSeriesData.h b/core/src/base/TimeSeriesData.h
index bb5b7b8..1b2d0cf 100644
--- a/core/src/base/TimeSeriesData.h
+++ b/core/src/base/TimeSeriesData.h
@@ -68,6 +68,15 @@ class TimeSeriesData {
      */
     [[nodiscard]] virtual double GetEnd() const = 0;
 
+    /**
+     * Get the time step of the time series data.
+     *
+     * @return the time step in days (0 if there is no fixed time step).
+     */
+    [[nodiscard]] virtual double GetTimeStepInDays() const {
+        return 0;
+    }
+
     /**
      * Check if the time series data is valid.
      * Verifies that the data has values and date range is set correctly.
@@ -135,6 +144,11 @@ class TimeSeriesDataRegular : public TimeSeriesData {
      */
     double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeriesData::GetTimeStepInDays()
+     */
+    [[nodiscard]] double GetTimeStepInDays() const override;
+
     /**
      * @copydoc TimeSeriesData::IsValid()
      */
@@ -146,13 +160,6 @@ class TimeSeriesDataRegular : public TimeSeriesData {
     void Validate() const override;
 
   protected:
-    /**
-     * Get the time step of the data in days.
-     *
-     * @return the time step in days.
-     */
-    [[nodiscard]] double GetTimeStepInDays() const;
-
     double _start;
     double _end;
     int _timeStep;
diff --git a/core/src/base/TimeSeriesDistributed.cpp b/core/src/base/TimeSeriesDistributed.cpp
index a3c3bd9..af58464 100644
--- a/core/src/base/TimeSeriesDistributed.cpp
+++ b/core/src/base/TimeSeriesDistributed.cpp
@@ -41,6 +41,11 @@ double TimeSeriesDistributed::GetEnd() const {
     return _data[0]->GetEnd();
 }
 
+double TimeSeriesDistributed::GetTimeStepInDays() const {
+    assert(!_data.empty());
+    return _data[0]->GetTimeStepInDays();
+}
+
 double TimeSeriesDistributed::GetTotal(const SettingsBasin* basinSettings) {
     double total = 0;
     double areaTotal = basinSettings->GetTotalArea();
diff --git a/core/src/base/TimeSeriesDistributed.h b/core/src/base/TimeSeriesDistributed.h
index b457871..040527c 100644
--- a/core/src/base/TimeSeriesDistributed.h
+++ b/core/src/base/TimeSeriesDistributed.h
@@ -47,6 +47,11 @@ class TimeSeriesDistributed : public TimeSeries {
      */
     [[nodiscard]] double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeries::GetTimeStepInDays()
+     */
+    [[nodiscard]] double GetTimeStepInDays() const override;
+
     /**
      * @copydoc TimeSeries::GetTotal()
      */
diff --git a/core/src/base/TimeSeriesUniform.cpp b/core/src/base/TimeSeriesUniform.cpp
index a4b884c..5f8f220 100644
--- a/core/src/base/TimeSeriesUniform.cpp
+++ b/core/src/base/TimeSeriesUniform.cpp
@@ -34,6 +34,11 @@ double TimeSeriesUniform::GetEnd() const {
     return _data->GetEnd();
 }
 
+double TimeSeriesUniform::GetTimeStepInDays() const {
+    assert(_data);
+    return _data->GetTimeStepInDays();
+}
+
 double TimeSeriesUniform::GetTotal(const SettingsBasin*) {
     throw NotImplemented("TimeSeriesUniform::GetTotal - Not yet implemented");
 }
diff --git a/core/src/base/TimeSeriesUniform.h b/core/src/base/TimeSeriesUniform.h
index 8126e99..61eed61 100644
--- a/core/src/base/TimeSeriesUniform.h
+++ b/core/src/base/TimeSeriesUniform.h
@@ -49,6 +49,11 @@ class TimeSeriesUniform : public TimeSeries {
      */
     [[nodiscard]] double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeries::GetTimeStepInDays()
+     */
+    [[nodiscard]] double GetTimeStepInDays() const override;
+
     /**
      * @copydoc TimeSeries::GetTotal()
      */
-- 
2.43.0


From 14330126dc824dd87f3b7a44501129fd77205dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 08/49] fix: settle snow sent laterally to a unit already
 processed

---
 core/src/base/Processor.cpp | 17 +++++++++++++++++
 core/src/base/Processor.h   |  5 +++++
 2 files changed, 22 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index 3b60eba..17bafda 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -5,6 +5,7 @@
 
 #include "FluxToBrick.h"
 #include "ModelHydro.h"
+#include "Snowpack.h"
 #include "SubBasin.h"
 
 Processor::Processor()
@@ -298,6 +299,8 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
         }
     }
 
+    SettleLateralInputs();
+
     // Process the bricks that need a solver
     if (!_solver->Solve(timeStepInDays)) {
         return false;
@@ -310,6 +313,20 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
     return true;
 }
 
+void Processor::SettleLateralInputs() {
+    // With circular lateral connections, snow can be sent to a unit that has already been processed.
+    // It must be part of its content at the end of this time step, as it has left the donor.
+    for (HydroUnit* unit : _orderedHydroUnits) {
+        int brickCount = unit->GetBrickCount();
+        for (int iBrick = 0; iBrick < brickCount; ++iBrick) {
+            auto snowpack = dynamic_cast<Snowpack*>(unit->GetBrick(iBrick));
+            if (snowpack && !snowpack->IsNull()) {
+                snowpack->GetSnowContainer()->Finalize();
+            }
+        }
+    }
+}
+
 void Processor::ResetOutputFluxes(Brick* brick) {
     for (int i = 0; i < brick->GetProcessCount(); ++i) {
         auto process = brick->GetProcess(i);
diff --git a/core/src/base/Processor.h b/core/src/base/Processor.h
index f460b57..ae3b569 100644
--- a/core/src/base/Processor.h
+++ b/core/src/base/Processor.h
@@ -178,6 +178,11 @@ class Processor {
      */
     void StoreStateVariableChanges(std::span<double*> values);
 
+    /**
+     * Add the snow received from lateral fluxes after the processing of a unit to its content.
+     */
+    void SettleLateralInputs();
+
     /**
      * Set the amounts of the output fluxes of a brick to zero.
      *
-- 
2.43.0


From 9e46ce06d378c33b309c1ee7f1b6b6b5162abfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 09/49] fix: do not use the previous step's flux when limiting
 sub-basin storages

---
 core/src/base/ModelBuilder.cpp         | 6 ++++--
 core/src/containers/WaterContainer.cpp | 2 +-
 core/src/fluxes/Flux.h                 | 9 +++++++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 7084646..b7d9030 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -534,8 +534,10 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
 
                     if (toSubBasin) {
                         flux->SetFractionUnitArea(unit->GetArea() / _subBasin->GetArea());
-                        flux->SetAsStatic();
-                    } else if (output.isStatic) {
+                    }
+
+                    // The amount of a flux leaving a solved brick is not known before the solver has run.
+                    if (output.isStatic || (toSubBasin && !brick->NeedsSolver())) {
                         flux->SetAsStatic();
                     }
 
diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index ffed9c4..22b9be7 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -115,7 +115,7 @@ void WaterContainer::ApplyConstraints(double timeStep, bool inputsApplied) {
         }
         assert(GreaterThanOrEqual(*changeRate, 0, EPSILON_D));
         incomingRates.push_back(changeRate);
-        inputs += *changeRate;
+        inputs += *changeRate * input->GetFractionTotal();
     }
 
     double change = inputs - outputs;
diff --git a/core/src/fluxes/Flux.h b/core/src/fluxes/Flux.h
index e6af389..90cbfa6 100644
--- a/core/src/fluxes/Flux.h
+++ b/core/src/fluxes/Flux.h
@@ -152,6 +152,15 @@ class Flux {
         _fractionTotal = _fractionUnitArea * _fractionLandCover;
     }
 
+    /**
+     * Get the fraction of the amount that arrives at the target.
+     *
+     * @return the total fraction (unit area and land cover).
+     */
+    [[nodiscard]] double GetFractionTotal() const {
+        return _fractionTotal;
+    }
+
     /**
      * Get the flux type.
      *
-- 
2.43.0


From 5edc4a1a088db67639a66bf6c852dafebd0cbc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 10/49] fix: deliver water sent to a storage declared before
 its source within the step

---
 core/src/base/Processor.cpp        |  9 ++++++++-
 core/src/base/SolverSequential.cpp | 28 +++++++++++++++++++++++++++-
 core/src/base/SolverSequential.h   |  1 +
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index 17bafda..e0350ba 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -244,12 +244,13 @@ void Processor::EnforceConstraints(axd& rates, double timeStepInDays) {
 }
 
 void Processor::ApplyRates(const axd& rates, double timeStepInDays) {
+    // Update all the fluxes first: a brick can receive water from a brick declared after it
+    // (e.g. capillary fluxes), whose amount must be the one of this time step.
     int iRate = 0;
     for (auto brick : _iterableBricks) {
         if (brick->IsNull()) {
             continue;
         }
-        brick->UpdateContentFromInputs();
         for (int i = 0; i < brick->GetProcessCount(); ++i) {
             auto process = brick->GetProcess(i);
             for (int iConnect = 0; iConnect < process->GetConnectionCount(); ++iConnect) {
@@ -258,6 +259,12 @@ void Processor::ApplyRates(const axd& rates, double timeStepInDays) {
             }
         }
     }
+    for (auto brick : _iterableBricks) {
+        if (brick->IsNull()) {
+            continue;
+        }
+        brick->UpdateContentFromInputs();
+    }
 }
 
 void Processor::FinalizeTimeStep() {
diff --git a/core/src/base/SolverSequential.cpp b/core/src/base/SolverSequential.cpp
index b505120..920a0fe 100644
--- a/core/src/base/SolverSequential.cpp
+++ b/core/src/base/SolverSequential.cpp
@@ -7,6 +7,7 @@
 void SolverSequential::InitializeContainers() {
     assert(_processor);
     _rates = axd::Zero(_processor->GetSolvableConnectionCount());
+    _bookedInflows.assign(_processor->GetSolvableBricks().size(), 0.0);
 
     // Note on capacity-limited stores without an overflow process: the sequential scheme
     // cannot retroactively reduce inflows that upstream bricks have already applied, so a
@@ -42,8 +43,21 @@ void SolverSequential::StoreRatesAtCurrentContent(Brick* brick, vecDouble& rates
 bool SolverSequential::Solve(double timeStepInDays) {
     // Sequential forward substitution: each brick is solved with its upstream inflows of
     // the current step already booked in its incoming flux amounts.
+    // The fluxes coming from bricks solved later still hold the values of the previous step.
+    _rates.setZero();
+    for (auto brick : _processor->GetSolvableBricks()) {
+        for (int i = 0; i < brick->GetProcessCount(); ++i) {
+            auto process = brick->GetProcess(i);
+            for (int j = 0; j < process->GetOutputFluxCount(); ++j) {
+                process->GetOutputFlux(j)->Reset();
+            }
+        }
+    }
+
     int iRate = 0;
+    size_t iBrick = 0;
     for (auto brick : _processor->GetSolvableBricks()) {
+        double& bookedInflow = _bookedInflows[iBrick++];
         // Link the brick's connections to its slice of the rates vector.
         int iRateStart = iRate;
         for (int i = 0; i < brick->GetProcessCount(); ++i) {
@@ -64,7 +78,8 @@ bool SolverSequential::Solve(double timeStepInDays) {
         // Start-of-step content, including instantaneous deposits from the direct pass.
         double content = container->GetContentWithChanges();
         // Inflows (upstream outflows, forcing, static handoffs) as a constant rate [mm/d].
-        double inflow = container->SumIncomingFluxes() / timeStepInDays;
+        bookedInflow = container->SumIncomingFluxes();
+        double inflow = bookedInflow / timeStepInDays;
 
         ComputeBrickRates(brick, content, inflow, timeStepInDays, iRateStart);
 
@@ -82,6 +97,17 @@ bool SolverSequential::Solve(double timeStepInDays) {
         }
     }
 
+    // Add the water sent to a brick by the bricks solved after it (e.g. capillary fluxes).
+    iBrick = 0;
+    for (auto brick : _processor->GetSolvableBricks()) {
+        double bookedInflow = _bookedInflows[iBrick++];
+        if (brick->IsNull()) {
+            continue;
+        }
+        WaterContainer* container = brick->GetWaterContainer();
+        container->AddAmountToDynamicContentChange(container->SumIncomingFluxes() - bookedInflow);
+    }
+
     _processor->FinalizeTimeStep();
 
     return true;
diff --git a/core/src/base/SolverSequential.h b/core/src/base/SolverSequential.h
index f4468f6..b0b1691 100644
--- a/core/src/base/SolverSequential.h
+++ b/core/src/base/SolverSequential.h
@@ -29,6 +29,7 @@ class SolverSequential : public Solver {
 
   protected:
     axd _rates;
+    vecDouble _bookedInflows;
 
     /**
      * Compute the average outflow rates of the brick over the time step and store
-- 
2.43.0


From c1080082368b8c6bf2b4fb84c59b92b2972af9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 11/49] fix: refuse land cover changes that nothing can absorb
 or of unknown units

---
 core/src/actions/ActionLandCoverChange.cpp | 4 ++++
 core/src/spatial/HydroUnit.cpp             | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/core/src/actions/ActionLandCoverChange.cpp b/core/src/actions/ActionLandCoverChange.cpp
index e93cbc8..6449c1b 100644
--- a/core/src/actions/ActionLandCoverChange.cpp
+++ b/core/src/actions/ActionLandCoverChange.cpp
@@ -30,6 +30,10 @@ bool ActionLandCoverChange::Apply(double) {
     assert(_landCoverNames.size() > _landCoverIds[_cursor]);
 
     HydroUnit* unit = _manager->GetHydroUnitById(_hydroUnitIds[_cursor]);
+    if (unit == nullptr) {
+        LogError("The land cover of the unknown hydro unit {} cannot be changed.", _hydroUnitIds[_cursor]);
+        return false;
+    }
     string landCoverName = _landCoverNames[_landCoverIds[_cursor]];
     double areaFraction = _areas[_cursor] / unit->GetArea();
     areaFraction = CheckLandCoverAreaFraction(landCoverName, _hydroUnitIds[_cursor], areaFraction, unit->GetArea(),
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 4ac2c6d..08da18f 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -362,6 +362,9 @@ bool HydroUnit::ChangeLandCoverAreaFraction(std::string_view name, double fracti
         }
 
         TransferLandCoverContent(changed, oldFraction, fraction, generic, genericOldFraction, genericNewFraction);
+    } else if (!NearlyEqual(fraction, changed->GetAreaFraction(), EPSILON_D)) {
+        LogError("There is no other cover to absorb the area change of '{}'.", name);
+        return false;
     }
 
     changed->SetAreaFraction(fraction);
-- 
2.43.0


From f14d99ac172dfdc48c4ef7bd18adcfd07f0f8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 12/49] fix: apply the changes of a same date in the order they
 were added

---
 core/src/actions/Action.cpp         | 2 +-
 core/src/actions/ActionsManager.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index 5478ce4..9c1b2e4 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -59,7 +59,7 @@ bool Action::ApplyIfRecursive(const Time date) {
 int Action::GetIndexForInsertion(double date) const {
     int index = 0;
     for (double storedDate : _sporadicDates) {
-        if (date <= storedDate) {
+        if (date < storedDate) {
             break;
         }
         index++;
diff --git a/core/src/actions/ActionsManager.cpp b/core/src/actions/ActionsManager.cpp
index e39a969..4737c26 100644
--- a/core/src/actions/ActionsManager.cpp
+++ b/core/src/actions/ActionsManager.cpp
@@ -50,7 +50,7 @@ bool ActionsManager::AddAction(Action* action) {
 
             // Find index to insert the date accordingly.
             for (int i = index; i < _sporadicActionDates.size(); ++i) {
-                if (date <= _sporadicActionDates[i]) {
+                if (date < _sporadicActionDates[i]) {
                     break;
                 }
                 index++;
-- 
2.43.0


From 1e10e3d02bf9e04ddf1421ccdf2b5d421e7e7875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 13/49] fix: apply recurring actions once per occurrence
 whatever the time step

---
 core/src/actions/Action.cpp         | 11 ++--------
 core/src/actions/ActionsManager.cpp | 31 +++++++++++++++++++----------
 core/src/actions/ActionsManager.h   | 11 +++++++++-
 core/src/base/TimeMachine.cpp       |  2 +-
 4 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index 9c1b2e4..6898a02 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -40,15 +40,8 @@ bool Action::Apply(double) {
 }
 
 bool Action::ApplyIfRecursive(const Time date) {
-    for (int month : _recursiveMonths) {
-        if (month != date.month) {
-            continue;
-        }
-        for (int day : _recursiveDays) {
-            if (day != date.day) {
-                continue;
-            }
-
+    for (size_t i = 0; i < _recursiveMonths.size(); ++i) {
+        if (_recursiveMonths[i] == date.month && _recursiveDays[i] == date.day) {
             return Apply();
         }
     }
diff --git a/core/src/actions/ActionsManager.cpp b/core/src/actions/ActionsManager.cpp
index 4737c26..52d9b6b 100644
--- a/core/src/actions/ActionsManager.cpp
+++ b/core/src/actions/ActionsManager.cpp
@@ -1,5 +1,7 @@
 #include "ActionsManager.h"
 
+#include <cmath>
+
 #include "Action.h"
 #include "ModelHydro.h"
 #include "SubBasin.h"
@@ -77,24 +79,31 @@ int ActionsManager::GetSporadicActionItemCount() const {
     return items;
 }
 
-void ActionsManager::DateUpdate(double date) {
-    // Recursive actions
+void ActionsManager::DateUpdate(double date, double previousDate) {
+    // Dates are compared with a tolerance of half a second.
+    constexpr double tolerance = 0.5 / 86400.0;
+
+    // Recursive actions: once for every day starting since the previous update, whatever the time step.
     if (!_recursiveActionIndices.empty()) {
-        Time dateStruct = GetTimeStructFromMJD(date);
-        for (int actionIndex : _recursiveActionIndices) {
-            if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
-                throw RuntimeError("Application of a recursive action failed.");
+        for (double day = std::floor(previousDate + tolerance) + 1; day <= date + tolerance; ++day) {
+            // Keep the order of the dates between both types of actions.
+            ApplySporadicActions(date, day - 2 * tolerance);
+
+            Time dateStruct = GetTimeStructFromMJD(day);
+            for (int actionIndex : _recursiveActionIndices) {
+                if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
+                    throw RuntimeError("Application of a recursive action failed.");
+                }
             }
         }
     }
 
-    if (_sporadicActionDates.empty()) {
-        return;
-    }
+    ApplySporadicActions(date, date + tolerance);
+}
 
-    // Sporadic actions
+void ActionsManager::ApplySporadicActions(double date, double limit) {
     assert(_sporadicActionDates.size() == _sporadicActionIndices.size());
-    while (_sporadicActionDates.size() > _cursorManager && _sporadicActionDates[_cursorManager] <= date) {
+    while (_sporadicActionDates.size() > _cursorManager && _sporadicActionDates[_cursorManager] <= limit) {
         if (!_actions[_sporadicActionIndices[_cursorManager]]->Apply(date)) {
             throw RuntimeError("Application of a sporadic action failed.");
         }
diff --git a/core/src/actions/ActionsManager.h b/core/src/actions/ActionsManager.h
index 57a723b..c4d7af8 100644
--- a/core/src/actions/ActionsManager.h
+++ b/core/src/actions/ActionsManager.h
@@ -61,8 +61,9 @@ class ActionsManager {
      * Update the date during the simulation. Triggers the actions that are scheduled for the current date.
      *
      * @param date corresponding date of the simulation.
+     * @param previousDate date of the previous update.
      */
-    void DateUpdate(double date);
+    void DateUpdate(double date, double previousDate);
 
     /**
      * Get the sub basin associated with the model.
@@ -113,6 +114,14 @@ class ActionsManager {
     vecInt _recursiveActionIndices;
 
   private:
+
+    /**
+     * Apply the sporadic actions that are due.
+     *
+     * @param date corresponding date of the simulation.
+     * @param limit date up to which the actions are due.
+     */
+    void ApplySporadicActions(double date, double limit);
 };
 
 #endif  // HYDROBRICKS_ACTION_UPDATER_H
diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index 5be6bd6..ef50a60 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -67,7 +67,7 @@ void TimeMachine::IncrementTime() {
         _parametersUpdater->DateUpdate(_date);
     }
     if (_actionsManager) {
-        _actionsManager->DateUpdate(_date);
+        _actionsManager->DateUpdate(_date, GetDateOfStep(_stepIndex - 1));
     }
 }
 
-- 
2.43.0


From 4e1df4aa5b93864cba3078073ca22d9685c7d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 14/49] fix: reset the processes of the snowpacks with their
 content

---
 core/src/bricks/Snowpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/bricks/Snowpack.cpp b/core/src/bricks/Snowpack.cpp
index bd305ab..cd61de5 100644
--- a/core/src/bricks/Snowpack.cpp
+++ b/core/src/bricks/Snowpack.cpp
@@ -7,7 +7,7 @@ Snowpack::Snowpack()
 }
 
 void Snowpack::Reset() {
-    _water->Reset();
+    SurfaceComponent::Reset();
     _snow->Reset();
 }
 
-- 
2.43.0


From 6b2f30425744a74397c3edecac663c092475a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 15/49] fix: save and restore the internal state of the
 processes with the initial state

---
 core/src/bricks/Brick.cpp                     |  3 +++
 core/src/bricks/Snowpack.cpp                  |  2 +-
 core/src/processes/Process.h                  |  7 ++++++
 .../ProcessLateralSnowRedistributionFrey.cpp  | 13 ++++++++---
 .../ProcessLateralSnowRedistributionFrey.h    |  7 ++++++
 core/src/processes/ProcessMeltCemaNeige.cpp   |  9 ++++++--
 core/src/processes/ProcessMeltCemaNeige.h     | 10 ++++++--
 core/src/processes/ProcessRoutingGR4J.cpp     | 19 +++++++++++----
 core/src/processes/ProcessRoutingGR4J.h       | 11 +++++++++
 core/src/processes/ProcessRoutingGR6J.cpp     | 23 ++++++++++++++-----
 core/src/processes/ProcessRoutingGR6J.h       | 12 ++++++++++
 core/src/processes/ProcessRoutingHBV.cpp      | 16 +++++++++----
 core/src/processes/ProcessRoutingHBV.h        | 10 ++++++++
 13 files changed, 119 insertions(+), 23 deletions(-)

diff --git a/core/src/bricks/Brick.cpp b/core/src/bricks/Brick.cpp
index f916bbb..8929368 100644
--- a/core/src/bricks/Brick.cpp
+++ b/core/src/bricks/Brick.cpp
@@ -53,6 +53,9 @@ void Brick::Reset() {
 
 void Brick::SaveAsInitialState() {
     _water->SaveAsInitialState();
+    for (const auto& process : _processes) {
+        process->SaveAsInitialState();
+    }
 }
 
 bool Brick::IsValid(bool checkProcesses) const {
diff --git a/core/src/bricks/Snowpack.cpp b/core/src/bricks/Snowpack.cpp
index cd61de5..8255c50 100644
--- a/core/src/bricks/Snowpack.cpp
+++ b/core/src/bricks/Snowpack.cpp
@@ -12,7 +12,7 @@ void Snowpack::Reset() {
 }
 
 void Snowpack::SaveAsInitialState() {
-    _water->SaveAsInitialState();
+    SurfaceComponent::SaveAsInitialState();
     _snow->SaveAsInitialState();
 }
 
diff --git a/core/src/processes/Process.h b/core/src/processes/Process.h
index ac51a00..b6541f3 100644
--- a/core/src/processes/Process.h
+++ b/core/src/processes/Process.h
@@ -42,6 +42,13 @@ class Process {
      */
     virtual void Reset();
 
+    /**
+     * Save the internal state of the process (if any) as the state to restore on reset.
+     */
+    virtual void SaveAsInitialState() {
+        // Nothing to save by default.
+    }
+
     /**
      * Check that everything is correctly defined.
      *
diff --git a/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp b/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
index a7d9dfe..c9f751f 100644
--- a/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
+++ b/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
@@ -29,7 +29,9 @@ ProcessLateralSnowRedistributionFrey::ProcessLateralSnowRedistributionFrey(Water
       _rhoScale(nullptr),
       _tScale(nullptr),
       _density(constants::snowDensity),
-      _prevSwe(0.0) {}
+      _prevSwe(0.0),
+      _initialDensity(constants::snowDensity),
+      _initialPrevSwe(0.0) {}
 
 bool ProcessLateralSnowRedistributionFrey::IsValid() const {
     // Permissive (like snow_slide): hydro units without lateral connections simply do not redistribute.
@@ -92,8 +94,13 @@ void ProcessLateralSnowRedistributionFrey::AttachForcing(Forcing* forcing) {
 
 void ProcessLateralSnowRedistributionFrey::Reset() {
     ProcessLateral::Reset();
-    _density = constants::snowDensity;
-    _prevSwe = 0.0;
+    _density = _initialDensity;
+    _prevSwe = _initialPrevSwe;
+}
+
+void ProcessLateralSnowRedistributionFrey::SaveAsInitialState() {
+    _initialDensity = _density;
+    _initialPrevSwe = _prevSwe;
 }
 
 double ProcessLateralSnowRedistributionFrey::ComputeFreshSnowDensity() const {
diff --git a/core/src/processes/ProcessLateralSnowRedistributionFrey.h b/core/src/processes/ProcessLateralSnowRedistributionFrey.h
index ab27121..e6913c1 100644
--- a/core/src/processes/ProcessLateralSnowRedistributionFrey.h
+++ b/core/src/processes/ProcessLateralSnowRedistributionFrey.h
@@ -80,6 +80,11 @@ class ProcessLateralSnowRedistributionFrey : public ProcessLateral {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * @copydoc Process::Finalize()
      */
@@ -108,6 +113,8 @@ class ProcessLateralSnowRedistributionFrey : public ProcessLateral {
     const float* _tScale;           // Density sigmoid shift coefficient (dynamic variant) [°C]
     double _density;                // Tracked bulk snow density (dynamic variant) [kg/m3]
     double _prevSwe;                // Committed SWE at the previous time step (dynamic variant) [mm]
+    double _initialDensity;         // Snow density restored on reset (dynamic variant) [kg/m3]
+    double _initialPrevSwe;         // Previous SWE restored on reset (dynamic variant) [mm]
 
     /**
      * @copydoc Process::GetRates()
diff --git a/core/src/processes/ProcessMeltCemaNeige.cpp b/core/src/processes/ProcessMeltCemaNeige.cpp
index 4984a8a..da93193 100644
--- a/core/src/processes/ProcessMeltCemaNeige.cpp
+++ b/core/src/processes/ProcessMeltCemaNeige.cpp
@@ -12,7 +12,8 @@ ProcessMeltCemaNeige::ProcessMeltCemaNeige(WaterContainer* container)
       _coldContentFactor(nullptr),
       _meltingTemp(nullptr),
       _meanAnnualSnow(nullptr),
-      _coldContent(0.0) {}
+      _coldContent(0.0),
+      _initialColdContent(0.0) {}
 
 void ProcessMeltCemaNeige::RegisterProcessSettings(SettingsModel* modelSettings) {
     modelSettings->AddProcessParameter("degree_day_factor", 3.0f);
@@ -57,7 +58,11 @@ void ProcessMeltCemaNeige::AttachForcing(Forcing* forcing) {
 
 void ProcessMeltCemaNeige::Reset() {
     ProcessMelt::Reset();
-    _coldContent = 0.0;
+    _coldContent = _initialColdContent;
+}
+
+void ProcessMeltCemaNeige::SaveAsInitialState() {
+    _initialColdContent = _coldContent;
 }
 
 const vecDouble& ProcessMeltCemaNeige::GetRates() {
diff --git a/core/src/processes/ProcessMeltCemaNeige.h b/core/src/processes/ProcessMeltCemaNeige.h
index 038438a..f786950 100644
--- a/core/src/processes/ProcessMeltCemaNeige.h
+++ b/core/src/processes/ProcessMeltCemaNeige.h
@@ -22,7 +22,7 @@
  *   mean_annual_snow              [mm] mean annual solid precipitation; Cn = 0.9 * this value
  *
  * Internal state _coldContent (G) persists between timesteps and is reset
- * to zero by Reset().
+ * to zero (or to the saved initial state) by Reset().
  */
 class ProcessMeltCemaNeige : public ProcessMelt {
   public:
@@ -57,6 +57,11 @@ class ProcessMeltCemaNeige : public ProcessMelt {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
   protected:
     Forcing* _temperature;            // non-owning reference
     const float* _degreeDayFactor;    // Kf [mm/°C/d]
@@ -64,7 +69,8 @@ class ProcessMeltCemaNeige : public ProcessMelt {
     const float* _meltingTemp;        // Tmelt [°C]
     const float* _meanAnnualSnow;     // Cn [mm]
 
-    double _coldContent;  // G [°C], persists between timesteps
+    double _coldContent;         // G [°C], persists between timesteps
+    double _initialColdContent;  // G restored on reset
 
     /**
      * @copydoc Process::GetRates()
diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index d6ad324..69150f4 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -14,7 +14,9 @@ ProcessRoutingGR4J::ProcessRoutingGR4J(WaterContainer* container)
       _r(0.0),
       _qr(0.0),
       _qd(0.0),
-      _processStorage(0.0) {}
+      _processStorage(0.0),
+      _initialR(0.0),
+      _initialProcessStorage(0.0) {}
 
 void ProcessRoutingGR4J::RegisterProcessSettings(SettingsModel* modelSettings) {
     modelSettings->AddProcessParameter("exchange_factor", 0.0f);
@@ -35,13 +37,20 @@ void ProcessRoutingGR4J::SetParameters(const ProcessSettings& processSettings) {
 
 void ProcessRoutingGR4J::Reset() {
     ProcessOutflow::Reset();
+    _stuh1 = _initialStuh1;
+    _stuh2 = _initialStuh2;
     _recomputeUH();
-    std::fill(_stuh1.begin(), _stuh1.end(), 0.0);
-    std::fill(_stuh2.begin(), _stuh2.end(), 0.0);
-    _r = 0.0;
+    _r = _initialR;
     _qr = 0.0;
     _qd = 0.0;
-    _processStorage = 0.0;
+    _processStorage = _initialProcessStorage;
+}
+
+void ProcessRoutingGR4J::SaveAsInitialState() {
+    _initialStuh1 = _stuh1;
+    _initialStuh2 = _stuh2;
+    _initialR = _r;
+    _initialProcessStorage = _processStorage;
 }
 
 double* ProcessRoutingGR4J::GetValuePointer(std::string_view name) {
diff --git a/core/src/processes/ProcessRoutingGR4J.h b/core/src/processes/ProcessRoutingGR4J.h
index 0e7f1f6..34d3abb 100644
--- a/core/src/processes/ProcessRoutingGR4J.h
+++ b/core/src/processes/ProcessRoutingGR4J.h
@@ -44,6 +44,11 @@ class ProcessRoutingGR4J : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance UH buffers and routing store once per timestep.
      */
@@ -77,6 +82,12 @@ class ProcessRoutingGR4J : public ProcessOutflow {
     // Cached total process-internal water storage for water balance logging
     double _processStorage;
 
+    // State restored on reset
+    vecDouble _initialStuh1;
+    vecDouble _initialStuh2;
+    double _initialR;
+    double _initialProcessStorage;
+
     /**
      * @copydoc Process::GetRates()
      *
diff --git a/core/src/processes/ProcessRoutingGR6J.cpp b/core/src/processes/ProcessRoutingGR6J.cpp
index fc8094e..fbbd0d2 100644
--- a/core/src/processes/ProcessRoutingGR6J.cpp
+++ b/core/src/processes/ProcessRoutingGR6J.cpp
@@ -21,7 +21,10 @@ ProcessRoutingGR6J::ProcessRoutingGR6J(WaterContainer* container)
       _qr(0.0),
       _qrexp(0.0),
       _qd(0.0),
-      _processStorage(0.0) {
+      _processStorage(0.0),
+      _initialR(0.0),
+      _initialRexp(0.0),
+      _initialProcessStorage(0.0) {
     // The exponential store is bottomless: its level (and hence the uh_input container content that
     // mirrors the routing storage) can be negative. Allow the container to hold negative content so
     // the exponential-store baseflow is emitted in full and the water balance stays consistent.
@@ -51,15 +54,23 @@ void ProcessRoutingGR6J::SetParameters(const ProcessSettings& processSettings) {
 
 void ProcessRoutingGR6J::Reset() {
     ProcessOutflow::Reset();
+    _stuh1 = _initialStuh1;
+    _stuh2 = _initialStuh2;
     _recomputeUH();
-    std::fill(_stuh1.begin(), _stuh1.end(), 0.0);
-    std::fill(_stuh2.begin(), _stuh2.end(), 0.0);
-    _r = 0.0;
-    _rexp = 0.0;
+    _r = _initialR;
+    _rexp = _initialRexp;
     _qr = 0.0;
     _qrexp = 0.0;
     _qd = 0.0;
-    _processStorage = 0.0;
+    _processStorage = _initialProcessStorage;
+}
+
+void ProcessRoutingGR6J::SaveAsInitialState() {
+    _initialStuh1 = _stuh1;
+    _initialStuh2 = _stuh2;
+    _initialR = _r;
+    _initialRexp = _rexp;
+    _initialProcessStorage = _processStorage;
 }
 
 double* ProcessRoutingGR6J::GetValuePointer(std::string_view name) {
diff --git a/core/src/processes/ProcessRoutingGR6J.h b/core/src/processes/ProcessRoutingGR6J.h
index 27408cd..7bad199 100644
--- a/core/src/processes/ProcessRoutingGR6J.h
+++ b/core/src/processes/ProcessRoutingGR6J.h
@@ -49,6 +49,11 @@ class ProcessRoutingGR6J : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance UH buffers and both routing stores once per timestep.
      */
@@ -94,6 +99,13 @@ class ProcessRoutingGR6J : public ProcessOutflow {
     // Cached total process-internal water storage for water balance logging
     double _processStorage;
 
+    // State restored on reset
+    vecDouble _initialStuh1;
+    vecDouble _initialStuh2;
+    double _initialR;
+    double _initialRexp;
+    double _initialProcessStorage;
+
     /**
      * @copydoc Process::GetRates()
      *
diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index be457f4..0764640 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -11,7 +11,9 @@ ProcessRoutingHBV::ProcessRoutingHBV(WaterContainer* container)
       _maxbas(nullptr),
       _lastMaxbas(0.0),
       _previousContent(0.0),
-      _processStorage(0.0) {}
+      _processStorage(0.0),
+      _initialPreviousContent(0.0),
+      _initialProcessStorage(0.0) {}
 
 void ProcessRoutingHBV::RegisterProcessSettings(SettingsModel* modelSettings) {
     modelSettings->AddProcessParameter("maxbas", 1.0f);
@@ -40,10 +42,16 @@ void ProcessRoutingHBV::SetParameters(const ProcessSettings& processSettings) {
 
 void ProcessRoutingHBV::Reset() {
     ProcessOutflow::Reset();
+    _stuh = _initialStuh;
     _recomputeUH();
-    std::fill(_stuh.begin(), _stuh.end(), 0.0);
-    _previousContent = 0.0;
-    _processStorage = 0.0;
+    _previousContent = _initialPreviousContent;
+    _processStorage = _initialProcessStorage;
+}
+
+void ProcessRoutingHBV::SaveAsInitialState() {
+    _initialStuh = _stuh;
+    _initialPreviousContent = _previousContent;
+    _initialProcessStorage = _processStorage;
 }
 
 double* ProcessRoutingHBV::GetValuePointer(std::string_view name) {
diff --git a/core/src/processes/ProcessRoutingHBV.h b/core/src/processes/ProcessRoutingHBV.h
index df1d0ac..b262d01 100644
--- a/core/src/processes/ProcessRoutingHBV.h
+++ b/core/src/processes/ProcessRoutingHBV.h
@@ -54,6 +54,11 @@ class ProcessRoutingHBV : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance the delivery schedule once per timestep, using the committed amounts.
      */
@@ -90,6 +95,11 @@ class ProcessRoutingHBV : public ProcessOutflow {
     // In-transit water (scheduled, not yet delivered) for water balance logging
     double _processStorage;
 
+    // State restored on reset
+    vecDouble _initialStuh;
+    double _initialPreviousContent;
+    double _initialProcessStorage;
+
     /**
      * @copydoc Process::GetRates()
      *
-- 
2.43.0


From 997a5eba1d3985fb9b2cbfba09bd7cbf81198895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 16/49] fix: save and restore the amounts of the fluxes with
 the initial state

---
 core/src/base/Processor.cpp                                | 2 +-
 core/src/base/SolverSequential.cpp                         | 2 +-
 core/src/fluxes/Flux.cpp                                   | 7 ++++++-
 core/src/fluxes/Flux.h                                     | 6 ++++++
 core/src/processes/Process.cpp                             | 6 ++++++
 core/src/processes/Process.h                               | 7 +++----
 .../src/processes/ProcessLateralSnowRedistributionFrey.cpp | 1 +
 core/src/processes/ProcessMeltCemaNeige.cpp                | 1 +
 core/src/processes/ProcessRoutingGR4J.cpp                  | 1 +
 core/src/processes/ProcessRoutingGR6J.cpp                  | 1 +
 core/src/processes/ProcessRoutingHBV.cpp                   | 1 +
 11 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index e0350ba..3e1b79a 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -338,7 +338,7 @@ void Processor::ResetOutputFluxes(Brick* brick) {
     for (int i = 0; i < brick->GetProcessCount(); ++i) {
         auto process = brick->GetProcess(i);
         for (int j = 0; j < process->GetOutputFluxCount(); ++j) {
-            process->GetOutputFlux(j)->Reset();
+            process->GetOutputFlux(j)->UpdateFlux(0);
         }
     }
 }
diff --git a/core/src/base/SolverSequential.cpp b/core/src/base/SolverSequential.cpp
index 920a0fe..c76d336 100644
--- a/core/src/base/SolverSequential.cpp
+++ b/core/src/base/SolverSequential.cpp
@@ -49,7 +49,7 @@ bool SolverSequential::Solve(double timeStepInDays) {
         for (int i = 0; i < brick->GetProcessCount(); ++i) {
             auto process = brick->GetProcess(i);
             for (int j = 0; j < process->GetOutputFluxCount(); ++j) {
-                process->GetOutputFlux(j)->Reset();
+                process->GetOutputFlux(j)->UpdateFlux(0);
             }
         }
     }
diff --git a/core/src/fluxes/Flux.cpp b/core/src/fluxes/Flux.cpp
index 9ed4502..05a0018 100644
--- a/core/src/fluxes/Flux.cpp
+++ b/core/src/fluxes/Flux.cpp
@@ -4,6 +4,7 @@
 
 Flux::Flux()
     : _amount(0),
+      _initialAmount(0),
       _changeRate(nullptr),
       _static(false),
       _needsWeighting(false),
@@ -14,7 +15,11 @@ Flux::Flux()
       _type(ContentType::Water) {}
 
 void Flux::Reset() {
-    _amount = 0;
+    _amount = _initialAmount;
+}
+
+void Flux::SaveAsInitialState() {
+    _initialAmount = _amount;
 }
 
 void Flux::UpdateFlux(double amount) {
diff --git a/core/src/fluxes/Flux.h b/core/src/fluxes/Flux.h
index 90cbfa6..b6a6c0b 100644
--- a/core/src/fluxes/Flux.h
+++ b/core/src/fluxes/Flux.h
@@ -32,6 +32,11 @@ class Flux {
      */
     virtual void Reset();
 
+    /**
+     * Save the current amount as the initial state: some processes rely on the amounts of the previous step.
+     */
+    void SaveAsInitialState();
+
     /**
      * Get the amount of water outgoing the flux.
      *
@@ -199,6 +204,7 @@ class Flux {
 
   protected:
     double _amount{};
+    double _initialAmount{};
     double* _changeRate{};  // non-owning reference
     bool _static{};
     bool _needsWeighting{};
diff --git a/core/src/processes/Process.cpp b/core/src/processes/Process.cpp
index d2f847a..4e46324 100644
--- a/core/src/processes/Process.cpp
+++ b/core/src/processes/Process.cpp
@@ -448,6 +448,12 @@ void Process::Reset() {
     }
 }
 
+void Process::SaveAsInitialState() {
+    for (const auto& flux : _outputs) {
+        flux->SaveAsInitialState();
+    }
+}
+
 void Process::SetHydroUnitProperties(HydroUnit*, Brick*) {
     // Nothing to do...
 }
diff --git a/core/src/processes/Process.h b/core/src/processes/Process.h
index b6541f3..3ad1396 100644
--- a/core/src/processes/Process.h
+++ b/core/src/processes/Process.h
@@ -43,11 +43,10 @@ class Process {
     virtual void Reset();
 
     /**
-     * Save the internal state of the process (if any) as the state to restore on reset.
+     * Save the state of the outgoing fluxes and the internal state of the process (if any) as the state to restore on
+     * reset.
      */
-    virtual void SaveAsInitialState() {
-        // Nothing to save by default.
-    }
+    virtual void SaveAsInitialState();
 
     /**
      * Check that everything is correctly defined.
diff --git a/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp b/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
index c9f751f..c0c9168 100644
--- a/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
+++ b/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
@@ -99,6 +99,7 @@ void ProcessLateralSnowRedistributionFrey::Reset() {
 }
 
 void ProcessLateralSnowRedistributionFrey::SaveAsInitialState() {
+    Process::SaveAsInitialState();
     _initialDensity = _density;
     _initialPrevSwe = _prevSwe;
 }
diff --git a/core/src/processes/ProcessMeltCemaNeige.cpp b/core/src/processes/ProcessMeltCemaNeige.cpp
index da93193..5cfd4f7 100644
--- a/core/src/processes/ProcessMeltCemaNeige.cpp
+++ b/core/src/processes/ProcessMeltCemaNeige.cpp
@@ -62,6 +62,7 @@ void ProcessMeltCemaNeige::Reset() {
 }
 
 void ProcessMeltCemaNeige::SaveAsInitialState() {
+    Process::SaveAsInitialState();
     _initialColdContent = _coldContent;
 }
 
diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index 69150f4..f75a3dd 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -47,6 +47,7 @@ void ProcessRoutingGR4J::Reset() {
 }
 
 void ProcessRoutingGR4J::SaveAsInitialState() {
+    Process::SaveAsInitialState();
     _initialStuh1 = _stuh1;
     _initialStuh2 = _stuh2;
     _initialR = _r;
diff --git a/core/src/processes/ProcessRoutingGR6J.cpp b/core/src/processes/ProcessRoutingGR6J.cpp
index fbbd0d2..6f751c8 100644
--- a/core/src/processes/ProcessRoutingGR6J.cpp
+++ b/core/src/processes/ProcessRoutingGR6J.cpp
@@ -66,6 +66,7 @@ void ProcessRoutingGR6J::Reset() {
 }
 
 void ProcessRoutingGR6J::SaveAsInitialState() {
+    Process::SaveAsInitialState();
     _initialStuh1 = _stuh1;
     _initialStuh2 = _stuh2;
     _initialR = _r;
diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index 0764640..b328dc1 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -49,6 +49,7 @@ void ProcessRoutingHBV::Reset() {
 }
 
 void ProcessRoutingHBV::SaveAsInitialState() {
+    Process::SaveAsInitialState();
     _initialStuh = _stuh;
     _initialPreviousContent = _previousContent;
     _initialProcessStorage = _processStorage;
-- 
2.43.0


From 42a241b32e12286bb04b25e134e06295efdafa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 17/49] fix: forget the forcing overridden by a process when a
 run starts

---
 core/src/base/ModelHydro.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 24a75a6..838c886 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -364,6 +364,9 @@ ModelResult ModelHydro::InitializeTimeSeries() {
         }
     }
 
+    // A run that stopped within a step may have left a forcing overridden by a process.
+    _subBasin->ResetForcingUpdates();
+
     return {};
 }
 
-- 
2.43.0


From 390f5104b231002512d230f98f503a2accf2a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 18/49] fix: determine the overflow anew at every evaluation of
 the constraints

---
 core/src/containers/WaterContainer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 22b9be7..e7ce2ed 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -61,6 +61,12 @@ void WaterContainer::ApplyConstraints(double timeStep, bool inputsApplied) {
     // rate (e.g. ProcessOutflowSnowHolding). Here we clamp those rates so the content stays within
     // bounds (no negative content, and below the maximum capacity) over the timestep.
 
+    // The overflow is what exceeds the capacity with the other rates: it is determined below and must not
+    // keep (or be compared with) the value of a previous evaluation.
+    if (HasOverflow() && _overflow->GetOutputFlux(0)->GetChangeRatePointer() != nullptr) {
+        *(_overflow->GetOutputFlux(0)->GetChangeRatePointer()) = 0;
+    }
+
     // Get outgoing change rates
     vecDoublePt outgoingRates;
     double outputs = 0;
-- 
2.43.0


From 22f83d39e58cc7b6fb99381f037db53c159b470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 19/49] fix: count the water of directly computed bricks when
 limiting a storage to its capacity

---
 core/src/base/ModelBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index b7d9030..7846925 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -536,8 +536,9 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
                         flux->SetFractionUnitArea(unit->GetArea() / _subBasin->GetArea());
                     }
 
-                    // The amount of a flux leaving a solved brick is not known before the solver has run.
-                    if (output.isStatic || (toSubBasin && !brick->NeedsSolver())) {
+                    // The amount of a flux leaving a directly computed brick is known before the solver runs,
+                    // that of a flux leaving a solved brick is not.
+                    if (output.isStatic || !brick->NeedsSolver()) {
                         flux->SetAsStatic();
                     }
 
-- 
2.43.0


From 892176f595a89e42fa066c9ddd2681d68fd48563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 20/49] fix: accept a land cover change that takes exactly what
 is left of the generic cover

---
 core/src/spatial/HydroUnit.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 08da18f..f152e2f 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -353,13 +353,14 @@ bool HydroUnit::ChangeLandCoverAreaFraction(std::string_view name, double fracti
         double genericNewFraction = genericOldFraction - delta;
 
         // The generic cover must be able to absorb the change (it cannot go negative).
-        if (LessThan(genericNewFraction, 0, EPSILON_D)) {
+        if (LessThan(genericNewFraction, 0, PRECISION)) {
             LogError(
                 "The generic soil (open) land cover (%.20g) is not large enough to compensate "
                 "the area change (%.20g) with error margin (%.20g).",
-                genericOldFraction, delta, EPSILON_D);
+                genericOldFraction, delta, PRECISION);
             return false;
         }
+        genericNewFraction = std::max(genericNewFraction, 0.0);
 
         TransferLandCoverContent(changed, oldFraction, fraction, generic, genericOldFraction, genericNewFraction);
     } else if (!NearlyEqual(fraction, changed->GetAreaFraction(), EPSILON_D)) {
@@ -474,12 +475,12 @@ bool HydroUnit::FixLandCoverFractionsTotal() {
             LogError("No generic soil (open) land cover found. Cannot fix the land cover fractions.");
             return false;
         }
-        if (LessThan(ground->GetAreaFraction(), diff, EPSILON_D)) {
+        if (LessThan(ground->GetAreaFraction(), diff, PRECISION)) {
             LogError(
                 "The generic soil (open) land cover (%.20g) is not large enough to compensate "
                 "the area fractions (%.20g) with error margin (%.20g)."
                 "(i.e. the sum of the other land cover fractions is too large).",
-                ground->GetAreaFraction(), diff, EPSILON_D);
+                ground->GetAreaFraction(), diff, PRECISION);
             return false;
         }
         if (ground->GetAreaFraction() - diff > 0) {
-- 
2.43.0


From 6e0b486c7bb5e32e51dcc55fa82e4237c0c6a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 21/49] fix: set the parameters of sub-basin bricks selected by
 type

---
 core/src/base/SettingsModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/base/SettingsModel.cpp b/core/src/base/SettingsModel.cpp
index 9b73ecd..d015b3c 100644
--- a/core/src/base/SettingsModel.cpp
+++ b/core/src/base/SettingsModel.cpp
@@ -1012,7 +1012,7 @@ bool SettingsModel::SetParameterValueInSelectedStructure(const string& component
         // Set the parameter for all matching bricks - subbasins
         for (auto& brick : _selectedStructure->subBasinBricks) {
             if (typeMatches(brick.type)) {
-                SelectHydroUnitBrick(brick.name);
+                SelectSubBasinBrick(brick.name);
                 if (BrickHasParameter(name)) {
                     SetBrickParameterValue(name, value);
                 } else {
-- 
2.43.0


From f51f4eaa5fc25b29bb3ee93e53db4eaad692f227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 22/49] fix: count whole spin-up steps when the time step
 divides the spin-up exactly

---
 core/src/base/ModelHydro.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 838c886..393d039 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -48,8 +48,9 @@ ModelResult ModelHydro::Initialize(SettingsModel& modelSettings, SettingsBasin&
 
         // Convert the spin-up duration into time steps; a spin-up longer than the
         // modelling period degrades to replaying the whole period once.
+        // (the tolerance covers the rounding of time steps that are a fraction of a day).
         double timeStepInDays = *_timer.GetTimeStepPointer();
-        _spinupSteps = static_cast<int>(modelSettings.GetTimerSettings().spinupDays / timeStepInDays);
+        _spinupSteps = static_cast<int>(modelSettings.GetTimerSettings().spinupDays / timeStepInDays + 1e-6);
         _spinupSteps = std::min(_spinupSteps, _timer.GetTimeStepCount());
 
         _processor.Initialize(modelSettings.GetSolverSettings());
-- 
2.43.0


From 2b230ad50a05f051235ce7aaa5a44f78cb7f421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 23/49] fix: link the overflow declared with its canonical type
 name

---
 core/src/base/ModelBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 7846925..9311053 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -127,7 +127,7 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
             process->SetParameters(processSettings);
             brick->AddProcess(std::move(processPtr));
 
-            if (processSettings.type == "overflow") {
+            if (processSettings.type == "overflow" || processSettings.type == "outflow:overflow") {
                 brick->GetWaterContainer()->LinkOverflow(process);
             }
         }
@@ -231,7 +231,7 @@ void ModelBuilder::CreateHydroUnitBrick(SettingsModel& modelSettings, HydroUnit*
         process->SetParameters(processSettings);
         brick->AddProcess(std::move(processPtr));
 
-        if (processSettings.type == "overflow") {
+        if (processSettings.type == "overflow" || processSettings.type == "outflow:overflow") {
             brick->GetWaterContainer()->LinkOverflow(process);
         }
 
-- 
2.43.0


From 4595bf290373d433cb47a2a5d1d25016caaf1584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:45 +0000
Subject: [PATCH 24/49] fix: accept a generic cover fraction that differs only
 by a rounding residue

---
 core/src/spatial/HydroUnit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index f152e2f..9256b12 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -363,7 +363,7 @@ bool HydroUnit::ChangeLandCoverAreaFraction(std::string_view name, double fracti
         genericNewFraction = std::max(genericNewFraction, 0.0);
 
         TransferLandCoverContent(changed, oldFraction, fraction, generic, genericOldFraction, genericNewFraction);
-    } else if (!NearlyEqual(fraction, changed->GetAreaFraction(), EPSILON_D)) {
+    } else if (!NearlyEqual(fraction, changed->GetAreaFraction(), PRECISION)) {
         LogError("There is no other cover to absorb the area change of '{}'.", name);
         return false;
     }
-- 
2.43.0


From 134d1d88c79468a5d482adbbe1912f0b61eb665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 25/49] fix: refuse distributed forcing that does not cover the
 period for every unit

---
 core/src/base/TimeSeriesDistributed.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/core/src/base/TimeSeriesDistributed.cpp b/core/src/base/TimeSeriesDistributed.cpp
index af58464..37a2135 100644
--- a/core/src/base/TimeSeriesDistributed.cpp
+++ b/core/src/base/TimeSeriesDistributed.cpp
@@ -33,12 +33,22 @@ bool TimeSeriesDistributed::AdvanceOneTimeStep() {
 
 double TimeSeriesDistributed::GetStart() const {
     assert(!_data.empty());
-    return _data[0]->GetStart();
+    // The period covered by all units.
+    double start = _data[0]->GetStart();
+    for (const auto& data : _data) {
+        start = std::max(start, data->GetStart());
+    }
+    return start;
 }
 
 double TimeSeriesDistributed::GetEnd() const {
     assert(!_data.empty());
-    return _data[0]->GetEnd();
+    // The period covered by all units.
+    double end = _data[0]->GetEnd();
+    for (const auto& data : _data) {
+        end = std::min(end, data->GetEnd());
+    }
+    return end;
 }
 
 double TimeSeriesDistributed::GetTimeStepInDays() const {
@@ -102,6 +112,15 @@ bool TimeSeriesDistributed::IsValid() const {
         }
     }
 
+    // Check that all units share the same time step
+    for (size_t i = 1; i < _data.size(); ++i) {
+        if (std::abs(_data[i]->GetTimeStepInDays() - _data[0]->GetTimeStepInDays()) > 0.5 / 86400.0) {
+            LogError("TimeSeriesDistributed: The time step of unit ID {} differs from that of the other units.",
+                     _unitIds[i]);
+            return false;
+        }
+    }
+
     // Check for duplicate unit IDs
     for (size_t i = 0; i < _unitIds.size(); ++i) {
         for (size_t j = i + 1; j < _unitIds.size(); ++j) {
-- 
2.43.0


From cfa58f54d513f5789ac67742723d524d24c911e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:48 +0000
Subject: [PATCH 26/49] fix: report the discharge of the outlet only, not of
 components named after it

---
 core/src/base/Logger.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/base/Logger.cpp b/core/src/base/Logger.cpp
index 4bf6fb4..e605bdf 100644
--- a/core/src/base/Logger.cpp
+++ b/core/src/base/Logger.cpp
@@ -220,7 +220,13 @@ double Logger::GetTotalHydroUnits(const string& item, bool needsAreaWeighting) c
 }
 
 double Logger::GetTotalOutletDischarge() const {
-    return GetTotalSubBasin("outlet");
+    // The label has to match exactly: component names may contain "outlet".
+    for (auto [label, values] : std::views::zip(_subBasinLabels, _subBasinValues)) {
+        if (label == "outlet") {
+            return values.sum();
+        }
+    }
+    return 0;
 }
 
 double Logger::GetTotalET() const {
-- 
2.43.0


From bd2a0f6020d82a2034a0cc897a8422cbfdd6e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 27/49] fix: refuse to run a model that lacks forcing data or
 was not initialized

---
 core/src/base/Forcing.cpp      |  4 ++++
 core/src/base/Forcing.h        | 14 ++++++++++++++
 core/src/base/ModelHydro.cpp   | 23 ++++++++++++++++++++++-
 core/src/base/ModelHydro.h     |  1 +
 core/src/spatial/HydroUnit.cpp | 14 ++++++++++++++
 core/src/spatial/HydroUnit.h   | 12 ++++++++++++
 core/src/spatial/SubBasin.cpp  | 17 +++++++++++++++++
 core/src/spatial/SubBasin.h    | 12 ++++++++++++
 8 files changed, 96 insertions(+), 1 deletion(-)

diff --git a/core/src/base/Forcing.cpp b/core/src/base/Forcing.cpp
index b5a7f85..ab74b4d 100644
--- a/core/src/base/Forcing.cpp
+++ b/core/src/base/Forcing.cpp
@@ -9,6 +9,10 @@ void Forcing::AttachTimeSeriesData(TimeSeriesData* timeSeriesData) {
     _timeSeriesData = timeSeriesData;
 }
 
+void Forcing::DetachTimeSeriesData() {
+    _timeSeriesData = nullptr;
+}
+
 double Forcing::GetValue() const {
     assert(_timeSeriesData);
     if (_hasUpdatedValue) return _updatedValue;
diff --git a/core/src/base/Forcing.h b/core/src/base/Forcing.h
index 9c0fa6c..1a0ee3c 100644
--- a/core/src/base/Forcing.h
+++ b/core/src/base/Forcing.h
@@ -17,6 +17,20 @@ class Forcing {
      */
     void AttachTimeSeriesData(TimeSeriesData* timeSeriesData);
 
+    /**
+     * Detach the time series data (e.g. before the data are deleted).
+     */
+    void DetachTimeSeriesData();
+
+    /**
+     * Check if time series data are attached.
+     *
+     * @return true if time series data are attached.
+     */
+    [[nodiscard]] bool HasTimeSeriesData() const {
+        return _timeSeriesData != nullptr;
+    }
+
     /**
      * Get the type of the forcing.
      *
diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 393d039..5dc95e8 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -18,6 +18,7 @@ ModelHydro::ModelHydro(SubBasin* subBasin)
 ModelHydro::~ModelHydro() = default;
 
 ModelResult ModelHydro::InitializeWithBasin(SettingsModel& modelSettings, SettingsBasin& basinSettings) {
+    _isInitialized = false;
     _ownedSubBasin = std::make_unique<SubBasin>();
     _subBasin = _ownedSubBasin.get();
     if (auto r = _subBasin->Initialize(basinSettings); !r) {
@@ -32,6 +33,8 @@ ModelResult ModelHydro::InitializeWithBasin(SettingsModel& modelSettings, Settin
 }
 
 ModelResult ModelHydro::Initialize(SettingsModel& modelSettings, SettingsBasin& basinSettings, bool checkProcesses) {
+    _isInitialized = false;
+
     try {
         if (!modelSettings.IsValid()) {
             return std::unexpected("Model settings are not valid.");
@@ -71,6 +74,8 @@ ModelResult ModelHydro::Initialize(SettingsModel& modelSettings, SettingsBasin&
         return std::unexpected(std::format("Model initialization failed: {}", e.what()));
     }
 
+    _isInitialized = true;
+
     return {};
 }
 
@@ -99,6 +104,14 @@ bool ModelHydro::ForcingLoaded() const {
 }
 
 ModelResult ModelHydro::Run() {
+    if (!_subBasin || !_isInitialized) {
+        return std::unexpected("The model has not been initialized.");
+    }
+
+    if (!_subBasin->HasForcingData()) {
+        return std::unexpected("Some forcing data are missing or were not attached to the hydro units.");
+    }
+
     if (auto r = InitializeTimeSeries(); !r) {
         return r;
     }
@@ -330,11 +343,19 @@ bool ModelHydro::CreateTimeSeries(const string& varName, const axd& time, const
 }
 
 void ModelHydro::ClearTimeSeries() {
+    // The forcings must not keep pointing to the data deleted below.
+    if (_subBasin) {
+        _subBasin->DetachForcingData();
+    }
+
     _timeSeries.clear();  // Automatic cleanup via unique_ptr
 }
 
 bool ModelHydro::AttachTimeSeriesToHydroUnits() {
-    assert(_subBasin);
+    if (!_subBasin) {
+        LogError("The model has not been initialized.");
+        return false;
+    }
 
     for (const auto& timeSeries : _timeSeries) {
         VariableType type = timeSeries->GetVariableType();
diff --git a/core/src/base/ModelHydro.h b/core/src/base/ModelHydro.h
index a267010..09bf0a4 100644
--- a/core/src/base/ModelHydro.h
+++ b/core/src/base/ModelHydro.h
@@ -296,6 +296,7 @@ class ModelHydro {
     ActionsManager _actionsManager;
     ParametersUpdater _parametersUpdater;
     std::vector<std::unique_ptr<TimeSeries>> _timeSeries;  // owning
+    bool _isInitialized = false;                           // the last initialization completed
     int _spinupSteps = 0;                                  // time steps replayed as spin-up at the start of each run
 
   private:
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 9256b12..f1d742a 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -193,6 +193,20 @@ void HydroUnit::ResetForcingUpdates() {
     }
 }
 
+bool HydroUnit::HasForcingData() const {
+    for (const auto& forcing : _forcing) {
+        if (!forcing->HasTimeSeriesData()) return false;
+    }
+
+    return true;
+}
+
+void HydroUnit::DetachForcingData() {
+    for (const auto& forcing : _forcing) {
+        forcing->DetachTimeSeriesData();
+    }
+}
+
 Forcing* HydroUnit::GetForcing(VariableType type) const {
     auto it = _forcingMap.find(type);
     if (it != _forcingMap.end()) {
diff --git a/core/src/spatial/HydroUnit.h b/core/src/spatial/HydroUnit.h
index aa6b8b0..9e8bd43 100644
--- a/core/src/spatial/HydroUnit.h
+++ b/core/src/spatial/HydroUnit.h
@@ -120,6 +120,18 @@ class HydroUnit {
      */
     void ResetForcingUpdates();
 
+    /**
+     * Check that data are attached to all the forcings the hydro unit needs.
+     *
+     * @return True if all forcings have data, false otherwise.
+     */
+    [[nodiscard]] bool HasForcingData() const;
+
+    /**
+     * Detach the data from all the forcings.
+     */
+    void DetachForcingData();
+
     /**
      * Add a lateral connection to the hydro unit.
      *
diff --git a/core/src/spatial/SubBasin.cpp b/core/src/spatial/SubBasin.cpp
index b88468b..4100cf3 100644
--- a/core/src/spatial/SubBasin.cpp
+++ b/core/src/spatial/SubBasin.cpp
@@ -180,6 +180,23 @@ void SubBasin::ResetForcingUpdates() {
     }
 }
 
+bool SubBasin::HasForcingData() const {
+    for (const auto& unit : _hydroUnits) {
+        if (!unit->HasForcingData()) {
+            LogError("Forcing data are missing for the hydro unit {}.", unit->GetId());
+            return false;
+        }
+    }
+
+    return true;
+}
+
+void SubBasin::DetachForcingData() {
+    for (const auto& unit : _hydroUnits) {
+        unit->DetachForcingData();
+    }
+}
+
 int SubBasin::GetHydroUnitCount() const {
     return static_cast<int>(_hydroUnits.size());
 }
diff --git a/core/src/spatial/SubBasin.h b/core/src/spatial/SubBasin.h
index 59d5a68..eb54528 100644
--- a/core/src/spatial/SubBasin.h
+++ b/core/src/spatial/SubBasin.h
@@ -165,6 +165,18 @@ class SubBasin {
      */
     void ResetForcingUpdates();
 
+    /**
+     * Check that data are attached to all the forcings needed by the hydro units.
+     *
+     * @return True if all forcings have data, false otherwise.
+     */
+    [[nodiscard]] bool HasForcingData() const;
+
+    /**
+     * Detach the data from all the forcings of the hydro units.
+     */
+    void DetachForcingData();
+
     /**
      * Get a hydro unit by its index.
      *
-- 
2.43.0


From ceb5dcfc6dab0ed9a963e552c080cc634d42865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:53 +0000
Subject: [PATCH 28/49] fix: refuse bricks and splitters of an unknown type

---
 core/src/base/ModelBuilder.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 9311053..54005bc 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -111,6 +111,10 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
         const BrickSettings& brickSettings = modelSettings.GetSubBasinBrickSettings(iBrick);
 
         auto brickPtr = Brick::Factory(brickSettings);
+        if (!brickPtr) {
+            throw ModelConfigError(std::format("The type '{}' of the brick '{}' is not recognized.", brickSettings.type,
+                                               brickSettings.name));
+        }
         Brick* brick = brickPtr.get();
         brick->SetName(brickSettings.name);
         brick->SetParameters(brickSettings);
@@ -138,6 +142,10 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
         const SplitterSettings& splitterSettings = modelSettings.GetSubBasinSplitterSettings(iSplitter);
 
         auto splitterPtr = Splitter::Factory(splitterSettings);
+        if (!splitterPtr) {
+            throw ModelConfigError(std::format("The type '{}' of the splitter '{}' is not recognized.",
+                                               splitterSettings.type, splitterSettings.name));
+        }
         Splitter* splitter = splitterPtr.get();
         splitter->SetName(splitterSettings.name);
         splitter->SetParameters(splitterSettings);
@@ -183,6 +191,10 @@ void ModelBuilder::CreateHydroUnitsComponents(SettingsModel& modelSettings) {
             const SplitterSettings& splitterSettings = modelSettings.GetHydroUnitSplitterSettings(iSplitter);
 
             auto splitterPtr = Splitter::Factory(splitterSettings);
+            if (!splitterPtr) {
+                throw ModelConfigError(std::format("The type '{}' of the splitter '{}' is not recognized.",
+                                                   splitterSettings.type, splitterSettings.name));
+            }
             Splitter* splitter = splitterPtr.get();
             splitter->SetName(splitterSettings.name);
             splitter->SetParameters(splitterSettings);
@@ -209,6 +221,10 @@ void ModelBuilder::CreateHydroUnitBrick(SettingsModel& modelSettings, HydroUnit*
     const BrickSettings& brickSettings = modelSettings.GetHydroUnitBrickSettings(iBrick);
 
     auto brickPtr = std::unique_ptr<Brick>(Brick::Factory(brickSettings));
+    if (!brickPtr) {
+        throw ModelConfigError(std::format("The type '{}' of the brick '{}' is not recognized.", brickSettings.type,
+                                           brickSettings.name));
+    }
     Brick* brick = brickPtr.get();
     brick->SetName(brickSettings.name);
     brick->SetParameters(brickSettings);
-- 
2.43.0


From 2594d9a0af3b33c977a38154f78e899f2f18277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 29/49] fix: record only the sub-basin components of the
 structure the sub-basin is built from

---
 core/src/base/SettingsModel.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/base/SettingsModel.cpp b/core/src/base/SettingsModel.cpp
index d015b3c..43b0a28 100644
--- a/core/src/base/SettingsModel.cpp
+++ b/core/src/base/SettingsModel.cpp
@@ -873,9 +873,8 @@ vecStr SettingsModel::GetSelectedStructureLandCoverNames() const {
 vecStr SettingsModel::GetSubBasinLogLabels() const {
     assert(_selectedStructure);
 
-    // Union of the sub-basin log labels across structure variants (first-seen
-    // order). The sub-basin is catchment-level and normally shared, so this is
-    // typically a single structure's worth of labels.
+    // The sub-basin is catchment-level and built from the primary structure (1) only:
+    // components that only another variant declares do not exist in the model.
     vecStr logNames;
     std::set<string> seen;
     auto add = [&logNames, &seen](const string& name) {
@@ -884,7 +883,8 @@ vecStr SettingsModel::GetSubBasinLogLabels() const {
         }
     };
 
-    for (auto& modelStructure : _modelStructures) {
+    if (!_modelStructures.empty()) {
+        const auto& modelStructure = _modelStructures.front();
         for (auto& brick : modelStructure.subBasinBricks) {
             for (const auto& label : brick.logItems) {
                 add(brick.name + ":" + label);
-- 
2.43.0


From 6b079193497ac429d52922e2e382c9efb45c0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 30/49] fix: refuse to attach forcing data to a model whose
 initialization failed

---
 core/src/base/ModelHydro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 5dc95e8..e93d901 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -352,7 +352,7 @@ void ModelHydro::ClearTimeSeries() {
 }
 
 bool ModelHydro::AttachTimeSeriesToHydroUnits() {
-    if (!_subBasin) {
+    if (!_subBasin || !_isInitialized) {
         LogError("The model has not been initialized.");
         return false;
     }
-- 
2.43.0


From 8e3549f78bbff7360bd05590b7a30e03ef7bf0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 31/49] fix: keep glacier extents taken from the lookup tables
 over resets and avoid undefined ice

An extent that only the lookup table gives (declared fraction 0) was lost by the
spin-up and by a reset. A unit listed without glacier area got NaN as ice content,
and the area scaling divided the ice left by an area of zero.
---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 8 +++++++-
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index 119a76f..2d096f7 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -45,6 +45,8 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
             if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
                 return false;
             }
+            // The extent given by the table is the one to start every run from.
+            unit->SaveAsInitialState();
         } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
             LogError(
                 "The glacier area fraction in hydro unit %d does not match the lookup table "
@@ -59,7 +61,7 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
             LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
             return false;
         }
-        double iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        double iceWE = NearlyZero(areaRef, PRECISION) ? 0.0 : _tableVolume(0, i) * constants::iceDensity / areaRef;
         brick->UpdateContent(iceWE, ContentType::Ice);
         brick->SetInitialState(iceWE, ContentType::Ice);
     }
@@ -107,6 +109,10 @@ bool ActionGlacierEvolutionAreaScaling::Apply(double) {
 
         // Update the glacier area.
         double newArea = _tableArea(row, i);
+        if (NearlyZero(newArea, PRECISION)) {
+            // The ice that is left needs an area: keep the current one until it has melted.
+            continue;
+        }
         double newFraction = newArea / unit->GetArea();
         newFraction = CheckLandCoverAreaFraction(_landCoverName, id, newFraction, unit->GetArea(), newArea);
         assert(newFraction >= 0 && newFraction <= 1);
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index ea2f6f7..02c3ec5 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -47,6 +47,8 @@ bool ActionGlacierEvolutionDeltaH::Init() {
             if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
                 return false;
             }
+            // The extent given by the table is the one to start every run from.
+            unit->SaveAsInitialState();
         } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
             LogError(
                 "The glacier area fraction in hydro unit %d does not match the lookup table "
@@ -61,7 +63,7 @@ bool ActionGlacierEvolutionDeltaH::Init() {
             LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
             return false;
         }
-        double iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        double iceWE = NearlyZero(areaRef, PRECISION) ? 0.0 : _tableVolume(0, i) * constants::iceDensity / areaRef;
         brick->UpdateContent(iceWE, ContentType::Ice);
         brick->SetInitialState(iceWE, ContentType::Ice);
     }
-- 
2.43.0


From b5aaad6310d5ff60c18987e6357b6ef408757cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:59 +0000
Subject: [PATCH 32/49] fix: apply the delta-h extent of the current row
 whatever row was applied last

The row applied last is not the current extent when the initial state was saved
with another extent or when another action evolves the same glacier: the extent
stayed while the ice was spread for the new one, so ice was lost or gained.
---
 .../actions/ActionGlacierEvolutionDeltaH.cpp  | 26 ++++++++-----------
 .../actions/ActionGlacierEvolutionDeltaH.h    |  1 -
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index 02c3ec5..2656d29 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -73,9 +73,7 @@ bool ActionGlacierEvolutionDeltaH::Init() {
 
 void ActionGlacierEvolutionDeltaH::Reset() {
     // The glacier extent and ice volume are restored from the model's saved initial
-    // state (Glacier::Reset); only the lookup-table cursor needs resetting so the next
-    // run re-applies the evolution from the initial (full-glacier) row.
-    _lastRow = 0;
+    // state (Glacier::Reset); this action keeps no per-run bookkeeping to reset.
 }
 
 bool ActionGlacierEvolutionDeltaH::Apply(double) {
@@ -108,19 +106,17 @@ bool ActionGlacierEvolutionDeltaH::Apply(double) {
     // Get corresponding row in the lookup table.
     int row = static_cast<int>(glacierRetreatPc / rowPcIncrement);
 
-    // Update the glacier area for each hydro unit if the row has changed.
-    if (row != _lastRow) {
-        for (int i = 0; i < _hydroUnitIds.size(); ++i) {
-            int id = _hydroUnitIds[i];
-            HydroUnit* unit = subBasin->GetHydroUnitById(id);
-            double fraction = _tableArea(row, i) / unit->GetArea();
-            fraction = CheckLandCoverAreaFraction(_landCoverName, id, fraction, unit->GetArea(), _tableArea(row, i));
-            assert(fraction >= 0 && fraction <= 1);
-            if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
-                return false;
-            }
+    // Update the glacier area for each hydro unit. The current extent is not necessarily
+    // the one of the row applied last (other actions, saved initial states).
+    for (int i = 0; i < _hydroUnitIds.size(); ++i) {
+        int id = _hydroUnitIds[i];
+        HydroUnit* unit = subBasin->GetHydroUnitById(id);
+        double fraction = _tableArea(row, i) / unit->GetArea();
+        fraction = CheckLandCoverAreaFraction(_landCoverName, id, fraction, unit->GetArea(), _tableArea(row, i));
+        assert(fraction >= 0 && fraction <= 1);
+        if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
+            return false;
         }
-        _lastRow = row;
     }
 
     // Update the glacier water equivalent for each hydro unit to spread the glacier ice accordingly.
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.h b/core/src/actions/ActionGlacierEvolutionDeltaH.h
index e1cd801..58e83ce 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.h
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.h
@@ -80,7 +80,6 @@ class ActionGlacierEvolutionDeltaH : public Action {
     }
 
   protected:
-    int _lastRow{0};
     string _landCoverName;
     axi _hydroUnitIds;
     axxd _tableArea;
-- 
2.43.0


From bdc1d9eb77cfff8469f998403975e8b980f119cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 33/49] fix: make the log level atomic so that it can be
 changed while other threads log

---
 core/src/base/Log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/base/Log.cpp b/core/src/base/Log.cpp
index 0cdb2de..65ca55f 100644
--- a/core/src/base/Log.cpp
+++ b/core/src/base/Log.cpp
@@ -1,5 +1,6 @@
 #include "Log.h"
 
+#include <atomic>
 #include <fstream>
 #include <iostream>
 #include <mutex>
@@ -8,7 +9,7 @@
 namespace {
 
 struct LogState {
-    LogLevel level = LogLevel::Message;
+    std::atomic<LogLevel> level = LogLevel::Message;
     std::ofstream logFile;
     std::mutex mutex;
 };
-- 
2.43.0


From e5417341f397732ba02d553305528310d0ac24bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 34/49] fix: do not keep recorded values of a previous run over
 a reset

---
 core/src/base/Logger.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/src/base/Logger.cpp b/core/src/base/Logger.cpp
index e605bdf..013b17d 100644
--- a/core/src/base/Logger.cpp
+++ b/core/src/base/Logger.cpp
@@ -22,7 +22,7 @@ void Logger::InitContainers(int timeSize, SubBasin* subBasin, SettingsModel& mod
     vecDouble hydroUnitAreas = subBasin->GetHydroUnitAreas();
     vecStr subBasinLabels = modelSettings.GetSubBasinLogLabels();
     vecStr hydroUnitLabels = modelSettings.GetHydroUnitLogLabels();
-    _time.resize(timeSize);
+    _time = axd::Ones(timeSize) * NAN_D;
     _subBasinLabels = subBasinLabels;
     _subBasinInitialValues = axd::Ones(subBasinLabels.size()) * NAN_D;
     _subBasinValues = vecAxd(subBasinLabels.size(), axd::Ones(timeSize) * NAN_D);
@@ -47,6 +47,22 @@ void Logger::InitContainers(int timeSize, SubBasin* subBasin, SettingsModel& mod
 
 void Logger::Reset() {
     _cursor = 0;
+
+    // Drop what was recorded: a later run that stops halfway must not leave values of a previous one.
+    _time.fill(NAN_D);
+    _subBasinInitialValues.fill(NAN_D);
+    for (auto& values : _subBasinValues) {
+        values.fill(NAN_D);
+    }
+    for (auto& values : _hydroUnitInitialValues) {
+        values.fill(NAN_D);
+    }
+    for (auto& values : _hydroUnitValues) {
+        values.fill(NAN_D);
+    }
+    for (auto& values : _hydroUnitFractions) {
+        values.fill(NAN_D);
+    }
 }
 
 void Logger::SetSubBasinValuePointer(int iLabel, double* valPt) {
-- 
2.43.0


From 23682e967150afc359797c0dc763423813cdca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 35/49] fix: do not index empty vectors when writing empty
 results

---
 core/src/base/FileNetcdf.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/src/base/FileNetcdf.cpp b/core/src/base/FileNetcdf.cpp
index 35a0760..959349f 100644
--- a/core/src/base/FileNetcdf.cpp
+++ b/core/src/base/FileNetcdf.cpp
@@ -169,26 +169,26 @@ axxd FileNetcdf::GetVarDouble2D(int varId, int rows, int cols) const {
 }
 
 void FileNetcdf::PutVar(int varId, const vecInt& values) {
-    CheckNcStatus(nc_put_var_int(_ncId, varId, &values[0]));
+    CheckNcStatus(nc_put_var_int(_ncId, varId, values.data()));
 }
 
 void FileNetcdf::PutVar(int varId, const vecFloat& values) {
-    CheckNcStatus(nc_put_var_float(_ncId, varId, &values[0]));
+    CheckNcStatus(nc_put_var_float(_ncId, varId, values.data()));
 }
 
 void FileNetcdf::PutVar(int varId, const vecDouble& values) {
-    CheckNcStatus(nc_put_var_double(_ncId, varId, &values[0]));
+    CheckNcStatus(nc_put_var_double(_ncId, varId, values.data()));
 }
 
 void FileNetcdf::PutVar(int varId, const axd& values) {
-    CheckNcStatus(nc_put_var_double(_ncId, varId, &values[0]));
+    CheckNcStatus(nc_put_var_double(_ncId, varId, values.data()));
 }
 
 void FileNetcdf::PutVar(int varId, const vecAxd& values) {
     for (size_t i = 0; i < values.size(); ++i) {
         size_t start[] = {i, 0};
         size_t count[] = {1, (size_t)values[i].size()};
-        CheckNcStatus(nc_put_vara_double(_ncId, varId, start, count, &values[i](0)));
+        CheckNcStatus(nc_put_vara_double(_ncId, varId, start, count, values[i].data()));
     }
 }
 
@@ -196,7 +196,7 @@ void FileNetcdf::PutVar(int varId, const vecAxxd& values) {
     for (size_t i = 0; i < values.size(); ++i) {
         size_t start[] = {i, 0, 0};
         size_t count[] = {1, (size_t)values[i].cols(), (size_t)values[i].rows()};
-        CheckNcStatus(nc_put_vara_double(_ncId, varId, start, count, &values[i](0, 0)));
+        CheckNcStatus(nc_put_vara_double(_ncId, varId, start, count, values[i].data()));
     }
 }
 
@@ -244,7 +244,7 @@ void FileNetcdf::PutAttString(const string& attName, const vecStr& values, int v
         const char* str = static_cast<const char*>(label.c_str());
         valuesChar.push_back(str);
     }
-    CheckNcStatus(nc_put_att_string(_ncId, varId, attName.c_str(), values.size(), &valuesChar[0]));
+    CheckNcStatus(nc_put_att_string(_ncId, varId, attName.c_str(), values.size(), valuesChar.data()));
 }
 
 string FileNetcdf::GetAttText(const string& attName, const string& varName) const {
-- 
2.43.0


From 6de738a2f595c006ecb18fca01607d7d7b3666d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 36/49] fix: write the dates and values of the CSV output in
 full precision

---
 core/src/base/ResultWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/base/ResultWriter.cpp b/core/src/base/ResultWriter.cpp
index d173bee..be470f9 100644
--- a/core/src/base/ResultWriter.cpp
+++ b/core/src/base/ResultWriter.cpp
@@ -115,9 +115,9 @@ bool ResultWriter::WriteCSV(const string& path, const axd& time, const vecStr& l
 
         // Write data
         for (int t = 0; t < time.size(); ++t) {
-            outFile << time[t];
+            outFile << std::format("{}", time[t]);
             for (int i = 0; i < values.size(); ++i) {
-                outFile << "," << values[i][t];
+                outFile << std::format(",{}", values[i][t]);
             }
             outFile << "\n";
         }
-- 
2.43.0


From e4dde3ca8dcd84ac7478c548e6151a1d6d8ae26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 37/49] fix: report a CSV output that could not be written
 completely

---
 core/src/base/ResultWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/base/ResultWriter.cpp b/core/src/base/ResultWriter.cpp
index be470f9..10f3449 100644
--- a/core/src/base/ResultWriter.cpp
+++ b/core/src/base/ResultWriter.cpp
@@ -124,6 +124,11 @@ bool ResultWriter::WriteCSV(const string& path, const axd& time, const vecStr& l
 
         outFile.close();
 
+        if (!outFile) {
+            LogError("Could not write file {}.", filePath);
+            return false;
+        }
+
     } catch (std::exception& e) {
         LogError(e.what());
         return false;
-- 
2.43.0


From c7f5c54050172d26fc4d1a63d36fdb0a9364b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 38/49] fix: report results that could not be written when
 closing the file instead of terminating

---
 core/src/base/FileNetcdf.cpp   | 9 +++++++--
 core/src/base/ResultWriter.cpp | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/base/FileNetcdf.cpp b/core/src/base/FileNetcdf.cpp
index 959349f..abf4786 100644
--- a/core/src/base/FileNetcdf.cpp
+++ b/core/src/base/FileNetcdf.cpp
@@ -7,7 +7,11 @@ FileNetcdf::FileNetcdf()
 
 FileNetcdf::~FileNetcdf() {
     if (_ncId >= 0) {
-        CheckNcStatus(nc_close(_ncId));
+        // A destructor must not throw
+        int status = nc_close(_ncId);
+        if (status != NC_NOERR) {
+            LogError("NetCDF error: {}", nc_strerror(status));
+        }
     }
 }
 
@@ -43,8 +47,9 @@ bool FileNetcdf::Create(const string& path) {
 }
 
 void FileNetcdf::Close() {
-    CheckNcStatus(nc_close(_ncId));
+    int ncId = _ncId;
     _ncId = -1;
+    CheckNcStatus(nc_close(ncId));
 }
 
 int FileNetcdf::GetVariableCount() const {
diff --git a/core/src/base/ResultWriter.cpp b/core/src/base/ResultWriter.cpp
index 10f3449..144aa4a 100644
--- a/core/src/base/ResultWriter.cpp
+++ b/core/src/base/ResultWriter.cpp
@@ -79,6 +79,9 @@ bool ResultWriter::WriteNetCDF(const string& path, const axd& time, const vecInt
             file.PutAttString("labels_land_covers", hydroUnitFractionLabels);
         }
 
+        // Most of the data are only written on closing
+        file.Close();
+
     } catch (std::exception& e) {
         LogError(e.what());
         return false;
-- 
2.43.0


From c9a38c10f0645c2fb0c567bfc14b650d063f6256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 39/49] fix: build results files in memory so that a failing
 disk cannot end the process in the HDF5 library

---
 core/src/base/FileNetcdf.cpp | 33 ++++++++++++++++++++++++++++-----
 core/src/base/FileNetcdf.h   |  2 ++
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/core/src/base/FileNetcdf.cpp b/core/src/base/FileNetcdf.cpp
index abf4786..d6dfb00 100644
--- a/core/src/base/FileNetcdf.cpp
+++ b/core/src/base/FileNetcdf.cpp
@@ -1,6 +1,7 @@
 #include "FileNetcdf.h"
 
 #include <filesystem>
+#include <fstream>
 
 FileNetcdf::FileNetcdf()
     : _ncId(-1) {}
@@ -8,9 +9,9 @@ FileNetcdf::FileNetcdf()
 FileNetcdf::~FileNetcdf() {
     if (_ncId >= 0) {
         // A destructor must not throw
-        int status = nc_close(_ncId);
-        if (status != NC_NOERR) {
-            LogError("NetCDF error: {}", nc_strerror(status));
+        try {
+            Close();
+        } catch (const std::exception&) {
         }
     }
 }
@@ -41,7 +42,13 @@ bool FileNetcdf::Create(const string& path) {
         return false;
     }
 
-    CheckNcStatus(nc_create(path.c_str(), NC_NETCDF4 | NC_CLOBBER, &_ncId));
+    // The file is built in memory and written at once when closed: the HDF5 library does not survive all the
+    // disk errors it meets while closing a file, and keeps a file it could not close as opened.
+    if (!std::ofstream(path, std::ios::out | std::ios::binary | std::ios::trunc)) {
+        throw RuntimeError(std::format("The file {} could not be created.", path));
+    }
+    CheckNcStatus(nc_create_mem(path.c_str(), NC_NETCDF4, 0, &_ncId));
+    _createdPath = path;
 
     return true;
 }
@@ -49,7 +56,23 @@ bool FileNetcdf::Create(const string& path) {
 void FileNetcdf::Close() {
     int ncId = _ncId;
     _ncId = -1;
-    CheckNcStatus(nc_close(ncId));
+
+    if (_createdPath.empty()) {
+        CheckNcStatus(nc_close(ncId));
+        return;
+    }
+
+    NC_memio content{};
+    CheckNcStatus(nc_close_memio(ncId, &content));
+    std::ofstream outFile(_createdPath, std::ios::out | std::ios::binary | std::ios::trunc);
+    outFile.write(static_cast<const char*>(content.memory), static_cast<std::streamsize>(content.size));
+    outFile.close();
+    free(content.memory);
+    if (!outFile) {
+        string msg = std::format("The file {} could not be written.", _createdPath);
+        LogError(msg);
+        throw RuntimeError(msg);
+    }
 }
 
 int FileNetcdf::GetVariableCount() const {
diff --git a/core/src/base/FileNetcdf.h b/core/src/base/FileNetcdf.h
index a2b6d7d..eb724b8 100644
--- a/core/src/base/FileNetcdf.h
+++ b/core/src/base/FileNetcdf.h
@@ -2,6 +2,7 @@
 #define HYDROBRICKS_FILE_NETCDF_H
 
 #include <netcdf.h>
+#include <netcdf_mem.h>
 
 #include "Includes.h"
 
@@ -262,6 +263,7 @@ class FileNetcdf {
 
   protected:
     int _ncId;
+    string _createdPath;  // of a file being created
 
   private:
     /**
-- 
2.43.0


From 29f440e881ab76c7e36271733218cb6363442dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 40/49] fix: leave the basin settings and the time series
 untouched when a file cannot be read

---
 core/src/base/SettingsBasin.cpp | 11 +++++++----
 core/src/base/TimeSeries.cpp    |  7 +++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/core/src/base/SettingsBasin.cpp b/core/src/base/SettingsBasin.cpp
index 2791f08..1025e02 100644
--- a/core/src/base/SettingsBasin.cpp
+++ b/core/src/base/SettingsBasin.cpp
@@ -92,12 +92,13 @@ bool SettingsBasin::Parse(const string& path) {
         // Get areas
         vecDouble areas = file.GetVarDouble1D("area", unitCount);
 
-        // Store hydro units
+        // Store hydro units (added to the basin once the whole file has been read)
+        vector<HydroUnitSettings> hydroUnits;
         for (int iUnit = 0; iUnit < unitCount; ++iUnit) {
             HydroUnitSettings unit;
             unit.id = ids[iUnit];
             unit.area = areas[iUnit];
-            _hydroUnits.push_back(unit);
+            hydroUnits.push_back(unit);
         }
 
         // Get land cover data
@@ -112,7 +113,7 @@ bool SettingsBasin::Parse(const string& path) {
                 element.name = cover;
                 element.type = type;
                 element.fraction = fractions[iUnit];
-                _hydroUnits[iUnit].landCovers.push_back(element);
+                hydroUnits[iUnit].landCovers.push_back(element);
             }
         }
 
@@ -140,10 +141,12 @@ bool SettingsBasin::Parse(const string& path) {
                 prop.name = varName;
                 prop.value = values[iUnit];
                 prop.unit = "";
-                _hydroUnits[iUnit].propertiesDouble.push_back(prop);
+                hydroUnits[iUnit].propertiesDouble.push_back(prop);
             }
         }
 
+        _hydroUnits.insert(_hydroUnits.end(), hydroUnits.begin(), hydroUnits.end());
+
     } catch (std::exception& e) {
         LogError(e.what());
         return false;
diff --git a/core/src/base/TimeSeries.cpp b/core/src/base/TimeSeries.cpp
index d926979..2ca5f4d 100644
--- a/core/src/base/TimeSeries.cpp
+++ b/core/src/base/TimeSeries.cpp
@@ -36,6 +36,9 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
 
         int dimIdTime = file.GetDimId("time");
 
+        // The series are handed over once the whole file has been read.
+        vector<std::unique_ptr<TimeSeries>> fileTimeSeries;
+
         for (int iVar = 0; iVar < varCount; ++iVar) {
             // Get variable name
             string varName = file.GetVarName(iVar);
@@ -76,6 +79,10 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                 }
             }
 
+            fileTimeSeries.push_back(std::move(timeSeries));
+        }
+
+        for (auto& timeSeries : fileTimeSeries) {
             vecTimeSeries.push_back(std::move(timeSeries));
         }
 
-- 
2.43.0


From 028c050a0547d4a0236a66afc9c420828f4dd11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 41/49] fix: check the dimensions of the variables of a file
 before reading them into memory

---
 core/src/base/FileNetcdf.cpp    | 40 +++++++++++++++++++++++++++++----
 core/src/base/FileNetcdf.h      | 16 +++++++++++++
 core/src/base/SettingsBasin.cpp |  4 ++++
 3 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/core/src/base/FileNetcdf.cpp b/core/src/base/FileNetcdf.cpp
index d6dfb00..d83b8d2 100644
--- a/core/src/base/FileNetcdf.cpp
+++ b/core/src/base/FileNetcdf.cpp
@@ -24,6 +24,22 @@ void FileNetcdf::CheckNcStatus(int status) const {
     }
 }
 
+void FileNetcdf::CheckVarSize(int varId, size_t size) const {
+    size_t varSize = 1;
+    vecInt dimIds = GetVarDimIds(varId, GetVarDimCount(varId));
+    for (int dimId : dimIds) {
+        size_t dimLen;
+        CheckNcStatus(nc_inq_dimlen(_ncId, dimId, &dimLen));
+        varSize *= dimLen;
+    }
+
+    if (varSize != size) {
+        string msg = std::format("The variable {} has {} values instead of {}.", GetVarName(varId), varSize, size);
+        LogError(msg);
+        throw RuntimeError(msg);
+    }
+}
+
 bool FileNetcdf::OpenReadOnly(const string& path) {
     if (!std::filesystem::exists(path)) {
         LogError("The file {} could not be found.", path);
@@ -96,9 +112,21 @@ string FileNetcdf::GetVarName(int varId) const {
     return {varNameChar};
 }
 
+int FileNetcdf::GetVarDimCount(int varId) const {
+    int dimCount;
+    CheckNcStatus(nc_inq_varndims(_ncId, varId, &dimCount));
+
+    return dimCount;
+}
+
 vecInt FileNetcdf::GetVarDimIds(int varId, int dimCount) const {
+    if (GetVarDimCount(varId) != dimCount) {
+        throw RuntimeError(
+            std::format("The variable {} does not have the expected {} dimensions.", GetVarName(varId), dimCount));
+    }
+
     vecInt dimIds(dimCount);
-    CheckNcStatus(nc_inq_vardimid(_ncId, varId, &dimIds[0]));
+    CheckNcStatus(nc_inq_vardimid(_ncId, varId, dimIds.data()));
 
     return dimIds;
 }
@@ -164,7 +192,8 @@ vecInt FileNetcdf::GetVarInt1D(const string& varName, int size) const {
     vecInt items(size);
 
     CheckNcStatus(nc_inq_varid(_ncId, varName.c_str(), &varId));
-    CheckNcStatus(nc_get_var_int(_ncId, varId, &items[0]));
+    CheckVarSize(varId, items.size());
+    CheckNcStatus(nc_get_var_int(_ncId, varId, items.data()));
 
     return items;
 }
@@ -174,7 +203,8 @@ vecFloat FileNetcdf::GetVarFloat1D(const string& varName, int size) const {
     vecFloat items(size);
 
     CheckNcStatus(nc_inq_varid(_ncId, varName.c_str(), &varId));
-    CheckNcStatus(nc_get_var_float(_ncId, varId, &items[0]));
+    CheckVarSize(varId, items.size());
+    CheckNcStatus(nc_get_var_float(_ncId, varId, items.data()));
 
     return items;
 }
@@ -184,13 +214,15 @@ vecDouble FileNetcdf::GetVarDouble1D(const string& varName, int size) const {
     vecDouble items(size);
 
     CheckNcStatus(nc_inq_varid(_ncId, varName.c_str(), &varId));
-    CheckNcStatus(nc_get_var_double(_ncId, varId, &items[0]));
+    CheckVarSize(varId, items.size());
+    CheckNcStatus(nc_get_var_double(_ncId, varId, items.data()));
 
     return items;
 }
 
 axxd FileNetcdf::GetVarDouble2D(int varId, int rows, int cols) const {
     axxd values = axxd::Zero((long long)rows, (long long)cols);
+    CheckVarSize(varId, values.size());
     CheckNcStatus(nc_get_var_double(_ncId, varId, values.data()));
 
     return values;
diff --git a/core/src/base/FileNetcdf.h b/core/src/base/FileNetcdf.h
index eb724b8..66c2605 100644
--- a/core/src/base/FileNetcdf.h
+++ b/core/src/base/FileNetcdf.h
@@ -56,6 +56,14 @@ class FileNetcdf {
      */
     string GetVarName(int varId) const;
 
+    /**
+     * Get the number of dimensions of the provided variable.
+     *
+     * @param varId The id of the variable of interest.
+     * @return The number of dimensions of the variable.
+     */
+    int GetVarDimCount(int varId) const;
+
     /**
      * Get the dimension ids of the provided variable.
      *
@@ -272,6 +280,14 @@ class FileNetcdf {
      * @param status The NetCDF status to check.
      */
     void CheckNcStatus(int status) const;
+
+    /**
+     * Check that a variable holds the expected number of values and throw an exception otherwise.
+     *
+     * @param varId The id of the variable.
+     * @param size The expected number of values.
+     */
+    void CheckVarSize(int varId, size_t size) const;
 };
 
 #endif  // HYDROBRICKS_FILE_NETCDF_H
diff --git a/core/src/base/SettingsBasin.cpp b/core/src/base/SettingsBasin.cpp
index 1025e02..875dca9 100644
--- a/core/src/base/SettingsBasin.cpp
+++ b/core/src/base/SettingsBasin.cpp
@@ -129,6 +129,10 @@ bool SettingsBasin::Parse(const string& path) {
                 continue;
             }
 
+            if (file.GetVarDimCount(iVar) != 1) {
+                continue;
+            }
+
             vecInt dimId = file.GetVarDimIds(iVar, 1);
             if (dimId[0] != dimIdHydroUnits) {
                 continue;
-- 
2.43.0


From 232209c42d904a626ff902b650d684eb14a60bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:36 +0000
Subject: [PATCH 42/49] fix: read input files in memory so that a failing disk
 or a truncated file is reported instead of crashing or giving zeros

---
 core/src/base/FileNetcdf.cpp | 24 +++++++++++++++++++++++-
 core/src/base/FileNetcdf.h   |  3 ++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/core/src/base/FileNetcdf.cpp b/core/src/base/FileNetcdf.cpp
index d83b8d2..b90dae9 100644
--- a/core/src/base/FileNetcdf.cpp
+++ b/core/src/base/FileNetcdf.cpp
@@ -1,5 +1,6 @@
 #include "FileNetcdf.h"
 
+#include <cerrno>
 #include <filesystem>
 #include <fstream>
 
@@ -46,7 +47,28 @@ bool FileNetcdf::OpenReadOnly(const string& path) {
         return false;
     }
 
-    CheckNcStatus(nc_open(path.c_str(), NC_NOWRITE, &_ncId));
+    // The file is read into memory at once: the HDF5 library does not survive all the disk errors it meets after
+    // having opened a file, and the classic format is read as zeros beyond the end of a truncated file.
+    size_t size = std::filesystem::file_size(path);
+    std::ifstream inFile(path, std::ios::in | std::ios::binary);
+    _content.resize(size);
+    inFile.read(_content.data(), static_cast<std::streamsize>(size));
+    if (!inFile) {
+        string msg = std::format("The file {} could not be read.", path);
+        LogError(msg);
+        throw RuntimeError(msg);
+    }
+
+    int status = nc_open_mem(path.c_str(), NC_NOWRITE, size, _content.data(), &_ncId);
+    if (status == EPERM) {
+        // In the classic format, the library reads slightly ahead of the header, beyond the end of the smallest files.
+        _content.resize(size + 4);
+        status = nc_open_mem(path.c_str(), NC_NOWRITE, _content.size(), _content.data(), &_ncId);
+    }
+    if (status != NC_NOERR) {
+        _ncId = -1;
+    }
+    CheckNcStatus(status);
 
     return true;
 }
diff --git a/core/src/base/FileNetcdf.h b/core/src/base/FileNetcdf.h
index 66c2605..8a17a80 100644
--- a/core/src/base/FileNetcdf.h
+++ b/core/src/base/FileNetcdf.h
@@ -271,7 +271,8 @@ class FileNetcdf {
 
   protected:
     int _ncId;
-    string _createdPath;  // of a file being created
+    string _createdPath;    // of a file being created
+    vector<char> _content;  // of a file being read
 
   private:
     /**
-- 
2.43.0


From 450c25b7cc64734d21b0ecbb4855bacced105630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 43/49] fix: let the storage constraints settle when stores
 feed each other

---
 core/src/base/Processor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index 3e1b79a..6d91380 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -229,8 +229,9 @@ void Processor::EnforceConstraints(axd& rates, double timeStepInDays) {
     // already-swept brick sees (the rates are shared between the source and target
     // bricks), so a single sweep would depend on the brick iteration order; iterate the
     // sweep until the rates are stable instead. Convergence is typically reached after
-    // two sweeps (the second one confirming the first).
-    constexpr int maxSweeps = 10;
+    // two sweeps (the second one confirming the first). Stores that feed each other and
+    // are drained within the step need many more, each bringing a smaller correction.
+    constexpr int maxSweeps = 1000;
     for (int sweep = 0; sweep < maxSweeps; ++sweep) {
         _ratesBeforeSweep = rates;
         for (auto brick : _iterableBricks) {
-- 
2.43.0


From f9cc8d82f6037f9f477ae42adb274279aa5b5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:23 +0000
Subject: [PATCH 44/49] fix: give back the memory of the text attributes read
 from NetCDF files

---
 core/src/base/FileNetcdf.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/core/src/base/FileNetcdf.cpp b/core/src/base/FileNetcdf.cpp
index b90dae9..0a3430b 100644
--- a/core/src/base/FileNetcdf.cpp
+++ b/core/src/base/FileNetcdf.cpp
@@ -306,16 +306,18 @@ vecStr FileNetcdf::GetAttString1D(const string& attName, const string& varName)
     size_t itemCount;
     CheckNcStatus(nc_inq_attlen(_ncId, varId, attName.c_str(), &itemCount));
 
-    char** stringAtt = static_cast<char**>(malloc(itemCount * sizeof(char*)));
-    memset(stringAtt, 0, itemCount * sizeof(char*));
-    CheckNcStatus(nc_get_att_string(_ncId, varId, attName.c_str(), stringAtt));
+    vector<char*> stringAtt(itemCount, nullptr);
+    CheckNcStatus(nc_get_att_string(_ncId, varId, attName.c_str(), stringAtt.data()));
+
+    // The strings belong to the NetCDF library, the array holding them does not.
+    auto freeStrings = [itemCount](char** strings) { nc_free_string(itemCount, strings); };
+    std::unique_ptr<char*, decltype(freeStrings)> stringsGuard(stringAtt.data(), freeStrings);
 
     vecStr items;
     for (int i = 0; i < itemCount; ++i) {
         string attValue = string(stringAtt[i]);
         items.push_back(attValue);
     }
-    nc_free_string(itemCount, stringAtt);
 
     return items;
 }
@@ -338,13 +340,10 @@ string FileNetcdf::GetAttText(const string& attName, const string& varName) cons
     size_t attLen;
     CheckNcStatus(nc_inq_attlen(_ncId, varId, attName.c_str(), &attLen));
 
-    auto* text = new char[attLen + 1];
-    CheckNcStatus(nc_get_att_text(_ncId, varId, attName.c_str(), text));
-    text[attLen] = '\0';
-    string value = string(text);
-    delete[] text;
+    vector<char> text(attLen + 1, '\0');
+    CheckNcStatus(nc_get_att_text(_ncId, varId, attName.c_str(), text.data()));
 
-    return value;
+    return string(text.data());
 }
 
 void FileNetcdf::PutAttText(const string& attName, const string& value, int varId) {
-- 
2.43.0


From 6b1d7f808a70f0de51a6a9aeebca2b88023f5116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:23 +0000
Subject: [PATCH 45/49] fix: recognise the dates of varying parameters at
 sub-daily time steps

---
 core/src/base/ParameterModifier.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/base/ParameterModifier.cpp b/core/src/base/ParameterModifier.cpp
index 147b122..3a094e4 100644
--- a/core/src/base/ParameterModifier.cpp
+++ b/core/src/base/ParameterModifier.cpp
@@ -1,5 +1,11 @@
 #include "ParameterModifier.h"
 
+namespace {
+// Half a second: dates are compared at this resolution, as a date in days cannot hold
+// most hours and minutes exactly.
+constexpr double DATE_TOLERANCE = 0.5 / 86400.0;
+}  // namespace
+
 bool ParameterModifier::SetYearlyValues(int yearStart, int yearEnd, const vecFloat& values) {
     if (_type != ParameterModifierType::Yearly) {
         throw ModelConfigError("ParameterModifier::SetYearlyValues - Modifier type is not Yearly.");
@@ -82,7 +88,7 @@ float ParameterModifier::UpdateValue(double date) {
         case ParameterModifierType::Dates: {
             assert(!_dates.empty());
 
-            int i = Find(&_dates.front(), &_dates.back(), date);
+            int i = Find(&_dates.front(), &_dates.back(), date, DATE_TOLERANCE);
 
             if (i < 0) {
                 LogError("The given date was not found in the reference dates of the parameter.");
-- 
2.43.0


From 1d8a85568e1c9fc195edcbd03293e423aee65fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:28 +0000
Subject: [PATCH 46/49] fix: restore the corrected land cover fractions

Fractions that only nearly sum to one are corrected when the model is
initialised, but the reset and the end of the spin-up restored the
uncorrected ones: water then appeared or vanished, and a reset model
did not re-run as a fresh one.
---
 core/src/base/ModelHydro.cpp   | 3 +++
 core/src/spatial/HydroUnit.cpp | 6 ++++++
 core/src/spatial/HydroUnit.h   | 5 +++++
 core/src/spatial/SubBasin.cpp  | 6 ++++++
 core/src/spatial/SubBasin.h    | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index e93d901..590e6b8 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -69,6 +69,9 @@ ModelResult ModelHydro::Initialize(SettingsModel& modelSettings, SettingsBasin&
             return std::unexpected("Sub-basin failed validation after initialization.");
         }
 
+        // The validation corrects rounded fractions: the corrected extents are those to restore.
+        _subBasin->SaveInitialAreaFractions();
+
         builder.ConnectLoggerToValues(modelSettings);
     } catch (const std::exception& e) {
         return std::unexpected(std::format("Model initialization failed: {}", e.what()));
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index f1d742a..db8794a 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -474,6 +474,12 @@ void HydroUnit::RestoreInitialAreaFractions() {
     }
 }
 
+void HydroUnit::SaveInitialAreaFractions() {
+    for (auto brick : _landCoverBricks) {
+        brick->SetInitialAreaFraction(brick->GetAreaFraction());
+    }
+}
+
 bool HydroUnit::FixLandCoverFractionsTotal() {
     // The generic (soil) land cover absorbs the area changes.
     LandCover* ground = GetGenericLandCover();
diff --git a/core/src/spatial/HydroUnit.h b/core/src/spatial/HydroUnit.h
index 9e8bd43..4a91bcb 100644
--- a/core/src/spatial/HydroUnit.h
+++ b/core/src/spatial/HydroUnit.h
@@ -325,6 +325,11 @@ class HydroUnit {
      */
     void RestoreInitialAreaFractions();
 
+    /**
+     * Save the current area fractions of all land covers as the initial extents.
+     */
+    void SaveInitialAreaFractions();
+
     /**
      * Get the generic land cover that absorbs area changes ('open', or its
      * 'ground'/'generic'/'generic_land_cover' aliases).
diff --git a/core/src/spatial/SubBasin.cpp b/core/src/spatial/SubBasin.cpp
index 4100cf3..eab7cd3 100644
--- a/core/src/spatial/SubBasin.cpp
+++ b/core/src/spatial/SubBasin.cpp
@@ -127,6 +127,12 @@ void SubBasin::RestoreInitialAreaFractions() {
     }
 }
 
+void SubBasin::SaveInitialAreaFractions() {
+    for (const auto& hydroUnit : _hydroUnits) {
+        hydroUnit->SaveInitialAreaFractions();
+    }
+}
+
 bool SubBasin::IsValid(bool checkProcesses) const {
     if (_hydroUnits.empty()) {
         LogError("The sub basin has no hydro unit attached.");
diff --git a/core/src/spatial/SubBasin.h b/core/src/spatial/SubBasin.h
index eb54528..d666519 100644
--- a/core/src/spatial/SubBasin.h
+++ b/core/src/spatial/SubBasin.h
@@ -117,6 +117,11 @@ class SubBasin {
      */
     void RestoreInitialAreaFractions();
 
+    /**
+     * Save the current area fractions of all land covers as the initial extents.
+     */
+    void SaveInitialAreaFractions();
+
     /**
      * Check if the sub basin is correctly defined.
      *
-- 
2.43.0


From 861d9f632fc041eef8af154e3145226c2f3e47fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:28 +0000
Subject: [PATCH 47/49] fix: give no area to an absent land cover when
 correcting fractions

The correction of fractions that sum to slightly less than one went to
the first land cover, also when the hydro unit does not have it.
---
 core/src/spatial/HydroUnit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index db8794a..ccd6dd8 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -326,7 +326,7 @@ bool HydroUnit::IsValid(bool checkProcesses) const {
 
             // Assign the difference to the first land cover brick with a positive area fraction.
             for (auto brick : _landCoverBricks) {
-                if (brick->GetAreaFraction() > diff) {
+                if (brick->GetAreaFraction() > std::max(diff, 0.0)) {
                     brick->SetAreaFraction(brick->GetAreaFraction() - diff);
                     break;
                 }
-- 
2.43.0


From 7d457789ae2c421ee0aa07c260f8de9025b2f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:10 +0000
Subject: [PATCH 48/49] fix: let an update of the parameters end the infinite
 storage of a glacier

---
 core/src/bricks/Glacier.cpp          | 5 ++---
 core/src/containers/WaterContainer.h | 6 ++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/bricks/Glacier.cpp b/core/src/bricks/Glacier.cpp
index 1f91945..0301656 100644
--- a/core/src/bricks/Glacier.cpp
+++ b/core/src/bricks/Glacier.cpp
@@ -22,9 +22,8 @@ void Glacier::SetParameters(const BrickSettings& brickSettings) {
     Brick::SetParameters(brickSettings);
     if (HasParameter(brickSettings, "infinite_storage")) {
         const float* valPtr = GetParameterValuePointer(brickSettings, "infinite_storage");
-        if (valPtr && !NearlyZero(*valPtr, EPSILON_F)) {
-            _ice->SetAsInfiniteStorage();
-        }
+        // The value can be updated in both directions.
+        _ice->SetAsInfiniteStorage(valPtr && !NearlyZero(*valPtr, EPSILON_F));
     }
 
     if (HasParameter(brickSettings, "no_melt_when_snow_cover")) {
diff --git a/core/src/containers/WaterContainer.h b/core/src/containers/WaterContainer.h
index a305d0a..da8096d 100644
--- a/core/src/containers/WaterContainer.h
+++ b/core/src/containers/WaterContainer.h
@@ -113,9 +113,11 @@ class WaterContainer {
 
     /**
      * Set the water container as an infinite storage.
+     *
+     * @param infinite true if the storage is infinite.
      */
-    void SetAsInfiniteStorage() {
-        _infiniteStorage = true;
+    void SetAsInfiniteStorage(bool infinite = true) {
+        _infiniteStorage = infinite;
     }
 
     /**
-- 
2.43.0


From 159b9af58e9977d659c1ce91a344bc9bb936f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:35 +0000
Subject: [PATCH 49/49] fix: inject the groundwater exchange of GR4J once per
 time step whatever the solver

---
 core/src/processes/ProcessRoutingGR4J.cpp | 12 ++++++++----
 core/src/processes/ProcessRoutingGR4J.h   |  3 +++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index f75a3dd..bb2766a 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -44,6 +44,7 @@ void ProcessRoutingGR4J::Reset() {
     _qr = 0.0;
     _qd = 0.0;
     _processStorage = _initialProcessStorage;
+    _injectedExchange = 0;
 }
 
 void ProcessRoutingGR4J::SaveAsInitialState() {
@@ -124,13 +125,15 @@ const vecDouble& ProcessRoutingGR4J::GetRates() {
     // water never entered through the inflow PR. Inject the net exchange into the container so
     // the discharge it produces (positive X2) is backed by real water and is not capped by the
     // container's non-negativity constraint. The clamped contributions match the committed state
-    // computed in Finalize. Evaluated once per step (the brick is computed directly).
+    // computed in Finalize. A solver evaluates the rates several times per step: only the difference
+    // with what was already injected is added.
     if (_timeMachine != nullptr) {
         double exchangeToStore = r_pred - (_r + uh1_out);  // F applied to the routing store (clamped)
         double exchangeToDirect = _qd - uh2_out;           // F applied to the direct branch (clamped)
-        double netExchange = exchangeToStore + exchangeToDirect;
-        if (netExchange != 0.0) {
-            _container->AddAmountToStaticContentChange(netExchange * (*_timeMachine->GetTimeStepPointer()));
+        double netExchange = (exchangeToStore + exchangeToDirect) * (*_timeMachine->GetTimeStepPointer());
+        if (netExchange != _injectedExchange) {
+            _container->AddAmountToStaticContentChange(netExchange - _injectedExchange);
+            _injectedExchange = netExchange;
         }
     }
 
@@ -141,6 +144,7 @@ void ProcessRoutingGR4J::Finalize() {
     // Advance UH buffers and commit routing store update exactly once per timestep.
     // Called after all ApplyProcesses() have run, so SumIncomingFluxes() returns
     // the final, committed inflow for this timestep.
+    _injectedExchange = 0;
     if (_uhBaseTime == nullptr || _routingCapacity == nullptr || _exchangeFactor == nullptr) {
         return;
     }
diff --git a/core/src/processes/ProcessRoutingGR4J.h b/core/src/processes/ProcessRoutingGR4J.h
index 34d3abb..31104f4 100644
--- a/core/src/processes/ProcessRoutingGR4J.h
+++ b/core/src/processes/ProcessRoutingGR4J.h
@@ -82,6 +82,9 @@ class ProcessRoutingGR4J : public ProcessOutflow {
     // Cached total process-internal water storage for water balance logging
     double _processStorage;
 
+    // Groundwater exchange already injected into the container during the current time step [mm]
+    double _injectedExchange = 0;
+
     // State restored on reset
     vecDouble _initialStuh1;
     vecDouble _initialStuh2;
-- 
2.43.0

