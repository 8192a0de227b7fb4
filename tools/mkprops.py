#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in step with what is claimed).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
B="core/src/base/"
p("P01","The water balance closes over every run",
 "Over any run, the precipitation received by the basin equals the outlet discharge plus evapotranspiration and sublimation plus the change of all water, snow and ice stored (including water held in routing), to within floating-point rounding. This holds for every model structure, solver and time step, with land-cover changes scheduled at any date, with lateral transport between units, after a spin-up and on re-runs. The totals the model reports agree with the balance.",
 ["configurations","histories","schedules"],"all structures x solvers x time steps x event schedules x spin-up lengths x forcing sequences",
 "Tests check the balance of a handful of fixed structures over one month of constant-ish forcing; the solver/constraint/land-cover-change interplay is a product space they do not enter.",
 [B+"Processor.cpp",B+"Solver*.cpp","core/src/containers/WaterContainer.cpp","core/src/fluxes/*.cpp","core/src/spatial/HydroUnit.cpp",B+"Logger.cpp"],
 [("two-phase time step","Processor::ProcessTimeStep"),("rate constraints","WaterContainer::ApplyConstraints"),("area weighting","ModelBuilder::BuildHydroUnitBricksFluxes"),("totals","Logger::GetTotal*")])
p("P02","Storages and fluxes stay physical at every step",
 "At the end of every time step each storage content is finite and not negative (except stores documented as bottomless), never exceeds its declared capacity, and every flux between components is finite and not negative. No failure or undefined memory access occurs on valid input.",
 ["configurations","histories"],"every step of every run over structures x solvers x time steps x parameters x forcing extremes x event schedules",
 "Tests look at expected values of a few steps of a few structures; bounds must hold at every step of any parameter/forcing/step combination.",
 ["core/src/containers/WaterContainer.cpp",B+"Processor.cpp",B+"Solver*.cpp","core/src/processes/*.cpp"],
 [("constraints sweep","Processor::EnforceConstraints"),("finalize","WaterContainer::Finalize"),("rates","Process::GetRates overrides")])
p("P03","Land-cover changes keep fractions valid and conserve storage",
 "After any sequence of land-cover changes, at any dates, the cover fractions of every hydro unit lie in [0,1] and sum to one, and the water and snow stored in the unit are the same before and after each change. A change that cannot be honoured (unknown cover, fraction out of range, not enough generic cover) is refused and leaves fractions and storage as they were.",
 ["histories","schedules"],"all sequences of area changes over units x covers x dates, interleaved with simulation steps, including growth from and shrinkage to zero and refused changes",
 "Tests apply one or two changes to fixed content; conservation must hold for every sequence interleaved with the run's evolving storages.",
 ["core/src/spatial/HydroUnit.cpp","core/src/actions/ActionLandCoverChange.cpp","core/src/bricks/LandCover.cpp"],
 [("content transfer","HydroUnit::TransferLandCoverContent"),("fraction repair","HydroUnit::FixLandCoverFractionsTotal")])
p("P04","A reset model re-runs exactly as a fresh one",
 "After any history of completed runs, resetting a model and running it again gives bit-for-bit the outputs a freshly built identical model gives on its first run. This includes models whose land covers or glaciers evolve during the run, models with spin-up, and models with internal process memory.",
 ["histories","configurations"],"all histories of run/reset over structures x actions x spin-up x forcing replacement",
 "Calibration loops rely on it for thousands of runs; tests re-run two or three specific structures.",
 [B+"ModelHydro.cpp","core/src/bricks/*.cpp","core/src/processes/*.cpp",B+"Forcing.cpp","core/src/actions/*.cpp"],
 [("reset","ModelHydro::Reset, SubBasin::Reset, Brick::Reset, Process::Reset"),("action rollback","ActionsManager::Reset")])
p("P05","A run that fails is reported and does not poison the model",
 "When a run is interrupted by a failure at any point (forcing source failing, scheduled action failing or throwing, memory exhausted, impossible rates), in the main run or in the spin-up, the failure is reported to the caller and never ends the process. Afterwards, with the cause removed, resetting and running again gives bit-for-bit the outputs of a fresh model.",
 ["fault_sequences","crash_points","histories"],"every failure kind x every step (or allocation) at which it can strike x model structures x spin-up x event schedules",
 "Tests contain no failing forcing, action or allocation during a run.",
 [B+"ModelHydro.cpp",B+"TimeMachine.cpp",B+"Forcing.cpp","core/src/actions/ActionsManager.cpp","core/src/spatial/SubBasin.cpp"],
 [("spin-up detach/attach","ModelHydro::RunSpinup"),("reset","ModelHydro::Reset"),("updated forcing values","Forcing::UpdateValue/ResetUpdate")])
p("P06","Scheduled actions fire exactly once, in order, on time",
 "Every scheduled change dated within the simulated period takes effect exactly once, at the first step boundary at or after its date and never before, and changes take effect in date order; a yearly recurring action takes effect once for each occurrence of its date. This does not depend on the order in which actions or dates were added, on the time step, on spin-up (during which nothing fires) or on earlier runs of the same model.",
 ["schedules","histories","configurations"],"all sets of actions and dates x insertion orders x time steps (sub-daily to multi-day) x spin-up x re-runs",
 "Tests use one insertion order, daily steps and one run.",
 ["core/src/actions/ActionsManager.cpp","core/src/actions/Action.cpp",B+"TimeMachine.cpp"],
 [("event queue","ActionsManager::AddAction/DateUpdate"),("recurrence","Action::ApplyIfRecursive"),("clock","TimeMachine::IncrementTime")])
p("P07","Spin-up only warms up the storages",
 "A run with spin-up gives exactly the outputs of a plain run that starts from the storage state reached by simulating the first part of the period once beforehand without scheduled changes. Spin-up never fires actions, records nothing, and leaves land-cover fractions at their declared initial values; a spin-up longer than the period replays the whole period once.",
 ["histories","configurations","schedules"],"all spin-up lengths x structures x time steps x event schedules x re-runs",
 "Tests check spin-up on one small model; equivalence must hold for every structure with process memory and every event schedule.",
 [B+"ModelHydro.cpp"],[("spin-up replay","ModelHydro::RunSpinup"),("rewind","ModelHydro::RewindAfterSpinup")])
p("P08","Every step uses the forcing of its own date and unit",
 "At every time step, each hydro unit is driven by the forcing value supplied for that unit and that date, whatever the start offset of the data, the time step, the order of units in the data, spin-up, re-runs or replaced forcing. Forcing that does not cover the period or does not match the model time step is refused rather than silently misaligned.",
 ["configurations","histories"],"all data offsets x time steps x unit orders x histories of run/reset/replace forcing",
 "Tests use daily data starting at the simulation start; the alignment must hold for any offset, step and history.",
 [B+"TimeSeries.cpp",B+"TimeSeriesData.cpp",B+"TimeSeriesDistributed.cpp",B+"ModelHydro.cpp",B+"Forcing.cpp"],
 [("cursor","TimeSeriesDataRegular::SetCursorToDate/AdvanceOneTimeStep"),("attachment","ModelHydro::AttachTimeSeriesToHydroUnits")])
p("P09","The clock visits every declared step once",
 "A run processes exactly the dates start, start+step, ..., up to and including the end date, each once and in order, and records one complete row per step with that date, for any start, end, step and unit. Sub-daily steps do not drift: long runs visit the same number of steps with dates accurate to well under a second.",
 ["configurations","histories"],"all start/end/step/unit combinations x run/reset histories",
 "Tests use daily steps over one month; accumulation of rounding over sub-daily runs is not reached.",
 [B+"TimeMachine.cpp",B+"ModelHydro.cpp",B+"Logger.cpp"],[("clock","TimeMachine::IncrementTime/IsOver/GetTimeStepCount"),("main loop","ModelHydro::Run")])
p("P10","Recorded outputs are the simulated state",
 "Every recorded value for a component, unit and date equals the actual state or flux of that component of that unit at the end of that step; values recorded as initial equal the state before the first step; components a unit does not have stay marked as missing. Reported totals equal the sums of the recorded series, and recording more or fewer components never changes the simulated values.",
 ["configurations","histories"],"all structures (incl. per-unit structure variants) x recorded sets x steps x re-runs",
 "Tests check selected labels of fixed structures.",
 [B+"Logger.cpp",B+"ModelBuilder.cpp"],[("value pointers","ModelBuilder::ConnectLoggerToValues"),("record","Logger::Record/SaveInitialValues"),("totals","Logger::GetTotal*")])
p("P11","A dumped results file holds exactly the recorded results",
 "When dumping outputs reports success, the file exists, can be read back, and contains exactly the recorded dates, unit ids, areas, labels, values and fractions, with missing values kept missing, for any number of units, components and steps; it replaces any previous file completely. Steps the last run did not reach are missing, never leftovers of an earlier run. Text outputs hold dates and values in full precision.",
 ["configurations","histories"],"all result shapes x label sets x repeated dumps, text and binary outputs",
 "Tests check one dump of one model exists/loads.",
 [B+"ResultWriter.cpp",B+"FileNetcdf.cpp",B+"Logger.cpp"],[("netcdf writer","ResultWriter::WriteNetCDF"),("wrapper","FileNetcdf")])
p("P12","Output is never falsely reported as written",
 "When the disk fails while results are written (full disk, I/O error, short or failed write, failure on close or create, at any operation), the dump reports failure and the process survives; success is only ever reported for a file that reads back complete. A later dump, once the fault is gone, succeeds with correct content.",
 ["fault_sequences","crash_points"],"every file operation of a dump x every fault kind x result shapes x text and binary outputs",
 "Tests never inject I/O faults.",
 [B+"ResultWriter.cpp",B+"FileNetcdf.cpp"],[("status checks","FileNetcdf::CheckNcStatus"),("close","FileNetcdf::Close/~FileNetcdf"),("text output","ResultWriter::WriteCSV")])
p("P13","Input files are read completely or refused",
 "Reading basin and forcing files while the disk misbehaves (read error, short read, truncated or vanished file, failing open or close) either yields exactly the content of the file or is reported as a failure; so do files of an unexpected layout. A failed read never ends the process and leaves nothing behind: a later good read, with the same or another reader, yields the full content once.",
 ["fault_sequences","crash_points","inputs"],"every file operation of a read x fault kinds x file shapes, truncation at any byte",
 "Tests read intact files only.",
 [B+"SettingsBasin.cpp",B+"TimeSeries.cpp",B+"FileNetcdf.cpp"],[("basin reader","SettingsBasin::Parse"),("forcing reader","TimeSeries::Parse")])
p("P14","Updating parameters equals building with them",
 "After any history of parameter updates and runs, resetting and running a model gives bit-for-bit the outputs of a fresh model built directly with the final parameter values. This holds for every parameter of every component, shared or per-structure-variant.",
 ["histories","configurations"],"all histories of parameter updates/run/reset x components x structures",
 "Calibration relies on it for every parameter; tests update a few.",
 [B+"ModelHydro.cpp",B+"ModelBuilder.cpp",B+"SettingsModel.cpp","core/src/processes/*.cpp"],[("parameter refresh","ModelHydro::UpdateParameters, ModelBuilder::Update*Parameters"),("setting","SettingsModel::SetParameterValue")])
p("P15","A saved state is restored exactly by reset",
 "After saving the current state as initial state, every later reset brings the model back to exactly that state (all storages, process memory and land-cover fractions), so each following run from it gives identical outputs, equal to those of continuing from the moment of saving.",
 ["histories","configurations"],"all histories of run/save/reset x structures with process memory x actions",
 "Tests save state for one structure and compare a content.",
 [B+"ModelHydro.cpp","core/src/bricks/*.cpp","core/src/containers/WaterContainer.cpp","core/src/processes/ProcessRouting*.cpp"],[("save","SubBasin::SaveAsInitialState"),("restore","SubBasin::Reset")])
p("P16","Models in one process are independent",
 "Several models living and running in one process, their steps and operations interleaved in any way (including in separate threads, without a data race), give bit-for-bit the outputs each gives alone, also when one of them fails or is destroyed. (Writing results files concurrently is excluded: the NetCDF library is not reentrant.)",
 ["schedules","histories","fault_sequences"],"all interleavings of the steps of 2-4 models x structures x failures",
 "Tests run one model at a time.",
 [B+"ModelHydro.cpp",B+"Processor.cpp",B+"Splitter.h","core/src/processes/Process.cpp",B+"Log.cpp"],[("per-model state","ModelHydro members"),("registries","static registries and factories")])
p("P17","The log keeps every message whole and once",
 "Whatever the interleaving of threads that log, change the log level or switch the log target, every message at or above the level in force reaches the active sinks exactly once, as one whole line, in each caller's order. Failing sinks never end the process nor stop other sinks, and there is no data race or deadlock.",
 ["schedules","fault_sequences"],"all interleavings of 2-4 logging threads x level/target changes x sink write failures",
 "Tests log from one thread.",
 [B+"Log.cpp",B+"Log.h"],[("sink lock","LogState mutex")])
p("P18","Lateral snow transport moves snow, never makes it",
 "Snow moved between hydro units by gravitational slides or redistribution leaves one unit and arrives at its receivers in the same amount by volume, area and land-cover fractions considered, at every step, for any connection graph, fractions, areas and land-cover evolution, and only along the declared connections, in their declared proportions. A unit without receivers keeps its snow.",
 ["configurations","schedules","histories"],"all connection graphs x areas x fractions x cover changes x unit orders",
 "Tests use two or three connected units with fixed covers.",
 ["core/src/processes/ProcessLateral*.cpp",B+"ModelBuilder.cpp","core/src/bricks/SurfaceComponent.cpp","core/src/spatial/HydroUnitLateralConnection.cpp"],[("weights","ProcessLateral::AttachFluxOutWithWeight"),("fractions","SurfaceComponent::SetAreaFraction")])
p("P19","Glacier evolution keeps ice and areas sane",
 "Over any run with glacier evolution actions, glacier areas and ice contents stay finite and non-negative, glacier area never exceeds the unit area, and ice (water equivalent) is conserved by each evolution step: total ice volume changes only through melt and snow-to-ice transformation, and the extents follow the lookup tables for the ice that is left. Runs start from the declared (or saved) extents and ice, re-runs included.",
 ["configurations","schedules","histories"],"all glacier lookup tables x ice evolutions x dates x melt-out and regrowth x re-runs",
 "Tests use one lookup table and a few years.",
 ["core/src/actions/ActionGlacier*.cpp","core/src/bricks/Glacier.cpp","core/src/spatial/HydroUnit.cpp"],[("delta-h lookup","ActionGlacierEvolutionDeltaH"),("area scaling","ActionGlacierEvolutionAreaScaling"),("snow to ice","ActionGlacierSnowToIceTransformation")])
p("P20","Results do not depend on declaration order",
 "Declaring the same hydro units, lateral connections, forcing columns or actions in another order gives the same simulated results for every unit and for the outlet, up to floating-point summation order. (Lateral connections that form a circle are excluded: they have no order of their own.)",
 ["configurations"],"all permutations of units/connections/forcing columns/series/parameters",
 "Tests use one order.",
 ["core/src/spatial/SubBasin.cpp",B+"Processor.cpp",B+"ModelBuilder.cpp",B+"TimeSeriesDistributed.cpp"],[("unit iteration","Processor::ProcessTimeStep"),("id lookup","TimeSeriesDistributed::GetDataPointer")])
p("P21","Incomplete setups are refused, not crashed on",
 "Running a model that lacks something it needs (a forcing series for a variable in use, values for a unit, attachment after replacing the data, a period not covered) is reported as an error before or at the run; the process never crashes and completing the setup afterwards gives the normal results.",
 ["histories","configurations","fault_sequences"],"all subsets and orders of setup operations (add/clear/attach forcing, initialise, run)",
 "Tests build complete setups.",
 [B+"ModelHydro.cpp",B+"Forcing.cpp",B+"TimeSeriesDistributed.cpp"],[("attach","ModelHydro::AttachTimeSeriesToHydroUnits"),("run start","ModelHydro::InitializeTimeSeries")])
p("P22","Calendar conversions are mutually inverse",
 "Converting a calendar date to the internal day number and back gives the same date for every representable date, and textual dates are read as written.",
 ["inputs"],"all dates","Tests sample a few dates.",[B+"UtilsDateTime.cpp"],[("conversion","UtilsDateTime::ToMJD/FromMJD")])
p("P23","Each process follows its published formula",
 "Each hydrological process computes the rate given by its documented formula for all parameter and state values.",
 ["inputs"],"all parameter and state values","Tests sample a few values per process.",["core/src/processes/*.cpp"],[("rates","Process::GetRates overrides")])
p("P24","The Python package preserves the core's guarantees",
 "Running, resetting and calibrating through the Python package gives the results and errors of the native library.",
 ["histories"],"all Python-side call histories","Python tests sample workflows.",["python/","core/bindings/"],[("bindings","core/bindings/bindings.cpp")])
p("P25","Long use leaves nothing behind",
 "However long a process uses the library - building, running, resetting, re-running, updating, replacing forcing, dumping results, reading input files, logging, and failing in any of these (refused set-ups, disk errors, failing allocations, failing steps) - nothing piles up: doing the same again takes no more memory than before, files are closed, and destroying the objects gives back all they took.",
 ["histories","fault_sequences","crash_points"],"all histories of operations and faults, repeated",
 "Calibration repeats runs many thousand times in one process; tests run once and exit.",
 [B+"ModelHydro.cpp",B+"FileNetcdf.cpp",B+"Logger.cpp",B+"Log.cpp",B+"SettingsBasin.cpp",B+"TimeSeries.cpp","core/src/spatial/HydroUnit.cpp"],[("reset","ModelHydro::Reset"),("forcing","ModelHydro::ClearTimeSeries/AttachTimeSeriesToHydroUnits"),("files","FileNetcdf::Close, GetAttString1D"),("ownership","SubBasin, HydroUnit, Processor members")])
p("P26","Varying parameters follow their schedule",
 "A parameter declared to vary by year, by month or at given dates has, after every step of the clock, the value declared for the year, month or date reached, whatever the start and length of the steps (minutes to years, leap years and century ends included) and after the clock is rewound or moved; outside the declared years or dates it keeps its value. (Dates are those on which a step falls.)",
 ["histories","inputs","schedules"],"all periods, steps, rewinds and jumps of the clock x schedules",
 "Tests update a parameter by hand for a few dates.",
 [B+"TimeMachine.cpp",B+"ParametersUpdater.cpp",B+"ParameterModifier.cpp",B+"Parameter.cpp",B+"Utils.cpp"],[("clock","TimeMachine::IncrementTime"),("changes of period","ParametersUpdater::DateUpdate"),("values","ParameterModifier::UpdateValue")])
p("P27","Water goes where the structure says",
 "A complete setup is accepted, and the model built from it is the one declared: every hydro unit gets the structure variant that fits its land covers (the one with exactly its covers, else the smallest holding them all), and at every step of every run (spin-up, runs after a reset, after a failed run or a failed build, after land-cover changes) the water, snow or ice of each store changes by exactly what the declared processes, splitters and precipitation deliver to it - scaled by area where water passes from a cover to its unit or from a unit to the catchment - less what its own declared processes take from it; the outlet delivers exactly what is declared to reach it. Nothing is sent to another store than the declared one, twice, or to none.",
 ["inputs","histories","crash-points"],"all structures, variants, land covers, climates, run histories and failing builds",
 "Tests build a few fixed structures and compare outlet sums; a flux delivered to a wrong store or unit keeps them.",
 [B+"ModelBuilder.cpp",B+"SettingsModel.cpp",B+"Processor.cpp","core/src/fluxes","core/src/spatial/HydroUnit.cpp"],[("variant of a unit","ModelBuilder::AssignHydroUnitStructures"),("fluxes of the units","ModelBuilder::BuildHydroUnitBricksFluxes"),("splitters","ModelBuilder::BuildHydroUnitSplittersFluxes"),("application","Processor::ApplyRates")])
out="/verif/properties.jsonl" if os.path.isdir("/verif") else "properties.jsonl"
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
