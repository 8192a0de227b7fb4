#pragma once
#include "world.h"

struct Violation {
    std::string cls;  // stable class name: what is broken, without run-specific numbers
    std::string msg;
};

struct RunResult {
    std::vector<Violation> violations;
    std::map<std::string, double> stat;  // fault.*, probe.*, steps, simdays ...: summed over the runs
    std::vector<uint64_t> states;        // state signatures reached (for distinct-state coverage)
    uint64_t hash = 0x9e37;              // over every observation: equal iff the run repeated exactly
    bool nontrivial = false;
    uint64_t shape = 0;                  // what makes the case distinct
    void bad(const std::string& cls, const std::string& msg) {
        for (auto& v : violations)
            if (v.cls == cls) return;
        violations.push_back({cls, msg});
    }
    void add(const std::string& k, double v = 1) { stat[k] += v; }
    void mix(uint64_t h) { hash = Mix64(hash ^ h); }
    void mix(double v) { hash = HashDouble(v, hash); }
};

struct Prop {
    std::string id;
    int quick = 0, thorough = 0;
    double timeout = 60;  // seconds one run may take before it counts as a hang
    std::function<Spec(Rng&, uint64_t index)> gen;
    std::function<void(const Spec&, RunResult&)> exec;
    std::string rule;
    std::string real;   // components that ran real code
    std::string stub;   // components that ran a stub
    std::string level = "exploration";
};
std::vector<Prop>& Props();
struct RegisterProp {
    explicit RegisterProp(Prop p) { Props().push_back(std::move(p)); }
};

// ---- hooks (hooks.cpp) ------------------------------------------------------------------------
namespace hooks {
// allocation failures: fail the k-th allocation from now (once), or count only
extern thread_local bool allocCount;
extern thread_local int64_t allocSeen;
extern thread_local int64_t allocFailAt;   // <0: never
extern thread_local bool allocFired;
void ArmAlloc(int64_t failAt);
void DisarmAlloc();
// every block of the process that is in use (plain flavour only: the sanitizers bring their own allocator)
bool CountsBlocks();
int64_t LiveBlocks();  // taken by the code under test and the simulator
int64_t LiveBytes();   // of these, taken with operator new
int64_t LiveAll();     // blocks of the shared libraries included
int64_t LiveNc();      // NetCDF files opened and not closed
int OpenFiles();  // descriptors of this process
}  // namespace hooks

std::string ScratchDir();  // per-process scratch directory (created, removed by the driver)
