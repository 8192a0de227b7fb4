#pragma once
#include "ledger.h"

// Shared by the properties.
inline bool BuildOrNote(World& w, RunResult& r) {
    if (w.Build()) return true;
    r.add("refused");
    if (getenv("HBSIM_WHY")) r.add("refused: " + w.error.substr(0, 90));
    r.mix(HashStr(w.error));
    return false;
}
inline bool OkOrNote(const RunOutcome& o, RunResult& r) {
    r.add("runs");
    if (o.ok) return true;
    r.add("aborted");
    if (getenv("HBSIM_WHY")) r.add("aborted: " + o.msg.substr(0, 90));
    r.mix(HashStr(o.msg));
    return false;
}
inline void Steps(World& w, RunResult& r, int runs = 1) {
    r.add("steps", w.clock.n * runs);
    r.add("simdays", w.clock.n * w.clock.stepDays() * runs);
}
// What part of the model a recorded item belongs to: the stable part of a violation class.
inline std::string ItemClass(const std::string& diff) {
    std::string n = diff.substr(0, diff.find_first_of("[ "));
    if (n == "time" || n == "totals") return n;
    auto sl = n.find('/');
    return sl == std::string::npos ? n : n.substr(0, sl);
}
