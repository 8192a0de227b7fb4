#include "gen.h"
#include "iosim.h"
#include "util.h"

// ---- P25: nothing is left behind ---------------------------------------------------------------------
// Two kinds of sessions. A whole session of another property (its histories, faults and failures), carried out three times in
// one process: the third leaves no memory block and no file behind that the second had not left. And one model kept for
// many cycles of the same operations: the memory in use after a late cycle is that after an early one.

bool LeakRead(const Spec& sp, int times, const std::function<void(int, bool)>& after);  // props_input.cpp

static Spec GenP25(Rng& r, uint64_t index) {
    static const std::vector<std::string> of{"P05", "P07", "P11", "P13", "P13", "P13", "P14", "P15", "P21", "P21", "P08", "P19", "P01", "P18"};
    if (r.p(0.55)) {
        std::string id = r.pick(of);
        for (auto& p : Props()) {
            if (p.id != id) continue;
            Spec sp = p.gen(r, index);
            sp.add("leak").set("of", id);
            return sp;
        }
    }
    GenOpt o;
    o.minN = 2;
    o.maxN = r.p(0.2) ? 40 : 10;
    o.maxUnits = 3;
    o.pEvo = 0.3;
    o.infeasibleChanges = r.p(0.2);
    Spec sp = GenScenario(r, o);
    sp.add("leak").set("of", "");
    int k = r.range(1, 4);
    for (int i = 0; i < k; ++i) {
        static const std::vector<std::string> ops{"run", "run", "run", "reset", "dump", "csv", "totals", "save", "update", "forcing", "badforcing", "attach", "baddump", "throw", "alloc", "diskdump", "diskdump", "logfile", "badlogfile", "other", "lookup"};
        Item& it = sp.add("op").set("op", r.pick(ops));
        it.set("k", r.range(0, 400));
    }
    return sp;
}
static void CycleP25(World& w, const std::string& k, int n, RunResult& r) {
    ModelHydro& m = *w.model;
    if (k == "run") {
        m.Reset();
        RunOutcome o = RunModel(m);
        r.add(o.ok ? "runs" : "aborted");
    } else if (k == "reset") {
        m.Reset();
    } else if (k == "dump" || k == "csv") {
        std::string dir = ScratchDir() + "/out";
        std::filesystem::create_directories(dir);
        (void)m.DumpOutputs(dir);
    } else if (k == "baddump") {
        r.add("fault.dump to nowhere");
        (void)m.DumpOutputs(ScratchDir() + "/no/such/folder");
    } else if (k == "diskdump") {
        std::string dir = ScratchDir() + "/out";
        std::filesystem::create_directories(dir);
        iosim::Watch(dir.c_str());
        iosim::Fault f;
        static const int ops[] = {iosim::kOpen, iosim::kWrite, iosim::kClose, iosim::kStat, -1};
        f.op = ops[n % 5];
        f.at = n / 5 % 4;
        f.kind = n / 20 % 3 == 0 ? iosim::kPartial : iosim::kError;
        f.err = n % 2 ? ENOSPC : EIO;
        f.last = n % 7 ? 1 : 1000000;
        f.salt = static_cast<uint64_t>(n);
        iosim::SetFaults(&f, 1);
        (void)m.DumpOutputs(dir);
        iosim::SetFaults(nullptr, 0);
        iosim::Unwatch();
        if (f.fired) r.add("fault.disk");
    } else if (k == "totals") {
        Collect(m);
    } else if (k == "save") {
        m.SaveAsInitialState();
    } else if (k == "update") {
        m.UpdateParameters(*w.settings);
    } else if (k == "forcing" || k == "badforcing") {
        m.ClearTimeSeries();
        w.probe = nullptr;
        w.AddForcing();
        if (k == "badforcing") {
            r.add("fault.series refused");
            w.AddForcing();  // every variable twice: refused
        }
        w.Attach();
    } else if (k == "attach") {
        (void)m.AttachTimeSeriesToHydroUnits();
    } else if (k == "logfile" || k == "badlogfile") {
        LogSetFile(ScratchDir() + (k == "logfile" ? "/log.txt" : "/no/such/log.txt"));
        LogMessage("a message");
    } else if (k == "other") {  // a second model, from the same settings and basin
        auto b = std::make_unique<ModelHydro>();
        if (!b->InitializeWithBasin(*w.settings, w.basin)) r.add("refused");
        if (n % 2) b->Reset();
    } else if (k == "lookup") {  // questions about things that are not there
        for (auto f : std::vector<std::function<void()>>{[&] { (void)m.GetSubBasin()->GetHydroUnit(static_cast<size_t>(0))->GetBrick("nothing"); },
                                                         [&] { (void)w.settings->SetParameterValue("nothing", "nothing", 1.0f); },
                                                         [&] { (void)m.GetSubBasin()->GetHydroUnit(static_cast<size_t>(0))->GetLandCover("nothing"); }}) {
            try {
                f();
            } catch (const std::exception&) {
                r.add("lookups refused");
            }
        }
    } else if (k == "throw") {  // an action that fails in the middle of the run
        if (!w.probe) return;
        int left = std::max(1, n % std::max(1, w.clock.n));
        r.add("fault.failing step");
        w.probe->onAdvance = [left]() mutable {
            if (--left == 0) throw std::runtime_error("the simulator's fault");
            return true;
        };
        m.Reset();
        RunModel(m);
        w.probe->onAdvance = nullptr;
        m.Reset();
    } else if (k == "alloc") {
        m.Reset();
        hooks::ArmAlloc(n);
        RunModel(m);
        if (hooks::allocFired) r.add("fault.allocation");
        hooks::DisarmAlloc();
        m.Reset();
    }
}
static void ExecP25(const Spec& sp, RunResult& r) {
    CountScenario(sp, r);
    if (!hooks::CountsBlocks()) return;
    std::string of = sp.one("leak").str("of");
    if (!of.empty()) {
        const Prop* inner = nullptr;
        for (auto& p : Props())
            if (p.id == of) inner = &p;
        if (!inner) return;
        std::vector<std::pair<std::string, double>> kept;
        kept.reserve(64);
        if (of == "P13") {
            const int early = 4, late = 16;
            int64_t blocks[late] = {}, bytes[late] = {}, nc[late] = {};
            int open[late] = {};
            bool ran = LeakRead(sp, late, [&](int k, bool ok) {
                blocks[k] = hooks::LiveBlocks();
                bytes[k] = hooks::LiveBytes();
                nc[k] = hooks::LiveNc();
                open[k] = hooks::OpenFiles();
                r.add(ok ? "reads.success" : "reads.failure");
            });
            r.nontrivial = ran;
            int n = late - 1 - early;
            int64_t db = blocks[late - 1] - blocks[early], dy = bytes[late - 1] - bytes[early];
            if (db >= n || dy >= 4 * n) r.bad("leak/read", Fmt("%d reads of a file left %lld blocks (%lld bytes) of memory behind", n, (long long)db, (long long)dy));
            if (nc[late - 1] > nc[early]) r.bad("leak/netcdf", Fmt("%d reads of a file left %lld NetCDF files open", n, (long long)(nc[late - 1] - nc[early])));
            if (open[late - 1] > open[early]) r.bad("leak/file", Fmt("%d reads of a file left %d files open", n, open[late - 1] - open[early]));
            for (auto f : sp.all("fault")) r.add("fault." + f->str("kind"), late);
            return;
        }
        const int times = 4;
        int64_t blocks[times] = {}, bytes[times] = {}, all[times] = {}, nc[times] = {};
        int open[times] = {};
        bool faults = false;
        for (int k = 0; k < times; ++k) {
            int64_t n0 = hooks::LiveBlocks(), y0 = hooks::LiveBytes(), a0 = hooks::LiveAll(), c0 = hooks::LiveNc();
            int f0 = hooks::OpenFiles();
            {
                RunResult one;
                inner->exec(sp, one);
                for (auto& s : one.stat) {
                    bool fault = s.first.rfind("fault", 0) == 0;
                    faults |= fault;
                    if (k == 0 && (fault || s.first == "steps" || s.first == "simdays" || s.first == "runs")) kept.push_back({s.first, s.second * times});
                }
                if (k == 0) {
                    r.nontrivial = one.nontrivial;
                    r.mix(static_cast<double>(one.hash >> 12));
                    n0 = hooks::LiveBlocks();
                }
            }
            blocks[k] = hooks::LiveBlocks() - n0;
            bytes[k] = hooks::LiveBytes() - y0;
            all[k] = hooks::LiveAll() - a0;
            nc[k] = hooks::LiveNc() - c0;
            open[k] = hooks::OpenFiles() - f0;
        }
        for (auto& s : kept) r.add(s.first, s.second);
        r.add("sessions");
        if (getenv("HBSIM_WHY")) r.add(Fmt("session %s%s blocks %lld %lld all %lld %lld files %d %d", of.c_str(), faults ? "f" : "", (long long)blocks[2], (long long)blocks[3], (long long)all[2], (long long)all[3], open[2], open[3]));
        if (blocks[2] > 0 && blocks[3] > 0)
            r.bad("leak/session", Fmt("a session (as of %s) carried out again left %lld blocks of memory (%lld bytes) behind, and %lld the next time", of.c_str(), (long long)blocks[2], (long long)bytes[2], (long long)blocks[3]));
        // what NetCDF and HDF5 keep to themselves after a failing file operation, or the reader of P11 lets them keep, is theirs
        else if (!faults && of != "P11" && all[2] > 0 && all[3] > 0)
            r.bad("leak/session", Fmt("a session (as of %s) carried out again left %lld blocks of memory behind, and %lld the next time", of.c_str(), (long long)all[2], (long long)all[3]));
        if (nc[2] > 0 && nc[3] > 0) r.bad("leak/netcdf", Fmt("a session (as of %s) carried out again left %lld NetCDF files open", of.c_str(), (long long)nc[3]));
        if (open[2] > 0 && open[3] > 0) r.bad("leak/file", Fmt("a session (as of %s) carried out again left %d files open, and %d the next time", of.c_str(), open[2], open[3]));
        return;
    }
    World w(sp);
    if (!BuildOrNote(w, r)) return;
    const int early = 4, mid = 14, late = 48;
    int64_t blocks[late + 1] = {}, bytes[late + 1] = {}, all[late + 1] = {}, nc[late + 1] = {};
    int open[late + 1] = {};
    auto ops = sp.all("op");
    bool saves = false;
    for (auto op : ops) saves |= op->str("op") == "save";
    for (int c = 1; c <= late; ++c) {
        for (auto op : ops) {
            try {
                CycleP25(w, op->str("op"), op->i("k"), r);
            } catch (const std::exception& e) {
                r.add("refused");
            }
        }
        w.model->Reset();
        blocks[c] = hooks::LiveBlocks();
        bytes[c] = hooks::LiveBytes();
        all[c] = hooks::LiveAll();
        nc[c] = hooks::LiveNc();
        open[c] = hooks::OpenFiles();
        r.add("steps", w.clock.n);
    }
    r.nontrivial = true;
    int64_t db = std::max(blocks[late] - blocks[early], all[late] - all[early]), dy = bytes[late] - bytes[early];
    if (getenv("HBSIM_WHY")) {
        std::string all;
        for (auto op : ops) all += " " + op->str("op");
        r.add(Fmt("cycle%s: blocks %lld", all.c_str(), (long long)db));
    }
    // every cycle does the same: what grows from one to the next grows in all of them
    if (db >= late - early) r.bad("leak/growth", Fmt("after %d cycles %lld blocks of memory more are in use than after %d", late, (long long)db, early));
    else if (!saves && dy >= 4 * (late - early) && bytes[mid] > bytes[early] && bytes[late] > bytes[mid]) {
        r.bad("leak/growth", Fmt("after %d cycles %lld bytes of memory more are in use than after %d", late, (long long)dy, early));
    }
    if (nc[late] > nc[early]) r.bad("leak/netcdf", Fmt("after %d cycles %lld NetCDF files more are open than after %d", late, (long long)(nc[late] - nc[early]), early));
    if (open[late] > open[early]) r.bad("leak/file", Fmt("after %d cycles %d files more are open than after %d", late, open[late] - open[early], early));
}
static RegisterProp p25({"P25", 4500, 150000, 60, GenP25, ExecP25,
                         "a run counts when a session was repeated or a model lived through the cycles; distinct = distinct structural signature",
                         "whole library, NetCDF and HDF5 included: real; every allocation and descriptor of the process counted", "climate generator; disk faults and failing allocations injected"});
