#include "forks.h"
#include "gen.h"
#include "iosim.h"
#include "ResultWriter.h"
#include <cerrno>
#include <sys/stat.h>

// What a results file holds, independent of the code that writes it.
struct Results {
    std::vector<double> time, areas;
    std::vector<int> ids, sids;
    std::vector<std::string> subLabels, unitLabels, fracLabels;
    std::vector<std::vector<double>> sub;   // [label][time]
    std::vector<std::vector<double>> unit;  // [label][unit * nt + time]
    std::vector<std::vector<double>> frac;
    bool hasFrac = false;
    bool checkSids = true;
};

// ---- an independent reader on the NetCDF C interface -------------------------------------------------------------
static std::string ReadNc(const std::string& path, Results& o) {
    int nc;
    int st = nc_open(path.c_str(), NC_NOWRITE, &nc);
    if (st != NC_NOERR) return std::string("cannot be opened: ") + nc_strerror(st);
    std::string err;
    auto ok = [&](int s, const std::string& what) {
        if (s != NC_NOERR && err.empty()) err = what + ": " + nc_strerror(s);
        return s == NC_NOERR;
    };
    auto dim = [&](const char* n) -> size_t {
        int d;
        size_t l = 0;
        if (ok(nc_inq_dimid(nc, n, &d), n)) ok(nc_inq_dimlen(nc, d, &l), n);
        return l;
    };
    auto var = [&](const char* n, const std::vector<std::string>& dims) -> int {
        int v = -1;
        if (!ok(nc_inq_varid(nc, n, &v), n)) return -1;
        int nd = 0, ids[NC_MAX_VAR_DIMS];
        ok(nc_inq_varndims(nc, v, &nd), n);
        ok(nc_inq_vardimid(nc, v, ids), n);
        if (nd != static_cast<int>(dims.size())) {
            if (err.empty()) err = std::string(n) + ": other dimensions";
            return -1;
        }
        for (int i = 0; i < nd; ++i) {
            char b[NC_MAX_NAME + 1] = {0};
            ok(nc_inq_dimname(nc, ids[i], b), n);
            if (dims[static_cast<size_t>(i)] != b && err.empty()) err = std::string(n) + ": other dimensions";
        }
        return v;
    };
    auto dbl = [&](const char* n, const std::vector<std::string>& dims, size_t len) {
        std::vector<double> x(len);
        int v = var(n, dims);
        if (v >= 0 && len) ok(nc_get_var_double(nc, v, x.data()), n);
        return x;
    };
    auto ints = [&](const char* n, size_t len) {
        std::vector<int> x(len);
        int v = var(n, {"hydro_units"});
        if (v >= 0 && len) ok(nc_get_var_int(nc, v, x.data()), n);
        return x;
    };
    auto labels = [&](const char* n) {
        std::vector<std::string> out;
        size_t l = 0;
        if (!ok(nc_inq_attlen(nc, NC_GLOBAL, n, &l), n)) return out;
        std::vector<char*> p(l + 1, nullptr);
        if (l && !ok(nc_get_att_string(nc, NC_GLOBAL, n, p.data()), n)) return out;
        for (size_t i = 0; i < l; ++i) out.push_back(p[i] ? p[i] : "");
        if (l) nc_free_string(l, p.data());
        return out;
    };
    size_t nt = dim("time"), nu = dim("hydro_units"), na = dim("aggregated_values"), nd = dim("distributed_values"), nf = 0;
    int fd;
    o.hasFrac = nc_inq_dimid(nc, "land_covers", &fd) == NC_NOERR;
    if (o.hasFrac) nf = dim("land_covers");
    o.time = dbl("time", {"time"}, nt);
    o.ids = ints("hydro_units_ids", nu);
    o.sids = ints("hydro_units_structure_ids", nu);
    o.areas = dbl("hydro_units_areas", {"hydro_units"}, nu);
    auto cut = [](const std::vector<double>& x, size_t n, size_t each) {
        std::vector<std::vector<double>> v;
        for (size_t i = 0; i < n; ++i) v.emplace_back(x.begin() + static_cast<long>(i * each), x.begin() + static_cast<long>((i + 1) * each));
        return v;
    };
    o.sub = cut(dbl("sub_basin_values", {"aggregated_values", "time"}, na * nt), na, nt);
    o.unit = cut(dbl("hydro_units_values", {"distributed_values", "hydro_units", "time"}, nd * nu * nt), nd, nu * nt);
    if (o.hasFrac) o.frac = cut(dbl("land_cover_fractions", {"land_covers", "hydro_units", "time"}, nf * nu * nt), nf, nu * nt);
    o.subLabels = labels("labels_aggregated");
    o.unitLabels = labels("labels_distributed");
    if (o.hasFrac) o.fracLabels = labels("labels_land_covers");
    int tv;
    size_t ul = 0;
    if (nc_inq_varid(nc, "time", &tv) == NC_NOERR && ok(nc_inq_attlen(nc, tv, "units", &ul), "time units")) {
        std::string u(ul, 0);
        ok(nc_get_att_text(nc, tv, "units", u.data()), "time units");
        if (u.rfind("days since 1858-11-17", 0) != 0 && err.empty()) err = "time units: " + u;
    }
    ok(nc_close(nc), "close");
    return err;
}
static std::string SameVec(const std::string& n, const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return n + Fmt(": %zu values instead of %zu", b.size(), a.size());
    for (size_t i = 0; i < a.size(); ++i)
        if (!SameBits(a[i], b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) return n + Fmt("[%zu]: %.17g instead of %.17g", i, b[i], a[i]);
    return "";
}
static std::string SameVecs(const std::string& n, const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& b) {
    if (a.size() != b.size()) return n + Fmt(": %zu items instead of %zu", b.size(), a.size());
    for (size_t i = 0; i < a.size(); ++i) {
        std::string d = SameVec(n, a[i], b[i]);
        if (!d.empty()) return d + Fmt(" (item %zu)", i);
    }
    return "";
}
static std::string CompareResults(const Results& want, const Results& got) {
    std::string d = SameVec("time", want.time, got.time);
    if (d.empty() && want.ids != got.ids) d = "ids: other unit ids";
    if (d.empty() && want.checkSids && want.sids != got.sids) d = "structure-ids: other structure ids";
    if (d.empty()) d = SameVec("areas", want.areas, got.areas);
    if (d.empty() && want.subLabels != got.subLabels) d = "labels: other aggregated labels";
    if (d.empty() && want.unitLabels != got.unitLabels) d = "labels: other distributed labels";
    if (d.empty()) d = SameVecs("aggregated", want.sub, got.sub);
    if (d.empty()) d = SameVecs("distributed", want.unit, got.unit);
    if (d.empty() && want.hasFrac != got.hasFrac) d = "fractions: present/absent";
    if (d.empty() && want.hasFrac && want.fracLabels != got.fracLabels) d = "labels: other land covers";
    if (d.empty() && want.hasFrac) d = SameVecs("fractions", want.frac, got.frac);
    return d;
}
static std::string CheckNcFile(const std::string& path, const Results& want, std::string& cls) {
    Results got;
    std::string e = ReadNc(path, got);
    if (!e.empty()) {
        cls = "unreadable";
        return e;
    }
    std::string d = CompareResults(want, got);
    cls = d.substr(0, d.find_first_of(":["));
    return d;
}
// The text output: "time,label,label..." and one line per date.
static std::string CheckCsvFile(const std::string& path, const Results& want, std::string& cls) {
    std::ifstream in(path, std::ios::binary);
    if (!in) {
        cls = "csv-unreadable";
        return "cannot be opened";
    }
    std::string text{std::istreambuf_iterator<char>(in), {}};
    std::string head = "time";
    for (auto& l : want.subLabels) head += "," + l;
    if (text.compare(0, head.size() + 1, head + "\n") != 0) {
        cls = "csv-header";
        return "the header is '" + text.substr(0, text.find('\n')) + "'";
    }
    size_t at = head.size() + 1;
    for (size_t t = 0; t < want.time.size(); ++t) {
        auto nl = text.find('\n', at);
        if (nl == std::string::npos) {
            cls = "csv-lines";
            return Fmt("only %zu of %zu lines", t, want.time.size());
        }
        auto f = Split(text.substr(at, nl - at), ',');
        if (f.size() != want.sub.size() + 1) {
            cls = "csv-fields";
            return Fmt("line %zu has %zu fields instead of %zu", t, f.size(), want.sub.size() + 1);
        }
        for (size_t k = 0; k < f.size(); ++k) {
            double v = strtod(f[k].c_str(), nullptr), w = k == 0 ? want.time[t] : want.sub[k - 1][t];
            if (!SameBits(v, w) && !(std::isnan(v) && std::isnan(w))) {
                cls = k == 0 ? "csv-time" : "csv-values";
                return Fmt("line %zu, field %zu: %s instead of %.17g", t, k, f[k].c_str(), w);
            }
        }
        at = nl + 1;
    }
    if (at != text.size()) {
        cls = "csv-lines";
        return Fmt("%zu bytes after the last line", text.size() - at);
    }
    return "";
}

// ---- results that come from the simulator ----------------------------------------------------------------------------
static double OddValue(Rng& r, int special) {
    if (special && r.p(0.15)) {
        switch (r.range(0, 8)) {
            case 0: return std::nan("");
            case 1: return INFINITY;
            case 2: return -INFINITY;
            case 3: return -0.0;
            case 4: return 5e-324;
            case 5: return 1.7976931348623157e308;
            case 6: return 9.969209968386869e+36;  // the NetCDF fill value
            case 7: return 0.1 + 0.2;
            default: return 1e-17;
        }
    }
    return r.p(0.2) ? 0.0 : r.uni(-10, 1000);
}
static std::string OddLabel(Rng& r, int i, int special) {
    std::string s = "item" + std::to_string(i);
    if (special && r.p(0.2)) s += r.p(0.5) ? " with blanks" : ":\xc3\xa9t\xc3\xa9";
    if (special && r.p(0.05)) s += std::string(static_cast<size_t>(r.range(100, 400)), 'x');
    if (r.p(0.5)) s += ":water_content";
    return s;
}
static Results MakeResults(const Item& it) {
    Rng r(static_cast<uint64_t>(it.i("seed", 1)));
    Results o;
    size_t nt = static_cast<size_t>(it.i("nt", 3)), nu = static_cast<size_t>(it.i("nu", 2)), na = static_cast<size_t>(it.i("na", 1)),
           nd = static_cast<size_t>(it.i("nd", 1)), nf = static_cast<size_t>(it.i("nf"));
    int sp = it.i("special");
    double start = it.num("start", 58849);
    for (size_t i = 0; i < nt; ++i) o.time.push_back(start + static_cast<double>(i) * it.num("step", 1));
    for (size_t i = 0; i < nu; ++i) {
        o.ids.push_back(sp ? r.range(-5, 1000000) : static_cast<int>(i) + 1);
        o.sids.push_back(r.range(1, 3));
        o.areas.push_back(r.uni(1, 1e7));
    }
    auto fill = [&](size_t n) {
        std::vector<double> v(n);
        for (auto& x : v) x = OddValue(r, sp);
        return v;
    };
    for (size_t i = 0; i < na; ++i) o.subLabels.push_back(OddLabel(r, static_cast<int>(i), sp)), o.sub.push_back(fill(nt));
    for (size_t i = 0; i < nd; ++i) o.unitLabels.push_back(OddLabel(r, static_cast<int>(i), sp)), o.unit.push_back(fill(nt * nu));
    for (size_t i = 0; i < nf; ++i) o.fracLabels.push_back("cover" + std::to_string(i)), o.frac.push_back(fill(nt * nu));
    o.hasFrac = nf > 0;
    return o;
}
static axd ToAxd(const std::vector<double>& v) { return Eigen::Map<const axd>(v.data(), static_cast<long>(v.size())); }
static vecAxxd ToAxxd(const std::vector<std::vector<double>>& v, size_t nt, size_t nu) {
    vecAxxd out;
    for (auto& x : v) {
        axxd m = axxd::Zero(static_cast<long>(nt), static_cast<long>(nu));
        for (size_t u = 0; u < nu; ++u)
            for (size_t t = 0; t < nt; ++t) m(static_cast<long>(t), static_cast<long>(u)) = x[u * nt + t];
        out.push_back(m);
    }
    return out;
}
static bool WriteDirect(const Results& o, const std::string& dir, bool csv) {
    ResultWriter w;
    vecAxd sub;
    for (auto& s : o.sub) sub.push_back(ToAxd(s));
    vecStr sl(o.subLabels.begin(), o.subLabels.end()), ul(o.unitLabels.begin(), o.unitLabels.end()), fl(o.fracLabels.begin(), o.fracLabels.end());
    if (csv) return w.WriteCSV(dir, ToAxd(o.time), sl, sub);
    size_t nt = o.time.size(), nu = o.ids.size();
    return w.WriteNetCDF(dir, ToAxd(o.time), vecInt(o.ids.begin(), o.ids.end()), vecInt(o.sids.begin(), o.sids.end()), ToAxd(o.areas), sl, sub, ul,
                         ToAxxd(o.unit, nt, nu), fl, ToAxxd(o.frac, nt, nu));
}
// What a model has recorded, as its interface gives it.
static Results FromModel(World& w) {
    Results o;
    Logger* l = w.model->GetLogger();
    auto vec = [](const axd& a) { return std::vector<double>(a.data(), a.data() + a.size()); };
    o.time = vec(l->GetTime());
    for (int i : l->GetHydroUnitIds()) o.ids.push_back(i);
    o.areas = vec(l->GetHydroUnitAreas());
    for (auto& s : l->GetSubBasinLabels()) o.subLabels.push_back(s);
    for (auto& s : l->GetHydroUnitLabels()) o.unitLabels.push_back(s);
    for (auto& v : l->GetSubBasinValues()) o.sub.push_back(vec(v));
    auto flat = [](const axxd& m) {
        std::vector<double> x;
        for (long u = 0; u < m.cols(); ++u)
            for (long t = 0; t < m.rows(); ++t) x.push_back(m(t, u));
        return x;
    };
    for (auto& v : l->GetHydroUnitValues()) o.unit.push_back(flat(v));
    for (auto& v : l->GetHydroUnitFractions()) o.frac.push_back(flat(v));
    for (auto& s : l->GetHydroUnitFractionLabels()) o.fracLabels.push_back(s);
    o.hasFrac = !o.frac.empty();
    for (int i = 0; i < w.model->GetSubBasin()->GetHydroUnitCount(); ++i) o.sids.push_back(w.model->GetSubBasin()->GetHydroUnit(i)->GetStructureId());
    return o;
}
static void GenResults(Rng& r, Spec& sp, const std::string& id) {
    Item& it = sp.add("result");
    it.set("id", id).set("seed", static_cast<int>(r.range(1, 100000000)));
    it.set("nt", r.p(0.1) ? r.range(500, 4000) : r.range(1, 60)).set("nu", r.range(1, r.p(0.1) ? 40 : 6));
    it.set("na", r.range(r.p(0.1) ? 0 : 1, 8)).set("nd", r.range(0, 6)).set("nf", r.p(0.5) ? 0 : r.range(1, 4));
    it.set("special", r.p(0.5) ? 1 : 0).set("start", r.range(15000, 90000)).set("step", r.p(0.5) ? 1.0 : r.p(0.5) ? 1.0 / 24 : 7.0);
}
static GenOpt SmallModels(Rng& r) {
    GenOpt o;
    o.minN = 2;
    o.maxN = 30;
    o.maxUnits = 4;
    o.pVariants = 0.3;
    o.pSpinup = 0.2;
    o.pEmptyCover = 0.3;
    o.exchange = r.p(0.2);
    o.logall = r.p(0.8);
    return o;
}
static std::string FreshDir(const std::string& name) {
    mkdir(ScratchDir().c_str(), 0700);
    std::string d = ScratchDir() + "/" + name;
    std::error_code ec;
    std::filesystem::remove_all(d, ec);
    mkdir(d.c_str(), 0700);
    return d;
}

// ---- P11: round trips ----------------------------------------------------------------------------------------------------
// A history of runs, failed runs, resets and dumps into directories that may already hold something.
static Spec GenP11(Rng& r, uint64_t) {
    Spec sp;
    bool model = r.p(0.55);
    if (model) sp = GenScenario(r, SmallModels(r));
    int dirs = r.range(1, 2), n = r.range(2, 6), res = 0;
    int steps = model ? Clock::from(sp).n : 0;
    for (int i = 0; i < n; ++i) {
        Item o{"op", {}};
        double u = r.u();
        if (model && u < 0.4) {
            o.set("kind", "run");
            if (r.p(0.25)) o.set("failat", r.range(1, steps));
            if (r.p(0.15)) o.set("noreset", 1);
        } else if (u < 0.55) {
            o.set("kind", "litter").set("dir", r.range(0, dirs - 1)).set("what", r.pick(std::vector<std::string>{"garbage", "empty", "long", "directory", "readonly", "link"}));
        } else if (model && u < 0.85) {
            o.set("kind", "dump").set("dir", r.p(0.1) ? 9 : r.range(0, dirs - 1));
        } else {
            std::string id = std::to_string(res++);
            GenResults(r, sp, id);
            o.set("kind", r.p(0.4) ? "csv" : "write").set("result", id).set("dir", r.p(0.1) ? 9 : r.range(0, dirs - 1));
        }
        sp.items.push_back(o);
    }
    if (model) sp.add("op").set("kind", "dump").set("dir", r.range(0, dirs - 1));
    return sp;
}
static void ExecP11(const Spec& sp, RunResult& r) {
    std::unique_ptr<World> w;
    bool hasModel = !sp.all("model").empty();
    if (hasModel) {
        CountScenario(sp, r);
        w = std::make_unique<World>(sp);
        if (!BuildOrNote(*w, r)) return;
    }
    std::string base = FreshDir("out");
    auto dirOf = [&](const Item& o) {
        std::string d = base + "/d" + o.str("dir");
        if (o.i("dir") != 9) mkdir(d.c_str(), 0700);
        return d;
    };
    bool dirty = false;
    int reached = -1;   // steps of the last run (-1: none yet)
    int good = 0;
    for (auto op : sp.all("op")) {
        std::string k = op->str("kind");
        std::string d = dirOf(*op);
        std::string nc = d + "/results.nc", csv = d + "/results.csv";
        std::error_code ec;
        if (k == "litter") {
            std::string what = op->str("what");
            for (auto& f : {nc, csv}) {
                std::filesystem::remove_all(f, ec);
                if (what == "garbage") std::ofstream(f) << "this is not a results file";
                else if (what == "empty") std::ofstream(f) << "";
                else if (what == "long") std::ofstream(f) << std::string(300000, 'z');
                else if (what == "directory") mkdir(f.c_str(), 0700);
                else if (what == "readonly") {
                    std::ofstream(f) << "read only";
                    chmod(f.c_str(), 0400);  // no obstacle for the superuser
                } else if (what == "link") {
                    std::ofstream(d + "/elsewhere") << "target";
                    std::filesystem::create_symlink(d + "/elsewhere", f, ec);
                }
            }
            r.add("fault.litter-" + what);
            continue;
        }
        if (k == "run") {
            if (!w) continue;
            if (dirty) w->model->Reset();
            int n = 0, at = op->i("failat", -1);
            if (w->probe) w->probe->onAdvance = [&, at] { return ++n != at; };
            dirty = true;
            RunOutcome o = RunModel(*w->model);
            if (w->probe) w->probe->onAdvance = nullptr;
            r.add(o.ok ? "runs" : "failed-runs");
            if (!o.ok && at > 0 && n == at) r.add("fault.failed-run");
            int spin = std::min(w->clock.spinSteps(), w->clock.n);
            // the calls of the probe after the steps; an engine that refuses a step has none for it
            reached = o.ok ? w->clock.n : n == at && at > 0 ? std::max(0, n - spin) : -2;
            r.add("steps", std::max(0, reached));
            r.add("simdays", std::max(0, reached) * w->clock.stepDays());
            continue;
        }
        bool isCsv = k == "csv";
        Results want;
        if (k == "dump") {
            if (!w) continue;
            want = FromModel(*w);
        } else {
            for (auto it : sp.all("result"))
                if (it->str("id") == op->str("result")) want = MakeResults(*it);
            if (want.time.empty()) continue;
        }
        bool obstacle = op->i("dir") == 9 || std::filesystem::is_directory(isCsv ? csv : nc, ec);
        bool ok = false, threw = false;
        try {
            ok = k == "dump" ? w->model->DumpOutputs(d) : WriteDirect(want, d, isCsv);
        } catch (const std::exception& e) {
            threw = true;
        }
        r.add("dumps." + k);
        if (obstacle) {
            r.add("fault.no-place");
            if (ok) r.bad("dump/success-without-place", "a dump that cannot have been written reported success");
            continue;
        }
        if (!ok) {
            r.bad("dump/refused-" + k, Fmt("a dump failed (%s) although nothing was wrong", threw ? "exception" : "false"));
            return;
        }
        std::string cls;
        std::string e = isCsv ? CheckCsvFile(csv, want, cls) : CheckNcFile(nc, want, cls);
        if (!e.empty()) {
            r.bad("file/" + k + "-" + cls, "the file after a " + k + ": " + e);
            return;
        }
        ++good;
        r.mix(static_cast<double>(want.time.size() + want.unitLabels.size()));
        for (auto& s : want.sub)
            for (double v : s) r.mix(v);
        // the file and the interface agree; neither may hold results of steps that were not simulated
        if (k == "dump" && reached > -2) {
            size_t from = reached < 0 ? 0 : static_cast<size_t>(reached);
            for (size_t t = from; t < want.time.size() && r.violations.empty(); ++t) {
                bool left = !std::isnan(want.time[t]);
                for (auto& s : want.sub) left |= !std::isnan(s[t]);
                for (auto& s : want.unit)
                    for (size_t u = 0; u < want.ids.size(); ++u) left |= !std::isnan(s[u * want.time.size() + t]);
                for (auto& s : want.frac)
                    for (size_t u = 0; u < want.ids.size(); ++u) left |= !std::isnan(s[u * want.time.size() + t]);
                if (left) r.bad(reached < 0 ? "dump/values-before-run" : "dump/values-not-reached", Fmt("the results hold values for step %zu although the last run only reached step %zu", t, from));
            }
        }
    }
    r.nontrivial = good > 0;
    r.shape = Mix64(r.hash);
    std::error_code ec;
    std::filesystem::remove_all(base, ec);
}
static RegisterProp p11({"P11", 12000, 250000, 40, GenP11, ExecP11,
                         "a run counts when at least one dump was read back; distinct = distinct contents",
                         "engine, logger, ResultWriter, FileNetcdf and the NetCDF/HDF5 libraries: real, on a real scratch directory; read back through the NetCDF C interface",
                         "climate generator; results of arbitrary shape from the simulator for the direct writes"});

// ---- P12: faults on the files of a dump ---------------------------------------------------------------------------------------
static void GenIoFault(Rng& r, Spec& sp, bool reading) {
    Item& f = sp.add("fault");
    static const std::vector<std::string> w{"error", "error", "error", "full", "full", "short", "partial", "close", "open", "capacity", "crash", "crash", "eintr"};
    static const std::vector<std::string> rd{"error", "error", "error", "eof", "eof", "short", "eintr", "open", "close", "stat", "vanish"};
    std::string k = r.pick(reading ? rd : w);
    f.set("kind", k).set("frac", r.u()).set("last", r.p(0.35) ? 1000000000 : r.range(1, 3)).set("salt", static_cast<int>(r.range(1, 100000000)));
    if (r.p(0.3)) f.set("late", 1);  // among the last calls
}
iosim::Fault ToFault(const Item& f, const std::vector<long>& counts) {
    iosim::Fault x;
    std::string k = f.str("kind");
    bool wr = f.i("wr") != 0;
    x.kind = k == "short" ? iosim::kShort : k == "partial" || k == "readpart" ? iosim::kPartial : k == "eof" ? iosim::kEof : k == "crash" ? iosim::kCrash : iosim::kError;
    x.op = k == "close" ? iosim::kClose : k == "open" ? iosim::kOpen : k == "stat" ? iosim::kStat : k == "full" || k == "partial" ? iosim::kWrite : k == "eof" || k == "readpart" ? iosim::kRead : -1;
    (void)wr;
    x.err = k == "full" ? ENOSPC : k == "eintr" ? EINTR : k == "open" ? (f.i("salt") % 2 ? EMFILE : EACCES) : k == "vanish" ? ENOENT : EIO;
    long total = 0;
    for (long c : counts) total += c;
    long n = x.op >= 0 ? counts[static_cast<size_t>(x.op)] : total;
    double frac = f.num("frac");
    if (f.i("late")) frac = n > 6 ? 1.0 - frac * 6.0 / static_cast<double>(n) : frac;
    x.at = std::min<long>(std::max<long>(0, n - 1), static_cast<long>(frac * static_cast<double>(n)));
    x.last = k == "eintr" ? std::min(f.i("last", 1), 3) : f.i("last", 1);
    if (k == "short") x.op = -1;
    x.salt = static_cast<uint64_t>(f.i("salt"));
    return x;
}
std::vector<long> Counts() {
    std::vector<long> c;
    for (int i = 0; i < iosim::kOps; ++i) c.push_back(iosim::Count(i));
    return c;
}
static Spec GenP12(Rng& r, uint64_t) {
    Spec sp;
    if (r.p(0.25)) {
        GenOpt o = SmallModels(r);
        o.maxN = 12;
        sp = GenScenario(r, o);
        sp.add("op").set("kind", "dump");
    } else {
        GenResults(r, sp, "0");
        sp.add("op").set("kind", r.p(0.3) ? "csv" : "write");
    }
    if (r.p(0.3)) sp.add("previous").set("what", "results");
    int n = r.p(0.8) ? 1 : 2;
    for (int i = 0; i < n; ++i) GenIoFault(r, sp, false);
    return sp;
}
static void ExecP12(const Spec& sp, RunResult& r) {
    std::string base = FreshDir("out");
    std::string dir = base + "/d";
    mkdir(dir.c_str(), 0700);
    const Item& op = sp.one("op");
    std::string k = op.str("kind");
    bool isCsv = k == "csv";
    std::string file = dir + (isCsv ? "/results.csv" : "/results.nc");
    auto check = [&](const std::string& f, const Results& want, std::string& cls) { return isCsv ? CheckCsvFile(f, want, cls) : CheckNcFile(f, want, cls); };
    // everything that uses the NetCDF library happens in processes of their own: a failed dump may leave its mark on them
    struct Job {
        std::unique_ptr<World> w;
        Results want;
        bool ok = false;
    };
    auto prepare = [&](Job& j) {
        if (k == "dump") {
            j.w = std::make_unique<World>(sp);
            if (!j.w->Build() || !RunModel(*j.w->model).ok) return false;
            j.want = FromModel(*j.w);
        } else {
            for (auto it : sp.all("result")) j.want = MakeResults(*it);
            if (j.want.time.empty()) return false;
        }
        return true;
    };
    auto dump = [&](Job& j, const std::string& d, std::string& how) {
        try {
            bool ok = k == "dump" ? j.w->model->DumpOutputs(d) : WriteDirect(j.want, d, isCsv);
            how = ok ? "success" : "failure";
            return ok;
        } catch (const std::exception& e) {
            how = "exception";  // its text names the scratch directory
            return false;
        }
    };
    // 1. without faults: how many calls there are
    Bytes plain{InFreshProcess([&] {
        Bytes b;
        Job j;
        std::string how;
        if (!prepare(j)) {
            b.putU(0);
            return b.s;
        }
        iosim::Watch(dir.c_str());
        bool ok = dump(j, dir, how);
        auto c = Counts();
        int64_t bytes = iosim::BytesWritten();
        iosim::Unwatch();
        b.putU(ok ? 1 : 2);
        for (long x : c) b.putU(static_cast<uint64_t>(x));
        b.putU(static_cast<uint64_t>(bytes));
        return b.s;
    })};
    uint64_t st = plain.getU();
    if (st == 0) {
        r.add("refused");
        return;
    }
    if (st == 2) {
        r.bad("dump/refused-" + k, "a dump without faults failed");
        return;
    }
    std::vector<long> counts;
    for (int i = 0; i < iosim::kOps; ++i) counts.push_back(static_cast<long>(plain.getU()));
    int64_t bytes = static_cast<int64_t>(plain.getU());
    std::error_code ec;
    if (sp.all("previous").empty()) std::filesystem::remove(file, ec);
    // 2. the dump under faults; in the same process a later dump without them
    int whole = 0;
    Bytes b{InFreshProcess(
        [&] {
            Bytes o;
            Job j;
            std::string how;
            prepare(j);
            std::vector<iosim::Fault> faults;
            int64_t cap = -1;
            for (auto f : sp.all("fault")) {
                if (f->str("kind") == "capacity") cap = static_cast<int64_t>(f->num("frac") * static_cast<double>(bytes));
                else faults.push_back(ToFault(*f, counts));
            }
            iosim::Watch(dir.c_str());
            iosim::SetFaults(faults.data(), static_cast<int>(faults.size()));
            iosim::SetCapacity(cap);
            bool ok = dump(j, dir, how);
            long struck = iosim::CapacityHit() ? 1 : 0;
            bool harmless = !iosim::CapacityHit();
            size_t fi = 0;
            for (auto f : sp.all("fault")) {
                if (f->str("kind") == "capacity") continue;
                auto& x = faults[fi++];
                struck += x.fired;
                if (x.fired && f->str("kind") != "short" && f->str("kind") != "eintr") harmless = false;
            }
            iosim::Unwatch();
            std::string cls, e = ok ? check(file, j.want, cls) : "";
            o.putU(ok);
            o.putU(static_cast<uint64_t>(struck));
            o.putU(harmless);
            o.put(how);
            o.put(cls);
            o.put(e);
            // the fault is gone
            std::string d2 = base + "/e";
            mkdir(d2.c_str(), 0700);
            bool ok2 = dump(j, d2, how);
            o.putU(ok2);
            o.put(how);
            std::string cls2, e2 = ok2 ? check(d2 + (isCsv ? "/results.csv" : "/results.nc"), j.want, cls2) : "";
            o.put(cls2);
            o.put(e2);
            bool ok3 = dump(j, dir, how);
            o.putU(ok3);
            o.put(how);
            std::string cls3, e3 = ok3 ? check(file, j.want, cls3) : "";
            o.put(cls3);
            o.put(e3);
            return o.s;
        },
        nullptr, &whole)};
    r.add("dumps." + k);
    std::string kinds;
    for (auto f : sp.all("fault")) kinds += (kinds.empty() ? "" : "+") + f->str("kind");
    if (!whole) {
        r.add("fault.crash");
        r.nontrivial = true;
    } else {
        bool ok = b.getU() != 0;
        uint64_t struck = b.getU();
        bool harmless = b.getU() != 0;
        std::string how = b.get(), cls = b.get(), e = b.get();
        if (struck)
            for (auto f : sp.all("fault")) r.add("fault." + f->str("kind"));
        if (!e.empty()) r.bad("dump/false-success-" + cls, "a dump under faults (" + kinds + ") reported success, but the file: " + e);
        if (!ok && harmless && struck == 0) r.bad("dump/refused-" + k, "a dump failed although no fault struck: " + how);
        r.add(ok ? "under-faults.success" : "under-faults.failure");
        bool ok2 = b.getU() != 0;
        std::string how2 = b.get(), cls2 = b.get(), e2 = b.get();
        if (!ok2) r.bad("later-dump/failed", "after a dump under faults (" + kinds + ", " + how + "), a dump elsewhere without faults ended with " + how2);
        if (!e2.empty()) r.bad("later-dump/" + cls2, "after a dump under faults (" + kinds + ", " + how + "), a dump elsewhere without faults: " + e2);
        bool ok3 = b.getU() != 0;
        std::string how3 = b.get(), cls3 = b.get(), e3 = b.get();
        if (!ok3) r.bad("again/failed", "after a dump under faults (" + kinds + ", " + how + "), the same dump without faults ended with " + how3);
        if (!e3.empty()) r.bad("again/" + cls3, "after a dump under faults (" + kinds + ", " + how + "), the same dump without faults: " + e3);
        r.mix(HashStr(how + e));
        r.nontrivial = struck > 0;
    }
    // 3. another process dumps over what is left
    if (r.violations.empty()) {
        Bytes c{InFreshProcess([&] {
            Bytes o;
            Job j;
            std::string how;
            prepare(j);
            bool ok = dump(j, dir, how);
            o.putU(ok);
            o.put(how);
            std::string cls, e = ok ? check(file, j.want, cls) : "";
            o.put(cls);
            o.put(e);
            return o.s;
        })};
        bool ok = c.getU() != 0;
        std::string how = c.get(), cls = c.get(), e = c.get();
        if (!ok) r.bad("next-process/failed", "after a dump under faults (" + kinds + "), a dump by a new process ended with " + how);
        if (!e.empty()) r.bad("next-process/" + cls, "after a dump under faults (" + kinds + "), a dump by a new process: " + e);
    }
    r.shape = HashStr(sp.text());
    std::filesystem::remove_all(base, ec);
}
static RegisterProp p12({"P12", 6000, 120000, 40, GenP12, ExecP12,
                         "a run counts when a fault struck a file call of the dump (or the process died at one); distinct = distinct results, outputs and faults",
                         "engine, logger, ResultWriter, FileNetcdf and the NetCDF/HDF5 libraries: real; read back through the NetCDF C interface",
                         "the C library's file calls for the output directory (errors, full disk, short and torn writes, failing open/close, crash) decided by the seed"});
