#include "forks.h"
#include "gen.h"
#include "iosim.h"
#include <cerrno>
#include <sys/stat.h>

// ---- P13: reading basin and forcing files ------------------------------------------------------------------------------
// The simulator writes a file of known content through the NetCDF C interface; the engine reads it while the disk
// misbehaves, or after the file was cut; then it reads it again undisturbed.
struct BasinFile {
    std::vector<int> ids;
    std::vector<double> areas;
    std::vector<std::pair<std::string, std::string>> covers;  // name, type
    std::vector<std::vector<double>> fractions;
    std::vector<std::pair<std::string, std::vector<double>>> props;
    bool sound = true;  // false: has to be refused
};
struct ForcingFile {
    std::vector<double> time;
    std::vector<int> ids;
    std::vector<std::pair<std::string, std::vector<std::vector<double>>>> vars;  // name, [unit][time]
    std::vector<int> transposed;
    bool sound = true;
};
static double Single(double v, bool single) { return single ? static_cast<double>(static_cast<float>(v)) : v; }
static BasinFile MakeBasinFile(const Item& it) {
    Rng r(static_cast<uint64_t>(it.i("seed", 1)));
    BasinFile b;
    int n = it.i("n", 2);
    bool single = it.i("single") != 0;
    for (int i = 0; i < n; ++i) {
        b.ids.push_back(it.i("oddids") ? 1000 - 7 * i : i + 1);
        b.areas.push_back(Single(r.uni(10, 1e6), single));
    }
    static const char* names[] = {"open", "glacier_ice", "forest", "rock"};
    static const char* types[] = {"ground", "glacier", "forest", "generic_land_cover"};
    for (int c = 0; c < it.i("covers"); ++c) {
        b.covers.push_back({names[c % 4], types[c % 4]});
        std::vector<double> f;
        for (int i = 0; i < n; ++i) f.push_back(Single(r.u() / std::max(1, it.i("covers")), single));
        b.fractions.push_back(f);
    }
    static const char* props[] = {"elevation", "slope", "aspect_deg", "latitude", "radiation"};
    for (int k = 0; k < it.i("props"); ++k) {
        std::vector<double> v;
        for (int i = 0; i < n; ++i) v.push_back(Single(r.uni(-10, 4000), single));
        b.props.push_back({props[k % 5], v});
    }
    return b;
}
static ForcingFile MakeForcingFile(const Item& it) {
    Rng r(static_cast<uint64_t>(it.i("seed", 1)));
    ForcingFile f;
    int n = it.i("n", 2), nt = it.i("nt", 5);
    bool single = it.i("single") != 0;
    for (int i = 0; i < n; ++i) f.ids.push_back(it.i("oddids") ? 500 - 3 * i : i + 1);
    for (int t = 0; t < nt; ++t) f.time.push_back(it.num("start", 58849) + static_cast<double>(t) * it.i("stepmin", 1440) / 1440.0);
    static const char* names[] = {"precipitation", "temperature", "pet", "t_min", "r_solar"};
    for (int v = 0; v < it.i("vars", 1); ++v) {
        std::vector<std::vector<double>> x(static_cast<size_t>(n));
        for (auto& u : x)
            for (int t = 0; t < nt; ++t) u.push_back(Single(r.p(0.2) ? 0.0 : r.uni(-20, 60), single));
        f.vars.push_back({names[v % 5], x});
        f.transposed.push_back(r.p(it.num("ptrans")) ? 1 : 0);
    }
    return f;
}
#define NC(x)                                                                             \
    do {                                                                                  \
        int s_ = (x);                                                                     \
        if (s_ != NC_NOERR) throw std::runtime_error(std::string(#x ": ") + nc_strerror(s_)); \
    } while (false)
static int Format(const Item& it) { return it.i("classic") ? NC_64BIT_OFFSET : NC_NETCDF4; }
static void Storage(const Item& it, int nc, int v, bool any) {
    if (it.i("classic") || !any) return;
    if (it.i("deflate")) NC(nc_def_var_deflate(nc, v, 1, 1, 4));
    if (it.i("checksums")) NC(nc_def_var_fletcher32(nc, v, NC_FLETCHER32));
}
static void Labels(const Item& it, int nc, const std::vector<std::pair<std::string, std::string>>& covers) {
    std::vector<const char*> p;
    for (auto& c : covers) p.push_back(c.first.c_str());
    if (covers.empty()) return;
    NC(nc_put_att_string(nc, NC_GLOBAL, it.i("oldname") ? "surface_names" : "land_covers", p.size(), p.data()));
}
static void WriteBasinFile(const Item& it, BasinFile& b, const std::string& path) {
    int nc, du, dx, d1, v;
    std::string odd = it.str("odd");
    size_t n = b.ids.size();
    NC(nc_create(path.c_str(), Format(it) | NC_CLOBBER, &nc));
    NC(nc_def_dim(nc, odd == "nodim" ? "units" : "hydro_units", it.i("unlimited") ? NC_UNLIMITED : n, &du));
    NC(nc_def_dim(nc, "other", n + 300, &dx));
    NC(nc_def_dim(nc, "single", 1, &d1));
    int type = it.i("single") ? NC_FLOAT : NC_DOUBLE;
    struct V {
        int id;
        const std::vector<double>* d;
    };
    std::vector<V> later;
    int vid = -1;
    if (odd != "noid") NC(nc_def_var(nc, "id", NC_INT, 1, &du, &vid));
    int va = -1;
    if (odd != "noarea") NC(nc_def_var(nc, "area", type, 1, odd == "longarea" ? &dx : &du, &va));
    std::vector<double> longArea(n + 300, 1.5);
    if (va >= 0) later.push_back({va, odd == "longarea" ? &longArea : &b.areas});
    std::vector<double> big((n + 300) * n, 2.5), one(1, 3.5);
    auto extra = [&] {
        if (odd == "scalar") {
            NC(nc_def_var(nc, "crs", type, 0, nullptr, &v));
            later.push_back({v, &one});
        }
        if (odd == "plane") {
            int d2[2] = {du, dx};
            NC(nc_def_var(nc, "zones", type, 2, d2, &v));
            later.push_back({v, &big});
        }
        if (odd == "cube") {
            int d3[6] = {du, d1, d1, d1, d1, d1};
            NC(nc_def_var(nc, "cube", NC_BYTE, 6, d3, &v));
        }
        if (odd == "otherdim") {
            NC(nc_def_var(nc, "table", type, 1, &dx, &v));
            later.push_back({v, &longArea});
        }
        if (odd == "text") NC(nc_def_var(nc, "label", NC_CHAR, 1, &du, &v));
    };
    if (it.i("extrafirst")) extra();
    for (size_t c = 0; c < b.covers.size(); ++c) {
        if (odd == "nocover" && c == 0) continue;
        NC(nc_def_var(nc, b.covers[c].first.c_str(), type, 1, odd == "longcover" && c == 0 ? &dx : &du, &v));
        if (!(odd == "notype" && c == 0)) NC(nc_put_att_text(nc, v, "type", b.covers[c].second.size(), b.covers[c].second.c_str()));
        Storage(it, nc, v, true);
        later.push_back({v, odd == "longcover" && c == 0 ? &longArea : &b.fractions[c]});
    }
    for (auto& p : b.props) {
        NC(nc_def_var(nc, p.first.c_str(), type, 1, &du, &v));
        Storage(it, nc, v, true);
        later.push_back({v, &p.second});
    }
    if (!it.i("extrafirst")) extra();
    Labels(it, nc, b.covers);
    NC(nc_enddef(nc));
    size_t start[2] = {0, 0}, count[2] = {n, n + 300};
    if (vid >= 0) NC(nc_put_vara_int(nc, vid, start, count, b.ids.data()));
    for (auto& x : later) {
        int nd = 0;
        NC(nc_inq_varndims(nc, x.id, &nd));
        size_t cnt[2] = {nd == 2 ? n : x.d->size(), n + 300};
        NC(nc_put_vara_double(nc, x.id, start, cnt, x.d->data()));
    }
    NC(nc_close(nc));
    static const std::set<std::string> refused{"nodim", "noid", "noarea", "longarea"};
    if (refused.count(odd) || ((odd == "nocover" || odd == "notype" || odd == "longcover") && !b.covers.empty())) b.sound = false;
}
static void WriteForcingFile(const Item& it, ForcingFile& f, const std::string& path) {
    int nc, du, dt, dx, d1, v, vt = -1, vi = -1;
    std::string odd = it.str("odd");
    size_t n = f.ids.size(), nt = f.time.size();
    NC(nc_create(path.c_str(), Format(it) | NC_CLOBBER, &nc));
    if (it.i("timefirst")) NC(nc_def_dim(nc, "time", it.i("unlimited") ? NC_UNLIMITED : nt, &dt));
    NC(nc_def_dim(nc, odd == "nodim" ? "units" : "hydro_units", n, &du));
    if (!it.i("timefirst")) NC(nc_def_dim(nc, "time", nt, &dt));
    NC(nc_def_dim(nc, "other", n + 300, &dx));
    NC(nc_def_dim(nc, "single", 1, &d1));
    int type = it.i("single") ? NC_FLOAT : NC_DOUBLE;
    if (odd != "noid") NC(nc_def_var(nc, "id", NC_INT, 1, odd == "longid" ? &dx : &du, &vi));
    if (odd != "notime") NC(nc_def_var(nc, "time", NC_DOUBLE, 1, &dt, &vt));
    std::vector<int> vs;
    for (size_t k = 0; k < f.vars.size(); ++k) {
        int d[2] = {f.transposed[k] ? du : dt, f.transposed[k] ? dt : du};
        int nd = 2;
        int d3[3] = {dt, du, d1};
        bool o = k == 0;
        if (o && odd == "flat") nd = 1;
        if (o && odd == "scalar") nd = 0;
        if (o && odd == "wide") d[0] = dt, d[1] = dx;
        if (o && odd == "cube") nd = 3;
        NC(nc_def_var(nc, f.vars[k].first.c_str(), type, nd, nd == 3 ? d3 : d, &v));
        if (nd == 2) Storage(it, nc, v, true);
        vs.push_back(v);
    }
    if (odd == "unknown") NC(nc_def_var(nc, "quality", NC_INT, 1, &dt, &v));
    NC(nc_enddef(nc));
    size_t start[2] = {0, 0};
    size_t cn[1] = {n}, ct[1] = {nt};
    if (vi >= 0) NC(nc_put_vara_int(nc, vi, start, cn, f.ids.data()));
    if (vt >= 0) NC(nc_put_vara_double(nc, vt, start, ct, f.time.data()));
    for (size_t k = 0; k < f.vars.size(); ++k) {
        if (k == 0 && (odd == "flat" || odd == "scalar" || odd == "wide" || odd == "cube")) continue;
        bool tr = f.transposed[k];
        std::vector<double> all(n * nt);
        for (size_t u = 0; u < n; ++u)
            for (size_t t = 0; t < nt; ++t) all[tr ? u * nt + t : t * n + u] = f.vars[k].second[u][t];
        size_t s[2] = {0, 0}, c[2] = {tr ? n : nt, tr ? nt : n};
        if (!all.empty()) NC(nc_put_vara_double(nc, vs[k], s, c, all.data()));
    }
    NC(nc_close(nc));
    if (!odd.empty()) f.sound = false;
}
static std::string CompareBasin(const BasinFile& b, SettingsBasin& s) {
    if (s.GetHydroUnitCount() != static_cast<int>(b.ids.size())) return Fmt("units: %d instead of %zu", s.GetHydroUnitCount(), b.ids.size());
    for (size_t i = 0; i < b.ids.size(); ++i) {
        HydroUnitSettings u = s.GetHydroUnitSettings(static_cast<int>(i));
        if (u.id != b.ids[i]) return Fmt("ids: unit %zu has id %d instead of %d", i, u.id, b.ids[i]);
        if (!SameBits(u.area, b.areas[i])) return Fmt("areas: unit %zu has %.17g instead of %.17g", i, u.area, b.areas[i]);
        if (u.landCovers.size() != b.covers.size()) return Fmt("covers: unit %zu has %zu covers instead of %zu", i, u.landCovers.size(), b.covers.size());
        for (size_t c = 0; c < b.covers.size(); ++c) {
            auto& l = u.landCovers[c];
            if (l.name != b.covers[c].first || l.type != b.covers[c].second || !SameBits(l.fraction, b.fractions[c][i]))
                return Fmt("covers: unit %zu has %s/%s %.17g instead of %s/%s %.17g", i, l.name.c_str(), l.type.c_str(), l.fraction, b.covers[c].first.c_str(),
                           b.covers[c].second.c_str(), b.fractions[c][i]);
        }
        std::map<std::string, int> seen;
        for (auto& p : u.propertiesDouble) {
            bool cover = false, prop = false;
            for (auto& c : b.covers) cover |= c.first == p.name;
            if (++seen[p.name] > 1) return Fmt("properties: unit %zu has %s twice", i, p.name.c_str());
            for (auto& q : b.props)
                if (q.first == p.name) {
                    prop = true;
                    if (!SameBits(p.value, q.second[i])) return Fmt("properties: unit %zu has %s %.17g instead of %.17g", i, p.name.c_str(), p.value, q.second[i]);
                }
            if (!prop && !cover) return Fmt("properties: unit %zu has an invented property %s (%g)", i, p.name.c_str(), p.value);
        }
        for (auto& q : b.props)
            if (!seen.count(q.first)) return Fmt("properties: unit %zu lacks %s", i, q.first.c_str());
    }
    return "";
}
static std::string CompareForcing(const ForcingFile& f, const std::vector<std::unique_ptr<TimeSeries>>& v) {
    if (v.size() != f.vars.size()) return Fmt("series: %zu instead of %zu", v.size(), f.vars.size());
    static const std::map<std::string, VariableType> types{{"precipitation", VariableType::Precipitation}, {"temperature", VariableType::Temperature}, {"pet", VariableType::PET},
                                                           {"t_min", VariableType::TemperatureMin}, {"r_solar", VariableType::Radiation}};
    for (auto& var : f.vars) {
        TimeSeries* ts = nullptr;
        for (auto& t : v)
            if (t->GetVariableType() == types.at(var.first)) ts = t.get();
        if (!ts) return "series: no " + var.first;
        double slack = 1e-6;
        if (std::abs(ts->GetStart() - f.time.front()) > slack || std::abs(ts->GetEnd() - f.time.back()) > slack)
            return "dates: " + var.first + Fmt(" from %.9g to %.9g instead of %.9g to %.9g", ts->GetStart(), ts->GetEnd(), f.time.front(), f.time.back());
        std::vector<TimeSeriesData*> data;
        for (int id : f.ids) {
            data.push_back(ts->GetDataPointer(id));
            if (!data.back()) return Fmt("units: no data for unit %d", id);
        }
        if (!ts->SetCursorToDate(ts->GetStart())) return "cursor: the start is refused";
        for (size_t t = 0; t < f.time.size(); ++t) {
            if (t > 0 && !ts->AdvanceOneTimeStep()) return Fmt("values: %s ends at step %zu of %zu", var.first.c_str(), t, f.time.size());
            for (size_t u = 0; u < f.ids.size(); ++u) {
                double x = data[u]->GetCurrentValue();
                if (!SameBits(x, var.second[u][t])) return Fmt("values: %s of unit %d at step %zu is %.17g instead of %.17g", var.first.c_str(), f.ids[u], t, x, var.second[u][t]);
            }
        }
    }
    return "";
}
static Spec GenP13(Rng& r, uint64_t) {
    Spec sp;
    bool basin = r.p(0.5);
    Item& f = sp.add(basin ? "basinfile" : "forcingfile");
    f.set("seed", static_cast<int>(r.range(1, 100000000))).set("n", r.p(0.15) ? r.range(50, 400) : r.range(1, 6));
    f.set("classic", r.p(0.2) ? 1 : 0).set("single", r.p(0.4) ? 1 : 0).set("deflate", r.p(0.4) ? 1 : 0).set("checksums", r.p(0.3) ? 1 : 0);
    f.set("oddids", r.p(0.3) ? 1 : 0);
    static const std::vector<std::string> ob{"scalar", "plane", "cube", "otherdim", "text", "nodim", "noid", "noarea", "longarea", "nocover", "notype", "longcover"};
    static const std::vector<std::string> of{"nodim", "noid", "notime", "longid", "flat", "scalar", "wide", "cube", "unknown"};
    bool odd = r.p(0.3);
    if (basin) {
        f.set("covers", r.range(0, 4)).set("props", r.range(0, 5)).set("extrafirst", r.p(0.5) ? 1 : 0);
        if (r.p(0.2)) f.set("oldname", 1);
        if (odd) f.set("odd", r.pick(ob));
        f.set("unlimited", r.p(0.15) ? 1 : 0);
        if (f.i("classic")) f.set("covers", 0);  // the classic format has no text lists
    } else {
        f.set("nt", r.p(0.1) ? r.range(500, 3000) : r.range(1, 40)).set("vars", r.range(1, 5)).set("ptrans", r.pick(std::vector<double>{0.0, 1.0, 0.5}));
        f.set("start", r.range(20000, 70000)).set("stepmin", r.pick(std::vector<int>{1440, 1440, 60, 180, 10, 2880})).set("timefirst", r.p(0.5) ? 1 : 0);
        if (odd) f.set("odd", r.pick(of));
        if (f.i("timefirst") && r.p(0.2)) f.set("unlimited", 1);
        if (f.i("nt") * f.i("n") > 60000) f.set("nt", 60000 / f.i("n"));
    }
    // A classic file that holds a few bytes of data only cannot be told from its truncated version (DESIGN.md).
    bool tiny = f.i("classic") && f.i("n") == 1;
    int n = tiny ? 0 : odd && r.p(0.6) ? 0 : r.p(0.8) ? 1 : 2;
    for (int i = 0; i < n; ++i) {
        static const std::vector<std::string> kinds{"error", "error", "error", "eof", "readpart", "readpart", "short", "eintr", "open", "close", "stat", "vanish", "cut", "cut", "gone"};
        Item& x = sp.add("fault");
        std::string k = r.pick(kinds);
        x.set("kind", k).set("frac", r.u()).set("last", r.p(0.35) ? 1000000000 : r.range(1, 3)).set("salt", static_cast<int>(r.range(1, 100000000)));
        if (k == "cut" && r.p(0.3)) x.set("bytes", r.range(1, 64));  // a few bytes at the end
        if (r.p(0.2)) x.set("late", 1);
    }
    if (r.p(0.5)) sp.add("again").set("same", r.p(0.7) ? 1 : 0);
    return sp;
}
iosim::Fault ToFault(const Item& f, const std::vector<long>& counts);
std::vector<long> Counts();
static void ExecP13(const Spec& sp, RunResult& r) {
    mkdir(ScratchDir().c_str(), 0700);
    std::string dir = ScratchDir() + "/in";
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
    mkdir(dir.c_str(), 0700);
    std::string path = dir + "/input.nc", kept = dir + "/kept.nc";
    bool basin = !sp.all("basinfile").empty();
    const Item& it = basin ? sp.one("basinfile") : sp.one("forcingfile");
    if (it.kind.empty()) return;
    std::string what = basin ? "basin" : "forcing";
    Bytes b{InFreshProcess([&] {
        Bytes o;
        BasinFile bf;
        ForcingFile ff;
        try {
            if (basin) bf = MakeBasinFile(it), WriteBasinFile(it, bf, kept);
            else ff = MakeForcingFile(it), WriteForcingFile(it, ff, kept);
        } catch (const std::exception& e) {
            o.putU(0);
            o.put(e.what());
            return o.s;
        }
        o.putU(1);
        bool sound = basin ? bf.sound : ff.sound;
        std::filesystem::copy_file(kept, path, std::filesystem::copy_options::overwrite_existing);
        std::vector<std::pair<std::string, std::string>> bad;
        auto read = [&](SettingsBasin& sb, std::vector<std::unique_ptr<TimeSeries>>& v, std::string& how) {
            try {
                bool ok = basin ? sb.Parse(path) : TimeSeries::Parse(path, v);
                how = ok ? "success" : "failure";
                return ok;
            } catch (const std::exception&) {
                how = "exception";
                return false;
            }
        };
        auto compare = [&](SettingsBasin& sb, std::vector<std::unique_ptr<TimeSeries>>& v) { return basin ? CompareBasin(bf, sb) : CompareForcing(ff, v); };
        std::string how;
        std::vector<long> counts;
        {
            SettingsBasin sb;
            std::vector<std::unique_ptr<TimeSeries>> v;
            iosim::Watch(dir.c_str());
            bool ok = read(sb, v, how);
            counts = Counts();
            iosim::Unwatch();
            if (ok && !sound) bad.push_back({"accepted-" + it.str("odd"), "a " + what + " file that cannot be understood (" + it.str("odd") + ") was read without a failure"});
            if (ok && sound) {
                std::string d = compare(sb, v);
                if (!d.empty()) bad.push_back({"content-" + d.substr(0, d.find(':')), "an intact " + what + " file was not read as it is: " + d});
            }
            if (!ok && sound && it.str("odd").empty()) bad.push_back({"refused", "an intact " + what + " file was refused"});
        }
        long struck = 0;
        bool harmless = true;
        std::vector<std::string> kinds;
        SettingsBasin sb;
        std::vector<std::unique_ptr<TimeSeries>> v;
        if (!sp.all("fault").empty()) {
            std::vector<iosim::Fault> faults;
            std::vector<std::string> names;
            for (auto f : sp.all("fault")) {
                std::string k = f->str("kind");
                if (k == "cut") {
                    auto size = std::filesystem::file_size(kept);
                    auto left = f->has("bytes") ? size - std::min<uintmax_t>(size, static_cast<uintmax_t>(f->i("bytes"))) : static_cast<uintmax_t>(f->num("frac") * static_cast<double>(size));
                    std::filesystem::resize_file(path, std::min(left, std::filesystem::exists(path) ? std::filesystem::file_size(path) : 0));
                    ++struck;
                    harmless = false;
                    kinds.push_back(k);
                } else if (k == "gone") {
                    std::filesystem::remove(path);
                    ++struck;
                    harmless = false;
                    kinds.push_back(k);
                    break;
                } else {
                    faults.push_back(ToFault(*f, counts));
                    names.push_back(k);
                }
            }
            iosim::Watch(dir.c_str());
            iosim::SetFaults(faults.data(), static_cast<int>(faults.size()));
            bool ok = read(sb, v, how);
            iosim::Unwatch();
            for (size_t i = 0; i < faults.size(); ++i)
                if (faults[i].fired) {
                    ++struck;
                    kinds.push_back(names[i]);
                    if (names[i] != "short" && names[i] != "eintr") harmless = false;
                }
            std::string ks;
            for (auto& k : kinds) ks += (ks.empty() ? "" : "+") + k;
            if (ok && !sound) bad.push_back({"accepted-" + it.str("odd"), "a " + what + " file that cannot be understood (" + it.str("odd") + ") was read without a failure under faults (" + ks + ")"});
            if (ok && sound) {
                std::string d = compare(sb, v);
                if (!d.empty()) bad.push_back({"false-success-" + d.substr(0, d.find(':')), "a " + what + " file was read without a failure under faults (" + ks + "), but: " + d});
            }
            if (!ok && struck == 0 && sound && it.str("odd").empty()) bad.push_back({"refused", "an intact " + what + " file was refused"});
            std::filesystem::copy_file(kept, path, std::filesystem::copy_options::overwrite_existing, ec);
            // the disk is well again; a reader that failed is used again, or a new one
            if (!ok && sound && it.str("odd").empty() && sp.one("again").kind == "again") {
                SettingsBasin sb2;
                std::vector<std::unique_ptr<TimeSeries>> v2;
                bool same = sp.one("again").i("same") != 0;
                bool ok2 = same ? read(sb, v, how) : read(sb2, v2, how);
                if (!ok2) bad.push_back({same ? "again-refused" : "later-refused", "after a read under faults (" + ks + ") the intact " + what + " file was refused"});
                else {
                    std::string d = same ? compare(sb, v) : compare(sb2, v2);
                    if (!d.empty()) bad.push_back({(same ? "again-" : "later-") + d.substr(0, d.find(':')), "after a failed read (" + ks + ") the next read of the intact " + what + " file gives: " + d});
                }
            }
            o.putU(ok ? 1 : 2);
        } else o.putU(0);
        o.putU(static_cast<uint64_t>(struck));
        o.putU(kinds.size());
        for (auto& k : kinds) o.put(k);
        o.putU(bad.size());
        for (auto& x : bad) o.put(x.first), o.put(x.second);
        o.put(how);
        (void)harmless;
        return o.s;
    })};
    if (b.getU() == 0) {
        r.add("refused");
        if (getenv("HBSIM_WHY")) r.add("refused: " + b.get());
        return;
    }
    uint64_t res = b.getU(), struck = b.getU();
    if (res) r.add(res == 1 ? "under-faults.success" : "under-faults.failure");
    for (size_t n = b.getU(); n > 0; --n) r.add("fault." + b.get());
    for (size_t n = b.getU(); n > 0; --n) {
        std::string c = b.get();
        r.bad(what + "/" + c, b.get());
    }
    r.mix(HashStr(b.get(), res));
    r.add("files." + what);
    if (it.has("odd")) r.add("fault.odd-" + it.str("odd"));
    r.nontrivial = struck > 0 || it.has("odd");
    r.shape = HashStr(sp.text());
    std::filesystem::remove_all(dir, ec);
}
// One file of P13 and its faults, for P25: writes it (elsewhere), and reads it any number of times in this process.
struct InputSession {
    Spec sp;
    std::string dir, path, kept;
    bool basin = false, good = false;
    std::vector<long> counts;
    explicit InputSession(const Spec& s);
    ~InputSession();
    bool Read(bool faults);
};
InputSession::InputSession(const Spec& s)
    : sp(s) {
    mkdir(ScratchDir().c_str(), 0700);
    dir = ScratchDir() + "/leak";
    mkdir(dir.c_str(), 0700);
    path = dir + "/input.nc";
    kept = dir + "/kept.nc";
    basin = !sp.all("basinfile").empty();
    const Item& it = basin ? sp.one("basinfile") : sp.one("forcingfile");
    if (it.kind.empty()) return;
    Bytes b{InFreshProcess([&] {
        BasinFile bf;
        ForcingFile ff;
        Bytes o;
        try {
            if (basin) bf = MakeBasinFile(it), WriteBasinFile(it, bf, kept);
            else ff = MakeForcingFile(it), WriteForcingFile(it, ff, kept);
        } catch (const std::exception&) {
            o.putU(0);
            return o.s;
        }
        o.putU(1);
        return o.s;
    })};
    good = b.getU() == 1;
    if (!good) return;
    std::filesystem::copy_file(kept, path, std::filesystem::copy_options::overwrite_existing);
    iosim::Watch(dir.c_str());
    Read(false);
    counts = Counts();
    iosim::Unwatch();
}
InputSession::~InputSession() {
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
}
bool InputSession::Read(bool withFaults) {
    std::vector<iosim::Fault> faults;
    if (withFaults) {
        std::error_code ec;
        std::filesystem::copy_file(kept, path, std::filesystem::copy_options::overwrite_existing, ec);
        for (auto f : sp.all("fault")) {
            std::string k = f->str("kind");
            if (k == "gone") std::filesystem::remove(path, ec);
            else if (k == "cut") std::filesystem::resize_file(path, static_cast<uintmax_t>(f->num("frac") * static_cast<double>(std::filesystem::file_size(kept))), ec);
            else faults.push_back(ToFault(*f, counts));
        }
        iosim::Watch(dir.c_str());
        iosim::SetFaults(faults.data(), static_cast<int>(faults.size()));
    }
    bool ok = false;
    try {
        SettingsBasin sb;
        std::vector<std::unique_ptr<TimeSeries>> v;
        ok = basin ? sb.Parse(path) : TimeSeries::Parse(path, v);
    } catch (const std::exception&) {
    }
    if (withFaults) {
        iosim::SetFaults(nullptr, 0);
        iosim::Unwatch();
    }
    return ok;
}
bool LeakRead(const Spec& sp, int times, const std::function<void(int, bool)>& after) {
    InputSession s(sp);
    if (!s.good) return false;
    for (int k = 0; k < times; ++k) {
        bool ok = s.Read(true);
        after(k, ok);
    }
    return true;
}
static RegisterProp p13({"P13", 6000, 200000, 40, GenP13, ExecP13,
                         "a run counts when a fault struck the reading, the file had been cut or removed, or its layout was unusual; distinct = distinct files and faults",
                         "SettingsBasin, TimeSeries, FileNetcdf and the NetCDF/HDF5 libraries: real",
                         "the C library's file calls for the input directory (errors, early end, short reads, failing open/close/stat, vanishing file) decided by the seed; the files' content comes from the simulator"});
