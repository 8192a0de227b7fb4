#include "gen.h"
#include "util.h"

#include "ParameterModifier.h"
#include "ParametersUpdater.h"
#include "TimeMachine.h"

// ---- P26: time-varying parameters ----------------------------------------------------------------------
// The clock of the engine runs through any period, is rewound and moved; after every step each parameter has the value
// declared for the year, the month or the date reached.
static Spec GenP26(Rng& r, uint64_t) {
    Spec sp;
    int runs = r.range(1, 4);
    static const std::vector<std::pair<int, std::string>> steps{{1, "day"}, {1, "day"}, {1, "hour"}, {3, "hour"}, {6, "hour"}, {7, "hour"}, {10, "minute"}, {17, "minute"}, {2, "day"}, {5, "day"}, {30, "day"}, {45, "day"}, {400, "day"}, {1, "week"}, {3, "week"}};
    for (int i = 0; i < runs; ++i) {
        Item& t = sp.add("period");
        if (i > 0 && r.p(0.5)) {  // the same period again
            t = Item{"period", {}};
            t.set("again", 1);
        } else {
            auto st = r.pick(steps);
            int y = r.p(0.2) ? r.pick(std::vector<int>{1900, 1904, 2000, 2100, 1999, 2096}) : r.range(1860, 2150);
            int64_t days = DaysFromCivil(y, r.p(0.3) ? 12 : r.range(1, 12), r.p(0.4) ? 28 : r.range(1, 28));
            t.set("day", static_cast<int>(days)).set("minute", r.p(0.6) ? 0 : r.range(0, 1439)).set("step", st.first).set("unit", st.second);
            t.set("n", r.p(0.2) ? r.range(200, 1500) : r.range(2, 120));
        }
        if (r.p(0.3)) t.set("stop", r.u());  // ended early
    }
    int k = r.range(1, 5);
    for (int i = 0; i < k; ++i) {
        Item& p = sp.add("param");
        static const std::vector<std::string> kinds{"yearly", "yearly", "monthly", "dates", "dates", "none"};
        std::string kind = r.pick(kinds);
        p.set("kind", kind).set("seed", r.range(1, 100000000)).set("value", r.uni(-5, 5));
        if (kind == "yearly") p.set("from", r.range(-3, 3)).set("count", r.range(1, 9));
        if (kind == "dates") p.set("count", r.range(1, 12)).set("down", r.p(0.2) ? 1 : 0).set("whole", r.p(0.3) ? 1 : 0);
    }
    return sp;
}
static void ExecP26(const Spec& sp, RunResult& r) {
    struct Period {
        int64_t start = 0;
        int step = 1, stepMin = 1440, n = 10;
        TimeUnit unit = TimeUnit::Day;
        int stop = 0;
        bool again = false;
    };
    std::vector<Period> ps;
    for (auto it : sp.all("period")) {
        Period p;
        if (it->i("again") && !ps.empty()) {
            p = ps.back();
            p.again = true;
        } else {
            p.start = static_cast<int64_t>(it->i("day")) * 1440 + it->i("minute");
            p.step = it->i("step", 1);
            std::string u = it->str("unit", "day");
            p.unit = u == "day" ? TimeUnit::Day : u == "hour" ? TimeUnit::Hour : u == "week" ? TimeUnit::Week : TimeUnit::Minute;
            p.stepMin = p.step * (u == "day" ? 1440 : u == "hour" ? 60 : u == "week" ? 7 * 1440 : 1);
            p.n = it->i("n", 10);
        }
        p.stop = it->has("stop") ? static_cast<int>(it->num("stop") * p.n) : p.n;
        ps.push_back(p);
    }
    if (ps.empty()) return;
    struct Var {
        std::string kind;
        std::unique_ptr<Parameter> p;
        float expected = 0;
        int from = 0;
        std::vector<float> values;
        std::map<int64_t, float> dates;
    };
    std::vector<Var> vs;
    ParametersUpdater updater;
    for (auto it : sp.all("param")) {
        Var v;
        Rng g(static_cast<uint64_t>(it->i("seed", 1)));
        v.kind = it->str("kind");
        v.expected = static_cast<float>(it->num("value"));
        v.p = std::make_unique<Parameter>("p" + std::to_string(vs.size()), v.expected);
        const Period& ref = ps[g.next() % ps.size()];
        bool ok = true;
        if (v.kind == "yearly") {
            int y, m, d;
            CivilFromDays(ref.start / 1440, y, m, d);
            v.from = y + it->i("from");
            for (int i = 0; i < it->i("count", 1); ++i) v.values.push_back(static_cast<float>(g.uni(0, 100)));
            ParameterModifier mod(ParameterModifierType::Yearly);
            ok = mod.SetYearlyValues(v.from, v.from + static_cast<int>(v.values.size()) - 1, v.values);
            v.p->SetModifier(mod);
        } else if (v.kind == "monthly") {
            for (int i = 0; i < 12; ++i) v.values.push_back(static_cast<float>(g.uni(0, 100)));
            ParameterModifier mod(ParameterModifierType::Monthly);
            ok = mod.SetMonthlyValues(v.values);
            v.p->SetModifier(mod);
        } else if (v.kind == "dates") {
            for (int i = 0; i < it->i("count", 1); ++i) {
                const Period& q = ps[g.next() % ps.size()];
                int64_t at = q.start + static_cast<int64_t>(g.range(it->i("whole") ? 1 : -5, q.n + (it->i("whole") ? 0 : 5))) * q.stepMin;
                v.dates[at] = static_cast<float>(g.uni(0, 100));
            }
            std::vector<double> d;
            std::vector<float> x;
            for (auto& e : v.dates) d.push_back(MjdOfMinute(e.first)), x.push_back(e.second);
            if (it->i("down")) std::reverse(d.begin(), d.end()), std::reverse(x.begin(), x.end());
            ParameterModifier mod(ParameterModifierType::Dates);
            ok = mod.SetDatesAndValues(d, x);
            v.p->SetModifier(mod);
        }
        if (!ok) r.bad("parameter/refused", "a schedule of " + v.kind + " values was refused");
        updater.AddParameter(v.p.get());
        vs.push_back(std::move(v));
    }
    TimeMachine tm;
    tm.SetParametersUpdater(&updater);
    int changes = 0;
    bool first = true;
    for (size_t k = 0; k < ps.size(); ++k) {
        const Period& p = ps[k];
        int64_t end = p.start + static_cast<int64_t>(p.n) * p.stepMin;
        if (p.again && !first) tm.Reset();
        else tm.Initialize(MjdOfMinute(p.start), MjdOfMinute(end), p.step, p.unit);
        if (!first) r.add("fault.clock moved");
        first = false;
        for (int i = 1; i <= p.stop; ++i) {
            int64_t at = p.start + static_cast<int64_t>(i) * p.stepMin;
            tm.IncrementTime();
            int64_t day = at >= 0 ? at / 1440 : -((-at + 1439) / 1440);
            int y, m, d;
            CivilFromDays(day, y, m, d);
            for (auto& v : vs) {
                float was = v.expected;
                if (v.kind == "yearly" && y >= v.from && y < v.from + static_cast<int>(v.values.size())) v.expected = v.values[static_cast<size_t>(y - v.from)];
                if (v.kind == "monthly") v.expected = v.values[static_cast<size_t>(m - 1)];
                if (v.kind == "dates" && v.dates.count(at)) v.expected = v.dates[at];
                changes += was != v.expected;
                if (v.p->GetValue() != v.expected)
                    r.bad("parameter/" + v.kind, Fmt("after step %d of period %zu (%s, steps of %d min) a parameter varying by %s has the value %.9g instead of %.9g", i, k, DateText(at).c_str(), p.stepMin, v.kind.c_str(), v.p->GetValue(), v.expected));
            }
        }
        r.add("steps", p.stop);
        r.add("simdays", p.stop * p.stepMin / 1440.0);
        for (auto& v : vs) r.mix(static_cast<double>(v.p->GetValue()));
    }
    r.add("changes", changes);
    r.nontrivial = changes > 0;
    r.shape = HashStr(sp.text());
    r.states.push_back(r.hash);
}
static RegisterProp p26({"P26", 40000, 2000000, 60, GenP26, ExecP26,
                         "a run counts when some value changed; distinct = distinct periods and schedules",
                         "TimeMachine, ParametersUpdater, Parameter, ParameterModifier: real", "the clock's periods, rewinds and jumps decided by the seed; the hydrological model does not take part"});
