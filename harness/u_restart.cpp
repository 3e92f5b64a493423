// C18: restart policies against reference models.
#include <algorithm>
#include <cmath>
#include "Event_dispatcher.h"
#include "Restart.h"
#include "unit.h"

using namespace yaga;

struct World
{
    Rng g;
    Event_dispatcher disp;
    Trail trail{disp};
    Database db;
    int n;

    explicit World(std::uint64_t seed) : g(seed)
    {
        n = g.range(4, 40);
        trail.set_model<bool>(Variable::boolean, n);
        auto& m = trail.model<bool>(Variable::boolean);
        std::vector<int> vs(n);
        for (int i = 0; i < n; ++i) vs[i] = i;
        g.shuffle(vs);
        int p = g.range(10, 90);
        for (int v : vs)
        {
            m.set_value(v, g.chance(50));
            if (g.chance(p)) trail.decide(Variable{v, Variable::boolean});
            else trail.propagate(Variable{v, Variable::boolean}, nullptr, g.range(0, trail.decision_level()));
        }
    }

    // a clause with few, many or arbitrary distinct levels
    Clause clause(int style)
    {
        std::vector<int> vs(n);
        for (int i = 0; i < n; ++i) vs[i] = i;
        g.shuffle(vs);
        int len = style == 0 ? g.range(1, 2) : style == 1 ? g.range(std::max(1, n / 2), n) : g.range(1, n);
        Clause c;
        for (int i = 0; i < len; ++i)
        {
            Literal l{vs[i]};
            if (g.chance(50)) l.negate();
            c.push_back(l);
        }
        return c;
    }

    int levels(Clause const& c)
    {
        std::set<int> s;
        for (auto l : c) s.insert(trail.decision_level(l.var()).value());
        return static_cast<int>(s.size());
    }
};

// terms of the Luby sequence by its definition
static long long luby_ref(long long i)
{
    long long k = 1;
    while ((1ll << k) - 1 < i) ++k;
    if ((1ll << k) - 1 == i) return 1ll << (k - 1);
    return luby_ref(i - (1ll << (k - 1)) + 1);
}

static void run_luby(std::uint64_t seed, int events)
{
    World w(seed);
    Luby_restart r;
    auto& g = w.g;
    long long mult = 0, count = 0;
    int index = 1;
    int delay = g.chance(50) ? 0 : g.range(1, 30);
    Clause c = w.clause(2);
    for (int i = 0; i < events; ++i)
    {
        bool ask = r.should_restart();
        if (mult == 0)
        {
            if (ask) // the first restart after mult * luby(1) = mult clauses
            {
                mult = count;
                EXPECT(mult > 0, "luby:restart-before-any-clause", "");
                if (mult <= 0) return;
            }
        }
        else
        {
            bool expected = count >= mult * luby_ref(index);
            EXPECT(ask == expected, "luby:should-restart", "restart " << index << " after " << count << " clauses, multiplier " << mult);
            if (ask != expected) return;
        }
        EXPECT(r.should_restart() == ask, "luby:query-changes-answer", "");
        if (ask && (delay == 0 || g.chance(100 / delay + 1)))
        {
            r.on_restart(w.db, w.trail);
            ++index;
            count = 0;
            report.count("luby restarts");
        }
        else if (g.chance(1) && mult && g.chance(2)) // a restart nobody asked for (a new check)
        {
            r.on_restart(w.db, w.trail);
            ++index;
            count = 0;
            report.count("luby restarts not asked for");
        }
        else
        {
            if (g.chance(2)) c = w.clause(2);
            if (g.chance(5)) r.on_conflict_resolved(w.db, w.trail, c); // must not count
            if (g.chance(5)) r.on_before_backtrack(w.db, w.trail, 0);
            r.on_learned_clause(w.db, w.trail, c);
            ++count;
            report.count("luby clauses");
        }
    }
    for (int i = 0; i < 300; ++i)
    {
        std::uint32_t k = g.chance(50) ? g.range(1, 5000) : static_cast<std::uint32_t>(g.next() % 2000000000u) + 1;
        if (g.chance(20)) k = (1u << g.range(1, 30)) - g.range(0, 1);
        if (k == 0) k = 1;
        EXPECT(r.luby(k) == luby_ref(k), "luby:sequence", k);
        report.count("luby terms");
    }
    report.top("luby index", index);
    report.mix(seed);
    report.mix(index);
    report.seen();
}

static void run_glucose(std::uint64_t seed, int events)
{
    World w(seed);
    Glucose_restart r;
    auto& g = w.g;
    bool defaults = g.chance(25);
    int min = -1, slow = -1, fast = -1;
    double thr = -1;
    if (!defaults)
    {
        min = g.chance(20) ? 0 : g.range(1, 80);
        slow = g.range(3, 14);
        fast = g.range(0, 7);
        thr = 1.0 + g.below(60) / 100.0;
        // the setters chain
        auto& s = r.set_min_conflicts(min);
        auto& t = s.set_slow_exp(slow);
        auto& u = t.set_fast_exp(fast);
        auto& v = u.set_threshold(static_cast<float>(thr));
        EXPECT(&v == &r, "glucose:setters", "");
    }
    double es = 0, ef = 0;
    long long count = 0, restarts = 0;
    long long first_ask = -1;
    int style = 2;
    bool prev_reached = false;
    std::vector<std::pair<long long, std::pair<double, bool>>> seen_defaults;
    for (int i = 0; i < events; ++i)
    {
        bool ask = r.should_restart();
        double fs = r.fast(), ss = r.slow();
        if (!defaults)
        {
            EXPECT(std::abs(fs - ef) <= 1e-3 * (1 + ef) && std::abs(ss - es) <= 2e-3 * (1 + es), "glucose:averages",
                   "fast " << fs << " expected " << ef << ", slow " << ss << " expected " << es << " exponents " << fast << " " << slow);
            double d = ef - thr * es;
            if (std::abs(d) > 5e-3 * (1 + ef) || (ef == 0 && es == 0))
            {
                bool expected = count >= min && d >= 0;
                EXPECT(ask == expected, "glucose:should-restart",
                       "min " << min << " clauses " << count << " fast " << ef << " slow " << es << " threshold " << thr);
                if (ask != expected) return;
                report.count(expected ? "glucose asked" : count >= min ? "glucose below the threshold" : "glucose below the minimum");
            }
        }
        else if (count > 0 && i > 300)
        {
            // constants unknown: the answer must be a function (count >= m and fast/slow >= t) for some m, t
            seen_defaults.push_back({count, {fs / ss, ask}});
            report.count("glucose default observations");
        }
        if (i == 0 && !defaults && min > 0) EXPECT(!ask, "glucose:restart-before-any-clause", "");
        if (ask && first_ask < 0) first_ask = i;
        prev_reached = ask;
        if ((ask && g.chance(70)) || g.below(400) == 0)
        {
            r.on_restart(w.db, w.trail);
            count = 0;
            ++restarts;
            report.count("glucose restarts");
            EXPECT(r.fast() == static_cast<float>(fs) && r.slow() == static_cast<float>(ss), "glucose:restart-changes-averages", "");
        }
        if (g.below(40) == 0) style = g.below(3);
        Clause c = w.clause(style);
        if (g.chance(5)) r.on_conflict_resolved(w.db, w.trail, c);
        if (g.chance(5)) r.on_before_backtrack(w.db, w.trail, 0);
        int l = w.levels(c);
        r.on_learned_clause(w.db, w.trail, c);
        ++count;
        if (!defaults)
        {
            es += (l - es) / static_cast<double>(1 << slow);
            ef += (l - ef) / static_cast<double>(1 << fast);
        }
        if (l != static_cast<int>(c.size())) report.count("clauses with fewer levels than literals");
        report.count("glucose clauses");
    }
    if (defaults && !seen_defaults.empty())
    {
        // the smallest asked count and ratio bound m and t from above; anything clearly above both has to ask
        long long m = -1;
        double t = -1;
        for (auto& [k, o] : seen_defaults)
        {
            if (o.second && (m < 0 || k < m)) m = k;
            if (o.second && (t < 0 || o.first < t)) t = o.first;
        }
        for (auto& [k, o] : seen_defaults)
        {
            if (m >= 0 && k >= m && o.first > t * 1.001) EXPECT(o.second, "glucose:not-a-threshold", "count " << k << " ratio " << o.first << ", asked at " << m << " and " << t);
        }
    }
    (void)prev_reached;
    report.mix(seed);
    report.mix(static_cast<std::uint64_t>(restarts));
    report.seen();
}

static void run_none(std::uint64_t seed)
{
    World w(seed);
    No_restart r;
    for (int i = 0; i < 3000; ++i)
    {
        EXPECT(!r.should_restart(), "none:restart", "");
        if (i % 50 == 0) r.on_restart(w.db, w.trail);
        r.on_learned_clause(w.db, w.trail, w.clause(2));
        report.count("clauses without restarts");
    }
    report.mix(seed);
    report.seen();
}

int main(int argc, char** argv)
{
    std::uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    int iters = argc > 2 ? atoi(argv[2]) : 10;
    for (int i = 0; i < iters && report.violations.empty(); ++i)
    {
        run_luby(seed * 1000003 + i, 150000);
        for (int k = 0; k < 8; ++k) run_glucose(seed * 1000003 + i * 64 + k, 6000);
        if (i % 8 == 0) run_none(seed * 1000003 + i);
        report.count("histories");
    }
    report.print();
}
