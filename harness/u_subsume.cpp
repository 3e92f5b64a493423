// C16: removal of subsumed clauses and minimisation of new clauses.
#include <functional>
#include <algorithm>
#include "Event_dispatcher.h"
#include "Subsumption.h"
#include "unit.h"

using namespace yaga;

static std::string str(Clause const& c)
{
    std::string s = "(";
    for (auto l : c) s += (s.size() > 1 ? " " : "") + std::string(l.is_negation() ? "-" : "") + std::to_string(l.var().ord() + 1);
    return s + ")";
}

static int code(Literal l) { return l.var().ord() * 2 + l.is_negation(); }
static std::vector<int> key(Clause const& c)
{
    std::vector<int> v;
    for (auto l : c) v.push_back(code(l));
    return v;
}
static std::set<int> lits(Clause const& c)
{
    std::set<int> v;
    for (auto l : c) v.insert(code(l));
    return v;
}
static bool proper_subset(std::set<int> const& a, std::set<int> const& b)
{
    return a.size() < b.size() && std::includes(b.begin(), b.end(), a.begin(), a.end());
}

static Clause random_clause(Rng& g, int n, int len)
{
    std::vector<int> vs(n);
    for (int i = 0; i < n; ++i) vs[i] = i;
    g.shuffle(vs);
    Clause c;
    for (int i = 0; i < std::min(len, n); ++i)
    {
        Literal l{vs[i]};
        if (g.chance(50)) l.negate();
        c.push_back(l);
    }
    return c;
}

static void databases(std::uint64_t seed)
{
    Rng g(seed);
    Event_dispatcher disp;
    Trail trail(disp);
    Database db;
    Subsumption sub;
    int n = g.chance(60) ? g.range(2, 12) : g.range(20, 150); // more variables than bits of a signature
    trail.set_model<bool>(Variable::boolean, n);
    sub.on_variable_resize(Variable::boolean, n);
    sub.on_init(db, trail);
    std::vector<Clause> asserted;
    for (int i = g.below(20); i > 0; --i)
    {
        Clause c = random_clause(g, n, g.range(1, 5));
        asserted.push_back(c);
        db.assert_clause(c);
        if (g.chance(30))
        {
            c.pop_back();
            if (!c.empty())
            {
                asserted.push_back(c);
                db.assert_clause(c);
            }
        }
    }
    int rounds = g.range(2, 7);
    for (int r = 0; r < rounds && report.violations.empty(); ++r)
    {
        if (g.chance(15)) // a new check: other clauses, possibly more variables
        {
            if (g.chance(50)) db.learned().clear();
            if (g.chance(60)) n += g.range(1, 20);
            trail.resize(Variable::boolean, n);
            sub.on_variable_resize(Variable::boolean, n);
            sub.on_init(db, trail);
            report.count("new checks");
        }
        int add = g.chance(10) ? 0 : g.range(1, g.chance(20) ? 80 : 25);
        int maxlen = g.chance(85) ? g.range(1, 8) : g.range(9, 24);
        for (int i = 0; i < add; ++i)
        {
            Clause c;
            int k = g.below(100);
            if (k < 45 || db.learned().empty()) c = random_clause(g, n, g.range(1, maxlen));
            else
            {
                c = db.learned()[g.below(static_cast<int>(db.learned().size()))];
                if (k < 60) // subset
                {
                    while (c.size() > 1 && g.chance(60)) c.erase(c.begin() + g.below(static_cast<int>(c.size())));
                }
                else if (k < 80) // superset
                {
                    Clause d = random_clause(g, n, g.range(1, 4));
                    for (auto l : d)
                    {
                        if (std::none_of(c.begin(), c.end(), [&](auto x) { return x.var() == l.var(); })) c.push_back(l);
                    }
                }
                else if (k < 90) // one literal negated
                {
                    c[g.below(static_cast<int>(c.size()))].negate();
                    if (g.chance(50) && c.size() > 1) c.pop_back();
                }
                g.shuffle(c);
            }
            db.learn_clause(c);
        }
        std::vector<Clause> before(db.learned().begin(), db.learned().end());
        sub.on_restart(db, trail);
        std::vector<Clause> after(db.learned().begin(), db.learned().end());
        EXPECT(std::equal(asserted.begin(), asserted.end(), db.asserted().begin(), db.asserted().end()), "asserted-clause-changed", "");
        std::multiset<std::vector<int>> left;
        for (auto& c : after) left.insert(key(c));
        std::vector<std::set<int>> kept;
        for (auto& c : after) kept.push_back(lits(c));
        int removed = 0;
        for (auto& c : before)
        {
            auto it = left.find(key(c));
            if (it != left.end())
            {
                left.erase(it);
                continue;
            }
            ++removed;
            auto s = lits(c);
            EXPECT(std::any_of(kept.begin(), kept.end(), [&](auto& k) { return std::includes(s.begin(), s.end(), k.begin(), k.end()); }), "removed-but-not-subsumed", str(c));
        }
        EXPECT(left.empty(), "clause-changed", (left.empty() ? 0 : left.size()) << " clauses after the reduction were not there before");
        for (std::size_t i = 0; i < kept.size(); ++i)
        {
            for (std::size_t j = 0; j < kept.size(); ++j)
            {
                if (i != j) EXPECT(!proper_subset(kept[i], kept[j]), "subsumed-but-kept", str(after[i]) << " and " << str(after[j]));
            }
        }
        report.count("reductions");
        report.count("clauses before reductions", static_cast<long long>(before.size()));
        report.count("clauses removed", removed);
        for (auto& c : before) for (auto l : c) report.mix(code(l));
        report.seen();
    }
}

// clauses imply the clause (backtracking search with unit propagation)
static bool implied_by(std::vector<Clause const*> const& cs, Clause const& goal, int n)
{
    std::vector<int> val(n, -1);
    auto truth = [&](Literal l) { return val[l.var().ord()] < 0 ? -1 : static_cast<int>(val[l.var().ord()] != static_cast<int>(l.is_negation())); };
    std::function<bool(std::vector<int>)> refuted = [&](std::vector<int> trail) {
        for (bool again = true; again;)
        {
            again = false;
            for (auto c : cs)
            {
                Literal const* open = nullptr;
                int unknown = 0;
                bool sat = false;
                for (auto& l : *c)
                {
                    int t = truth(l);
                    sat |= t == 1;
                    if (t < 0) ++unknown, open = &l;
                }
                if (sat) continue;
                if (unknown == 0)
                {
                    for (int v : trail) val[v] = -1;
                    return true;
                }
                if (unknown == 1)
                {
                    val[open->var().ord()] = !open->is_negation();
                    trail.push_back(open->var().ord());
                    again = true;
                }
            }
        }
        for (auto c : cs)
        {
            bool sat = false;
            Literal const* open = nullptr;
            for (auto& l : *c)
            {
                sat |= truth(l) == 1;
                if (truth(l) < 0) open = &l;
            }
            if (sat) continue;
            int v = open->var().ord();
            for (int b = 0; b < 2; ++b)
            {
                val[v] = b;
                bool r = refuted({v});
                val[v] = -1;
                if (!r)
                {
                    for (int u : trail) val[u] = -1;
                    return false;
                }
            }
            for (int u : trail) val[u] = -1;
            return true;
        }
        for (int u : trail) val[u] = -1;
        return false; // a model
    };
    for (auto l : goal) val[l.var().ord()] = l.is_negation();
    return refuted({});
}

static void minimise(std::uint64_t seed)
{
    Rng g(seed);
    Event_dispatcher disp;
    Trail trail(disp);
    Subsumption sub;
    bool wide = g.chance(25);
    int n = wide ? g.range(12, 45) : g.range(4, 12);
    int const most = wide ? g.range(4, 20) : 3;
    auto& m = trail.set_model<bool>(Variable::boolean, n);
    sub.on_variable_resize(Variable::boolean, n);
    std::vector<int> vs(n);
    for (int i = 0; i < n; ++i) vs[i] = i;
    g.shuffle(vs);
    std::deque<Clause> reasons;
    std::vector<int> order;
    std::map<int, int> level;
    for (int v : vs)
    {
        if (order.size() > 2 && g.chance(wide ? 1 : 10)) break; // some variables stay unassigned
        bool val = g.chance(50);
        Variable var{v, Variable::boolean};
        Literal l{v};
        if (!val) l.negate();
        // candidates for the reason: literals falsified by what is assigned
        std::vector<int> cand = order;
        g.shuffle(cand);
        cand.resize(std::min<std::size_t>(cand.size(), g.range(0, most)));
        bool propagate = (!cand.empty() && g.chance(75)) || (trail.decision_level() == 0 && g.chance(25));
        if (propagate)
        {
            Clause r{l};
            int lev = 0;
            for (int u : cand)
            {
                Literal x{u};
                if (m.value(u)) x.negate();
                r.push_back(x);
                lev = std::max(lev, level[u]);
            }
            if (g.chance(60) && r.size() > 2) std::sort(r.begin() + 1, r.end());
            reasons.push_back(r);
            m.set_value(v, val);
            if (g.chance(8)) trail.propagate(var, nullptr, lev); // propagated by a theory
            else trail.propagate(var, &reasons.back(), lev);
            level[v] = lev;
        }
        else
        {
            m.set_value(v, val);
            trail.decide(var);
            level[v] = trail.decision_level();
        }
        order.push_back(v);
    }
    for (int k = 0; k < 12; ++k)
    {
        // a false clause with exactly one literal of the highest level, in front
        int top = g.pick(order);
        if (level[top] == 0) continue;
        std::set<int> cs;
        auto add = [&](int u) {
            if (u != top && level[u] < level[top]) cs.insert(u);
        };
        for (int j = g.range(0, most); j > 0; --j) add(g.pick(order));
        for (int j = g.range(0, 3); j > 0 && !cs.empty(); --j)
        {
            // something implied together with what implies it
            std::vector<int> have(order.begin(), order.end());
            int p = g.pick(have);
            if (auto r = trail.reason(Variable{p, Variable::boolean}))
            {
                add(p);
                // sometimes all but one
                int miss = g.chance(35) && r->size() > 2 ? 1 + g.below(static_cast<int>(r->size()) - 1) : -1, at = 0;
                for (auto l : *r)
                {
                    if (at++ != miss) add(l.var().ord());
                }
            }
        }
        std::vector<int> rest(cs.begin(), cs.end());
        g.shuffle(rest);
        Clause c;
        for (int u : rest)
        {
            Literal x{u};
            if (m.value(u)) x.negate();
            c.push_back(x);
        }
        Literal t{top};
        if (m.value(top)) t.negate();
        c.insert(c.begin(), t);
        Clause const original = c;
        sub.minimize(trail, c);
        report.count("clauses minimised");
        report.count("literals dropped", static_cast<long long>(original.size() - c.size()));
        for (auto l : original) report.mix(code(l));
        report.mix(static_cast<std::uint64_t>(c.size()) * 131);
        report.seen();
        EXPECT(!c.empty() && c[0] == original[0], "asserting-literal-dropped", str(original) << " -> " << str(c));
        // a subsequence
        auto it = original.begin();
        bool sub_ok = true;
        std::set<int> os = lits(original);
        for (auto l : c) sub_ok &= os.count(code(l)) > 0;
        EXPECT(sub_ok && lits(c).size() == c.size(), "not-a-subset", str(original) << " -> " << str(c));
        (void)it;
        // original and the reasons imply the result
        if (c.size() != original.size())
        {
            std::vector<Clause const*> cs{&original};
            for (int v : order)
            {
                if (auto r = trail.reason(Variable{v, Variable::boolean})) cs.push_back(r);
            }
            bool implied = implied_by(cs, c, n);
            std::string rs;
            for (auto& r : reasons) rs += str(r);
            EXPECT(implied, "minimised-too-much", str(original) << " -> " << str(c) << " reasons " << rs);
            report.count("clauses made smaller");
        }
    }
}

int main(int argc, char** argv)
{
    std::uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    int iters = argc > 2 ? atoi(argv[2]) : 10;
    for (int i = 0; i < iters && report.violations.empty(); ++i)
    {
        databases(seed * 1000003 + i);
        for (int k = 0; k < 10; ++k) minimise(seed * 1000003 + i * 16 + k);
        report.count("histories");
    }
    report.print();
}
