// C17: priority queue and decision heuristics under random histories.
#include <algorithm>
#include <cmath>
#include <memory>
#include "Combined_order.h"
#include "Event_dispatcher.h"
#include "Evsids.h"
#include "First_unassigned.h"
#include "Generalized_vsids.h"
#include "Linear_arithmetic.h"
#include "Variable_priority_queue.h"
#include "unit.h"

using namespace yaga;

static std::string str(Variable v) { return (v.type() == Variable::boolean ? "b" : "r") + std::to_string(v.ord()); }

// ------------------------------------------------------------------ queue
static void queue(std::uint64_t seed, int steps)
{
    Rng g(seed);
    Variable_priority_queue q;
    std::map<Variable, float> ref;
    int n = g.range(1, g.chance(30) ? 400 : 40);
    bool ties = g.chance(50);
    float scale = 1.f;
    auto fresh_score = [&]() -> float {
        switch (g.below(5))
        {
        case 0: return 0.f;
        case 1: return ties ? static_cast<float>(g.range(0, 4)) * scale : g.below(1000000) * 1e-3f * scale;
        case 2: return std::pow(10.f, static_cast<float>(g.range(-30, 34)));
        default: return ties ? static_cast<float>(g.range(0, 12)) * scale : g.below(1000000) * scale;
        }
    };
    auto check = [&](char const* after) {
        report.count("queue states compared");
        EXPECT(q.size() == ref.size() && q.empty() == ref.empty(), std::string("queue:size-after-") + after, q.size() << " instead of " << ref.size());
        if (ref.empty()) return;
        float best = -1;
        for (auto& [v, s] : ref) best = std::max(best, s);
        Variable t = q.top();
        auto it = ref.find(t);
        EXPECT(it != ref.end(), std::string("queue:top-not-in-queue-after-") + after, str(t));
        if (it != ref.end()) EXPECT(it->second == best, std::string("queue:top-is-not-maximal-after-") + after, str(t) << " has " << it->second << " best " << best);
    };
    auto contents = [&]() {
        std::set<Variable> s;
        for (auto v : q.vars()) s.insert(v);
        std::set<Variable> r;
        for (auto& [v, _] : ref) r.insert(v);
        EXPECT(s == r, "queue:contents", s.size() << " instead of " << r.size());
        for (auto& [v, _] : ref) EXPECT(q.contains(v), "queue:contains", str(v));
        for (int i = 0; i < 5; ++i)
        {
            Variable v{g.below(2 * n), g.chance(50) ? Variable::boolean : Variable::rational};
            EXPECT(q.contains(v) == (ref.count(v) > 0), "queue:contains", str(v));
        }
    };
    for (int i = 0; i < steps && report.violations.empty(); ++i)
    {
        Variable v{g.below(n), g.chance(60) ? Variable::boolean : Variable::rational};
        int k = g.below(100);
        if (k < 35)
        {
            if (!ref.count(v))
            {
                float s = fresh_score();
                q.push(v, s);
                ref[v] = s;
                check("push");
            }
        }
        else if (k < 60)
        {
            if (!ref.empty())
            {
                Variable t = q.top();
                check("top");
                q.pop();
                ref.erase(t);
                EXPECT(!q.contains(t), "queue:contains-popped", str(t));
                check("pop");
            }
        }
        else if (k < 95)
        {
            float s = fresh_score();
            auto it = ref.find(v);
            if (it != ref.end())
            {
                if (g.chance(60)) s = std::min(it->second * 1.5f + 1.f, 1e37f); // the common case: scores grow
                it->second = s;
            }
            q.update(v, s); // nothing happens unless it is in the queue
            check("update");
        }
        else
        {
            float f = g.chance(50) ? 1e35f : g.chance(50) ? 1e30f : 7.f;
            q.rescale(f);
            for (auto& [_, s] : ref) s /= f;
            check("rescale");
            report.count("queue rescales");
        }
        if (i % 16 == 0) contents();
    }
    contents();
    float last = INFINITY;
    while (!q.empty() && report.violations.empty())
    {
        Variable t = q.top();
        auto it = ref.find(t);
        EXPECT(it != ref.end(), "queue:drain", str(t));
        if (it == ref.end()) return;
        EXPECT(it->second <= last, "queue:drain-order", str(t) << " " << it->second << " after " << last);
        last = it->second;
        q.pop();
        ref.erase(it);
        report.count("queue elements drained");
    }
    EXPECT(ref.empty(), "queue:lost", ref.size());
    report.top("variables in one queue", n);
    report.mix(seed);
    report.seen();
}

// ------------------------------------------------------------------ heuristics
struct World
{
    Rng g;
    Event_dispatcher disp;
    Trail trail{disp};
    Database db;
    Linear_arithmetic lra;
    enum Kind { evsids, gvsids, first, first_typed, combined } kind;
    // the heuristics under test and, for combinations, the parts on their own
    std::vector<std::unique_ptr<Variable_order>> orders;
    std::vector<Variable_order*> twins;
    Generalized_vsids* gv = nullptr;
    Evsids* ev = nullptr;
    bool theory = false, forced = false;
    std::deque<Clause> reasons;
    Variable::Type only = Variable::boolean;
    std::vector<std::pair<Variable, bool>> level0;

    explicit World(std::uint64_t seed) : g(seed) {}

    int num(Variable::Type t)
    {
        for (auto [ty, m] : trail.models())
        {
            if (ty == t) return static_cast<int>(m->num_vars());
        }
        return 0;
    }
    bool assigned(Variable v) { return trail.decision_level(v).has_value(); }
    bool has_real() { return num(Variable::rational) > 0; }

    std::vector<Variable> unassigned(bool boolean = true, bool real = true)
    {
        std::vector<Variable> r;
        for (auto t : {Variable::boolean, Variable::rational})
        {
            if ((t == Variable::boolean && !boolean) || (t == Variable::rational && !real)) continue;
            for (int i = 0; i < num(t); ++i)
            {
                if (!assigned(Variable{i, t})) r.push_back(Variable{i, t});
            }
        }
        return r;
    }

    Clause random_clause()
    {
        int n = num(Variable::boolean);
        std::vector<int> vs(n);
        for (int i = 0; i < n; ++i) vs[i] = i;
        g.shuffle(vs);
        vs.resize(std::min(n, g.range(1, 5)));
        if (hot >= 0 && hot < n && g.chance(50) && std::find(vs.begin(), vs.end(), hot) == vs.end()) vs[0] = hot;
        Clause c;
        for (int v : vs)
        {
            Literal l{v};
            if (g.chance(50)) l.negate();
            c.push_back(l);
        }
        return c;
    }
    int hot = -1;

    float score(Variable v)
    {
        if (gv) return static_cast<Generalized_vsids const*>(gv)->score(v);
        if (ev) return v.type() == Variable::boolean ? ev->score(v.ord()) : 0.f;
        return 0;
    }

    // scores before and after an event: rescaling keeps the order
    struct Snapshot { std::vector<std::pair<Variable, float>> s; };
    Snapshot snapshot()
    {
        Snapshot r;
        if (!gv && !ev) return r;
        for (auto t : {Variable::boolean, Variable::rational})
        {
            if (t == Variable::rational && !gv) continue;
            for (int i = 0; i < num(t); ++i) r.s.emplace_back(Variable{i, t}, score(Variable{i, t}));
        }
        return r;
    }
    void scores_moved(Snapshot const& before, Clause const& c, char const* event)
    {
        if (before.s.empty()) return;
        std::set<Variable> bumped;
        for (auto l : c)
        {
            bumped.insert(l.var());
            if (gv)
            {
                for (int v : lra.constraint(l.var().ord()).vars()) bumped.insert(Variable{v, Variable::rational});
            }
        }
        bool rescaled = false;
        for (auto& [v, s] : before.s) rescaled |= score(v) < s;
        if (rescaled) report.count("rescalings of scores");
        if (ref_grow == 0) ref_grow = measure_grow();
        ref_bump(c);
        if (std::string(event) == "learned") ref_inc *= ref_grow;
        ref_check(rescaled);
        for (auto& [v, s] : before.s)
        {
            float t = score(v);
            EXPECT(std::isfinite(t) && t >= 0, "score-not-finite", str(v) << " " << t);
            if (!rescaled) EXPECT(bumped.count(v) ? t > s || s > 1e33f : t == s, std::string("score-of-other-variable:") + event, str(v) << " " << s << " -> " << t);
        }
        if (!rescaled) return;
        for (auto& [v, s] : before.s)
        {
            for (auto& [w, r] : before.s)
            {
                if (s > r && !bumped.count(w)) EXPECT(score(v) >= score(w), "rescaling-changed-the-order", str(v) << " was above " << str(w));
                if (s == r && !bumped.count(w) && !bumped.count(v)) EXPECT(score(v) == score(w), "rescaling-separated-equal-scores", str(v) << " " << str(w));
            }
        }
    }

    // the same scores without rescaling: long double holds increments of some 200000 clauses
    std::map<Variable, long double> ref;
    long double ref_inc = 1, ref_grow = 0;
    int ref_near = 0;
    static long double measure_grow()
    {
        // growth of the increment, measured on a heuristic of two variables
        Database d;
        Event_dispatcher disp;
        Trail t{disp};
        t.set_model<bool>(Variable::boolean, 2);
        Evsids e;
        e.on_variable_resize(Variable::boolean, 2);
        e.on_init(d, t);
        e.on_learned_clause(d, t, Clause{Literal{0}});
        e.on_learned_clause(d, t, Clause{Literal{1}});
        return static_cast<long double>(e.score(1)) / e.score(0);
    }
    void ref_bump(Clause const& c)
    {
        for (auto l : c)
        {
            ref[l.var()] += ref_inc;
            if (!gv) continue;
            for (int v : lra.constraint(l.var().ord()).vars()) ref[Variable{v, Variable::rational}] += ref_inc;
        }
    }
    void ref_init()
    {
        ref.clear();
        for (auto list : {&db.asserted(), &db.learned()})
        {
            for (auto& c : *list) ref_bump(c);
        }
    }
    void ref_check(bool rescaled)
    {
        if (rescaled) ref_near = 20;
        else if (ref_near > 0) --ref_near;
        else if (!g.chance(6)) return;
        long double max = 0;
        for (auto& [v, s] : ref) max = std::max(max, s);
        for (auto& [v, s] : ref)
        {
            if (s < max * 1e-20L) continue; // may have become zero
            for (auto& [w, r] : ref)
            {
                if (s > r * 1.01L) EXPECT(score(v) > score(w), "order-of-scores-without-rescaling", str(v) << " should be above " << str(w) << ": " << score(v) << " " << score(w));
            }
        }
        report.count("orders of scores compared");
    }

    template <typename F> void all(F f)
    {
        for (auto& o : orders) f(*o);
    }

    void check_pick()
    {
        std::vector<std::optional<Variable>> picks;
        auto un = unassigned();
        auto got = orders[0]->pick(db, trail);
        report.count("picks");
        report.mix(got ? got->ord() * 2 + got->type() : 12345);
        if (kind == combined)
        {
            std::optional<Variable> expected;
            for (auto t : twins)
            {
                expected = t->pick(db, trail);
                if (expected) break;
            }
            EXPECT(got == expected, "combined:pick", (got ? str(*got) : "none") << " instead of " << (expected ? str(*expected) : "none"));
            // comparison follows the first part which orders them
            if (un.size() >= 2)
            {
                Variable a = g.pick(un), b = g.pick(un);
                bool ok = true; // Evsids orders Boolean variables only
                if (ev && (a.type() != Variable::boolean || b.type() != Variable::boolean)) ok = false;
                if (ok && a != b)
                {
                    bool e = false;
                    for (auto t : twins)
                    {
                        if (t->is_before(a, b))
                        {
                            e = true;
                            break;
                        }
                        if (t->is_before(b, a)) break;
                    }
                    EXPECT(orders[0]->is_before(a, b) == e, "combined:is-before", str(a) << " " << str(b));
                }
            }
        }
        if (kind == first_typed || (kind == evsids))
        {
            auto t = kind == evsids ? Variable::boolean : only;
            un.erase(std::remove_if(un.begin(), un.end(), [&](auto v) { return v.type() != t; }), un.end());
        }
        EXPECT(got.has_value() == !un.empty(), "variable-lost", (got ? str(*got) : "none") << " with " << un.size() << " unassigned"
               << (un.empty() ? "" : ", e.g. " + str(un[0])));
        if (!got) return;
        EXPECT(std::find(un.begin(), un.end(), *got) != un.end(), "picked-an-assigned-variable", str(*got));
        if (kind == first || kind == first_typed)
        {
            EXPECT(*got == un[0], "first-unassigned", str(*got) << " instead of " << str(un[0]));
        }
        else if (kind == evsids || kind == gvsids)
        {
            if (forced && got->type() == Variable::rational && lra.is_effectively_decided(lra.relevant_models(trail), got->ord()))
            {
                report.count("forced variables picked");
                return;
            }
            float best = -1;
            Variable b = un[0];
            for (auto v : un)
            {
                if (score(v) > best)
                {
                    best = score(v);
                    b = v;
                }
            }
            EXPECT(score(*got) == best, "not-the-best-variable", str(*got) << " has " << score(*got) << ", " << str(b) << " has " << best);
            if (un.size() >= 2)
            {
                Variable a = g.pick(un), c = g.pick(un);
                EXPECT(orders[0]->is_before(a, c) == (score(a) > score(c)), "is-before", str(a) << " " << str(c));
            }
        }
        // asking again gives the same variable
        if (!forced)
        {
            auto again = orders[0]->pick(db, trail);
            EXPECT(again == got, "pick-is-not-stable", str(*got));
        }
    }

    // assign a value as a decision; true if the theory found a conflict
    bool decide(Variable v)
    {
        if (v.type() == Variable::boolean)
        {
            trail.decide(v);
            trail.model<bool>(Variable::boolean).set_value(v.ord(), g.chance(50));
        }
        else if (theory) lra.decide(db, trail, v);
        else
        {
            trail.decide(v);
            trail.model<Rational>(Variable::rational).set_value(v.ord(), Rational{g.range(-3, 3)});
        }
        report.count("decisions");
        if (theory && !lra.propagate(db, trail).empty())
        {
            report.count("theory conflicts");
            return true;
        }
        return false;
    }

    void propagate_some()
    {
        // Boolean variables which are not constraints, at any level up to the current one
        for (int k = g.range(0, 4); k > 0; --k)
        {
            auto un = unassigned(true, false);
            un.erase(std::remove_if(un.begin(), un.end(), [&](auto v) { return !lra.constraint(v.ord()).empty(); }), un.end());
            if (un.empty()) return;
            Variable v = g.pick(un);
            int lev = g.chance(60) ? trail.decision_level() : g.range(0, trail.decision_level());
            reasons.push_back({Literal{v.ord()}});
            bool val = g.chance(50);
            trail.propagate(v, g.chance(80) ? &reasons.back() : nullptr, lev);
            trail.model<bool>(Variable::boolean).set_value(v.ord(), val);
            if (lev == 0) level0.emplace_back(v, val);
            report.count("propagations");
        }
    }

    void backtrack(int level)
    {
        lra.on_before_backtrack(db, trail, level);
        all([&](Variable_order& o) { o.on_before_backtrack(db, trail, level); });
        trail.backtrack(level);
        report.count("backtracks");
    }

    void restart()
    {
        lra.on_before_backtrack(db, trail, 0);
        all([&](Variable_order& o) { o.on_before_backtrack(db, trail, 0); });
        trail.clear();
        lra.on_restart(db, trail);
        all([&](Variable_order& o) { o.on_restart(db, trail); });
        // what holds at level 0 is derived again before anything is picked
        for (auto [v, val] : level0)
        {
            reasons.push_back({Literal{v.ord()}});
            trail.propagate(v, &reasons.back(), 0);
            trail.model<bool>(Variable::boolean).set_value(v.ord(), val);
        }
        report.count("restarts");
    }

    void learned(int n)
    {
        for (int i = 0; i < n && report.violations.empty(); ++i)
        {
            auto s = snapshot();
            auto& c = db.learn_clause(random_clause());
            all([&](Variable_order& o) { o.on_learned_clause(db, trail, c); });
            scores_moved(s, c, "learned");
            report.count("learned clauses");
            if (db.learned().size() > 60) db.learned().pop_front();
        }
    }
    void resolved(int n)
    {
        for (int i = 0; i < n && report.violations.empty(); ++i)
        {
            auto s = snapshot();
            Clause c = random_clause();
            all([&](Variable_order& o) { o.on_conflict_resolved(db, trail, c); });
            scores_moved(s, c, "resolved");
            report.count("resolved clauses");
        }
    }

    void add_constraint(int reals)
    {
        std::vector<int> vs(reals);
        for (int i = 0; i < reals; ++i) vs[i] = i;
        g.shuffle(vs);
        vs.resize(g.range(1, std::min(3, reals)));
        std::vector<Rational> cs;
        for (std::size_t i = 0; i < vs.size(); ++i) cs.push_back(Rational{g.pick(std::vector<int>{-2, -1, 1, 2})});
        lra.constraint(trail, vs, cs, g.pick(std::vector<Order_predicate::Type>{Order_predicate::eq, Order_predicate::lt, Order_predicate::leq}), Rational{g.range(-3, 3)});
    }

    void init()
    {
        // as the solver does at the beginning of a check
        for (auto [t, m] : trail.models())
        {
            int n = static_cast<int>(m->num_vars());
            all([&](Variable_order& o) { o.on_variable_resize(t, n); });
        }
        all([&](Variable_order& o) { o.on_init(db, trail); });
        if (gv || ev) ref_init();
        report.count("initialisations");
    }

    void grow()
    {
        // new variables, possibly in the middle of the search
        auto t = has_real() && g.chance(40) ? Variable::rational : Variable::boolean;
        trail.resize(t, num(t) + g.range(1, 3));
        report.count("new variables added later");
    }

    void run(int steps, int long_run)
    {
        int k = g.below(100);
        kind = k < 20 ? evsids : k < 60 ? gvsids : k < 70 ? first : k < 78 ? first_typed : combined;
        bool real = kind != evsids && !(kind == combined && g.chance(20));
        theory = real && g.chance(50);
        forced = theory && kind == gvsids && g.chance(60);
        Linear_arithmetic::Options opts;
        opts.prop_rational = forced;
        opts.prop_bounds = theory && g.chance(30);
        lra.set_options(opts);
        trail.set_model<bool>(Variable::boolean, 0);
        if (real) trail.set_model<Rational>(Variable::rational, 0);
        disp.add(&lra);
        std::vector<std::unique_ptr<Variable_order>> own;
        auto make = [&](int what, auto add) -> Variable_order* {
            switch (what)
            {
            case 0: return add(static_cast<Evsids*>(nullptr));
            case 1: return add(static_cast<Generalized_vsids*>(nullptr), lra);
            case 2: return add(static_cast<First_unassigned*>(nullptr));
            case 3: return add(static_cast<First_unassigned*>(nullptr), Variable::boolean);
            default: return add(static_cast<First_unassigned*>(nullptr), Variable::rational);
            }
        };
        auto alone = [&](auto* type, auto&&... args) -> Variable_order* {
            using T = std::remove_pointer_t<decltype(type)>;
            orders.push_back(std::make_unique<T>(args...));
            return orders.back().get();
        };
        if (kind == evsids) ev = dynamic_cast<Evsids*>(make(0, alone));
        else if (kind == gvsids) gv = dynamic_cast<Generalized_vsids*>(make(1, alone));
        else if (kind == first) make(2, alone);
        else if (kind == first_typed)
        {
            only = g.chance(50) ? Variable::boolean : Variable::rational;
            make(only == Variable::boolean ? 3 : 4, alone);
        }
        else
        {
            auto c = std::make_unique<Combined_order>();
            auto raw = c.get();
            orders.push_back(std::move(c));
            auto part = [&](auto* type, auto&&... args) -> Variable_order* {
                using T = std::remove_pointer_t<decltype(type)>;
                return &raw->template add<T>(args...);
            };
            std::vector<int> parts;
            if (real)
            {
                static std::vector<std::vector<int>> const choices{{4, 1}, {3, 1}, {0, 4}, {4, 0}, {1}, {1, 2}, {0, 1}, {3, 0, 4}, {0, 2}, {3, 4}};
                parts = g.pick(choices);
            }
            else parts = g.chance(50) ? std::vector<int>{0} : std::vector<int>{0, 2};
            for (int p : parts)
            {
                auto inside = make(p, part);
                auto twin = make(p, alone);
                twins.push_back(twin);
                if (p == 1) gvs.emplace_back(dynamic_cast<Generalized_vsids*>(inside), dynamic_cast<Generalized_vsids*>(twin));
                if (p == 0) evs.emplace_back(dynamic_cast<Evsids*>(inside), dynamic_cast<Evsids*>(twin));
                if (p == 0) ev = dynamic_cast<Evsids*>(twin);
            }
            if (!gvs.empty() && evs.empty()) gv = gvs[0].second;
        }
        all([&](Variable_order& o) { disp.add(&o); });
        static char const* names[] = {"evsids", "generalized vsids", "first unassigned", "first unassigned of a type", "combined"};
        report.count(std::string("histories of ") + names[kind]);

        int reals = real ? g.range(1, 8) : 0;
        if (real) trail.resize(Variable::rational, reals);
        trail.resize(Variable::boolean, g.range(1, 20));
        if (real)
        {
            for (int i = g.range(0, 12); i > 0; --i) add_constraint(reals);
        }
        for (int i = g.range(0, 15); i > 0; --i) db.assert_clause(random_clause());
        init();
        if (g.chance(50)) hot = g.below(num(Variable::boolean));
        if (theory && !lra.propagate(db, trail).empty()) return;
        for (int i = 0; i < steps && report.violations.empty(); ++i)
        {
            check_pick();
            int e = g.below(100);
            if (e < 55)
            {
                std::optional<Variable> v;
                if (g.chance(70)) v = orders[0]->pick(db, trail);
                if (kind == combined)
                {
                    for (auto t : twins) if (t->pick(db, trail)) break;
                }
                if (!v)
                {
                    auto un = unassigned();
                    if (!un.empty()) v = g.pick(un);
                }
                if (!v)
                {
                    if (trail.decision_level() > 0) backtrack(g.range(0, trail.decision_level() - 1));
                    continue;
                }
                if (decide(*v))
                {
                    learned(g.range(1, 2));
                    if (g.chance(10)) restart();
                    else backtrack(g.range(0, trail.decision_level() - 1));
                }
                else propagate_some();
            }
            else if (e < 70)
            {
                if (trail.decision_level() > 0)
                {
                    resolved(g.range(0, 3));
                    learned(g.range(0, 3));
                    int lev = trail.decision_level();
                    backtrack(g.chance(60) ? lev - 1 : g.range(0, lev - 1));
                }
            }
            else if (e < 80) learned(g.range(1, 4));
            else if (e < 86) resolved(g.range(1, 4));
            else if (e < 90) restart();
            else if (e < 93) propagate_some();
            else if (e < 96) grow();
            else if (e < 97)
            {
                // a new check
                if (!trail.empty()) restart();
                init();
            }
            else if (i > steps / 2 && long_run > 0)
            {
                learned(long_run); // until the scores are rescaled
                long_run = 0;
            }
            if (kind == combined)
            {
                for (auto& [a, b] : gvs)
                {
                    for (auto t : {Variable::boolean, Variable::rational})
                    {
                        for (int j = 0; j < num(t); ++j)
                        {
                            Variable v{j, t};
                            EXPECT(std::as_const(*a).score(v) == std::as_const(*b).score(v), "combined:part-sees-other-events", str(v));
                        }
                    }
                }
                for (auto& [a, b] : evs)
                {
                    for (int j = 0; j < num(Variable::boolean); ++j) EXPECT(a->score(j) == b->score(j), "combined:part-sees-other-events", "b" << j);
                }
            }
        }
        report.top("decision level", trail.decision_level());
        report.seen();
    }
    std::vector<std::pair<Generalized_vsids*, Generalized_vsids*>> gvs;
    std::vector<std::pair<Evsids*, Evsids*>> evs;
};

int main(int argc, char** argv)
{
    std::uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    int iters = argc > 2 ? atoi(argv[2]) : 10;
    for (int i = 0; i < iters && report.violations.empty(); ++i)
    {
        queue(seed * 1000003 + i, 400);
        World w(seed * 1000003 + i);
        w.run(150, i % 4 == 0 ? 1900 : 0);
        report.count("histories");
    }
    report.print();
}
