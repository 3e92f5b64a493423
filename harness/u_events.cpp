// C29: event delivery and the protocol between the solver and its exchangeable components.
// Every component installed here (theories, decision heuristics, restart policy) records what it is told and
// forwards to a component of the repository. Arguments: seed iterations
#include <algorithm>
#include <cstring>
#include <memory>
#include <optional>
#include <unordered_map>
#include <unordered_set>

#include "Bool_theory.h"
#include "Combined_order.h"
#include "Event_dispatcher.h"
#include "Evsids.h"
#include "First_unassigned.h"
#include "Generalized_vsids.h"
#include "Linear_arithmetic.h"
#include "Restart.h"
#include "Solver.h"
#include "Term_manager.h"
#include "Term_types.h"
#include "Theory_combination.h"
#include "unit.h"

using namespace yaga;

static char const* const names[] = {"init", "variable-resize", "before-backtrack", "learned-clause", "conflict-resolved", "restart"};
enum Kind { e_init, e_resize, e_backtrack, e_learned, e_resolved, e_restart };

struct Ev
{
    Kind kind;
    long long a = 0, b = 0; // level, type and number of variables, digest of the clause
    auto operator<=>(Ev const&) const = default;
    std::string str() const { return std::string(names[kind]) + "(" + std::to_string(a) + "," + std::to_string(b) + ")"; }
};

static long long digest(Clause const& c)
{
    unsigned long long h = 1469598103934665603ull;
    for (auto l : c) h = (h ^ (l.var().ord() * 2 + l.is_negation() + 1)) * 1099511628211ull;
    return static_cast<long long>(h);
}
static std::string str(Clause const& c)
{
    std::string s = "(";
    for (auto l : c) s += (s.size() > 1 ? " " : "") + std::string(l.is_negation() ? "-b" : "b") + std::to_string(l.var().ord());
    return s + ")";
}
static std::string str(Variable v) { return (v.type() == Variable::boolean ? "b" : "x") + std::to_string(v.ord()); }

class Lab;
static std::string missed_after_split; // the known finding; the search goes on

struct Spy // what one component was told
{
    Lab& lab;
    std::string name;
    std::vector<Ev> log; // since the last comparison
    Spy(Lab& lab, std::string name);
    ~Spy();
    Spy(Spy const&) = delete;
    void tell(Ev e, Database* db, Trail* trail, Clause const* c = nullptr);
};

struct Growing_restart final : public Restart // restarts often, but less and less so
{
    int interval, left;
    explicit Growing_restart(int first) : interval(first), left(first) {}
    bool should_restart() const override { return left <= 0; }
    void on_learned_clause(Database&, Trail&, Clause const&) override { --left; }
    void on_restart(Database&, Trail&) override
    {
        interval += 1 + interval / 4;
        left = interval;
    }
};

// forwards every event of a component to the spy and to the component of the repository, if there is one
template <typename Base> class Spied : public Base
{
public:
    Spy spy;
    std::unique_ptr<Base> inner;
    Spied(Lab& lab, std::string name, std::unique_ptr<Base> inner) : spy(lab, name), inner(std::move(inner)) {}

    void on_init(Database& db, Trail& t) override
    {
        spy.tell({e_init}, &db, &t);
        if (inner) inner->on_init(db, t);
    }
    void on_variable_resize(Variable::Type type, int n) override
    {
        spy.tell({e_resize, type, n}, nullptr, nullptr);
        if (inner) inner->on_variable_resize(type, n);
    }
    void on_before_backtrack(Database& db, Trail& t, int level) override
    {
        spy.tell({e_backtrack, level}, &db, &t);
        if (inner) inner->on_before_backtrack(db, t, level);
    }
    void on_learned_clause(Database& db, Trail& t, Clause const& c) override
    {
        spy.tell({e_learned, digest(c)}, &db, &t, &c);
        if (inner) inner->on_learned_clause(db, t, c);
    }
    void on_conflict_resolved(Database& db, Trail& t, Clause const& c) override
    {
        spy.tell({e_resolved, digest(c)}, &db, &t, &c);
        if (inner) inner->on_conflict_resolved(db, t, c);
    }
    void on_restart(Database& db, Trail& t) override
    {
        spy.tell({e_restart}, &db, &t);
        if (inner) inner->on_restart(db, t);
    }
};

class Spy_restart final : public Spied<Restart>
{
public:
    using Spied<Restart>::Spied;
    bool should_restart() const override;
};

class Spy_order final : public Spied<Variable_order>
{
public:
    int index = 0;
    Spy_order(Lab& lab, std::string name, std::unique_ptr<Variable_order> inner, int index) : Spied<Variable_order>(lab, name, std::move(inner)), index(index) {}
    std::optional<Variable> pick(Database& db, Trail& t) override;
    bool is_before(Variable a, Variable b) const override { return inner->is_before(a, b); }
};

class Spy_theory final : public Spied<Theory>
{
    std::unordered_map<long long, int> processed; // variable -> how often since the last backtracking
    int processed_level = -1;
    std::vector<Variable> known; // assigned variables which this theory has been given

public:
    long long calls = 0, decides = 0; // since the last event which changed the trail
    std::size_t left_at = 0;          // size of the trail when propagate() returned last
    // assigned variables which it had not been given when the last conflict was found; the ones which it has
    // not been given because a semantic split followed
    std::vector<Variable> left, excused;
    using Spied<Theory>::Spied;
    std::vector<Clause> propagate(Database& db, Trail& t) override;
    void decide(Database& db, Trail& t, Variable v) override;
    void on_before_backtrack(Database& db, Trail& t, int level) override
    {
        Theory::on_before_backtrack(db, t, level);
        processed.clear();
        auto gone = [&](Variable v) { return t.decision_level(v).value_or(0) > level; };
        std::erase_if(known, [&](auto& v) { return gone(v); });
        std::erase_if(left, [&](auto& v) { return gone(v); });
        std::erase_if(excused, [&](auto& v) { return gone(v); });
        Spied<Theory>::on_before_backtrack(db, t, level);
    }
    bool knows(Variable v) const
    {
        return std::find(known.begin(), known.end(), v) != known.end();
    }
    bool excuse(Variable v) const
    {
        return std::find(excused.begin(), excused.end(), v) != excused.end();
    }
};

class Lab
{
public:
    Rng& g;
    bool lra_logic;
    terms::Term_manager tm;
    std::unique_ptr<Solver> solver;
    Linear_arithmetic* lra = nullptr;
    Theory_combination* combination = nullptr;
    std::vector<Spy*> spies;
    std::vector<Spy_theory*> theories;
    std::vector<Spy_order*> orders;
    Spy* restart_spy = nullptr;
    std::string log;
    std::vector<std::string> recent; // the last steps of the search
    int made = 0;

    enum State { idle, starting, ready, propagating, conflict, learned, asked, backtracking, backtracked, picking, picked, no_more } state = idle;
    static char const* name(State s)
    {
        static char const* const n[] = {"idle", "starting", "ready", "propagating", "conflict", "learned", "asked", "backtracking", "backtracked", "picking", "picked", "nothing-left"};
        return n[s];
    }
    bool was_empty = true;                   // trail at the start of check()
    bool init_backtrack = false, init_restart = false;
    std::map<std::pair<int, int>, int> init_resizes;
    long long fp = 0;                        // trail at the last observation
    int level_before = 0, target = 0, asked_orders = 0;
    bool restart_answer = false, top_level_conflict = false;
    std::optional<Variable> choice;
    std::size_t learned_before = 0, all_learned = 0;
    std::set<Clause const*> announced;
    long long n_conflicts = 0, n_clauses = 0, n_learned = 0, n_decisions = 0, n_restarts = 0;
    Spy* primary = nullptr;

    explicit Lab(Rng& g, bool lra_logic) : g(g), lra_logic(lra_logic)
    {
        solver = g.chance(50) ? std::make_unique<Solver>() : std::make_unique<Solver>(tm);
    }
    ~Lab() { solver.reset(); }

    void bad(std::string const& key, std::string const& detail) { report.violation(key, detail + "; state " + name(state) + "; last steps" + steps() + "\n" + log); }
    void step(std::string s) { recent.push_back(std::move(s)); }
    std::string steps()
    {
        std::string s;
        for (std::size_t i = recent.size() > 25 ? recent.size() - 25 : 0; i < recent.size(); ++i) s += "; " + recent[i];
        return s;
    }
#define CHECK(cond, key, detail)                       \
    do                                                 \
    {                                                  \
        report.count("assertions evaluated");          \
        if (!(cond))                                   \
        {                                              \
            std::ostringstream os_;                    \
            os_ << detail;                             \
            bad(key, os_.str());                       \
        }                                              \
    } while (0)

    Trail& trail() { return solver->trail(); }
    Database& db() { return solver->db(); }

    std::size_t assigned_count()
    {
        std::size_t n = 0;
        for (int i = 0; i <= trail().decision_level(); ++i) n += trail().assigned(i).size();
        return n;
    }

    long long fingerprint()
    {
        unsigned long long h = 7;
        auto mix = [&](unsigned long long x) { h = (h ^ x) * 1099511628211ull; };
        auto& bm = trail().model<bool>(Variable::boolean);
        for (int i = 0; i <= trail().decision_level(); ++i)
        {
            mix(i + 1);
            for (auto& a : trail().assigned(i))
            {
                mix(a.var.ord() * 4 + a.var.type());
                mix(trail().decision_level(a.var).value_or(-1) + 2);
                if (a.var.type() == Variable::boolean) mix(bm.is_defined(a.var.ord()) ? 1 + bm.value(a.var.ord()) : 0);
            }
        }
        return static_cast<long long>(h);
    }

    // -1 false, 0 unknown, 1 true
    int value(Literal l)
    {
        auto& bm = trail().model<bool>(Variable::boolean);
        if (!bm.is_defined(l.var().ord())) return 0;
        return bm.value(l.var().ord()) == !l.is_negation() ? 1 : -1;
    }

    // every component has been told the same
    void compare()
    {
        if (spies.empty()) return;
        auto split = [](std::vector<Ev> const& log, bool resize) {
            std::vector<Ev> r;
            for (auto& e : log)
            {
                if ((e.kind == e_resize) == resize) r.push_back(e);
            }
            if (resize) std::sort(r.begin(), r.end()); // these may be nested in others
            return r;
        };
        auto a = split(spies[0]->log, false), ar = split(spies[0]->log, true);
        bool some = !spies[0]->log.empty();
        for (auto s : spies)
        {
            auto b = split(s->log, false), br = split(s->log, true);
            some = some || !s->log.empty();
            if (a != b || ar != br)
            {
                std::string d = spies[0]->name + " was told";
                for (auto& e : spies[0]->log) d += " " + e.str();
                d += "; " + s->name + " was told";
                for (auto& e : s->log) d += " " + e.str();
                auto& longer = a.size() + ar.size() >= b.size() + br.size() ? spies[0]->log : s->log;
                bad("not-told-alike:" + std::string(longer.empty() ? "" : names[longer.back().kind]), d);
            }
            report.count("event logs compared");
        }
        if (some)
        {
            report.count("windows with events");
        }
        for (auto s : spies) s->log.clear();
    }

    void event(Spy& s, Ev e, Database* d, Trail* t, Clause const* c)
    {
        report.count(std::string("events ") + names[e.kind]);
        if (d) CHECK(d == &db() && t == &trail(), "arguments", s.name << " was given the database or trail of another solver with " << e.str());
        if (e.kind == e_resize)
        {
            // while a component is added it is told about the existing variables
            CHECK(trail().model(static_cast<Variable::Type>(e.a)).num_vars() == static_cast<std::size_t>(e.b), "resize:number", s.name << " was told " << e.str() << " but there are " << trail().model(static_cast<Variable::Type>(e.a)).num_vars() << " variables");
        }
        else
        {
            long long now = fingerprint();
            switch (e.kind)
            {
            case e_init:
                CHECK(state == starting || state == ready, "init:when", s.name << " was told init");
                CHECK(trail().decision_level() == 0 && trail().empty(), "init:trail", s.name << " was told init with a trail which is not empty");
                break;
            case e_backtrack:
                if (state == starting)
                {
                    CHECK(!was_empty && e.a == 0 && now == fp, "backtrack:start", s.name << " was told " << e.str() << " at the start");
                    break;
                }
                CHECK(state == asked || state == backtracking, "backtrack:when", s.name << " was told " << e.str());
                CHECK(now == fp, "backtrack:trail", s.name << " was told " << e.str() << " after the trail had changed");
                CHECK(e.a < level_before, "backtrack:level", s.name << " was told " << e.str() << " at level " << level_before);
                CHECK(!restart_answer || e.a == 0, "backtrack:restart-level", s.name << " was told " << e.str() << " before a restart");
                break;
            case e_learned:
                CHECK(state == conflict || state == learned, "learned:when", s.name << " was told " << e.str());
                CHECK(now == fp, "learned:trail", s.name << " was told of a learned clause after the trail had changed");
                CHECK(!c->empty(), "learned:empty", s.name << " was told of an empty learned clause");
                for (auto l : *c) CHECK(value(l) == -1, "learned:not-false", s.name << " was told of the learned clause " << str(*c) << " which is not false");
                {
                    bool mine = false;
                    for (std::size_t i = learned_before; i < db().learned().size(); ++i) mine = mine || &db().learned()[i] == c;
                    CHECK(mine, "learned:not-in-database", s.name << " was told of the learned clause " << str(*c) << " which is not a new clause of the database");
                }
                break;
            case e_resolved:
                CHECK(state == conflict, "resolved:when", s.name << " was told " << e.str());
                CHECK(now == fp, "resolved:trail", s.name << " was told of a resolution after the trail had changed");
                {
                    int t = 0, f = 0;
                    Literal imp{0};
                    for (auto l : *c)
                    {
                        t += value(l) == 1;
                        f += value(l) == -1;
                        if (value(l) == 1) imp = l;
                    }
                    CHECK(t == 1 && f + 1 == static_cast<int>(c->size()), "resolved:not-a-reason", s.name << " was told of the resolution with " << str(*c) << " which is not a reason");
                    if (t == 1)
                    {
                        auto r = trail().reason(imp.var());
                        CHECK(r && r->size() == c->size() && std::is_permutation(r->begin(), r->end(), c->begin()), "resolved:other-clause", s.name << " was told of the resolution with " << str(*c) << " which is not the reason of " << str(imp.var()));
                    }
                }
                break;
            case e_restart:
                CHECK(state == backtracking || state == ready || (state == starting && !was_empty), "restart:when", s.name << " was told restart");
                CHECK(trail().decision_level() == 0 && trail().empty(), "restart:trail", s.name << " was told restart with a trail which is not empty");
                break;
            default: break;
            }
        }
        s.log.push_back(e);
        if (&s != primary) return;
        if (e.kind != e_resize) step(std::string(names[e.kind]) + " " + (c ? ::str(*c) : std::to_string(e.a)));
        // ---- the order of events, as one component sees it
        switch (e.kind)
        {
        case e_resize:
            if (state == starting) ++init_resizes[{static_cast<int>(e.a), static_cast<int>(e.b)}];
            break;
        case e_init:
            CHECK(state == starting, "init:twice", "init at a wrong time");
            CHECK(was_empty || (init_backtrack && init_restart), "init:trail-kept", "the assignment was discarded without a backtrack and a restart event");
            for (auto [type, model] : trail().models()) CHECK((init_resizes.contains({type, static_cast<int>(model->num_vars())})), "init:no-resize", s.name << " was not told the number of variables of type " << type << " before init");
            state = ready;
            break;
        case e_backtrack:
            if (state == starting) init_backtrack = true;
            else if (state == asked)
            {
                target = static_cast<int>(e.a);
                state = backtracking;
                CHECK(learned_before + announced.size() == db().learned().size(), "learned:not-announced", db().learned().size() - learned_before << " clauses learned but " << announced.size() << " announced");
            }
            else CHECK(false, "backtrack:twice", s.name << " was told " << e.str() << " again");
            break;
        case e_learned:
            CHECK(announced.insert(c).second, "learned:twice", s.name << " was told of the same clause twice");
            ++n_learned;
            state = learned;
            break;
        case e_resolved: report.count("resolutions observed"); break;
        case e_restart:
            if (state == starting)
            {
                CHECK(init_backtrack, "restart:no-backtrack", "restart without a backtrack event");
                init_restart = true;
            }
            else
            {
                CHECK(state == backtracking && restart_answer, "restart:not-wanted", s.name << " was told restart but the policy had said no");
                ++n_restarts;
                state = ready;
                fp = fingerprint();
            }
            break;
        }
    }

    // ---- calls of the components

    void enter_propagate(Spy_theory& s)
    {
        compare();
        if (state == backtracking)
        {
            CHECK(!restart_answer, "restart:not-done", "the policy wanted a restart but there was none");
            int l = trail().decision_level();
            CHECK(l == target || l == target + 1, "backtrack:not-there", "level " << l << " after backtracking to " << target);
            if (l == target + 1) // semantic split: what is left at lower levels is not in recent()
            {
                for (auto t : theories) t->excused.insert(t->excused.end(), t->left.begin(), t->left.end());
                report.count("semantic splits");
            }
            CHECK(fingerprint() != fp, "backtrack:nothing", "nothing changed by backtracking");
            state = ready;
        }
        else if (state == picked)
        {
            for (auto t : theories) CHECK(t->decides == 1, "decide:not-called", t->spy.name << " was asked " << t->decides << " times to decide");
            CHECK(trail().decision_level() == level_before + 1, "decide:level", "level " << trail().decision_level() << " after a decision at level " << level_before);
            CHECK(!trail().recent().empty() && trail().recent().front().var == *choice, "decide:other", str(*choice) << " was picked but not decided");
            ++n_decisions;
            state = ready;
        }
        CHECK(state == ready || state == propagating, "propagate:when", s.spy.name << " was asked to propagate");
        if (state == ready)
        {
            for (auto t : theories) t->calls = t->decides = 0;
            state = propagating;
        }
        ++s.calls;
    }

    void leave_propagate(Spy_theory& s, std::vector<Clause> const& conflicts)
    {
        s.left_at = assigned_count();
        step(s.spy.name + " leaves " + std::to_string(s.left_at) + " at level " + std::to_string(trail().decision_level()));
        if (conflicts.empty()) return;
        for (auto& c : conflicts)
        {
            step("conflict " + ::str(c));
            for (auto l : c) CHECK(value(l) == -1, "conflict:not-false", s.spy.name << " returned the conflict clause " << str(c) << " which is not false");
        }
        state = conflict;
        level_before = trail().decision_level();
        top_level_conflict = level_before == 0;
        fp = fingerprint();
        for (auto t : theories)
        {
            t->left.clear();
            for (int i = 0; i <= trail().decision_level(); ++i)
            {
                for (auto& a : trail().assigned(i))
                {
                    if (!t->knows(a.var)) t->left.push_back(a.var);
                }
            }
        }
        learned_before = db().learned().size();
        announced.clear();
        if (!top_level_conflict)
        {
            ++n_conflicts;
            n_clauses += static_cast<long long>(conflicts.size());
        }
        report.count("conflicts");
    }

    void enter_decide(Spy_theory& s, Variable v)
    {
        compare();
        CHECK(state == picked, "decide:when", s.spy.name << " was asked to decide " << str(v));
        CHECK(choice && v == *choice, "decide:variable", s.spy.name << " was asked to decide " << str(v));
        ++s.decides;
    }

    void enter_pick(Spy_order& s)
    {
        compare();
        if (state == propagating)
        {
            for (auto t : theories)
            {
                CHECK(t->calls > 0, "propagate:skipped", t->spy.name << " was not asked to propagate before the decision");
                CHECK(t->left_at == assigned_count(), "propagate:no-fixpoint", t->spy.name << " was not asked again although the trail has grown");
                for (int i = 0; i <= trail().decision_level(); ++i)
                {
                    for (auto& a : trail().assigned(i))
                    {
                        if (!t->knows(a.var) && t->excuse(a.var))
                        {
                            report.count("assignments never handed out after a semantic split");
                            if (missed_after_split.empty()) missed_after_split = t->spy.name + " was not given " + str(a.var) + "; last steps" + steps() + "\n" + log;
                            continue;
                        }
                        CHECK(t->knows(a.var), "assigned:missed", t->spy.name << " was not given " << str(a.var) << " by assigned()");
                    }
                }
            }
            state = picking;
            asked_orders = 0;
            report.count("decisions prepared");
        }
        CHECK(state == picking, "pick:when", s.spy.name << " was asked for a variable");
        CHECK(s.index == asked_orders, "pick:order", s.spy.name << " was asked after " << asked_orders << " others");
        ++asked_orders;
    }

    void leave_pick(Spy_order& s, std::optional<Variable> v)
    {
        if (v)
        {
            CHECK(!trail().decision_level(*v).has_value(), "pick:assigned", s.spy.name << " picked " << str(*v) << " which has a value");
            choice = v;
            step("pick " + ::str(*v));
            level_before = trail().decision_level();
            state = picked;
        }
        else if (asked_orders == static_cast<int>(orders.size())) state = no_more;
    }

    void should_restart(Spy& s, bool answer)
    {
        compare();
        CHECK(state == learned || state == asked, "should-restart:when", s.name << " was asked");
        restart_answer = answer;
        state = asked;
    }

    // ---- the program

    std::unique_ptr<Restart> restart_inner()
    {
        switch (g.below(5))
        {
        case 0: return std::make_unique<No_restart>();
        case 1: return std::make_unique<Luby_restart>();
        case 2: {
            auto r = std::make_unique<Glucose_restart>();
            r->set_min_conflicts(g.range(8, 20)).set_threshold(1.f);
            return r;
        }
        default: return std::make_unique<Growing_restart>(g.range(1, 4));
        }
    }

    std::unique_ptr<Variable_order> order_inner(int k)
    {
        switch (k)
        {
        case 0: return std::make_unique<Evsids>();
        case 1: return std::make_unique<First_unassigned>(Variable::boolean);
        default: return std::make_unique<Generalized_vsids>(*lra);
        }
    }

    std::string fresh(char const* n) { return std::string(n) + std::to_string(++made); }

    // the component was told of nothing before it was installed, or of all existing variables
    void born(Spy& s, bool told)
    {
        std::vector<Ev> want;
        for (auto [type, model] : trail().models())
        {
            if (told && model->num_vars() > 0) want.push_back({e_resize, type, static_cast<long long>(model->num_vars())});
        }
        auto have = s.log;
        std::erase_if(have, [](auto& e) { return e.kind == e_resize && e.b == 0; });
        std::sort(have.begin(), have.end());
        std::sort(want.begin(), want.end());
        CHECK(have == want, "born", s.name << " was told " << have.size() << " events when it was installed, " << want.size() << " expected");
        s.log.clear();
    }

    void install_restart()
    {
        auto& r = solver->set_restart_policy<Spy_restart>(*this, fresh("restart"), restart_inner());
        restart_spy = &r.spy;
        log += "set restart " + r.spy.name + "\n";
        born(r.spy, false);
    }

    void install_order()
    {
        orders.clear();
        primary = nullptr;
        std::vector<int> kinds;
        if (lra_logic) kinds = g.chance(30) ? std::vector<int>{2} : g.chance(50) ? std::vector<int>{0, 2} : std::vector<int>{1, 2};
        else kinds = g.chance(30) ? std::vector<int>{0} : g.chance(50) ? std::vector<int>{0, 1} : std::vector<int>{1, 0};
        if (kinds.size() == 1 && g.chance(60)) orders.push_back(&solver->set_variable_order<Spy_order>(*this, fresh("order"), order_inner(kinds[0]), 0));
        else
        {
            auto& c = solver->set_variable_order<Combined_order>();
            for (int i = 0; i < static_cast<int>(kinds.size()); ++i) orders.push_back(&c.add<Spy_order>(*this, fresh("order"), order_inner(kinds[i]), i));
        }
        primary = &orders[g.below(static_cast<int>(orders.size()))]->spy;
        log += "set order";
        for (auto o : orders)
        {
            log += " " + o->spy.name;
            born(o->spy, false);
        }
        log += "\n";
    }

    void add_theory(std::unique_ptr<Theory> inner)
    {
        bool passive = !inner;
        auto& t = combination->add_theory<Spy_theory>(*this, fresh(passive ? "passive" : "theory"), std::move(inner));
        theories.push_back(&t);
        log += "add theory " + t.spy.name + "\n";
        born(t.spy, true);
    }

    void install_theory()
    {
        theories.clear();
        auto phase = std::vector<Phase>{Phase::positive, Phase::negative, Phase::cache}[g.below(3)];
        auto bcp = std::make_unique<Bool_theory>();
        bcp->set_phase(phase);
        combination = nullptr;
        if (!lra_logic && g.chance(30))
        {
            auto& t = solver->set_theory<Spy_theory>(*this, fresh("theory"), std::move(bcp));
            theories.push_back(&t);
            log += "set theory " + t.spy.name + "\n";
            born(t.spy, true);
            return;
        }
        combination = &solver->set_theory<Theory_combination>();
        log += "set theory combination\n";
        if (g.chance(60)) add_theory(nullptr);
        add_theory(std::move(bcp));
        if (g.chance(60)) add_theory(nullptr);
        if (lra_logic)
        {
            auto l = std::make_unique<Linear_arithmetic>();
            lra = l.get();
            Linear_arithmetic::Options o;
            o.prop_rational = g.chance(30);
            o.prop_bounds = g.chance(30);
            l->set_options(o);
            add_theory(std::move(l));
            if (g.chance(40)) add_theory(nullptr);
        }
    }

    void make_vars(Variable::Type type, int n)
    {
        int have = static_cast<int>(trail().model(type).num_vars());
        for (int i = 0; i < n; ++i)
        {
            int step = g.chance(20) ? g.range(2, 3) : 1;
            have += step;
            trail().resize(type, have);
            for (auto s : spies)
            {
                CHECK((s->log.size() == 1 && s->log[0] == Ev{e_resize, type, have}), "resize:delivery", s->name << " was told " << s->log.size() << " events when the number of variables became " << have);
                s->log.clear();
            }
        }
        log += std::string(type == Variable::boolean ? "bool " : "real ") + std::to_string(have) + "\n";
    }

    void grow(int nb, int nr, int atoms, int clauses)
    {
        make_vars(Variable::boolean, nb);
        if (nr) make_vars(Variable::rational, nr);
        for (int i = 0; i < atoms; ++i)
        {
            std::vector<int> vars;
            for (int v = 0; v < static_cast<int>(trail().model(Variable::rational).num_vars()); ++v) vars.push_back(v);
            g.shuffle(vars);
            vars.resize(std::min<std::size_t>(vars.size(), g.range(1, 3)));
            std::vector<Rational> coef;
            for (std::size_t k = 0; k < vars.size(); ++k) coef.push_back(Rational(g.chance(50) ? 1 : g.chance(60) ? -1 : g.range(2, 3)));
            lra->constraint(trail(), vars, coef, std::vector<Order_predicate>{Order_predicate::eq, Order_predicate::lt, Order_predicate::leq}[g.below(3)], Rational(g.range(-3, 3)));
            compare();
        }
        int n = static_cast<int>(trail().model(Variable::boolean).num_vars());
        for (int i = 0; i < clauses; ++i)
        {
            Clause c;
            int size = g.chance(8) ? g.range(1, 2) : 3;
            for (int k = 0; k < size; ++k)
            {
                Literal l{g.below(n)};
                bool twice = std::any_of(c.begin(), c.end(), [&](auto o) { return o.var() == l.var(); });
                if (!twice) c.push_back(g.chance(50) ? ~l : l);
            }
            log += str(c);
            db().assert_clause(c);
        }
        log += "\n";
        for (auto s : spies) CHECK(s->log.empty(), "uncalled", s->name << " was told something without a reason");
    }

    void check()
    {
        report.mix(log);
        report.seen();
        CHECK(!theories.empty() && !orders.empty() && restart_spy, "setup", "incomplete setup");
        for (auto s : spies) s->log.clear();
        was_empty = trail().empty();
        init_backtrack = init_restart = false;
        init_resizes.clear();
        n_conflicts = n_clauses = n_learned = n_decisions = n_restarts = 0;
        for (auto t : theories) t->calls = t->decides = 0;
        fp = fingerprint();
        state = starting;
        log += "check";
        auto r = solver->check();
        log += r == Solver::Result::sat ? " sat\n" : " unsat\n";
        report.count(r == Solver::Result::sat ? "answers sat" : "answers unsat");
        compare();
        if (r == Solver::Result::sat)
        {
            CHECK(state == no_more, "sat:when", "sat although there was something to do");
            for (auto [type, model] : trail().models())
            {
                for (int i = 0; i < static_cast<int>(model->num_vars()); ++i) CHECK(trail().decision_level(Variable{i, type}).has_value(), "sat:unassigned", "sat but " << str(Variable{i, type}) << " has no value");
            }
        }
        else CHECK(state == conflict, "unsat:when", "unsat without a conflict");
        CHECK(solver->num_decisions() == n_decisions, "count:decisions", "num_decisions() is " << solver->num_decisions() << ", observed " << n_decisions);
        CHECK(solver->num_restarts() == n_restarts, "count:restarts", "num_restarts() is " << solver->num_restarts() << ", observed " << n_restarts);
        CHECK(solver->num_conflicts() == n_conflicts, "count:conflicts", "num_conflicts() is " << solver->num_conflicts() << ", observed " << n_conflicts);
        CHECK(solver->num_conflict_clauses() == n_clauses, "count:conflict-clauses", "num_conflict_clauses() is " << solver->num_conflict_clauses() << ", observed " << n_clauses);
        CHECK(solver->num_learned_clauses() == n_learned, "count:learned", "num_learned_clauses() is " << solver->num_learned_clauses() << ", observed " << n_learned);
        state = idle;
        report.count("restarts", n_restarts);
        report.count("decisions", n_decisions);
        report.count("learned clauses", n_learned);
        report.top("learned clauses in a check", n_learned);
    }

    void move()
    {
        auto next = std::make_unique<Solver>(std::move(*solver));
        solver = std::move(next);
        log += "move\n";
        report.count("solvers moved");
        for (auto s : spies) CHECK(s->log.empty(), "uncalled", s->name << " was told something while the solver was moved");
    }

    void run()
    {
        if (g.chance(30)) move();
        // as in Yaga: the models come first
        trail().set_model<bool>(Variable::boolean, 0);
        if (lra_logic) trail().set_model<Rational>(Variable::rational, 0);
        if (g.chance(50)) make_vars(Variable::boolean, g.range(1, 4)); // known before the components
        std::vector<int> steps{0, 1};
        install_theory();
        if (g.chance(50)) std::swap(steps[0], steps[1]);
        for (int k : steps) k ? install_order() : install_restart();
        CHECK(solver->theory() != nullptr, "setup", "theory() is null");
        if (g.chance(30)) move();
        CHECK(solver->tm().get_type(terms::true_term) == terms::types::bool_type, "term-manager", "the type of true is wrong");
        int rounds = g.range(1, 5);
        bool hard = g.chance(12);
        for (int i = 0; i < rounds && report.violations.empty(); ++i)
        {
            if (hard)
            {
                int n = g.range(30, lra_logic ? 40 : 60);
                if (i) grow(1, 0, lra_logic, 3);
                else grow(n, lra_logic ? g.range(2, 5) : 0, lra_logic ? g.range(5, 15) : 0, n * 43 / 10);
            }
            else if (lra_logic) grow(g.range(1, i ? 3 : 8), g.range(1, i ? 1 : 5), g.range(1, i ? 3 : 12), g.range(3, i ? 12 : 50));
            else grow(g.range(1, i ? 3 : 18), 0, 0, g.range(2, i ? 16 : 75));
            if (g.chance(20)) move();
            check();
            if (g.chance(20)) move();
            if (g.chance(15)) check();
            // replace components between two checks
            if (g.chance(25))
            {
                install_restart();
                report.count("components replaced");
            }
            if (g.chance(25))
            {
                install_order();
                report.count("components replaced");
            }
            if (!lra_logic && g.chance(20))
            {
                install_theory();
                report.count("components replaced");
            }
            if (combination && g.chance(20))
            {
                add_theory(nullptr);
                report.count("components added later");
            }
        }
        solver.reset();
        CHECK(spies.empty(), "leak", spies.size() << " components outlive the solver");
    }
};

Spy::Spy(Lab& lab, std::string name) : lab(lab), name(name) { lab.spies.push_back(this); }
Spy::~Spy()
{
    std::erase(lab.spies, this);
    if (lab.primary == this) lab.primary = nullptr;
}
void Spy::tell(Ev e, Database* db, Trail* trail, Clause const* c) { lab.event(*this, e, db, trail, c); }

bool Spy_restart::should_restart() const
{
    bool r = inner->should_restart();
    spy.lab.should_restart(const_cast<Spy&>(spy), r);
    return r;
}

std::optional<Variable> Spy_order::pick(Database& db, Trail& t)
{
    spy.lab.enter_pick(*this);
    auto v = inner->pick(db, t);
    spy.lab.leave_pick(*this, v);
    return v;
}

std::vector<Clause> Spy_theory::propagate(Database& db, Trail& t)
{
    spy.lab.enter_propagate(*this);
    if (t.decision_level() != processed_level)
    {
        processed.clear();
        processed_level = t.decision_level();
    }
    for (auto& a : assigned(t))
    {
        report.count("assignments handed to theories");
        if (++processed[a.var.ord() * 4LL + a.var.type()] > 1) spy.lab.bad("assigned:twice", spy.name + " was given " + str(a.var) + " twice by assigned()");
        if (!t.decision_level(a.var).has_value()) spy.lab.bad("assigned:no-value", spy.name + " was given " + str(a.var) + " which has no value");
        if (!knows(a.var)) known.push_back(a.var);
    }
    auto r = inner ? inner->propagate(db, t) : std::vector<Clause>{};
    // what this theory has propagated itself is handed to it now: the trail may stay as it is
    for (auto& a : assigned(t))
    {
        if (++processed[a.var.ord() * 4LL + a.var.type()] > 1) spy.lab.bad("assigned:twice", spy.name + " was given " + str(a.var) + " twice by assigned()");
        if (!knows(a.var)) known.push_back(a.var);
    }
    spy.lab.leave_propagate(*this, r);
    return r;
}

void Spy_theory::decide(Database& db, Trail& t, Variable v)
{
    spy.lab.enter_decide(*this, v);
    if (inner) inner->decide(db, t, v);
}

// ---- the dispatcher alone

struct Plain final : public Event_listener
{
    std::vector<Ev> log;
    void on_init(Database&, Trail&) override { log.push_back({e_init}); }
    void on_variable_resize(Variable::Type t, int n) override { log.push_back({e_resize, t, n}); }
    void on_before_backtrack(Database&, Trail&, int l) override { log.push_back({e_backtrack, l}); }
    void on_learned_clause(Database&, Trail&, Clause const& c) override { log.push_back({e_learned, digest(c)}); }
    void on_conflict_resolved(Database&, Trail&, Clause const& c) override { log.push_back({e_resolved, digest(c)}); }
    void on_restart(Database&, Trail&) override { log.push_back({e_restart}); }
};

static void dispatcher(Rng& g)
{
    Event_dispatcher d, other;
    Trail trail{other};
    Database db;
    struct Entry
    {
        std::unique_ptr<Plain> listener;
        bool registered = false;
        std::vector<Ev> want;
    };
    std::vector<Entry> all;
    std::string log;
    int steps = g.range(5, 60);
    for (int i = 0; i < steps && report.violations.empty(); ++i)
    {
        int k = g.below(10);
        if (k < 2 || all.empty())
        {
            all.push_back({std::make_unique<Plain>()});
            if (g.chance(80))
            {
                d.add(all.back().listener.get());
                all.back().registered = true;
                log += "add " + std::to_string(all.size() - 1) + "\n";
            }
        }
        else if (k < 4)
        {
            int j = g.below(static_cast<int>(all.size()));
            d.remove(all[j].listener.get()); // of one which is not registered: nothing happens
            all[j].registered = false;
            log += "remove " + std::to_string(j) + "\n";
            if (g.chance(10)) d.remove(nullptr);
        }
        else if (k == 4)
        {
            int j = g.below(static_cast<int>(all.size()));
            if (!all[j].registered)
            {
                d.add(all[j].listener.get());
                all[j].registered = true;
                log += "add " + std::to_string(j) + "\n";
            }
        }
        else
        {
            Ev e{static_cast<Kind>(g.below(6)), g.range(0, 9), g.range(0, 9)};
            Clause c{Literal{static_cast<int>(e.a)}, ~Literal{static_cast<int>(e.b) + 10}};
            switch (e.kind)
            {
            case e_init: e.a = e.b = 0, d.on_init(db, trail); break;
            case e_resize: e.a %= 2, d.on_variable_resize(static_cast<Variable::Type>(e.a), static_cast<int>(e.b)); break;
            case e_backtrack: e.b = 0, d.on_before_backtrack(db, trail, static_cast<int>(e.a)); break;
            case e_learned: e.a = digest(c), e.b = 0, d.on_learned_clause(db, trail, c); break;
            case e_resolved: e.a = digest(c), e.b = 0, d.on_conflict_resolved(db, trail, c); break;
            case e_restart: e.a = e.b = 0, d.on_restart(db, trail); break;
            }
            log += e.str() + "\n";
            for (auto& x : all)
            {
                if (x.registered) x.want.push_back(e);
                EXPECT(x.listener->log == x.want, std::string("dispatcher:") + names[e.kind], "a listener was told " << x.listener->log.size() << " events instead of " << x.want.size() << "\n" << log);
            }
            report.count("events dispatched alone");
        }
    }
    report.mix(log);
    report.seen();
    report.count("dispatchers");
}

int main(int, char** argv)
{
    Rng g(std::strtoull(argv[1], nullptr, 10));
    int n = std::atoi(argv[2]);
    for (int i = 0; i < n && report.violations.empty(); ++i)
    {
        if (g.chance(30)) dispatcher(g);
        else
        {
            Lab lab(g, g.chance(50));
            lab.run();
            report.count("programs");
        }
    }
    if (!missed_after_split.empty()) report.violation("assigned:missed-after-split", missed_after_split);
    report.print();
    return 0;
}
