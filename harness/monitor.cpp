// Monitors attached to the real search. The repository's own SMT-LIB front end (Smt2_parser.cpp, included
// below) runs with initializers which install theories, decision order and restart policy derived from the
// repository's ones; they forward every call and observe the trail, the clause database and the bounds.
//
// Input:  "<options> <nbytes>\n<script>"; options: comma separated list or "-":
//   prop_rational deduce_bounds positive negative cache stats      as in the smt executable
//   order:random order:first   restart:<k> (every k conflicts) restart:never   rphase   hostile schedules
//   mon:C11 mon:C12 ...        properties to watch
//   cap:<n> end the search after n propagation cycles   seed:<n>
// Output: "<status> <n1> <n2>\n<output of the script><report lines, see unit.h>"
#include <cstdio>
#include <deque>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <gmpxx.h>
#include <z3++.h>

#include "Smt2_parser.h"
#include "Smt2_term_parser.h"
#include "Term_manager.h"
#include "Term_types.h"
#include "smt2_lexer.h"
#include "Solver_wrapper.h"
#include "Conflict_analysis.h"
#include "Yaga.h"
#include "First_unassigned.h"
#include "unit.h"

using namespace yaga;

// ---------------------------------------------------------------------------------------------- options

struct Search
{
    enum Order { real, random, first } order = real;
    int restart = -1; // -1: real policy, 0: never, k: every k conflicts
    bool rphase = false;
    int storm = 0; // steps of a random walk over partial assignments before the search (and after restarts)
    long long cap = 0; // end the search after this many propagation cycles
    std::set<std::string> watch;
    std::uint64_t seed = 1;
};
static Search search;
static bool on(char const* p) { return search.watch.empty() || search.watch.contains(p); }

static int const conflict_cap = 400000;
struct Capped {};

#define V(prop, cond, key, detail)                                    \
    do                                                                \
    {                                                                 \
        report.count("assertions evaluated");                         \
        if (!(cond))                                                  \
        {                                                             \
            std::ostringstream os_;                                   \
            os_ << detail;                                            \
            report.violation(std::string(prop) + ":" + (key), os_.str()); \
        }                                                             \
    } while (0)

// ---------------------------------------------------------------------------------------------- helpers

static mpq_class num(Rational const& r)
{
    mpq_class q;
    q.set_str(r.get_str(), 10);
    q.canonicalize();
    return q;
}

static int code(Literal l) { return l.var().ord() * 2 + l.is_negation(); }
static std::vector<int> key(Clause const& c)
{
    std::vector<int> v;
    for (auto l : c) v.push_back(code(l));
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
static std::string str(std::vector<int> const& c)
{
    std::string s = "(";
    for (int l : c) s += (s.size() > 1 ? " " : "") + std::string(l & 1 ? "-b" : "b") + std::to_string(l >> 1);
    return s + ")";
}
static std::string str(Clause const& c)
{
    std::vector<int> v;
    for (auto l : c) v.push_back(code(l));
    return str(v);
}
static std::string str(Variable v) { return (v.type() == Variable::boolean ? "b" : "x") + std::to_string(v.ord()); }

struct Def // meaning of an atom
{
    std::vector<int> vars;
    std::vector<mpq_class> coef;
    char op; // '=', '<', 'l' (<=)
    mpq_class rhs;
    bool neg; // literal of the constraint is negative

    // value of the Boolean variable
    bool test(mpq_class const& lhs) const { return (op == '=' ? lhs == rhs : op == '<' ? lhs < rhs : lhs <= rhs) != neg; }
    std::string str() const
    {
        std::string s = neg ? "not " : "";
        for (std::size_t i = 0; i < vars.size(); ++i) s += (i ? " + " : "") + coef[i].get_str() + "*x" + std::to_string(vars[i]);
        return s + (op == 'l' ? " <= " : std::string(" ") + op + " ") + rhs.get_str();
    }
};

struct Bound
{
    bool present = false;
    mpq_class value;
    bool strict = false;
};

struct Snapshot
{
    bool valid = false;
    std::vector<std::vector<Trail::Assignment>> levels;
    std::vector<signed char> bools;
    std::vector<std::optional<Rational>> reals;
    std::vector<int> blevel, rlevel;
};

struct Stats
{
    long long conflicts = 0, clauses = 0, learned = 0, decisions = 0, restarts = 0;
};
static std::vector<Stats> all_stats;

// ---------------------------------------------------------------------------------------------- the monitor

class Monitor
{
public:
    Yaga* yaga = nullptr;
    Linear_arithmetic* lra = nullptr;
    Bool_theory* bcp = nullptr;
    bool has_uf = false, deduce = false, prop_rational = false;
    Phase phase = Phase::positive;
    Rng g{1};

    Database& db() { return yaga->solver().db(); }
    Trail& trail() { return yaga->solver().trail(); }
    terms::Term_manager const& tm() { return yaga->solver().tm(); }
    Model<bool>& bools() { return trail().model<bool>(Variable::boolean); }
    Model<Rational>& reals() { return trail().model<Rational>(Variable::rational); }

    // ---- values and atoms

    std::vector<std::optional<Def>> defs; // by Boolean variable
    std::vector<char> def_known;
    std::vector<std::pair<int, mpq_class>> value_cache; // timestamp, value

    Def const* atom(int b)
    {
        if (b >= static_cast<int>(def_known.size()))
        {
            def_known.resize(b + 1, 0);
            defs.resize(b + 1);
        }
        if (!def_known[b])
        {
            def_known[b] = 1;
            auto c = lra->constraint(b);
            if (!c.empty())
            {
                Def d;
                auto [it, end] = c.vars();
                auto cit = c.coef().begin();
                for (; it != end; ++it, ++cit)
                {
                    d.vars.push_back(*it);
                    d.coef.push_back(num(*cit));
                }
                d.op = c.pred() == Order_predicate::eq ? '=' : c.pred() == Order_predicate::lt ? '<' : 'l';
                d.rhs = num(c.rhs());
                d.neg = c.lit().is_negation();
                defs[b] = d;
                new_atom(b, d);
            }
        }
        return defs[b] ? &*defs[b] : nullptr;
    }

    mpq_class const& value(int x)
    {
        if (x >= static_cast<int>(value_cache.size())) value_cache.resize(x + 1, {-2, 0});
        auto& e = value_cache[x];
        if (e.first != reals().timestamp(x))
        {
            e.first = reals().timestamp(x);
            e.second = num(reals().value(x));
        }
        return e.second;
    }

    // ---- C15: one Boolean variable for each set of points, up to complement

    std::map<std::string, int> canonical;
    void new_atom(int b, Def const& d)
    {
        report.count("atoms");
        std::map<int, mpq_class> m;
        for (std::size_t i = 0; i < d.vars.size(); ++i) m[d.vars[i]] += d.coef[i];
        std::erase_if(m, [](auto& p) { return p.second == 0; });
        if (m.size() != d.vars.size())
        {
            V("C15", false, "degenerate", "constraint of b" << b << ": " << d.str());
            return;
        }
        mpq_class k = m.begin()->second;
        std::string s;
        for (auto& [v, c] : m) s += mpq_class(c / k).get_str() + "*" + std::to_string(v) + " ";
        // k < 0 turns < into >, which is the complement of <=
        s += d.op == '=' ? "=" : (d.op == '<') != (k < 0) ? "<" : "<=";
        s += mpq_class(d.rhs / k).get_str();
        auto [it, inserted] = canonical.try_emplace(s, b);
        V("C15", inserted, "shared", "b" << b << " and b" << it->second << " stand for the same constraint " << d.str());
    }

    void scan_atoms()
    {
        for (int b = 0; b < static_cast<int>(bools().num_vars()); ++b) atom(b);
    }

    // ---- snapshots

    Snapshot shot()
    {
        Snapshot s;
        s.valid = true;
        auto& t = trail();
        for (int i = 0; i <= t.decision_level(); ++i) s.levels.push_back(t.assigned(i));
        int nb = static_cast<int>(bools().num_vars()), nr = static_cast<int>(reals().num_vars());
        s.bools.resize(nb);
        s.blevel.resize(nb);
        for (int b = 0; b < nb; ++b)
        {
            s.bools[b] = bools().is_defined(b) ? bools().value(b) : -1;
            s.blevel[b] = t.decision_level(Variable{b, Variable::boolean}).value_or(-1);
        }
        s.reals.resize(nr);
        s.rlevel.resize(nr);
        for (int x = 0; x < nr; ++x)
        {
            if (reals().is_defined(x)) s.reals[x] = reals().value(x);
            s.rlevel[x] = t.decision_level(Variable{x, Variable::rational}).value_or(-1);
        }
        return s;
    }

    static bool same(Trail::Assignment const& a, Trail::Assignment const& b) { return a.var == b.var && a.reason == b.reason; }

    static int level_of(Snapshot const& s, Variable v)
    {
        auto& l = v.type() == Variable::boolean ? s.blevel : s.rlevel;
        return v.ord() < static_cast<int>(l.size()) ? l[v.ord()] : -1;
    }

    // values of variables which both snapshots have at the same level; everything of `a` at levels <= top is kept in `b`
    void kept(Snapshot const& a, Snapshot const& b, int top, char const* when)
    {
        int n = std::min<int>(top, static_cast<int>(a.levels.size()) - 1);
        V("C12", static_cast<int>(b.levels.size()) > n, std::string(when) + ":levels", "levels lost: " << b.levels.size() << " of " << n + 1);
        if (static_cast<int>(b.levels.size()) <= n) return;
        for (int i = 0; i <= n; ++i)
        {
            bool prefix = b.levels[i].size() >= a.levels[i].size() &&
                          std::equal(a.levels[i].begin(), a.levels[i].end(), b.levels[i].begin(), same);
            V("C12", prefix, std::string(when) + ":stack", "stack at level " << i << " changed");
        }
        for (std::size_t v = 0; v < a.bools.size(); ++v)
        {
            if (a.bools[v] >= 0 && a.blevel[v] <= n)
            {
                V("C12", b.bools[v] == a.bools[v] && b.blevel[v] == a.blevel[v], std::string(when) + ":value", "b" << v << " changed");
            }
        }
        for (std::size_t v = 0; v < a.reals.size(); ++v)
        {
            if (a.reals[v] && a.rlevel[v] <= n)
            {
                V("C12", b.reals[v] && *b.reals[v] == *a.reals[v] && b.rlevel[v] == a.rlevel[v], std::string(when) + ":value", "x" << v << " changed");
            }
        }
    }

    static std::size_t assigned(Snapshot const& s)
    {
        std::size_t n = 0;
        for (auto b : s.bools) n += b >= 0;
        for (auto& r : s.reals) n += r.has_value();
        return n;
    }

    void equal(Snapshot const& a, Snapshot const& b, char const* when)
    {
        V("C12", a.levels.size() == b.levels.size(), std::string(when) + ":levels", a.levels.size() << " levels became " << b.levels.size());
        V("C12", assigned(a) == assigned(b), std::string(when) + ":assigned", assigned(a) << " assigned variables became " << assigned(b));
        kept(a, b, static_cast<int>(a.levels.size()) - 1, when);
    }

    // ---- C12: one state of the trail

    void wellformed(Snapshot const& s, char const* when)
    {
        report.count("trail states");
        auto k = [&](char const* x) { return std::string(when) + ":" + x; };
        int top = static_cast<int>(s.levels.size()) - 1;
        // position of the first occurrence
        std::map<std::pair<int, int>, std::pair<int, int>> pos;
        for (int i = 0; i <= top; ++i)
        {
            std::set<std::pair<int, int>> here;
            for (std::size_t j = 0; j < s.levels[i].size(); ++j)
            {
                auto v = s.levels[i][j].var;
                std::pair<int, int> id{v.type(), v.ord()};
                int l = level_of(s, v);
                V("C12", l >= 0, k("on-stack-unassigned"), str(v) << " is on the stack at level " << i << ", but unassigned");
                V("C12", here.insert(id).second, k("twice"), str(v) << " is twice on the stack at level " << i);
                V("C12", l <= i, k("level"), str(v) << " is on the stack at level " << i << ", but has level " << l);
                auto [it, first] = pos.try_emplace(id, i, static_cast<int>(j));
                if (first) V("C12", l == i, k("level"), str(v) << " first occurs at level " << i << ", but has level " << l);
            }
            if (i > 0)
            {
                V("C12", !s.levels[i].empty(), k("empty-level"), "level " << i << " is empty");
                if (!s.levels[i].empty())
                {
                    auto& d = s.levels[i].front();
                    V("C12", d.reason == nullptr && level_of(s, d.var) == i, k("no-decision"), "level " << i << " starts with " << str(d.var) << " of level " << level_of(s, d.var));
                }
            }
        }
        std::size_t n = 0;
        for (std::size_t b = 0; b < s.bools.size(); ++b)
        {
            bool a = s.bools[b] >= 0;
            n += a;
            V("C12", a == (s.blevel[b] >= 0) && s.blevel[b] <= top && a == pos.contains({Variable::boolean, static_cast<int>(b)}), k("value-level"),
              "b" << b << ": value " << int(s.bools[b]) << " level " << s.blevel[b] << " of " << top);
        }
        for (std::size_t x = 0; x < s.reals.size(); ++x)
        {
            bool a = s.reals[x].has_value();
            V("C12", a == (s.rlevel[x] >= 0) && s.rlevel[x] <= top && a == pos.contains({Variable::rational, static_cast<int>(x)}), k("value-level"),
              "x" << x << ": " << (a ? "value" : "no value") << " level " << s.rlevel[x] << " of " << top);
        }
        // reasons
        for (int i = 0; i <= top; ++i)
        {
            for (std::size_t j = 0; j < s.levels[i].size(); ++j)
            {
                auto [v, reason] = s.levels[i][j];
                if (level_of(s, v) != i) continue;
                V("C12", trail().reason(v) == reason, k("reason"), str(v) << " has another reason than on the stack");
                if (reason != nullptr)
                {
                    report.count("propagations by clauses examined");
                    bool known = addresses.contains(reason);
                    V("C12", known, k("dangling-reason"), str(v) << " was propagated by a clause which is not in the database");
                    if (!known) continue;
                    bool found = false;
                    for (auto lit : *reason)
                    {
                        int b = lit.var().ord();
                        bool t = b < static_cast<int>(s.bools.size()) && s.bools[b] >= 0 && (s.bools[b] == 1) == !lit.is_negation();
                        if (v.type() == Variable::boolean && b == v.ord())
                        {
                            found = true;
                            V("C12", t, k("reason-false"), str(v) << " is false in its reason " << str(*reason));
                        }
                        else
                        {
                            bool def = b < static_cast<int>(s.bools.size()) && s.bools[b] >= 0;
                            V("C12", def && !t, k("reason-not-unit"), "b" << b << " is not false in the reason " << str(*reason) << " of " << str(v));
                            auto p = pos.find({Variable::boolean, b});
                            V("C12", p == pos.end() || p->second.first < i || (p->second.first == i && p->second.second < static_cast<int>(j)), k("reason-later"),
                              "b" << b << " in the reason " << str(*reason) << " of " << str(v) << " was assigned later");
                        }
                    }
                    V("C12", found, k("reason-without"), str(v) << " is not in its reason " << str(*reason));
                }
                else if (i == 0 || j > 0) // propagated by a theory
                {
                    report.count("theory propagations examined");
                    Def const* d = v.type() == Variable::boolean ? atom(v.ord()) : nullptr;
                    V("C12", d != nullptr, k("no-reason"), str(v) << " was propagated without a reason");
                    if (!d) continue;
                    mpq_class lhs = 0;
                    bool full = true;
                    for (std::size_t m = 0; m < d->vars.size(); ++m)
                    {
                        int x = d->vars[m];
                        if (!s.reals[x] || s.rlevel[x] > i) full = false;
                        else lhs += d->coef[m] * num(*s.reals[x]);
                    }
                    if (full) V("C12", d->test(lhs) == (s.bools[v.ord()] == 1), k("theory-value"), str(v) << " is " << int(s.bools[v.ord()]) << ", but " << d->str() << " is not");
                    else V("C12", implied_by_level(s, v.ord(), i), k("theory-not-implied"), str(v) << ": " << d->str() << " is not implied at level " << i);
                }
            }
        }
    }

    // ---- z3

    std::unique_ptr<z3::context> ctx;
    std::map<int, z3::expr> z3_bool, z3_real;
    int z3_calls = 0;

    z3::context& z()
    {
        if (!ctx) ctx = std::make_unique<z3::context>();
        return *ctx;
    }
    z3::expr q(mpq_class const& v) { return z().real_val(v.get_str().c_str()); }

    std::map<int, terms::term_t> real_app, bool_app; // variable -> application term
    std::map<terms::term_t, int> app_args_done;
    void index_terms()
    {
        real_app.clear();
        bool_app.clear();
        for (auto& [t, v] : yaga->real_vars().base())
        {
            if (tm().get_kind(t) == terms::Kind::APP_TERM) real_app[v] = t;
        }
        for (auto& [t, l] : yaga->bool_vars().base())
        {
            if (tm().get_kind(t) == terms::Kind::APP_TERM) bool_app[l.var().ord()] = t;
        }
    }

    z3::expr term(terms::term_t t)
    {
        auto kind = tm().get_kind(t);
        if (tm().get_type(t) == terms::types::bool_type)
        {
            if (kind == terms::Kind::CONSTANT_TERM) return z().bool_val(t == terms::true_term);
            auto it = yaga->bool_vars().base().find(tm().positive_term(t));
            if (it == yaga->bool_vars().base().end()) throw std::runtime_error("monitor: Boolean term without a literal");
            z3::expr e = zbool(it->second.var().ord());
            return it->second.is_negation() != tm().is_negated(t) ? !e : e;
        }
        auto it = yaga->real_vars().base().find(t);
        if (it != yaga->real_vars().base().end()) return zreal(it->second);
        switch (kind)
        {
        case terms::Kind::ARITH_CONSTANT: return q(num(tm().arithmetic_constant_value(t)));
        case terms::Kind::ARITH_PRODUCT: return q(num(tm().coeff_of_product(t))) * term(tm().var_of_product(t));
        case terms::Kind::ARITH_POLY: {
            z3::expr e = q(0);
            for (auto a : tm().get_args(t)) e = e + term(a);
            return e;
        }
        default: throw std::runtime_error("monitor: unknown term");
        }
    }

    z3::expr app(terms::term_t t)
    {
        z3::expr_vector args(z());
        z3::sort_vector sorts(z());
        for (auto a : tm().get_args(t))
        {
            args.push_back(term(a));
            sorts.push_back(args.back().get_sort());
        }
        auto ret = tm().get_type(t) == terms::types::bool_type ? z().bool_sort() : z().real_sort();
        auto f = z().function(("f" + std::to_string(tm().get_fnc_symbol(t).x)).c_str(), sorts, ret);
        return f(args);
    }

    z3::expr zreal(int x)
    {
        auto it = z3_real.find(x);
        if (it != z3_real.end()) return it->second;
        auto a = real_app.find(x);
        z3::expr e = a == real_app.end() ? z().real_const(("x" + std::to_string(x)).c_str()) : app(a->second);
        z3_real.emplace(x, e);
        return e;
    }

    z3::expr zbool(int b)
    {
        auto it = z3_bool.find(b);
        if (it != z3_bool.end()) return it->second;
        z3::expr e(z());
        auto a = bool_app.find(b);
        if (auto d = atom(b)) e = zdef(*d);
        else if (a != bool_app.end()) e = app(a->second);
        else e = z().bool_const(("b" + std::to_string(b)).c_str());
        z3_bool.emplace(b, e);
        return e;
    }

    z3::expr zdef(Def const& d)
    {
        z3::expr lhs = q(0);
        for (std::size_t i = 0; i < d.vars.size(); ++i) lhs = lhs + q(d.coef[i]) * zreal(d.vars[i]);
        z3::expr r = q(d.rhs);
        z3::expr e = d.op == '=' ? lhs == r : d.op == '<' ? lhs < r : lhs <= r;
        return d.neg ? !e : e;
    }

    z3::expr zlit(int c) { return c & 1 ? !zbool(c >> 1) : zbool(c >> 1); }

    enum Answer { unsat, sat, unknown };
    Answer ask(std::vector<z3::expr> const& es, unsigned rlimit = 3000000)
    {
        ++z3_calls;
        report.count("z3 queries");
        z3::solver s(z());
        z3::params p(z());
        p.set("rlimit", rlimit);
        s.set(p);
        for (auto& e : es) s.add(e);
        switch (s.check())
        {
        case z3::unsat: return unsat;
        case z3::sat: return sat;
        default: report.count("z3 gave no answer"); return unknown;
        }
    }

    // the value of atom b follows from the atoms and values at levels <= level
    bool implied_by_level(Snapshot const& s, int b, int level)
    {
        std::vector<z3::expr> es;
        for (std::size_t i = 0; i < s.bools.size(); ++i)
        {
            if (static_cast<int>(i) != b && s.bools[i] >= 0 && s.blevel[i] <= level && atom(static_cast<int>(i))) es.push_back(s.bools[i] ? zbool(static_cast<int>(i)) : !zbool(static_cast<int>(i)));
        }
        for (std::size_t x = 0; x < s.reals.size(); ++x)
        {
            if (s.reals[x] && s.rlevel[x] <= level) es.push_back(zreal(static_cast<int>(x)) == q(num(*s.reals[x])));
        }
        es.push_back(s.bools[b] ? !zbool(b) : zbool(b));
        return ask(es) != sat;
    }

    // ---- clause database

    std::unordered_set<Clause const*> addresses;
    std::set<std::vector<int>> asserted_keys;
    std::multiset<std::vector<int>> asserted_initial;
    std::size_t asserted_seen = 0;
    std::set<std::vector<int>> known_keys; // asserted and learned

    void index_db()
    {
        addresses.clear();
        known_keys.clear();
        for (auto& c : db().asserted())
        {
            addresses.insert(&c);
            known_keys.insert(key(c));
        }
        for (auto& c : db().learned())
        {
            addresses.insert(&c);
            known_keys.insert(key(c));
        }
        asserted_seen = db().asserted().size();
    }

    void new_asserted() // linear constraints without variables are asserted when they are created
    {
        while (asserted_seen < db().asserted().size())
        {
            auto& c = db().asserted()[asserted_seen++];
            addresses.insert(&c);
            known_keys.insert(key(c));
            if (started) V("C11", c.size() == 1 && c[0].var().ord() >= initial_bools, "asserted-during-search", "clause " << str(c) << " was asserted during the search");
            asserted_initial.insert(key(c));
        }
    }

    void asserted_unchanged()
    {
        std::multiset<std::vector<int>> now;
        for (auto& c : db().asserted()) now.insert(key(c));
        V("C11", now == asserted_initial, "asserted-changed", "the asserted clauses changed during the search");
        V("C16", now == asserted_initial, "asserted-changed", "the asserted clauses changed during the search");
    }

    // ---- C11

    std::map<std::vector<int>, Answer> theory_answers;
    std::vector<std::vector<int>> round; // conflict clauses of this round
    int theory_budget = 0;

    Answer theory_valid(std::vector<int> const& c)
    {
        auto it = theory_answers.find(c);
        if (it != theory_answers.end()) return it->second;
        std::vector<z3::expr> es;
        for (int l : c) es.push_back(zlit(l ^ 1));
        auto a = ask(es);
        theory_answers.emplace(c, a);
        return a;
    }

    // the clause follows from the assertions and the meaning of the atoms
    Answer follows(std::vector<int> const& c)
    {
        std::vector<z3::expr> es;
        for (int l : c) es.push_back(zlit(l ^ 1));
        for (auto& k : asserted_initial)
        {
            z3::expr_vector ls(z());
            for (int l : k) ls.push_back(zlit(l));
            es.push_back(z3::mk_or(ls));
        }
        return ask(es, 20000000);
    }

    // unit propagation over the database and the conflict clauses of this round refutes the negation of c
    bool rup(std::vector<int> const& c)
    {
        std::vector<signed char> val(bools().num_vars() + 1, -1);
        for (int l : c)
        {
            int b = l >> 1;
            signed char v = l & 1; // literal false
            if (val[b] >= 0 && val[b] != v) return true;
            val[b] = v;
        }
        bool change = true;
        bool conflict = false;
        auto visit = [&](auto const& lits, auto get) {
            int unassigned = 0, last = 0;
            for (auto const& x : lits)
            {
                int l = get(x);
                signed char v = val[l >> 1];
                if (v < 0)
                {
                    if (unassigned && last == l) continue;
                    if (++unassigned > 1) return;
                    last = l;
                }
                else if (v == !(l & 1)) return;
            }
            if (unassigned == 0) conflict = true;
            else
            {
                val[last >> 1] = !(last & 1);
                change = true;
            }
        };
        while (change && !conflict)
        {
            change = false;
            for (auto& k : round)
            {
                visit(k, [](int l) { return l; });
                if (conflict) return true;
            }
            for (auto& k : db().learned())
            {
                if (&k == pending) continue;
                visit(k, [](Literal l) { return code(l); });
                if (conflict) return true;
            }
            for (auto& k : db().asserted())
            {
                visit(k, [](Literal l) { return code(l); });
                if (conflict) return true;
            }
        }
        return conflict;
    }
    Clause const* pending = nullptr;

    void conflict_clause(Clause const& c, bool level0)
    {
        auto k = key(c);
        round.push_back(k);
        report.count("conflict clauses seen");
        bool boolean = known_keys.contains(k);
        if (boolean) report.count("conflicts which are clauses of the database");
        bool all_false = true;
        for (auto l : c) all_false &= eval(bools(), l) == false;
        V("C25", all_false, "conflict-not-false", "conflict " << str(c) << " is not false");
        if (!boolean && on("C11") && (theory_budget > 0 || level0))
        {
            --theory_budget;
            report.count("theory conflicts compared with z3");
            report.mix(std::to_string(k.size()));
            auto a = theory_valid(k);
            V("C11", a != sat, "theory-conflict", "conflict " << str(c) << " " << meaning(k) << " is not a theory lemma");
        }
    }

    std::string meaning(std::vector<int> const& k)
    {
        std::string s = "[";
        for (int l : k)
        {
            s += (s.size() > 1 ? "; " : "") + std::string(l & 1 ? "not " : "");
            auto d = atom(l >> 1);
            s += d ? d->str() : "b" + std::to_string(l >> 1);
        }
        return s + "]";
    }

    // ---- C13

    void fixpoint(bool everything)
    {
        report.count("fixpoints examined");
        for (auto list : {&db().asserted(), &db().learned()})
        {
            for (auto& c : *list)
            {
                int free = 0;
                bool t = false;
                for (auto l : c)
                {
                    auto v = eval(bools(), l);
                    if (v == true)
                    {
                        t = true;
                        break;
                    }
                    if (!v) ++free; // a repeated literal counts as often as it occurs: its clause is watched twice
                }
                V("C13", t || free > 0, "false-clause", "clause " << str(c) << " is false at a fixpoint");
                V("C13", t || free != 1, "unit-clause", "clause " << str(c) << " is unit at a fixpoint");
            }
            report.count("clauses evaluated at fixpoints", static_cast<long long>(list->size()));
        }
        int nb = static_cast<int>(bools().num_vars());
        for (int b = 0; b < nb; ++b)
        {
            auto d = atom(b);
            if (!d) continue;
            mpq_class lhs = 0;
            bool full = true;
            for (std::size_t i = 0; i < d->vars.size() && full; ++i)
            {
                if (!reals().is_defined(d->vars[i])) full = false;
                else lhs += d->coef[i] * value(d->vars[i]);
            }
            if (!full) continue;
            report.count("assigned atoms evaluated");
            V("C13", bools().is_defined(b), "atom-without-value", "b" << b << ": " << d->str() << " has no value, but all its variables do");
            if (bools().is_defined(b)) V("C13", bools().value(b) == d->test(lhs), "atom-value", "b" << b << ": " << d->str() << " is assigned " << bools().value(b));
        }
        if (has_uf) congruence(everything);
    }

    // value of a term, if all its variables have one
    std::optional<std::string> val(terms::term_t t)
    {
        auto kind = tm().get_kind(t);
        if (tm().get_type(t) == terms::types::bool_type)
        {
            if (kind == terms::Kind::CONSTANT_TERM) return t == terms::true_term ? "true" : "false";
            auto it = yaga->bool_vars().base().find(tm().positive_term(t));
            if (it == yaga->bool_vars().base().end()) return {};
            auto v = eval(bools(), it->second);
            if (!v) return {};
            return *v != tm().is_negated(t) ? "true" : "false";
        }
        auto v = rval(t);
        if (!v) return {};
        return v->get_str();
    }
    std::optional<mpq_class> rval(terms::term_t t)
    {
        auto it = yaga->real_vars().base().find(t);
        if (it != yaga->real_vars().base().end())
        {
            if (!reals().is_defined(it->second)) return {};
            return value(it->second);
        }
        switch (tm().get_kind(t))
        {
        case terms::Kind::ARITH_CONSTANT: return num(tm().arithmetic_constant_value(t));
        case terms::Kind::ARITH_PRODUCT: {
            auto x = rval(tm().var_of_product(t));
            if (!x) return {};
            return mpq_class(num(tm().coeff_of_product(t)) * *x);
        }
        case terms::Kind::ARITH_POLY: {
            mpq_class s = 0;
            for (auto a : tm().get_args(t))
            {
                auto x = rval(a);
                if (!x) return {};
                s += *x;
            }
            return s;
        }
        default: return {};
        }
    }

    void congruence(bool everything)
    {
        std::map<std::string, std::pair<std::string, terms::term_t>> table;
        auto one = [&](terms::term_t t) {
            auto r = val(t);
            std::string k = std::to_string(tm().get_fnc_symbol(t).x);
            for (auto a : tm().get_args(t))
            {
                auto v = val(a);
                V("C13", !everything || v, "argument-without-value", "an argument of an application has no value in a complete assignment");
                if (!v) return;
                k += "," + *v;
            }
            if (!r) return;
            report.count("applications evaluated");
            auto [it, inserted] = table.try_emplace(k, *r, t);
            V("C13", it->second.first == *r, "congruence", "two applications with equal arguments " << k << " have values " << *r << " and " << it->second.first);
        };
        for (auto& [v, t] : real_app) one(t);
        for (auto& [v, t] : bool_app) one(t);
    }

    // ---- C13, C14: bounds of unassigned variables, from the assigned atoms

    struct Range
    {
        Bound lb, ub;
        std::vector<mpq_class> forbidden;  // by an assigned atom
        std::vector<mpq_class> candidates; // values some equality would imply
    };

    static bool tighter(Bound const& a, mpq_class const& v, bool strict, bool lower)
    {
        if (!a.present) return true;
        int c = cmp(v, a.value);
        return lower ? c > 0 || (c == 0 && strict && !a.strict) : c < 0 || (c == 0 && strict && !a.strict);
    }

    std::vector<Range> ranges()
    {
        std::vector<Range> rs(reals().num_vars());
        int nb = static_cast<int>(bools().num_vars());
        for (int b = 0; b < nb; ++b)
        {
            auto d = atom(b);
            if (!d) continue;
            int u = -1;
            bool unit = true;
            mpq_class rest = d->rhs, coef;
            for (std::size_t i = 0; i < d->vars.size() && unit; ++i)
            {
                if (reals().is_defined(d->vars[i])) rest -= d->coef[i] * value(d->vars[i]);
                else if (u >= 0) unit = false;
                else
                {
                    u = d->vars[i];
                    coef = d->coef[i];
                }
            }
            if (!unit || u < 0) continue;
            mpq_class v = rest / coef;
            if (d->op == '=') rs[u].candidates.push_back(v);
            if (!bools().is_defined(b)) continue;
            bool holds = bools().value(b) != d->neg; // the relation itself
            report.count("unit atoms");
            if (d->op == '=')
            {
                if (holds)
                {
                    if (tighter(rs[u].lb, v, false, true)) rs[u].lb = {true, v, false};
                    if (tighter(rs[u].ub, v, false, false)) rs[u].ub = {true, v, false};
                }
                else rs[u].forbidden.push_back(v);
                continue;
            }
            bool strict = (d->op == '<') == holds;
            bool upper = (coef > 0) == holds;
            if (upper)
            {
                if (tighter(rs[u].ub, v, strict, false)) rs[u].ub = {true, v, strict};
            }
            else if (tighter(rs[u].lb, v, strict, true)) rs[u].lb = {true, v, strict};
        }
        return rs;
    }

    static std::string bstr(Bound const& b) { return b.present ? b.value.get_str() + (b.strict ? " (strict)" : "") : "none"; }

    std::map<int, std::vector<mpq_class>> past_forbidden; // values seen in some list

    int implied_budget = 0, implied_seen = 0;
    bool ask_implied() // the first ones, then ever fewer
    {
        ++implied_seen;
        return implied_budget > 0 && (implied_seen < 30 || g.below(implied_seen) < 15) && implied_budget-- > 0;
    }
    // x has the bound in every extension of the current assignment which satisfies the assigned atoms
    bool implied_bound(int x, Bound const& b, bool lower)
    {
        std::vector<z3::expr> es;
        for (int i = 0; i < static_cast<int>(bools().num_vars()); ++i)
        {
            if (!bools().is_defined(i)) continue;
            auto d = atom(i);
            if (!d) continue;
            z3::expr lhs = q(0);
            mpq_class rhs = d->rhs;
            for (std::size_t k = 0; k < d->vars.size(); ++k)
            {
                if (reals().is_defined(d->vars[k])) rhs -= d->coef[k] * value(d->vars[k]);
                else lhs = lhs + q(d->coef[k]) * z().real_const(("x" + std::to_string(d->vars[k])).c_str());
            }
            z3::expr r = q(rhs);
            z3::expr e = d->op == '=' ? lhs == r : d->op == '<' ? lhs < r : lhs <= r;
            es.push_back(bools().value(i) != d->neg ? e : !e);
        }
        z3::expr v = z().real_const(("x" + std::to_string(x)).c_str());
        z3::expr r = q(b.value);
        es.push_back(lower ? (b.strict ? v <= r : v < r) : (b.strict ? v >= r : v > r));
        return ask(es) != sat;
    }

    void bounds_fixpoint()
    {
        auto rs = ranges();
        auto models = lra->relevant_models(trail());
        for (int x = 0; x < static_cast<int>(rs.size()); ++x)
        {
            if (reals().is_defined(x)) continue;
            auto& r = rs[x];
            report.count("unassigned variables examined");
            // C13: some value is allowed
            bool empty = false;
            if (r.lb.present && r.ub.present)
            {
                int c = cmp(r.lb.value, r.ub.value);
                empty = c > 0 || (c == 0 && (r.lb.strict || r.ub.strict));
                if (c == 0) empty |= std::find(r.forbidden.begin(), r.forbidden.end(), r.lb.value) != r.forbidden.end();
            }
            V("C13", !empty, "no-value", "x" << x << " has no allowed value: lower bound " << bstr(r.lb) << " upper bound " << bstr(r.ub));
            if (!on("C14")) continue;

            auto bnds = lra->find_bounds(x); // a copy: questions remove obsolete bounds, and the search must not profit from ours
            Bound lb, ub;
            if (auto b = bnds.lower_bound(models)) lb = {true, num(b->value()), b->is_strict()};
            if (auto b = bnds.upper_bound(models)) ub = {true, num(b->value()), b->is_strict()};
            if (lb.present || ub.present) report.count("variables with a bound");
            if (r.lb.present)
            {
                V("C14", lb.present && !tighter(lb, r.lb.value, r.lb.strict, true), "lower-bound-missing", "x" << x << ": lower bound " << bstr(lb) << ", implied " << bstr(r.lb));
            }
            if (r.ub.present)
            {
                V("C14", ub.present && !tighter(ub, r.ub.value, r.ub.strict, false), "upper-bound-missing", "x" << x << ": upper bound " << bstr(ub) << ", implied " << bstr(r.ub));
            }
            bool more_lb = lb.present && tighter(r.lb, lb.value, lb.strict, true);
            bool more_ub = ub.present && tighter(r.ub, ub.value, ub.strict, false);
            if (!deduce)
            {
                V("C14", !more_lb, "lower-bound-not-implied", "x" << x << ": lower bound " << bstr(lb) << ", implied " << bstr(r.lb));
                V("C14", !more_ub, "upper-bound-not-implied", "x" << x << ": upper bound " << bstr(ub) << ", implied " << bstr(r.ub));
            }
            else
            {
                if (more_lb && ask_implied())
                {
                    report.count("deduced bounds compared with z3");
                    V("C14", implied_bound(x, lb, true), "lower-bound-not-implied", "x" << x << ": deduced lower bound " << bstr(lb));
                }
                if (more_ub && ask_implied())
                {
                    report.count("deduced bounds compared with z3");
                    V("C14", implied_bound(x, ub, false), "upper-bound-not-implied", "x" << x << ": deduced upper bound " << bstr(ub));
                }
            }
            for (auto& v : r.forbidden)
            {
                report.count("forbidden values");
                V("C14", !bnds.is_allowed(models, Rational(v.get_str().c_str())), "forbidden-missing", "x" << x << ": " << v << " is forbidden by an assigned atom, but allowed");
                auto& p = past_forbidden[x];
                if (p.size() < 12 && std::find(p.begin(), p.end(), v) == p.end()) p.push_back(v);
            }
            auto stale = [&](mpq_class const& v) {
                if (std::find(r.forbidden.begin(), r.forbidden.end(), v) == r.forbidden.end())
                {
                    V("C14", !bnds.inequality(models, Rational(v.get_str().c_str())), "forbidden-not-implied", "x" << x << ": value " << v << " is forbidden by no assigned atom");
                }
            };
            for (auto& v : r.candidates) stale(v);
            for (auto& v : past_forbidden[x]) stale(v);
            // no value inside the implied range is excluded
            if (!deduce && !empty)
            {
                std::vector<mpq_class> tests;
                if (r.lb.present && r.ub.present) tests.push_back((r.lb.value + r.ub.value) / 2);
                if (r.lb.present) tests.push_back(r.lb.value + 1), tests.push_back(r.lb.value);
                if (r.ub.present) tests.push_back(r.ub.value - 1), tests.push_back(r.ub.value);
                tests.push_back(0);
                for (auto& v : tests)
                {
                    bool ok = std::find(r.forbidden.begin(), r.forbidden.end(), v) == r.forbidden.end();
                    if (r.lb.present) ok &= r.lb.strict ? v > r.lb.value : v >= r.lb.value;
                    if (r.ub.present) ok &= r.ub.strict ? v < r.ub.value : v <= r.ub.value;
                    V("C14", bnds.is_allowed(models, Rational(v.get_str().c_str())) == ok, "allowed", "x" << x << ": value " << v << (ok ? " is not allowed" : " is allowed") << ", bounds " << bstr(r.lb) << " " << bstr(r.ub));
                }
            }
        }
    }

    // ---- events

    bool started = false;
    int initial_bools = 0;
    Stats st;
    long long cycle = 0;
    bool active = false;
    Snapshot last;               // state after the last event
    enum Event { begin, decided, backtracked, restarted, none } expect = none;
    Variable decided_var{0, Variable::boolean};
    int backtrack_level = 0;
    int conflict_level = 0;
    std::vector<std::vector<int>> learned; // of this round
    bool split = false;
    bool wants_restart = false;
    bool fix = false; // the last propagation ended without a conflict
    std::vector<std::vector<int>> learned_before;
    std::map<int, bool> cached; // C23

    void init()
    {
        std::uint64_t h = search.seed;
        g = Rng(h);
        started = false;
        index_terms();
        asserted_initial.clear();
        asserted_seen = 0;
        addresses.clear();
        known_keys.clear();
        new_asserted();
        started = true;
        initial_bools = static_cast<int>(bools().num_vars());
        V("C12", trail().empty() && trail().decision_level() == 0, "init", "the trail is not empty at the start of a check");
        V("C11", db().learned().empty(), "init", "there are learned clauses at the start of a check");
        st = Stats{};
        expect = begin;
        last.valid = false;
        cycle = 0;
        theory_budget = 400;
        implied_budget = 80;
        implied_seen = 0;
        fix = false;
        cached.clear();
        own.clear();
        storm_budget = 3 * search.storm;
        report.count("checks watched");
        for (auto& c : db().asserted())
        {
            for (auto l : c) report.mix(code(l));
        }
    }

    bool due()
    {
        return cycle < 150 || g.below(static_cast<int>(1 + cycle / 100)) == 0;
    }

    void propagate_begin()
    {
        new_asserted();
        ++cycle;
        bool was = active && last.valid;
        active = due();
        report.count("propagation cycles");
        if (search.cap > 0 && cycle > search.cap)
        {
            report.count("searches ended by the monitor");
            throw Capped{};
        }
        if (!active && !was) return;
        if (!on("C12") && !on("C25"))
        {
            last.valid = active;
            return;
        }
        auto now = shot();
        if (on("C12")) wellformed(now, "before-propagate");
        if (was)
        {
            switch (expect)
            {
            case decided:
                kept(last, now, static_cast<int>(last.levels.size()) - 1, "decide");
                V("C12", now.levels.size() == last.levels.size() + 1 && assigned(now) == assigned(last) + 1 && now.levels.back().size() == 1 && now.levels.back()[0].var == decided_var,
                  "decide:level", "a decision did not add exactly one level with " << str(decided_var));
                break;
            case restarted:
                V("C12", now.levels.size() == 1 && now.levels[0].empty() && assigned(now) == 0, "restart:left", assigned(now) << " variables keep a value after a restart");
                break;
            case backtracked: after_backtrack(now); break;
            default: break;
            }
        }
        last = std::move(now);
    }

    void after_backtrack(Snapshot const& now)
    {
        int L = backtrack_level;
        int nl = static_cast<int>(now.levels.size()) - 1;
        report.count("backjumps examined");
        kept(last, now, std::min(L, nl), "backtrack");
        if (split)
        {
            V("C12", nl == L + 1 && now.levels.back().size() == 1, "backtrack:split", "splitting a conflict at level " << L << " led to level " << nl);
        }
        else V("C12", nl == L, "backtrack:level", "backtracking to level " << L << " led to level " << nl);
        // nothing above the level survives, except for the literals of learned clauses
        std::size_t n = 0;
        for (std::size_t b = 0; b < last.bools.size(); ++b) n += last.bools[b] >= 0 && last.blevel[b] <= L;
        for (std::size_t x = 0; x < last.reals.size(); ++x)
        {
            bool keep = last.reals[x] && last.rlevel[x] <= L;
            n += keep;
            V("C12", keep == now.reals[x].has_value(), "backtrack:survives", "x" << x << " was assigned at level " << last.rlevel[x] << ", the solver backtracked to level " << L);
        }
        std::set<int> lits;
        for (auto& c : learned)
        {
            for (int l : c) lits.insert(l);
        }
        for (std::size_t b = 0; b < now.bools.size(); ++b)
        {
            bool keep = b < last.bools.size() && last.bools[b] >= 0 && last.blevel[b] <= L;
            if (now.bools[b] >= 0 && !keep)
            {
                int l = static_cast<int>(b) * 2 + (now.bools[b] == 0);
                V("C12", lits.contains(l), "backtrack:survives", "b" << b << " has a value after backtracking to level " << L << ", which no learned clause gives it");
            }
        }
        // C25
        if (storming) return;
        V("C25", nl < conflict_level || (split && nl <= conflict_level), "no-decision-removed", "conflict at level " << conflict_level << ", level " << nl << " afterwards");
        auto truth = [&](int l) { return now.bools[l >> 1] < 0 ? -1 : (now.bools[l >> 1] == 1) == !(l & 1); };
        bool some = false;
        for (auto& c : learned)
        {
            bool t = false, f = true;
            for (int l : c)
            {
                t |= truth(l) == 1;
                f &= truth(l) == 0;
            }
            some |= t;
            if (!split) V("C25", t || f, "not-propagated", "learned clause " << str(c) << " is undetermined after backtracking to level " << L);
        }
        V("C25", some, "no-literal-true", "no learned clause is true after backtracking to level " << L << ": " << (learned.empty() ? "" : str(learned[0])));
        if (split)
        {
            report.count("conflicts split");
            V("C25", L + 1 < static_cast<int>(last.levels.size()) && !last.levels[L + 1].empty() && last.levels[L + 1][0].var.type() != Variable::boolean, "split-boolean", "a decision which split a conflict replaced a Boolean decision");
            V("C25", now.levels.back().size() == 1 && now.levels.back()[0].var.type() == Variable::boolean, "split-decision", "a conflict was not split by a Boolean decision");
        }
    }

    void propagate_end(std::vector<Clause> const& conflicts)
    {
        new_asserted();
        round.clear();
        learned.clear();
        wants_restart = false;
        int level = trail().decision_level();
        conflict_level = level;
        fix = conflicts.empty();
        for (auto& c : conflicts) conflict_clause(c, level == 0);
        if (!conflicts.empty() && level > 0)
        {
            ++st.conflicts;
            st.clauses += static_cast<long long>(conflicts.size());
            report.count("conflicts");
            if (search.cap == 0) V("C25", st.conflicts < conflict_cap, "cap", "more than " << conflict_cap << " conflicts");
            if (st.conflicts >= conflict_cap) throw Capped{};
        }
        if (!conflicts.empty() && level == 0)
        {
            report.count("checks ended by a conflict at level 0");
            asserted_unchanged();
            scan_atoms();
        }
        if (!active && !(on("C13") && fix && complete())) return;
        if (on("C12") || on("C25"))
        {
            auto now = shot();
            if (on("C12"))
            {
                wellformed(now, "after-propagate");
                if (last.valid)
                {
                    kept(last, now, static_cast<int>(last.levels.size()) - 1, "propagate");
                    V("C12", last.levels.size() == now.levels.size(), "propagate:levels", "propagation changed the decision level");
                }
            }
            last = std::move(now);
        }
        if (fix)
        {
            if (on("C13")) fixpoint(complete());
            if (on("C13") || on("C14")) bounds_fixpoint();
        }
    }

    bool complete()
    {
        for (int i = 0; i < static_cast<int>(bools().num_vars()); ++i)
        {
            if (!bools().is_defined(i)) return false;
        }
        for (int i = 0; i < static_cast<int>(reals().num_vars()); ++i)
        {
            if (!reals().is_defined(i)) return false;
        }
        return true;
    }

    void picked(std::optional<Variable> v, Generalized_vsids const* vsids)
    {
        report.count("picks");
        V("C13", fix, "pick-in-conflict", "a decision is made after a conflict");
        if (active && last.valid && on("C12")) equal(last, shot(), "pick");
        if (!v)
        {
            V("C17", complete(), "none", "no variable was picked, but not all are assigned");
            V("C13", complete(), "sat-incomplete", "sat is answered for a partial assignment");
            report.count("checks ended by a complete assignment");
            asserted_unchanged();
            scan_atoms();
            return;
        }
        bool known = v->ord() >= 0 && v->ord() < static_cast<int>(v->type() == Variable::boolean ? bools().num_vars() : reals().num_vars());
        V("C17", known, "unknown", "a variable which does not exist was picked: " << str(*v));
        if (!known) return;
        V("C17", !trail().decision_level(*v), "assigned", str(*v) << " was picked, but has a value");
        if (vsids && on("C17") && active)
        {
            auto models = lra->relevant_models(trail());
            bool forced = prop_rational && v->type() == Variable::rational && lra->is_effectively_decided(models, v->ord());
            if (forced) report.count("forced variables picked");
            if (!forced)
            {
                float s = vsids->score(*v);
                for (auto [type, model] : trail().models())
                {
                    for (int i = 0; i < static_cast<int>(model->num_vars()); ++i)
                    {
                        Variable u{i, type};
                        if (!model->is_defined(i))
                        {
                            report.count("scores compared");
                            V("C17", vsids->score(u) <= s, "not-best", str(*v) << " with score " << s << " was picked, but " << str(u) << " has score " << vsids->score(u));
                        }
                    }
                }
            }
        }
        expect = none;
    }

    void before_decide(Variable v)
    {
        ++st.decisions;
        report.count("decisions");
        decided_var = v;
        expect = decided;
        range_before.reset();
        if (v.type() == Variable::rational && active && on("C14"))
        {
            auto rs = ranges();
            range_before = rs[v.ord()];
            auto models = lra->relevant_models(trail());
            auto bnds = lra->find_bounds(v.ord());
            tracked_lb = tracked_ub = Bound{};
            if (auto b = bnds.lower_bound(models)) tracked_lb = {true, num(b->value()), b->is_strict()};
            if (auto b = bnds.upper_bound(models)) tracked_ub = {true, num(b->value()), b->is_strict()};
        }
    }
    std::optional<Range> range_before;
    Bound tracked_lb, tracked_ub;

    void after_decide(Variable v)
    {
        if (v.type() == Variable::boolean)
        {
            if (on("C23") && !search.rphase && bools().is_defined(v.ord()))
            {
                bool value = bools().value(v.ord());
                bool want = phase == Phase::positive ? true : phase == Phase::negative ? false : cached.contains(v.ord()) ? cached[v.ord()] : true;
                report.count("Boolean decisions compared with the phase");
                if (phase == Phase::cache && cached.contains(v.ord())) report.count(cached[v.ord()] ? "cached values true" : "cached values false");
                report.mix(v.ord() * 2 + value);
                V("C23", value == want, phase == Phase::positive ? "positive" : phase == Phase::negative ? "negative" : "cache", str(v) << " was decided " << value);
            }
            return;
        }
        V("C14", reals().is_defined(v.ord()), "not-decided", str(v) << " has no value after its decision");
        if (range_before && reals().is_defined(v.ord()))
        {
            auto& x = value(v.ord());
            report.count("values of real variables decided");
            auto inside = [&](Bound const& lb, Bound const& ub) {
                return (!lb.present || (lb.strict ? x > lb.value : x >= lb.value)) && (!ub.present || (ub.strict ? x < ub.value : x <= ub.value));
            };
            V("C14", inside(range_before->lb, range_before->ub), "decision-out-of-bounds", str(v) << " := " << x << ", bounds " << bstr(range_before->lb) << " " << bstr(range_before->ub));
            V("C14", inside(tracked_lb, tracked_ub), "decision-out-of-tracked-bounds", str(v) << " := " << x << ", bounds " << bstr(tracked_lb) << " " << bstr(tracked_ub));
            V("C14", std::find(range_before->forbidden.begin(), range_before->forbidden.end(), x) == range_before->forbidden.end(), "decision-forbidden", str(v) << " := " << x << " is forbidden");
        }
    }

    void on_learned(Clause const& c)
    {
        auto k = key(c);
        addresses.insert(&c);
        ++st.learned;
        learned.push_back(k);
        report.count("learned clauses");
        report.top("size of a learned clause", static_cast<long long>(k.size()));
        bool all_false = true;
        int top = -1, at_top = 0;
        for (auto l : c)
        {
            all_false &= eval(bools(), l) == false;
            int lv = trail().decision_level(l.var()).value_or(-1);
            if (lv > top) top = lv, at_top = 1;
            else if (lv == top) ++at_top;
        }
        split = at_top >= 2;
        V("C25", all_false, "learned-not-false", "learned clause " << str(c) << " is not false when it is learned");
        V("C25", !c.empty(), "learned-empty", "an empty clause was learned");
        if (on("C11") && due())
        {
            pending = &c;
            report.count("learned clauses checked");
            if (!rup(k))
            {
                report.count("learned clauses compared with z3");
                auto a = follows(k);
                V("C11", a != sat, "learned", "learned clause " << str(c) << " " << meaning(k) << " does not follow");
            }
            pending = nullptr;
        }
        if (known_keys.contains(k)) report.count("learned clauses which are known");
        known_keys.insert(k);
    }

    void should_restart(bool r)
    {
        wants_restart = r;
        if (r && on("C16"))
        {
            learned_before.clear();
            for (auto& c : db().learned()) learned_before.push_back(key(c));
        }
    }

    void before_backtrack(int level)
    {
        if (!started) return;
        backtrack_level = level;
        expect = backtracked;
        if (active && last.valid && on("C12")) equal(last, shot(), "analysis");
        if (!fix && !storming)
        {
            V("C25", level < conflict_level, "level", "conflict at level " << conflict_level << ", backtracking to " << level);
        }
        if (on("C23") && phase == Phase::cache)
        {
            for (int b = 0; b < static_cast<int>(bools().num_vars()); ++b)
            {
                auto l = trail().decision_level(Variable{b, Variable::boolean});
                if (l && (*l > level || wants_restart)) cached[b] = bools().value(b);
            }
        }
    }

    void on_restart()
    {
        if (!started) return;
        ++st.restarts;
        report.count("restarts");
        expect = restarted;
        V("C18", wants_restart, "unasked", "the solver restarted, but its policy did not ask for it");
        wants_restart = false;
        restarted_now = true;
        if (on("C16"))
        {
            std::multiset<std::vector<int>> after;
            std::vector<std::vector<int>> kept_list;
            for (auto& c : db().learned())
            {
                after.insert(key(c));
                kept_list.push_back(key(c));
            }
            report.count("reductions of the database");
            report.count("clauses before reductions", static_cast<long long>(learned_before.size()));
            report.count("clauses after reductions", static_cast<long long>(kept_list.size()));
            auto rest = after;
            std::vector<std::vector<int>> removed;
            for (auto& k : learned_before)
            {
                auto it = rest.find(k);
                if (it != rest.end()) rest.erase(it);
                else removed.push_back(k);
            }
            V("C16", rest.empty(), "new-clause", "a reduction added or changed a clause: " << (rest.empty() ? "" : str(*rest.begin())));
            auto proper = [](std::vector<int> const& a, std::vector<int> const& b) { return a.size() < b.size() && std::includes(b.begin(), b.end(), a.begin(), a.end()); };
            if (removed.size() * kept_list.size() < subset_budget)
            {
                for (auto& k : removed)
                {
                    bool ok = std::any_of(kept_list.begin(), kept_list.end(), [&](auto& c) { return std::includes(k.begin(), k.end(), c.begin(), c.end()); });
                    V("C16", ok, "removed", "clause " << str(k) << " was removed, but no subset of it is kept");
                }
                subset_budget -= removed.size() * kept_list.size();
                report.count("removed clauses examined", static_cast<long long>(removed.size()));
            }
            if (kept_list.size() * kept_list.size() < subset_budget)
            {
                subset_budget -= kept_list.size() * kept_list.size();
                report.count("reductions examined for clauses left");
                for (auto& a : kept_list)
                {
                    for (auto& b : kept_list) V("C16", !proper(a, b), "subsumed-left", "clause " << str(b) << " is left, although " << str(a) << " is");
                }
            }
        }
        addresses.clear();
        for (auto& c : db().asserted()) addresses.insert(&c);
        for (auto& c : db().learned()) addresses.insert(&c);
    }
    bool storming = false; // the assignment is driven by the monitor, not by the solver
    int storm_budget = 0;
    std::deque<Clause> own; // clauses derived in a storm, reasons of literals propagated there
    bool restarted_now = false;
    std::size_t subset_budget = 6000000;

    void finish()
    {
        if (started)
        {
            all_stats.push_back(st);
            report.seen();
        }
        started = false;
    }
};

static std::unique_ptr<Monitor> mon;

// ---------------------------------------------------------------------------------------------- attached objects

class Mon_theory : public Theory_combination {
public:
    std::vector<Clause> propagate(Database& db, Trail& trail) override
    {
        if (mon->wants_restart && !mon->restarted_now) V("C18", false, "ignored", "the policy asked for a restart, but the search went on");
        mon->restarted_now = false;
        if (search.storm > 0 && mon->started && trail.decision_level() == 0 && mon->storm_budget > 0)
        {
            auto cycle = mon->cycle;
            mon->storming = true;
            auto res = storm(db, trail);
            mon->storming = false;
            mon->cycle = cycle + 1;
            return res;
        }
        return step(db, trail);
    }

    std::vector<Clause> step(Database& db, Trail& trail)
    {
        mon->propagate_begin();
        auto res = Theory_combination::propagate(db, trail);
        mon->propagate_end(res);
        return res;
    }

    void jump(Database& db, Trail& trail, int level)
    {
        mon->before_backtrack(level);
        Theory_combination::on_before_backtrack(db, trail, level);
        trail.backtrack(level);
    }

    /** A random walk over partial assignments, as the interfaces of the trail and the theories allow it: decisions of any
     * variable with any allowed value, backtracking to any level, conflicts resolved as in the solver or by backtracking
     * further. It ends where the solver is at this point of the search: level 0, after propagation.
     */
    std::vector<Clause> storm(Database& db, Trail& trail)
    {
        auto& g = mon->g;
        auto& bools = trail.model<bool>(Variable::boolean);
        auto& reals = trail.model<Rational>(Variable::rational);
        int bias = g.range(0, 100);
        for (int n = 0; n < search.storm; ++n)
        {
            --mon->storm_budget;
            mon->cycle = std::min(mon->cycle, 100LL); // look at every state
            auto conflicts = step(db, trail);
            int top = trail.decision_level();
            report.count("storm steps");
            if (!conflicts.empty())
            {
                if (top == 0) return conflicts;
                report.count("storm conflicts");
                Conflict_analysis analysis;
                int level = std::numeric_limits<int>::max();
                std::vector<Clause> learned;
                for (auto& c : conflicts)
                {
                    auto [clause, l] = analysis.analyze(trail, Clause{c.begin(), c.end()});
                    if (l < level) level = l, learned.clear();
                    if (l == level) learned.push_back(clause);
                }
                level = std::max(level, 0);
                auto split = [&](Clause const& c) { return c.size() >= 2 && trail.decision_level(c[0].var()) == trail.decision_level(c[1].var()); };
                mon->learned.clear();
                mon->split = false;
                std::erase_if(learned, [&](auto& c) { return c.empty() || split(c); });
                // (the solver keeps clauses which propagate at level 0, but these are forgotten)
                if (learned.empty() || level == 0 || g.chance(35))
                {
                    jump(db, trail, g.chance(50) ? level - (level > 0 && !learned.empty()) : g.below(level > 0 ? level : 1));
                    continue;
                }
                for (auto& c : learned) mon->learned.push_back(key(c));
                jump(db, trail, level);
                for (auto& c : learned)
                {
                    if (!bools.is_defined(c[0].var().ord()))
                    {
                        mon->own.push_back(c);
                        mon->addresses.insert(&mon->own.back());
                        trail.propagate(c[0].var(), &mon->own.back(), level);
                        bools.set_value(c[0].var().ord(), !c[0].is_negation());
                    }
                }
                continue;
            }
            std::vector<Variable> fb, fr;
            for (int i = 0; i < static_cast<int>(bools.num_vars()); ++i)
            {
                if (!bools.is_defined(i)) fb.push_back(Variable{i, Variable::boolean});
            }
            for (int i = 0; i < static_cast<int>(reals.num_vars()); ++i)
            {
                if (!reals.is_defined(i)) fr.push_back(Variable{i, Variable::rational});
            }
            if (top > 0 && ((fb.empty() && fr.empty()) || g.chance(18)))
            {
                mon->learned.clear();
                mon->split = false;
                jump(db, trail, g.chance(60) ? std::max(0, top - g.range(1, 3)) : g.below(top));
                continue;
            }
            if (fb.empty() && fr.empty()) break;
            bool real = fb.empty() || (!fr.empty() && g.chance(bias));
            Variable v = g.pick(real ? fr : fb);
            if (real ? !arbitrary(trail, v) : true)
            {
                if (real || g.chance(30)) decide(db, trail, v); // as the solver would
                else
                {
                    mon->decided_var = v;
                    mon->expect = Monitor::decided;
                    trail.decide(v);
                    bools.set_value(v.ord(), g.chance(50));
                }
            }
        }
        mon->learned.clear();
        mon->split = false;
        mon->last.valid = false; // the last step may have ended with a decision
        jump(db, trail, 0);
        return step(db, trail);
    }

    // decide a value which the theory of arithmetic allows, but would not choose itself
    bool arbitrary(Trail& trail, Variable v)
    {
        auto& g = mon->g;
        auto& reals = trail.model<Rational>(Variable::rational);
        if (g.chance(30)) return false;
        auto models = mon->lra->relevant_models(trail);
        auto bnds = mon->lra->find_bounds(v.ord());
        std::vector<mpq_class> values;
        for (int k = 0; k < 3; ++k)
        {
            int x = g.below(static_cast<int>(reals.num_vars()));
            if (reals.is_defined(x)) values.push_back(mon->value(x));
        }
        std::optional<mpq_class> lb, ub;
        if (auto b = bnds.lower_bound(models)) lb = num(b->value());
        if (auto b = bnds.upper_bound(models)) ub = num(b->value());
        if (lb) values.push_back(*lb), values.push_back(*lb + mpq_class(1, g.range(1, 9)));
        if (ub) values.push_back(*ub), values.push_back(*ub - mpq_class(1, g.range(1, 9)));
        if (lb && ub) values.push_back((*lb + *ub) / 2), values.push_back((*lb * 2 + *ub) / 3);
        values.push_back(g.range(-4, 4));
        values.push_back(mpq_class(g.range(-40, 40), g.range(1, 7)));
        for (auto& x : values) x.canonicalize();
        for (int k = 0; k < 4; ++k)
        {
            Rational x(g.pick(values).get_str().c_str());
            if (!bnds.is_allowed(models, x)) continue;
            report.count("values decided by the monitor");
            mon->decided_var = v;
            mon->expect = Monitor::decided;
            trail.decide(v);
            reals.set_value(v.ord(), x);
            return true;
        }
        return false;
    }

    void decide(Database& db, Trail& trail, Variable var) override
    {
        if (search.rphase && mon->bcp) mon->bcp->set_phase(mon->g.chance(50) ? Phase::positive : Phase::negative);
        mon->before_decide(var);
        Theory_combination::decide(db, trail, var);
        mon->after_decide(var);
    }
    void on_init(Database& db, Trail& trail) override
    {
        Theory_combination::on_init(db, trail);
        mon->init();
    }
    void on_learned_clause(Database& db, Trail& trail, Clause const& c) override
    {
        Theory_combination::on_learned_clause(db, trail, c);
        mon->on_learned(c);
    }
    void on_before_backtrack(Database& db, Trail& trail, int level) override
    {
        mon->before_backtrack(level);
        Theory_combination::on_before_backtrack(db, trail, level);
    }
    void on_restart(Database& db, Trail& trail) override
    {
        Theory_combination::on_restart(db, trail);
        mon->on_restart();
    }
};

class Mon_restart : public Glucose_restart {
    int n = 0;

public:
    void on_learned_clause(Database& db, Trail& trail, Clause const& c) override
    {
        Glucose_restart::on_learned_clause(db, trail, c);
        ++n;
    }
    void on_restart(Database& db, Trail& trail) override
    {
        Glucose_restart::on_restart(db, trail);
        n = 0;
    }
    bool should_restart() const override
    {
        bool r = search.restart < 0 ? Glucose_restart::should_restart() : search.restart > 0 && n >= search.restart;
        mon->should_restart(r);
        return r;
    }
};

class Mon_order : public Generalized_vsids {
public:
    using Generalized_vsids::Generalized_vsids;
    std::optional<Variable> pick(Database& db, Trail& trail) override
    {
        if (search.order == Search::real)
        {
            auto v = Generalized_vsids::pick(db, trail);
            mon->picked(v, this);
            return v;
        }
        std::vector<Variable> free;
        for (auto [type, model] : trail.models())
        {
            for (int i = 0; i < static_cast<int>(model->num_vars()); ++i)
            {
                if (!model->is_defined(i)) free.push_back(Variable{i, type});
            }
        }
        std::optional<Variable> v;
        if (!free.empty()) v = search.order == Search::first ? free[0] : mon->g.pick(free);
        mon->picked(v, nullptr);
        return v;
    }
};

template <bool uf> class Mon_logic : public Initializer {
public:
    void setup(Yaga* yaga, Options const& options) const override
    {
        mon->finish();
        auto m = std::make_unique<Monitor>();
        auto& s = yaga->solver();
        s.trail().set_model<bool>(Variable::boolean, 0);
        s.trail().set_model<Rational>(Variable::rational, 0);
        mon = std::move(m);
        auto& theories = s.set_theory<Mon_theory>();
        auto& bcp = theories.add_theory<Bool_theory>();
        bcp.set_phase(options.phase);
        Linear_arithmetic::Options lra_options;
        lra_options.prop_rational = options.prop_rational;
        lra_options.prop_bounds = options.deduce_bounds;
        auto& lra = theories.add_theory<Linear_arithmetic>();
        lra.set_options(lra_options);
        if (uf) theories.add_theory<Uninterpreted_functions>(s.tm(), yaga->real_vars(), yaga->bool_vars());
        s.set_restart_policy<Mon_restart>();
        s.set_variable_order<Mon_order>(lra);
        mon->yaga = yaga;
        mon->lra = &lra;
        mon->bcp = &bcp;
        mon->has_uf = uf;
        mon->deduce = options.deduce_bounds;
        mon->prop_rational = options.prop_rational;
        mon->phase = options.phase;
    }
};

struct mon_logic
{
    inline static Mon_logic<false> const qf_lra{};
    inline static Mon_logic<true> const qf_uflra{};
};

// the repository's front end, with the initializers above
#define logic mon_logic
#include "Smt2_parser.cpp"
#undef logic

// ---------------------------------------------------------------------------------------------- main

static bool read_exact(std::string& buf, std::size_t n)
{
    buf.resize(n);
    std::size_t got = 0;
    while (got < n)
    {
        auto k = fread(buf.data() + got, 1, n - got, stdin);
        if (k == 0) return false;
        got += k;
    }
    return true;
}

// C22: the printed numbers, in order
static void compare_stats(std::string const& text)
{
    std::vector<Stats> printed;
    std::stringstream in{text};
    std::string l;
    while (std::getline(in, l))
    {
        auto get = [&](char const* name, long long& x) {
            std::string p = std::string(name) + " = ";
            if (l.compare(0, p.size(), p) == 0) x = std::stoll(l.substr(p.size()));
        };
        if (l.compare(0, 12, "Conflicts = ") == 0) printed.emplace_back();
        if (printed.empty()) continue;
        auto& s = printed.back();
        get("Conflicts", s.conflicts);
        get("Conflict clauses", s.clauses);
        get("Learned clauses", s.learned);
        get("Decisions", s.decisions);
        get("Restarts", s.restarts);
    }
    V("C22", printed.size() == all_stats.size(), "blocks", printed.size() << " blocks of statistics for " << all_stats.size() << " checks");
    for (std::size_t i = 0; i < std::min(printed.size(), all_stats.size()); ++i)
    {
        auto& p = printed[i];
        auto& s = all_stats[i];
        report.count("statistics compared", 5);
        auto cmp = [&](char const* name, long long a, long long b) { V("C22", a == b, name, name << " printed " << a << ", observed " << b << " in check " << i); };
        cmp("Conflicts", p.conflicts, s.conflicts);
        cmp("Conflict clauses", p.clauses, s.clauses);
        cmp("Learned clauses", p.learned, s.learned);
        cmp("Decisions", p.decisions, s.decisions);
        cmp("Restarts", p.restarts, s.restarts);
    }
}

int main()
{
    char line[600];
    while (fgets(line, sizeof(line), stdin))
    {
        char optbuf[500];
        std::size_t n = 0;
        if (sscanf(line, "%499s %zu", optbuf, &n) != 2) return 3;
        std::string script;
        if (!read_exact(script, n)) return 3;
        Options options;
        search = Search{};
        report = Report{};
        all_stats.clear();
        std::stringstream opts{optbuf};
        std::string o;
        while (std::getline(opts, o, ','))
        {
            if (o == "prop_rational") options.prop_rational = true;
            if (o == "deduce_bounds") options.deduce_bounds = true;
            if (o == "stats") options.print_stats = true;
            if (o == "positive") options.phase = Phase::positive;
            if (o == "negative") options.phase = Phase::negative;
            if (o == "cache") options.phase = Phase::cache;
            if (o == "order:random") search.order = Search::random;
            if (o == "order:first") search.order = Search::first;
            if (o.compare(0, 6, "storm:") == 0) search.storm = std::stoi(o.substr(6));
            if (o.compare(0, 4, "cap:") == 0) search.cap = std::stoll(o.substr(4));
            if (o == "rphase") search.rphase = true;
            if (o.compare(0, 8, "restart:") == 0) search.restart = o == "restart:never" ? 0 : std::stoi(o.substr(8));
            if (o.compare(0, 4, "mon:") == 0) search.watch.insert(o.substr(4));
            if (o.compare(0, 5, "seed:") == 0) search.seed = std::stoull(o.substr(5));
        }
        mon = std::make_unique<Monitor>();

        std::stringstream in{script}, out, err;
        std::string status = "ok", message;
        auto old = std::cout.rdbuf(out.rdbuf());
        auto old_err = std::cerr.rdbuf(err.rdbuf());
        try
        {
            yaga::parser::Smt2_parser parser;
            parser.set_options(options);
            parser.parse(in, out);
        }
        catch (Capped)
        {
            status = "capped";
        }
        catch (z3::exception& e)
        {
            std::cerr.rdbuf(old_err);
            std::cerr << "z3: " << e.msg() << "\n";
            return 4;
        }
        catch (std::exception& e)
        {
            status = "error";
            message = e.what();
        }
        std::cout.rdbuf(old);
        std::cerr.rdbuf(old_err);
        if (status == "ok" || status == "capped") mon->finish();
        if (options.print_stats && status == "ok" && on("C22")) compare_stats(out.str());

        std::ostringstream rep;
        for (auto& [k, c] : report.counts) rep << "count " << k << " " << c << "\n";
        for (auto& [k, c] : report.tops) rep << "top " << k << " " << c << "\n";
        for (auto h : report.seen_hashes) rep << "seen " << std::hex << h << std::dec << "\n";
        for (auto& [k, d] : report.violations)
        {
            std::string e;
            for (char c : d) e += (c == '\n' ? ' ' : c);
            rep << "viol " << k << "\t" << e << "\n";
        }
        if (!message.empty()) rep << "message " << message << "\n";
        std::string output = out.str(), r = rep.str();
        printf("%s %zu %zu\n", status.c_str(), output.size(), r.size());
        fwrite(output.data(), 1, output.size(), stdout);
        fwrite(r.data(), 1, r.size(), stdout);
        fflush(stdout);
    }
    return 0;
}
