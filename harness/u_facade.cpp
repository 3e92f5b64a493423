// C26: random programs against the C++ facade. Arguments: seed iterations
#include <algorithm>
#include <array>
#include <cstring>
#include <optional>
#include <stdexcept>
#include <unordered_map>

#include <gmpxx.h>
#include <z3++.h>

#include "Combined_order.h"
#include "Evsids.h"
#include "First_unassigned.h"
#include "Generalized_vsids.h"
#include "Restart.h"
#include "Term_manager.h"
#include "Term_types.h"
#include "Yaga.h"
#include "unit.h"

using namespace yaga;

static Rational rat(mpq_class const& q) { return Rational(q.get_str().c_str()); }
static mpq_class num(Rational const& r)
{
    mpq_class q;
    q.set_str(r.get_str(), 10);
    q.canonicalize();
    return q;
}

enum Logic { prop, lra_logic, uflra };

struct Cons // a constraint as it was requested
{
    std::vector<int> vars;
    std::vector<mpq_class> coef;
    Order_predicate pred = Order_predicate::leq;
    mpq_class rhs;
    Literal lit;

    bool holds(mpq_class const& lhs) const
    {
        switch (pred)
        {
        case Order_predicate::eq: return lhs == rhs;
        case Order_predicate::lt: return lhs < rhs;
        default: return lhs <= rhs;
        }
    }
    std::string str() const
    {
        std::string s;
        for (std::size_t i = 0; i < vars.size(); ++i) s += (i ? " + " : "") + coef[i].get_str() + "*x" + std::to_string(vars[i]);
        return s + (pred == Order_predicate::eq ? " = " : pred == Order_predicate::lt ? " < " : " <= ") + rhs.get_str();
    }
};

struct App // application of a function
{
    int fn;
    bool boolean;
    std::vector<terms::term_t> args;
    terms::term_t term;
    int ord;
};

struct Growing_restart final : public Restart // restarts often, but less and less so (a fixed short interval may never end)
{
    int interval = 1, left = 1;
    bool should_restart() const override { return left <= 0; }
    void on_learned_clause(Database&, Trail&, Clause const&) override { --left; }
    void on_restart(Database&, Trail&) override
    {
        interval += 1 + interval / 4;
        left = interval;
    }
};

class Program
{
    Rng& g;
    Logic logic_id;
    terms::Term_manager tm;
    std::unordered_map<terms::term_t, int> real_map;
    std::unordered_map<terms::term_t, Literal> bool_map;
    Yaga smt;
    Linear_arithmetic* lra = nullptr;
    Options options;
    std::string log, setting;

    int nb = 0, nr = 0; // created by the user
    std::vector<int> bools, reals;
    std::vector<Literal> lits;
    std::vector<Cons> cons;
    std::vector<Clause> clauses;
    std::vector<App> apps;
    std::vector<terms::term_t> real_terms, bool_terms;
    bool was_unsat = false;

    struct Fn
    {
        std::string name;
        std::vector<bool> boolean_args;
        bool boolean;
    };
    std::vector<Fn> fns;

public:
    Program(Rng& g, Logic l) : g(g), logic_id(l), smt(tm, std::ranges::views::all(real_map), std::ranges::views::all(bool_map)) {}

    void configure()
    {
        options = Options{};
        options.prop_rational = g.chance(40);
        options.deduce_bounds = g.chance(40);
        options.phase = std::vector<Phase>{Phase::positive, Phase::negative, Phase::cache}[g.below(3)];
        smt.set_logic(logic_id == prop ? static_cast<Initializer const&>(logic::propositional) : logic_id == lra_logic ? static_cast<Initializer const&>(logic::qf_lra) : logic::qf_uflra, options);
        lra = nullptr;
        if (auto c = dynamic_cast<Theory_combination*>(smt.solver().theory()))
        {
            for (auto t : c->theories())
            {
                if (auto p = dynamic_cast<Linear_arithmetic*>(t)) lra = p;
            }
        }
        EXPECT((lra == nullptr) == (logic_id == prop), "plugins", "linear arithmetic is missing or unexpected");
        EXPECT(smt.has_uf() == (logic_id == uflra), "plugins", "has_uf() is wrong");
        setting = std::string(logic_id == prop ? "propositional" : logic_id == lra_logic ? "qf_lra" : "qf_uflra");
        setting += options.phase == Phase::positive ? " positive" : options.phase == Phase::negative ? " negative" : " cache";
        if (options.prop_rational) setting += " prop_rational";
        if (options.deduce_bounds) setting += " deduce_bounds";
        auto& s = smt.solver();
        switch (g.below(6))
        {
        case 0: s.set_restart_policy<No_restart>(); setting += " no-restart"; break;
        case 1: s.set_restart_policy<Luby_restart>(); setting += " luby"; break;
        case 2: s.set_restart_policy<Glucose_restart>(); setting += " glucose"; break;
        case 3: {
            int m = g.range(8, 20);
            s.set_restart_policy<Glucose_restart>().set_min_conflicts(m).set_threshold(1.f).set_slow_exp(g.range(2, 13)).set_fast_exp(g.range(1, 5));
            setting += " glucose:" + std::to_string(m);
            break;
        }
        case 4: s.set_restart_policy<Growing_restart>(); setting += " growing-restart"; break;
        default: setting += " default-restart"; break;
        }
        switch (g.below(8))
        {
        case 0: s.set_variable_order<First_unassigned>(); setting += " first"; break;
        case 1:
            if (lra) s.set_variable_order<Generalized_vsids>(*lra);
            else s.set_variable_order<Evsids>();
            setting += " vsids";
            break;
        case 2: {
            auto& c = s.set_variable_order<Combined_order>();
            c.add<Evsids>();
            c.add<First_unassigned>();
            setting += " evsids+first";
            break;
        }
        case 3: {
            auto& c = s.set_variable_order<Combined_order>();
            if (lra) c.add<First_unassigned>(Variable::rational);
            c.add<First_unassigned>(Variable::boolean);
            setting += " first-rational+first-boolean";
            break;
        }
        case 4: {
            auto& c = s.set_variable_order<Combined_order>();
            c.add<First_unassigned>(Variable::boolean);
            if (lra) c.add<Generalized_vsids>(*lra);
            setting += " first-boolean+vsids";
            break;
        }
        case 5: {
            auto& c = s.set_variable_order<Combined_order>();
            c.add<Evsids>();
            if (lra) c.add<Generalized_vsids>(*lra);
            setting += " evsids+vsids";
            break;
        }
        default: setting += " default-order"; break;
        }
        report.count("setting " + setting.substr(setting.rfind(' ') + 1));
        log = setting + "\n";
    }

    // ---- construction

    Literal new_bool()
    {
        Literal l{0};
        if (g.chance(50)) l = smt.make_bool();
        else l = Literal{smt.make(Variable::boolean).ord()};
        EXPECT(std::find(bools.begin(), bools.end(), l.var().ord()) == bools.end(), "fresh", "a new Boolean variable is an old one");
        bools.push_back(l.var().ord());
        lits.push_back(l);
        log += "bool b" + std::to_string(l.var().ord()) + "\n";
        if (logic_id == uflra)
        {
            auto t = tm.mk_uninterpreted_constant(terms::types::bool_type);
            bool_map.insert({t, l});
            bool_terms.push_back(t);
        }
        return l;
    }

    void new_real()
    {
        Variable v = smt.make(Variable::rational);
        EXPECT(v.type() == Variable::rational && std::find(reals.begin(), reals.end(), v.ord()) == reals.end(), "fresh", "a new rational variable is an old one");
        reals.push_back(v.ord());
        log += "real x" + std::to_string(v.ord()) + "\n";
        if (logic_id == uflra)
        {
            auto t = tm.mk_uninterpreted_constant(terms::types::real_type);
            real_map.insert({t, v.ord()});
            real_terms.push_back(t);
        }
    }

    void new_function()
    {
        Fn f;
        f.name = "f" + std::to_string(fns.size());
        f.boolean = g.chance(25);
        int n = g.range(1, 3);
        for (int i = 0; i < n; ++i) f.boolean_args.push_back(g.chance(20));
        auto t = tm.mk_uninterpreted_constant(f.boolean ? terms::types::bool_type : terms::types::real_type);
        tm.set_term_name(t, f.name);
        fns.push_back(f);
    }

    void new_app()
    {
        if (fns.empty()) return;
        int i = g.below(static_cast<int>(fns.size()));
        auto& f = fns[i];
        App a;
        a.fn = i;
        a.boolean = f.boolean;
        for (bool b : f.boolean_args)
        {
            if (b)
            {
                if (bool_terms.empty() || g.chance(10)) a.args.push_back(g.chance(50) ? terms::true_term : terms::false_term);
                else a.args.push_back(g.pick(bool_terms));
            }
            else if (real_terms.empty() || g.chance(10)) a.args.push_back(tm.mk_integer_constant(std::to_string(g.range(0, 2))));
            else a.args.push_back(g.pick(real_terms));
        }
        auto args = a.args;
        a.term = tm.mk_app(f.name, f.boolean ? terms::types::bool_type : terms::types::real_type, args);
        if (std::any_of(apps.begin(), apps.end(), [&](auto& o) { return o.term == a.term; })) return;
        Variable v = smt.make_function_application(f.boolean ? Variable::boolean : Variable::rational, a.term);
        a.ord = v.ord();
        if (f.boolean)
        {
            bool_map.insert({a.term, Literal{v.ord()}});
            bools.push_back(v.ord());
            lits.push_back(Literal{v.ord()});
            bool_terms.push_back(a.term);
        }
        else
        {
            real_map.insert({a.term, v.ord()});
            reals.push_back(v.ord());
            real_terms.push_back(a.term);
        }
        log += std::string(f.boolean ? "b" : "x") + std::to_string(v.ord()) + " := " + f.name + " of " + std::to_string(a.args.size()) + "\n";
        report.count("applications created");
        apps.push_back(a);
    }

    mpq_class coefficient()
    {
        switch (g.below(12))
        {
        case 0: return 0;
        case 1: return mpq_class(g.range(-9, 9), g.range(1, 7));
        case 2: return mpq_class("4294967296") * g.range(-3, 3) + g.range(-2, 2);
        case 3: return mpq_class("12345678901234567891") / g.range(1, 9);
        default: return g.range(-3, 3);
        }
    }

    void new_constraint()
    {
        Cons c;
        auto vs = reals;
        g.shuffle(vs);
        int n = g.chance(6) ? 0 : g.range(1, 4);
        n = std::min<int>(n, static_cast<int>(vs.size()));
        c.vars.assign(vs.begin(), vs.begin() + n);
        for (int i = 0; i < n; ++i)
        {
            c.coef.push_back(coefficient());
            c.coef.back().canonicalize();
        }
        c.pred = std::vector<Order_predicate>{Order_predicate::eq, Order_predicate::lt, Order_predicate::leq}[g.below(3)];
        c.rhs = g.chance(60) ? mpq_class(g.range(-4, 4)) : coefficient();
        c.rhs.canonicalize();
        if (!cons.empty() && g.chance(20)) // a multiple, the complement or a near miss of an old one
        {
            Cons o = g.pick(cons);
            mpq_class k = g.chance(50) ? 2 : g.chance(50) ? -1 : mpq_class(-1, 3);
            c = o;
            for (auto& x : c.coef) x *= k;
            c.rhs *= k;
            if (c.pred != Order_predicate::eq && k < 0 && g.chance(50)) c.pred = c.pred == Order_predicate::lt ? Order_predicate::leq : Order_predicate::lt;
            if (g.chance(20)) c.rhs += 1;
        }
        std::vector<Rational> coef;
        for (auto& x : c.coef) coef.push_back(rat(x));
        c.lit = smt.linear_constraint(c.vars, coef, c.pred, rat(c.rhs));
        log += (c.lit.is_negation() ? "-b" : "b") + std::to_string(c.lit.var().ord()) + " := " + c.str() + "\n";
        report.count("constraints created");
        cons.push_back(c);
        lits.push_back(c.lit);
    }

    void new_clause()
    {
        if (lits.empty()) return;
        Clause c;
        int n = g.chance(15) ? 1 : g.chance(60) ? g.range(2, 3) : g.range(2, 6);
        for (int i = 0; i < n; ++i)
        {
            Literal l = g.pick(lits);
            c.push_back(g.chance(50) ? ~l : l);
        }
        if (n > 2 && g.chance(95))
        {
            std::sort(c.begin(), c.end(), [](auto a, auto b) { return a.var().ord() * 2 + a.is_negation() < b.var().ord() * 2 + b.is_negation(); });
            c.erase(std::unique(c.begin(), c.end()), c.end());
        }
        switch (c.size())
        {
        case 1: g.chance(50) ? smt.assert_clause(c[0]) : smt.assert_clause(c); break;
        case 2: g.chance(50) ? smt.assert_clause(c[0], c[1]) : smt.assert_clause(c); break;
        case 3: g.chance(50) ? smt.assert_clause(c[0], c[1], c[2]) : smt.assert_clause(c); break;
        default: smt.assert_clause(c); break;
        }
        log += "clause";
        for (auto l : c) log += (l.is_negation() ? " -b" : " b") + std::to_string(l.var().ord());
        log += "\n";
        report.count("clauses asserted");
        clauses.push_back(c);
    }

    void misuse()
    {
        report.count("misuses");
        std::vector<int> vars{0};
        std::vector<Rational> coef{Rational(1)};
        std::size_t before = smt.solver().db().asserted().size();
        auto nb_before = smt.solver().trail().model<bool>(Variable::boolean).num_vars();
        if (logic_id != prop)
        {
            int n = static_cast<int>(smt.solver().trail().model<Rational>(Variable::rational).num_vars());
            vars = {g.chance(50) ? n + g.below(3) : -1 - g.below(3)};
            if (n > 0 && g.chance(50))
            {
                vars.push_back(g.below(n));
                coef.push_back(Rational(2));
                if (g.chance(50)) std::swap(vars[0], vars[1]);
            }
        }
        else if (g.chance(40)) // no variable to complain about
        {
            vars.clear();
            coef.clear();
        }
        bool thrown = false;
        try
        {
            smt.linear_constraint(vars, coef, Order_predicate::leq, Rational(1));
        }
        catch (std::logic_error const&)
        {
            thrown = true;
        }
        EXPECT(thrown, "misuse:not-reported", "a constraint over an unknown variable or in a logic without arithmetic was accepted\n" << log);
        EXPECT(smt.solver().db().asserted().size() == before && smt.solver().trail().model<bool>(Variable::boolean).num_vars() == nb_before, "misuse:effect", "misuse changed the solver\n" << log);
    }

    void grow()
    {
        int steps = g.range(4, g.chance(30) ? 60 : 24);
        int limit_b = g.range(2, 9), limit_r = logic_id == prop ? 0 : g.range(1, 6);
        if (bools.empty() && g.chance(90)) new_bool();
        if (logic_id != prop && reals.empty() && g.chance(90)) new_real();
        if (logic_id == uflra && fns.empty())
        {
            int n = g.range(1, 3);
            for (int i = 0; i < n; ++i) new_function();
        }
        for (int i = 0; i < steps; ++i)
        {
            int k = g.below(100);
            if (k < 12)
            {
                if (static_cast<int>(bools.size()) < limit_b) new_bool();
            }
            else if (k < 22)
            {
                if (static_cast<int>(reals.size()) < limit_r) new_real();
            }
            else if (k < 32)
            {
                if (logic_id == uflra && apps.size() < 7) new_app();
            }
            else if (k < 55)
            {
                if (logic_id != prop) new_constraint();
            }
            else if (k < 58) misuse();
            else new_clause();
        }
    }

    // ---- oracle

    std::optional<std::string> z3_model;

    z3::check_result reference()
    {
        z3::context z;
        std::unordered_map<int, z3::expr> b, x;
        auto bv = [&](int v) { return b.try_emplace(v, z.bool_const(("b" + std::to_string(v)).c_str())).first->second; };
        auto xv = [&](int v) { return x.try_emplace(v, z.real_const(("x" + std::to_string(v)).c_str())).first->second; };
        auto lit = [&](Literal l) {
            z3::expr e = bv(l.var().ord());
            return l.is_negation() ? !e : e;
        };
        z3::solver s(z);
        z3::params p(z);
        p.set("rlimit", 20000000u);
        s.set(p);
        for (auto& c : cons)
        {
            z3::expr lhs = z.real_val(0);
            for (std::size_t i = 0; i < c.vars.size(); ++i) lhs = lhs + z.real_val(c.coef[i].get_str().c_str()) * xv(c.vars[i]);
            z3::expr rhs = z.real_val(c.rhs.get_str().c_str());
            z3::expr e = c.pred == Order_predicate::eq ? lhs == rhs : c.pred == Order_predicate::lt ? lhs < rhs : lhs <= rhs;
            s.add(lit(c.lit) == e);
        }
        for (auto& c : clauses)
        {
            z3::expr_vector v(z);
            for (auto l : c) v.push_back(lit(l));
            s.add(z3::mk_or(v));
        }
        for (auto& a : apps)
        {
            z3::sort_vector sorts(z);
            z3::expr_vector args(z);
            for (std::size_t i = 0; i < a.args.size(); ++i)
            {
                bool bo = fns[a.fn].boolean_args[i];
                sorts.push_back(bo ? z.bool_sort() : z.real_sort());
                auto t = a.args[i];
                if (t == terms::true_term || t == terms::false_term) args.push_back(z.bool_val(t == terms::true_term));
                else if (bo) args.push_back(lit(bool_map.at(t)));
                else if (real_map.contains(t)) args.push_back(xv(real_map.at(t)));
                else args.push_back(z.real_val(num(tm.arithmetic_constant_value(t)).get_str().c_str()));
            }
            auto f = z.function(fns[a.fn].name.c_str(), sorts, a.boolean ? z.bool_sort() : z.real_sort());
            s.add((a.boolean ? bv(a.ord) : xv(a.ord)) == f(args));
        }
        report.count("z3 queries");
        return s.check();
    }

    void check()
    {
        if (getenv("TRACE"))
        {
            FILE* f = fopen(getenv("TRACE"), "w");
            fputs(log.c_str(), f);
            fclose(f);
        }
        auto result = smt.solver().check();
        log += "check\n";
        report.count("checks");
        report.mix(log);
        report.seen();
        auto& trail = smt.solver().trail();
        if (result == Solver::Result::sat)
        {
            report.count("answers sat");
            auto& bm = trail.model<bool>(Variable::boolean);
            for (int v : bools) EXPECT(v < static_cast<int>(bm.num_vars()) && bm.is_defined(v), "no-value", "b" << v << " has no value after sat\n" << log);
            if (logic_id != prop)
            {
                auto& rm = trail.model<Rational>(Variable::rational);
                for (int v : reals) EXPECT(v < static_cast<int>(rm.num_vars()) && rm.is_defined(v), "no-value", "x" << v << " has no value after sat\n" << log);
            }
            if (!report.violations.empty()) return;
            for (auto& c : clauses)
            {
                bool t = std::any_of(c.begin(), c.end(), [&](Literal l) { return bm.is_defined(l.var().ord()) && bm.value(l.var().ord()) == !l.is_negation(); });
                report.count("clauses evaluated");
                EXPECT(t, "clause-false", "a clause is not true after sat\n" << log);
            }
            for (auto& c : cons)
            {
                auto& rm = trail.model<Rational>(Variable::rational);
                mpq_class lhs = 0;
                for (std::size_t i = 0; i < c.vars.size(); ++i) lhs += c.coef[i] * num(rm.value(c.vars[i]));
                report.count("constraints evaluated");
                int o = c.lit.var().ord();
                EXPECT(bm.is_defined(o), "no-value", "the literal of " << c.str() << " has no value\n" << log);
                if (bm.is_defined(o)) EXPECT((bm.value(o) == !c.lit.is_negation()) == c.holds(lhs), "constraint-value", "the literal of " << c.str() << " has another value than the constraint\n" << log);
            }
            std::map<std::string, std::string> table;
            auto text = [&](terms::term_t t, bool bo) -> std::string {
                if (t == terms::true_term) return "true";
                if (t == terms::false_term) return "false";
                if (bo)
                {
                    Literal l = bool_map.at(t);
                    return (bm.value(l.var().ord()) != l.is_negation()) ? "true" : "false";
                }
                if (real_map.contains(t)) return trail.model<Rational>(Variable::rational).value(real_map.at(t)).get_str();
                return num(tm.arithmetic_constant_value(t)).get_str();
            };
            for (auto& a : apps)
            {
                std::string k = fns[a.fn].name;
                for (std::size_t i = 0; i < a.args.size(); ++i) k += "," + text(a.args[i], fns[a.fn].boolean_args[i]);
                std::string v = text(a.term, a.boolean);
                auto [it, fresh] = table.try_emplace(k, v);
                report.count("applications evaluated");
                EXPECT(it->second == v, "not-a-function", k << " is " << v << " and " << it->second << "\n" << log);
            }
            EXPECT(!was_unsat, "sat-after-unsat", "sat after unsat with more clauses\n" << log);
        }
        else
        {
            report.count("answers unsat");
            was_unsat = true;
            auto r = reference();
            if (r == z3::unknown) report.count("z3 gave no answer");
            EXPECT(r != z3::sat, "wrong-unsat", "unsat for satisfiable clauses\n" << log);
        }
    }

    void run()
    {
        int rounds = g.chance(60) ? 1 : g.range(2, 4);
        int logics = g.chance(15) ? 2 : 1;
        for (int k = 0; k < logics && report.violations.empty(); ++k)
        {
            if (k > 0) // start again, perhaps in another logic
            {
                report.count("solvers initialized again");
                real_map.clear();
                bool_map.clear();
                bools.clear();
                reals.clear();
                lits.clear();
                cons.clear();
                clauses.clear();
                apps.clear();
                real_terms.clear();
                bool_terms.clear();
                was_unsat = false;
                smt.init();
                logic_id = static_cast<Logic>(g.below(3));
            }
            configure();
            for (int i = 0; i < rounds && report.violations.empty(); ++i)
            {
                grow();
                check();
                if (g.chance(10)) check();
            }
        }
    }
};

int main(int argc, char** argv)
{
    std::uint64_t seed = std::strtoull(argv[1], nullptr, 10);
    int iters = argc > 2 ? std::atoi(argv[2]) : 10;
    Rng g(seed);
    for (int i = 0; i < iters && report.violations.empty(); ++i)
    {
        int k = g.below(10);
        Program p(g, k < 2 ? prop : k < 6 ? lra_logic : uflra);
        p.run();
        report.count("programs");
    }
    report.print();
    return 0;
}
