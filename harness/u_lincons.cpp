// C15: random linear constraints against their definitions and canonical forms.
#include <gmpxx.h>
#include <array>
#include "Linear_constraints.h"
#include "Rational.h"
#include "unit.h"

using namespace yaga;
using Cons = Linear_constraint<Rational>;

struct Def
{
    std::vector<int> vars;
    std::vector<mpq_class> coef;
    Order_predicate::Type pred;
    mpq_class rhs;

    bool eval(std::vector<mpq_class> const& x) const
    {
        mpq_class s = 0;
        for (std::size_t i = 0; i < vars.size(); ++i) s += coef[i] * x[vars[i]];
        return pred == Order_predicate::eq ? s == rhs : pred == Order_predicate::lt ? s < rhs : s <= rhs;
    }

    std::string str() const
    {
        std::string s;
        for (std::size_t i = 0; i < vars.size(); ++i) s += (i ? " + " : "") + coef[i].get_str() + "*x" + std::to_string(vars[i]);
        return s + (pred == Order_predicate::eq ? " = " : pred == Order_predicate::lt ? " < " : " <= ") + rhs.get_str();
    }
};

// canonical name of the solution set up to complement, and whether the definition is the complement of the canonical one
static std::pair<std::string, bool> canon(Def const& d)
{
    std::map<int, mpq_class> m;
    for (std::size_t i = 0; i < d.vars.size(); ++i)
    {
        if (d.coef[i] != 0) m[d.vars[i]] = d.coef[i];
    }
    if (m.empty())
    {
        mpq_class z = 0;
        bool t = d.pred == Order_predicate::eq ? z == d.rhs : d.pred == Order_predicate::lt ? z < d.rhs : z <= d.rhs;
        return {"true", !t};
    }
    mpq_class k = m.begin()->second;
    std::string s;
    for (auto& [v, c] : m) s += mpq_class(c / k).get_str() + "*" + std::to_string(v) + " ";
    bool flip = k < 0;
    std::string p = d.pred == Order_predicate::eq ? "=" : (d.pred == Order_predicate::lt) != flip ? "<" : "<=";
    return {s + p + mpq_class(d.rhs / k).get_str(), flip && d.pred != Order_predicate::eq};
}

static Rational rat(mpq_class const& q) { return Rational(q.get_str().c_str()); }
static mpq_class num(Rational const& r)
{
    mpq_class q;
    q.set_str(r.get_str(), 10);
    return q;
}

struct World
{
    Rng g;
    int nv;
    Linear_constraints<Rational> lc;
    std::vector<Def> defs;             // every definition given
    std::vector<Literal> lits;
    std::map<std::string, int> by_key; // canonical form -> Boolean variable
    std::map<int, std::pair<std::string, Def>> of_var;
    Model<Rational> model;
    std::vector<mpq_class> x;
    bool big;

    explicit World(std::uint64_t seed) : g(seed) {}

    mpq_class coefficient()
    {
        int k = g.below(100);
        if (k < 12) return 0;
        if (k < 70 || !big) return g.chance(80) ? mpq_class(g.pick(std::vector<int>{-3, -2, -1, -1, 1, 1, 2, 3})) : mpq_class(g.pick(std::vector<int>{-7, -5, 4, 6}));
        if (k < 85)
        {
            mpq_class q(g.range(-9, 9), g.range(1, 9));
            q.canonicalize();
            return q;
        }
        mpq_class q(mpz_class(std::to_string(g.next() >> g.range(0, 50))), mpz_class(std::to_string((g.next() >> g.range(0, 60)) | 1)));
        if (g.chance(50)) q = -q;
        q.canonicalize();
        return q;
    }

    mpq_class constant()
    {
        if (g.chance(35)) return 0;
        if (g.chance(70)) return g.range(-5, 5);
        return coefficient();
    }

    Order_predicate::Type predicate() { return g.pick(std::vector<Order_predicate::Type>{Order_predicate::eq, Order_predicate::lt, Order_predicate::leq}); }

    Def fresh()
    {
        Def d;
        std::vector<int> vs(nv);
        for (int i = 0; i < nv; ++i) vs[i] = i;
        g.shuffle(vs);
        int n = g.chance(4) ? 0 : g.chance(60) ? g.range(1, std::min(nv, 3)) : g.range(1, nv);
        vs.resize(n);
        d.vars = vs;
        for (int i = 0; i < n; ++i) d.coef.push_back(coefficient());
        d.pred = predicate();
        d.rhs = constant();
        return d;
    }

    Def derived()
    {
        Def d = g.pick(defs);
        int n = static_cast<int>(d.vars.size());
        for (int reps = g.range(1, 3); reps > 0; --reps)
        {
            switch (g.below(11))
            {
            case 0: // multiple
            case 1:
            {
                mpq_class k = g.chance(60) ? mpq_class(g.pick(std::vector<int>{-3, -2, -1, 2, 3})) : coefficient();
                if (k == 0) k = -1;
                for (auto& c : d.coef) c *= k;
                d.rhs *= k;
                // a negative multiple is the mirrored constraint; negate it to get the complement: c.x < r  vs  -c.x <= -r
                if (g.chance(50) && d.pred != Order_predicate::eq)
                    d.pred = d.pred == Order_predicate::lt ? Order_predicate::leq : Order_predicate::lt;
                break;
            }
            case 2: // permutation
            case 3:
                for (int i = n; i > 1; --i)
                {
                    int j = g.below(i);
                    std::swap(d.vars[i - 1], d.vars[j]);
                    std::swap(d.coef[i - 1], d.coef[j]);
                }
                break;
            case 4: // same coefficients on other variables of the same set: equal hash
                g.shuffle(d.coef);
                break;
            case 5: d.pred = predicate(); break;
            case 6: d.rhs = constant(); break;
            case 7:
                if (n) d.coef[g.below(n)] = coefficient();
                break;
            case 8: // exchange the constant and a coefficient: equal hash
                if (n) std::swap(d.rhs, d.coef[g.below(n)]);
                break;
            case 9: // zero coefficients change nothing
                if (n < nv)
                {
                    for (int v = 0; v < nv; ++v)
                    {
                        if (std::find(d.vars.begin(), d.vars.end(), v) == d.vars.end() && g.chance(50))
                        {
                            int p = g.below(static_cast<int>(d.vars.size()) + 1);
                            d.vars.insert(d.vars.begin() + p, v);
                            d.coef.insert(d.coef.begin() + p, mpq_class(0));
                        }
                    }
                    n = static_cast<int>(d.vars.size());
                }
                break;
            default: // other variables
                if (n)
                {
                    std::vector<int> vs(nv);
                    for (int i = 0; i < nv; ++i) vs[i] = i;
                    g.shuffle(vs);
                    vs.resize(n);
                    d.vars = vs;
                }
            }
        }
        return d;
    }

    void point()
    {
        for (int i = 0; i < nv; ++i)
        {
            x[i] = g.chance(70) ? mpq_class(g.range(-4, 4)) : mpq_class(g.range(-12, 12), g.range(1, 6));
            x[i].canonicalize();
            model.set_value(i, rat(x[i]));
        }
    }

    // move x[v] so that the definition holds with equality
    void to_boundary(Def const& d)
    {
        std::vector<int> nz;
        for (std::size_t i = 0; i < d.vars.size(); ++i)
        {
            if (d.coef[i] != 0) nz.push_back(static_cast<int>(i));
        }
        if (nz.empty()) return;
        int k = g.pick(nz);
        mpq_class s = d.rhs;
        for (std::size_t i = 0; i < d.vars.size(); ++i)
        {
            if (static_cast<int>(i) != k) s -= d.coef[i] * x[d.vars[i]];
        }
        x[d.vars[k]] = s / d.coef[k];
        model.set_value(d.vars[k], rat(x[d.vars[k]]));
    }

    void check_points(Def const& d, Cons const& c, char const* when, int points)
    {
        for (int i = 0; i < points; ++i)
        {
            point();
            bool boundary = g.chance(40);
            if (boundary) to_boundary(d);
            bool e = d.eval(x);
            bool neg = (~c).eval(model);
            Cons n = c;
            n.negate();
            EXPECT(c.eval(model) == e, std::string("meaning:") + when, d.str() << " stored as " << c);
            EXPECT(neg == !e && n.eval(model) == !e, std::string("complement:") + when, d.str() << " stored as " << c);
            EXPECT((~c).lit() == ~c.lit() && n.lit() == ~c.lit(), "literal-of-complement", d.str());
            auto ev = yaga::eval(model, c);
            EXPECT(ev.has_value() && *ev == e, std::string("eval:") + when, d.str());
            report.count("points evaluated");
            if (boundary && !c.empty())
            {
                EXPECT(c.is_strict() == !e, "is-strict", d.str() << " stored as " << c);
                EXPECT((~c).is_strict() == e, "is-strict-complement", d.str() << " stored as " << c);
            }
            if (c.empty()) continue;
            // all but the first variable assigned
            int v0 = *c.vars().begin();
            mpq_class c0 = num(*c.coef().begin());
            mpq_class iv = num(c.implied_value(model));
            mpq_class lhs = c0 * x[v0];
            bool p = c.pred() == Order_predicate::eq ? lhs == iv : c.pred() == Order_predicate::lt ? lhs < iv : lhs <= iv;
            EXPECT((p != c.lit().is_negation()) == e, "implied-value", d.str() << " stored as " << c);
            model.clear(v0);
            EXPECT(!yaga::eval(model, c).has_value(), "eval-of-unassigned", d.str());
            EXPECT(num(c.implied_value(model)) == iv, "implied-value-unassigned", d.str());
            model.set_value(v0, rat(x[v0]));
        }
    }

    void check_shape(Def const& d, Cons const& c)
    {
        std::set<int> vs;
        for (auto v : c.vars())
        {
            EXPECT(vs.insert(v).second, "repeated-variable", d.str() << " stored as " << c);
            EXPECT(std::find(d.vars.begin(), d.vars.end(), v) != d.vars.end(), "foreign-variable", d.str() << " stored as " << c);
        }
        for (auto k : c.coef()) EXPECT(k != Rational{0}, "zero-coefficient", d.str() << " stored as " << c);
        EXPECT(static_cast<int>(vs.size()) == c.size(), "size", d.str());
    }

    void add(Def const& d)
    {
        std::vector<Rational> cs;
        for (auto& c : d.coef) cs.push_back(rat(c));
        auto before = lc.size();
        Cons c = lc.make(d.vars, cs, d.pred, rat(d.rhs));
        auto [key, negated] = canon(d);
        int v = c.lit().var().ord();
        report.count("constraints made");
        report.mix(key);
        auto it = by_key.find(key);
        if (it == by_key.end())
        {
            EXPECT(v == static_cast<int>(before) && lc.size() == before + 1, "shared-but-different",
                   d.str() << " got variable " << v << (of_var.count(v) ? " of " + of_var.at(v).second.str() : ""));
            by_key.emplace(key, v);
            of_var.emplace(v, std::pair{key, d});
        }
        else
        {
            EXPECT(v == it->second && lc.size() == before, "equal-but-not-shared",
                   d.str() << " got variable " << v << " instead of " << it->second << " of " << of_var.at(it->second).second.str());
            report.count("constraints shared");
        }
        // polarity: decided by the meaning of the stored constraint
        Cons stored = lc[v];
        EXPECT(stored.lit().var().ord() == v, "stored-variable", d.str());
        check_shape(d, c);
        check_points(d, c, "new", 4);
        if (of_var.count(v) && of_var.at(v).first == key)
        {
            bool n0 = canon(of_var.at(v).second).second;
            // the first definition and this one are equal or complements
            Literal first = lits_of.count(v) ? lits_of.at(v) : c.lit();
            EXPECT((c.lit() == first) == (n0 == negated), "polarity", d.str() << " vs " << of_var.at(v).second.str());
            lits_of.emplace(v, c.lit());
            if (n0 != negated) report.count("complements shared");
        }
        defs.push_back(d);
        lits.push_back(c.lit());
    }
    std::map<int, Literal> lits_of;

    Cons by_literal(Literal l)
    {
        Cons c = lc[l.var().ord()];
        return c.lit() == l ? c : ~c;
    }

    void run(int steps)
    {
        nv = g.range(1, 9);
        big = g.chance(30);
        model.resize(nv);
        x.resize(nv);
        for (int i = 0; i < steps && report.violations.empty(); ++i)
        {
            if (g.chance(8))
            {
                // other Boolean variables in between
                int n = static_cast<int>(lc.size());
                int k = g.range(1, 4);
                lc.resize(n + k);
                for (int j = n; j < n + k; ++j) EXPECT(lc[j].empty(), "not-a-constraint", j);
                EXPECT(lc[n + k].empty() && lc[-1].empty(), "out-of-range", n + k);
                report.count("resizes");
            }
            add(defs.empty() || g.chance(35) ? fresh() : derived());
            if (g.chance(25))
            {
                // what the theory does to stored constraints: reorder variables together with coefficients
                Cons c = lc[g.pick(lits).var().ord()];
                if (c.size() > 1)
                {
                    int a = g.below(c.size()), b = g.below(c.size());
                    std::iter_swap(c.vars().begin() + a, c.vars().begin() + b);
                    std::iter_swap(c.coef().begin() + a, c.coef().begin() + b);
                    report.count("stored constraints reordered");
                }
            }
            if (g.chance(15))
            {
                int k = g.below(static_cast<int>(defs.size()));
                check_points(defs[k], by_literal(lits[k]), "later", 3);
            }
        }
        for (std::size_t k = 0; k < defs.size() && report.violations.empty(); ++k)
        {
            check_points(defs[k], by_literal(lits[k]), "end", 1);
        }
        report.top("constraints in one repository", static_cast<long long>(lc.size()));
        report.seen();
    }
};

int main(int argc, char** argv)
{
    std::uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    int iters = argc > 2 ? atoi(argv[2]) : 10;
    int steps = argc > 3 ? atoi(argv[3]) : 120;
    for (int i = 0; i < iters && report.violations.empty(); ++i)
    {
        World w(seed * 1000003 + i);
        w.run(steps);
        report.count("histories");
    }
    report.print();
}
