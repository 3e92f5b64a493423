// C07: every built term means the operator applied to the meanings of its arguments (under random assignments).
// C09: shadow record of every term and of every construction; replays, permutations, negations.
#include <array>
#include <ctime>
#include <functional>
#include <gmpxx.h>
#include <memory>
#include <unordered_map>

#include "Term_manager.h"
#include "Term_rewriter.h"
#include "Terms.h"
#include "unit.h"

using namespace yaga;
using namespace yaga::terms;

static constexpr int K = 5; // assignments

static mpq_class to_mpq(Rational const& r)
{
    mpq_class q;
    q.set_str(r.get_str(), 10);
    return q;
}

// Real value, or 0/1 for Booleans
using Val = std::array<mpq_class, K>;

struct Shadow
{
    Kind kind;
    type_t type;
    std::vector<term_t> args;
    mpq_class constant;
    term_t fun{-1};
};

struct Call
{
    std::string op;
    std::vector<term_t> args;
    std::string text;
    term_t result;
};

struct World
{
    Rng g;
    Term_manager tm;
    std::vector<term_t> reals, bools;               // pools
    std::vector<term_t> vars;                       // declared constants
    struct Fun { std::string name; term_t sym; std::vector<type_t> args; type_t ret; };
    std::vector<Fun> funs;
    std::unordered_map<int32_t, Val> memo;          // structural value of positive terms
    std::unordered_map<int32_t, Shadow> shadow;     // by index
    std::map<std::string, int32_t> canon;           // structure -> index
    std::vector<Call> calls;
    std::map<std::string, term_t> names;
    bool meaning, unique;

    World(std::uint64_t seed, bool m, bool u) : g(seed), meaning(m), unique(u) {}

    static mpq_class app_value(int32_t fun, type_t ret, std::vector<mpq_class> const& args)
    {
        std::uint64_t h = 88172645463325252ull + fun * 77u;
        for (auto& a : args)
        {
            for (unsigned char c : a.get_str()) h = (h ^ c) * 1099511628211ull;
            h ^= h >> 31;
            h *= 0x9E3779B97F4A7C15ull;
        }
        h ^= h >> 33;
        return ret == types::bool_type ? mpq_class(static_cast<long>(h & 1)) : mpq_class(static_cast<long>(h % 7) - 3);
    }

    Val value(term_t t)
    {
        Val v = positive_value(terms::positive_term(t));
        if (terms::is_negated(t))
        {
            for (auto& x : v) x = 1 - x;
        }
        return v;
    }

    Val const& positive_value(term_t t)
    {
        auto it = memo.find(terms::index_of(t));
        if (it != memo.end()) return it->second;
        Val res;
        auto kind = tm.get_kind(t);
        std::vector<term_t> args;
        if (kind != Kind::RESERVED_TERM)
        {
            auto sp = tm.get_args(t);
            args.assign(sp.begin(), sp.end());
        }
        std::vector<Val> vs;
        if (kind != Kind::ARITH_PRODUCT)
        {
            for (auto a : args) vs.push_back(value(a));
        }
        for (int k = 0; k < K; ++k)
        {
            switch (kind)
            {
            case Kind::CONSTANT_TERM: res[k] = 1; break; // only true exists positively
            case Kind::ARITH_CONSTANT: res[k] = to_mpq(tm.arithmetic_constant_value(t)); break;
            case Kind::ITE_TERM: res[k] = vs[0][k] != 0 ? vs[1][k] : vs[2][k]; break;
            case Kind::APP_TERM:
            {
                std::vector<mpq_class> a;
                for (auto& v : vs) a.push_back(v[k]);
                res[k] = app_value(terms::index_of(tm.get_fnc_symbol(t)), tm.get_type(t), a);
                break;
            }
            case Kind::OR_TERM:
            {
                res[k] = 0;
                for (auto& v : vs)
                {
                    if (v[k] != 0) res[k] = 1;
                }
                break;
            }
            case Kind::XOR_TERM:
            {
                long x = 0;
                for (auto& v : vs) x ^= (v[k] != 0);
                res[k] = x;
                break;
            }
            case Kind::EQ_TERM: res[k] = vs[0][k] == vs[1][k] ? 1 : 0; break;
            case Kind::ARITH_EQ_ATOM: res[k] = vs[0][k] == 0 ? 1 : 0; break;
            case Kind::ARITH_GE_ATOM: res[k] = vs[0][k] >= 0 ? 1 : 0; break;
            case Kind::ARITH_BINEQ_ATOM: res[k] = vs[0][k] == vs[1][k] ? 1 : 0; break;
            case Kind::ARITH_PRODUCT:
                res[k] = to_mpq(tm.coeff_of_product(t)) * value(tm.var_of_product(t))[k];
                break;
            case Kind::ARITH_POLY:
                res[k] = 0;
                for (auto& v : vs) res[k] += v[k];
                break;
            default:
                report.violation("kind-without-meaning", std::to_string(static_cast<int>(kind)));
                res[k] = 0;
            }
        }
        return memo.emplace(terms::index_of(t), res).first->second;
    }

    std::string str(term_t t) { return (terms::is_negated(t) ? "~" : "") + std::to_string(terms::index_of(t)); }
    std::string str(std::string const& op, std::vector<term_t> const& args)
    {
        std::string s = "(" + op;
        for (auto a : args) s += " " + str(a);
        return s + ")";
    }

    Shadow snapshot(term_t t)
    {
        Shadow s{tm.get_kind(t), tm.get_type(t), {}, 0, {-1}};
        auto sp = tm.get_args(t);
        s.args.assign(sp.begin(), sp.end());
        if (s.kind == Kind::ARITH_CONSTANT) s.constant = to_mpq(tm.arithmetic_constant_value(t));
        if (s.kind == Kind::APP_TERM) s.fun = tm.get_fnc_symbol(t);
        return s;
    }

    void record(term_t t) // shadow of a term and all its subterms
    {
        std::vector<term_t> stack{terms::positive_term(t)};
        while (!stack.empty())
        {
            term_t u = stack.back();
            stack.pop_back();
            if (shadow.count(terms::index_of(u))) continue;
            Shadow s = snapshot(u);
            for (auto a : s.args) stack.push_back(terms::positive_term(a));
            if (s.kind != Kind::UNINTERPRETED_TERM)
            {
                std::ostringstream key;
                key << static_cast<int>(s.kind) << ' ' << s.type << ' ' << s.fun.x << ' ' << s.constant;
                for (auto a : s.args) key << ' ' << a.x;
                auto [it, fresh] = canon.try_emplace(key.str(), terms::index_of(u));
                EXPECT(fresh || it->second == terms::index_of(u), "two-terms-with-one-structure",
                       key.str() << ": " << it->second << " and " << terms::index_of(u));
            }
            report.count("terms recorded");
            shadow.emplace(terms::index_of(u), std::move(s));
        }
    }

    void recheck(int32_t idx, Shadow const& s)
    {
        term_t t = terms::positive_term(idx);
        Shadow n = snapshot(t);
        EXPECT(n.kind == s.kind && n.type == s.type && n.args == s.args && n.constant == s.constant && n.fun == s.fun,
               "term-changed", "term " << idx);
        EXPECT(tm.get_kind(terms::opposite_term(t)) == s.kind && tm.get_type(terms::opposite_term(t)) == s.type,
               "negation-changed", "term " << idx);
    }

    term_t build(std::string const& op, std::vector<term_t> args)
    {
        if (op == "=2") return tm.mk_binary_eq(args[0], args[1]);
        if (op == "eq-span") return tm.mk_eq(args);
        if (op == "or2") return tm.mk_binary_or(args[0], args[1]);
        if (op == "and2") return tm.mk_binary_and(args[0], args[1]);
        if (op == "implies2") return tm.mk_implies(args[0], args[1]);
        if (op == "iff2") return tm.mk_iff(args[0], args[1]);
        if (op == "xor2") return tm.mk_xor(args[0], args[1]);
        if (op == "or*") return tm.mk_or(args);
        if (op == "and*") return tm.mk_and(args);
        if (op == "plus*") return tm.mk_arithmetic_plus(args);
        if (op == "times*") return tm.mk_arithmetic_times(args);
        if (op == "minus2") return tm.mk_arithmetic_minus(args[0], args[1]);
        if (op == "divides2") return tm.mk_divides(args[0], args[1]);
        if (op == "ite3") return tm.mk_ite(args[0], args[1], args[2]);
        if (op[0] == '@') return tm.mk_app(op.substr(1), fun(op.substr(1)).ret, args);
        return tm.mk_term(op, args, true);
    }

    Fun const& fun(std::string const& n)
    {
        for (auto& f : funs)
        {
            if (f.name == n) return f;
        }
        abort();
    }

    // reference semantics: value of the operator applied to the values of the arguments
    Val reference(std::string const& op, std::vector<term_t> const& args)
    {
        std::vector<Val> vs;
        for (auto a : args) vs.push_back(value(a));
        Val res;
        for (int k = 0; k < K; ++k)
        {
            auto a = [&](std::size_t i) -> mpq_class const& { return vs[i][k]; };
            auto all = [&](auto f) {
                for (std::size_t i = 0; i + 1 < vs.size(); ++i)
                {
                    if (!f(a(i), a(i + 1))) return mpq_class(0);
                }
                return mpq_class(1);
            };
            mpq_class r;
            if (op == "or" || op == "or2" || op == "or*") { r = 0; for (std::size_t i = 0; i < vs.size(); ++i) if (a(i) != 0) r = 1; }
            else if (op == "and" || op == "and2" || op == "and*") { r = 1; for (std::size_t i = 0; i < vs.size(); ++i) if (a(i) == 0) r = 0; }
            else if (op == "not") r = 1 - a(0);
            else if (op == "=>" || op == "implies2")
            {
                r = a(vs.size() - 1);
                for (std::size_t i = vs.size() - 1; i > 0; --i) r = (a(i - 1) == 0 || r != 0) ? 1 : 0;
            }
            else if (op == "xor" || op == "xor2") { long x = 0; for (std::size_t i = 0; i < vs.size(); ++i) x ^= (a(i) != 0); r = x; }
            else if (op == "=" || op == "=2" || op == "iff2" || op == "eq-span") r = all([](auto& x, auto& y) { return x == y; });
            else if (op == "distinct")
            {
                r = 1;
                for (std::size_t i = 0; i < vs.size(); ++i)
                    for (std::size_t j = i + 1; j < vs.size(); ++j)
                        if (a(i) == a(j)) r = 0;
            }
            else if (op == "<") r = all([](auto& x, auto& y) { return x < y; });
            else if (op == "<=") r = all([](auto& x, auto& y) { return x <= y; });
            else if (op == ">") r = all([](auto& x, auto& y) { return x > y; });
            else if (op == ">=") r = all([](auto& x, auto& y) { return x >= y; });
            else if (op == "+" || op == "plus*") { r = 0; for (std::size_t i = 0; i < vs.size(); ++i) r += a(i); }
            else if (op == "-" || op == "minus2")
            {
                r = a(0);
                if (vs.size() == 1) r = -r;
                for (std::size_t i = 1; i < vs.size(); ++i) r -= a(i);
            }
            else if (op == "*" || op == "times*") { r = 1; for (std::size_t i = 0; i < vs.size(); ++i) r *= a(i); }
            else if (op == "/" || op == "divides2") { r = a(0); for (std::size_t i = 1; i < vs.size(); ++i) r /= a(i); }
            else if (op == "ite" || op == "ite3") r = a(0) != 0 ? a(1) : a(2);
            else if (op[0] == '@')
            {
                std::vector<mpq_class> as;
                for (std::size_t i = 0; i < vs.size(); ++i) as.push_back(a(i));
                r = app_value(terms::index_of(fun(op.substr(1)).sym), fun(op.substr(1)).ret, as);
            }
            else abort();
            res[k] = r;
        }
        return res;
    }

    static type_t sort_of(std::string const& op, std::vector<term_t> const& args, Term_manager& tm, World& w)
    {
        if (op == "+" || op == "-" || op == "*" || op == "/" || op == "plus*" || op == "times*" || op == "minus2" || op == "divides2")
            return types::real_type;
        if (op == "ite" || op == "ite3") return tm.get_type(args[1]);
        if (op[0] == '@') return w.fun(op.substr(1)).ret;
        return types::bool_type;
    }

    mpq_class random_value()
    {
        switch (g.below(6))
        {
        case 0: return 0;
        case 1: return 1;
        case 2: return mpq_class(g.range(-9, 9));
        case 3: { mpq_class q(g.range(-9, 9), g.range(1, 7)); q.canonicalize(); return q; }
        case 4: { mpq_class q(mpz_class(std::to_string(g.next() >> 1)), g.range(1, 9)); q.canonicalize(); return g.chance(50) ? q : mpq_class(-q); }
        default: return mpq_class(g.range(-2, 2));
        }
    }

    void add(term_t t)
    {
        auto& pool = tm.get_type(t) == types::bool_type ? bools : reals;
        if (pool.size() < 60) pool.push_back(t);
        else pool[g.below(60)] = t;
        if (unique) record(t);
    }

    void declare(type_t type)
    {
        term_t v = tm.mk_uninterpreted_constant(type);
        for (auto u : vars) EXPECT(terms::index_of(u) != terms::index_of(v), "constant-not-fresh", str(v));
        EXPECT(tm.get_type(v) == type && tm.get_kind(v) == Kind::UNINTERPRETED_TERM, "constant-kind", str(v));
        EXPECT(!terms::is_negated(v), "constant-negated", str(v));
        Val val;
        for (auto& x : val) x = type == types::bool_type ? mpq_class(g.below(2)) : random_value();
        memo.emplace(terms::index_of(v), val);
        std::string name = "v" + std::to_string(vars.size()) + (g.chance(10) ? std::string(40, 'x') : "");
        tm.set_term_name(v, name);
        names.emplace(name, v);
        vars.push_back(v);
        add(v);
    }

    term_t constant()
    {
        // through the parsing entry points
        std::string s;
        mpq_class q;
        if (g.chance(50))
        {
            mpz_class z = g.chance(60) ? mpz_class(g.range(0, 12)) : mpz_class(std::to_string(g.next() >> g.range(0, 60)));
            if (g.chance(8)) z = z * z * z;
            s = std::string(g.chance(10) ? g.range(1, 3) : 0, '0') + z.get_str();
            q = z;
            term_t t = g.chance(50) ? tm.mk_integer_constant(s) : tm.mk_rational_constant(s);
            return finish_constant(t, s, q);
        }
        mpz_class ip = g.chance(70) ? mpz_class(g.range(0, 12)) : mpz_class(std::to_string(g.next() >> g.range(0, 60)));
        int digits = g.chance(10) ? g.range(10, 30) : g.range(1, 5);
        std::string f;
        for (int i = 0; i < digits; ++i) f += static_cast<char>('0' + (g.chance(40) ? 0 : g.below(10)));
        s = ip.get_str() + "." + f;
        mpz_class p;
        mpz_ui_pow_ui(p.get_mpz_t(), 10, digits);
        q = mpq_class(ip) + mpq_class(mpz_class(f, 10), p);
        q.canonicalize();
        mpq_class frac(mpz_class(f, 10), p);
        frac.canonicalize();
        q = mpq_class(ip) + frac;
        return finish_constant(tm.mk_rational_constant(s), s, q);
    }

    term_t finish_constant(term_t t, std::string const& s, mpq_class const& q)
    {
        EXPECT(tm.is_arithmetic_constant(t) && tm.get_type(t) == types::real_type, "constant-kind", s);
        if (tm.is_arithmetic_constant(t))
        {
            EXPECT(to_mpq(tm.arithmetic_constant_value(t)) == q, "constant-value", s << " is " << to_mpq(tm.arithmetic_constant_value(t)));
        }
        auto [it, fresh] = constants.try_emplace(q.get_str(), t);
        EXPECT(it->second == t, "constant-not-unique", s);
        report.count("constants");
        return t;
    }
    std::map<std::string, term_t> constants;

    term_t any_constant()
    {
        term_t t = constant();
        if (!g.chance(35) || !tm.is_arithmetic_constant(t)) return t;
        mpq_class q = to_mpq(tm.arithmetic_constant_value(t));
        return finish_constant(tm.mk_unary_minus(t), "-" + q.get_str(), mpq_class(-q));
    }

    std::vector<term_t> choose(type_t type, int n)
    {
        std::vector<term_t> r;
        for (int i = 0; i < n; ++i)
        {
            if (type == types::real_type)
            {
                if (g.chance(20)) r.push_back(any_constant());
                else r.push_back(g.pick(reals));
            }
            else
            {
                term_t t = g.chance(5) ? (g.chance(50) ? true_term : false_term) : g.pick(bools);
                if (g.chance(35)) t = terms::opposite_term(t);
                r.push_back(t);
            }
        }
        if (n >= 2 && g.chance(15)) r[g.below(n)] = r[g.below(n)];                              // repetition
        if (n >= 2 && type == types::bool_type && g.chance(12)) r[g.below(n)] = terms::opposite_term(r[g.below(n)]);
        return r;
    }

    // equality between polynomials is not normalised
    bool simple_equality(std::vector<term_t> const& args)
    {
        auto simple = [&](term_t t) {
            auto k = tm.get_kind(t);
            return tm.get_type(t) == types::bool_type || k == Kind::ARITH_CONSTANT || k == Kind::UNINTERPRETED_TERM;
        };
        return simple(args[0]) && simple(args[1]);
    }

    void step()
    {
        static std::vector<std::string> const bool_ops{"or", "and", "or2", "and2", "=>", "implies2", "xor", "xor2", "=", "iff2", "=2", "eq-span", "not", "ite", "ite3", "distinct", "or*", "and*"};
        static std::vector<std::string> const arith_ops{"+", "plus*", "-", "minus2", "*", "times*", "/", "divides2", "ite", "ite3", "+", "-"};
        static std::vector<std::string> const atom_ops{"<", "<=", ">", ">=", "=", "=2", "eq-span", "distinct", "<="};
        int what = g.below(100);
        std::string op;
        std::vector<term_t> args;
        if (what < 4) { declare(g.chance(50) ? types::bool_type : types::real_type); return; }
        if (what < 40)
        {
            op = g.pick(arith_ops);
            if (op == "+" || op == "plus*") args = choose(types::real_type, g.chance(5) ? 0 : g.range(1, g.chance(8) ? 24 : 6));
            else if (op == "-") args = choose(types::real_type, g.range(1, 4));
            else if (op == "minus2") args = choose(types::real_type, 2);
            else if (op == "*" || op == "times*")
            {
                int n = g.range(1, g.chance(12) ? 8 : 4);
                for (int i = 0; i < n; ++i) args.push_back(any_constant());
                if (g.chance(85)) args[g.below(n)] = g.pick(reals);
            }
            else if (op == "/" || op == "divides2")
            {
                args.push_back(g.pick(reals));
                int n = op == "/" ? g.range(1, 3) : 1;
                for (int i = 0; i < n; ++i)
                {
                    term_t c = any_constant();
                    while (c == zero_term) c = any_constant();
                    args.push_back(c);
                }
            }
            else
            {
                args = choose(types::bool_type, 1);
                auto b = choose(types::real_type, 2);
                args.insert(args.end(), b.begin(), b.end());
            }
        }
        else if (what < 62)
        {
            op = g.pick(atom_ops);
            bool two = op == "=2" || op == "eq-span" || g.chance(75);
            args = choose(types::real_type, two ? 2 : g.range(3, g.chance(10) ? 6 : 4));
            if (g.chance(15)) // a scaled copy on the other side
            {
                std::vector<term_t> m{any_constant(), args[0]};
                args[1] = tm.mk_arithmetic_times(m);
            }
        }
        else if (what < 92 || funs.empty())
        {
            op = g.pick(bool_ops);
            if (op == "not") args = choose(types::bool_type, 1);
            else if (op == "ite" || op == "ite3") args = choose(types::bool_type, 3);
            else if (op.back() == '2' || op == "eq-span") args = choose(types::bool_type, 2);
            else if (op == "or" || op == "and" || op == "or*" || op == "and*") args = choose(types::bool_type, g.chance(5) ? g.range(0, 1) : g.range(2, g.chance(8) ? 24 : 7));
            else args = choose(types::bool_type, g.range(2, 4));
        }
        else
        {
            auto& f = g.pick(funs);
            op = "@" + f.name;
            for (auto t : f.args) args.push_back(choose(t, 1)[0]);
        }
        if (g.chance(6)) // the branches of a conditional repeat its condition
        {
            if ((op == "ite" || op == "ite3") && tm.get_type(args[1]) == types::bool_type)
            {
                args[g.range(1, 2)] = g.chance(50) ? args[0] : terms::opposite_term(args[0]);
                if (g.chance(30)) args[2] = terms::opposite_term(args[1]);
            }
        }
        apply(op, args);
    }

    term_t apply(std::string const& op, std::vector<term_t> const& args)
    {
        std::string text = str(op, args);
        term_t t;
        try
        {
            t = build(op, args);
        }
        catch (std::exception& e)
        {
            report.violation("rejected:" + op, text + ": " + e.what());
            return true_term;
        }
        report.count("constructions");
        type_t sort = sort_of(op, args, tm, *this);
        EXPECT(tm.get_type(t) == sort, "sort:" + op, text);
        EXPECT(sort == types::bool_type || !terms::is_negated(t), "negated-real:" + op, text);
        report.mix(op);
        for (auto a : args) report.mix(static_cast<std::uint64_t>(static_cast<int>(tm.get_kind(a))) * 4 + terms::is_negated(a));
        report.mix(static_cast<std::uint64_t>(terms::index_of(t)));
        report.seen();
        if (meaning)
        {
            Val expected = reference(op, args);
            Val got = value(t);
            EXPECT(expected == got, "meaning:" + op, text << " = " << str(t));
            report.count("values compared", K);
        }
        if (unique)
        {
            if (calls.size() < 4000) calls.push_back({op, args, text, t});
            else calls[g.below(4000)] = {op, args, text, t};
            EXPECT(build(op, args) == t, "repeated-construction:" + op, text);
            if (op == "or" || op == "and" || op == "+" || op == "or*" || op == "and*" || op == "plus*" || op == "or2" || op == "and2" ||
                ((op == "=" || op == "=2" || op == "iff2" || op == "eq-span") && args.size() == 2 && simple_equality(args)))
            {
                auto sorted = args;
                std::sort(sorted.begin(), sorted.end(), [](term_t a, term_t b) { return a.x < b.x; });
                for (int k = 0; k < 3; ++k)
                {
                    // one exchange, a random order, an ordered or reversed list of which a part is out of order
                    auto p = k < 2 ? args : sorted;
                    auto n = static_cast<int>(p.size());
                    if (n == 2) { if (k == 0) std::swap(p[0], p[1]); }
                    else if (k == 0 && n > 0) std::swap(p[g.below(n)], p[g.below(n)]);
                    else if (k == 1) g.shuffle(p);
                    else if (n > 0)
                    {
                        if (g.chance(40)) std::reverse(p.begin(), p.end());
                        int from = g.below(n);
                        std::vector<term_t> part(p.begin() + from, p.end());
                        g.shuffle(part);
                        std::copy(part.begin(), part.end(), p.begin() + from);
                        if (g.chance(50)) std::rotate(p.begin(), p.begin() + g.below(n), p.end());
                    }
                    EXPECT(build(op, p) == t, "commuted:" + op, text << " and " << str(op, p));
                    report.count("commuted constructions");
                }
            }
            EXPECT(terms::opposite_term(terms::opposite_term(t)) == t, "double-negation", text);
            EXPECT(terms::opposite_term(t) != t, "equal-to-negation", text);
            if (sort == types::bool_type)
            {
                std::vector<term_t> n{t};
                term_t neg = tm.mk_term("not", n, true);
                std::vector<term_t> nn{neg};
                EXPECT(neg != t && tm.mk_term("not", nn, true) == t && neg == terms::opposite_term(t), "not-involution", text);
                EXPECT(tm.positive_term(t) == tm.positive_term(neg) && tm.is_negated(t) != tm.is_negated(neg), "polarity", text);
            }
        }
        add(t);
        return t;
    }

    void substitution()
    {
        // simultaneous substitution: value of the result = value of the term with the variables' values replaced
        std::unordered_map<term_t, term_t> map;
        std::unordered_map<int32_t, Val> saved;
        int n = g.range(1, 4);
        for (int i = 0; i < n; ++i)
        {
            term_t v = g.pick(vars);
            type_t ty = tm.get_type(v);
            map[v] = choose(ty, 1)[0];
        }
        term_t t = g.chance(60) ? g.pick(bools) : g.pick(reals);
        if (g.chance(30) && tm.get_type(t) == types::bool_type) t = terms::opposite_term(t);
        term_t r;
        try
        {
            r = simultaneous_variable_substitution(tm, map, t);
        }
        catch (std::logic_error&)
        {
            return; // e.g. a product which became nonlinear cannot arise, but guard anyway
        }
        Val got = value(r);
        std::vector<std::pair<term_t, Val>> newvals;
        for (auto& [v, u] : map) newvals.emplace_back(v, value(u));
        auto memo_old = std::move(memo);
        memo.clear();
        for (auto v : vars) memo.emplace(terms::index_of(v), memo_old.at(terms::index_of(v)));
        for (auto& [v, x] : newvals) memo[terms::index_of(v)] = x;
        Val expected = value(t);
        memo = std::move(memo_old);
        EXPECT(expected == got, "meaning:substitution", str(t));
        EXPECT(tm.get_type(r) == tm.get_type(t), "sort:substitution", str(t));
        EXPECT(simultaneous_variable_substitution(tm, map, t) == r, "repeated-substitution", str(t));
        report.count("substitutions");
        add(r);
    }

    void check_names()
    {
        for (auto& [n, t] : names)
        {
            auto u = tm.get_term_by_name(n);
            EXPECT(u.has_value() && *u == t, "name-lost", n);
            auto m = tm.get_term_name(t);
            EXPECT(m.has_value() && *m == n, "name-of-term", n);
        }
    }

    void run(int steps)
    {
        for (int i = 0; i < g.range(2, 5); ++i) declare(types::real_type);
        for (int i = 0; i < g.range(2, 5); ++i) declare(types::bool_type);
        declare(types::real_type);
        declare(types::bool_type);
        for (int i = 0; i < g.below(4); ++i)
        {
            Fun f;
            f.name = "f" + std::to_string(i);
            f.ret = g.chance(60) ? types::real_type : types::bool_type;
            int n = g.range(1, 3);
            for (int k = 0; k < n; ++k) f.args.push_back(g.chance(75) ? types::real_type : types::bool_type);
            f.sym = tm.mk_uninterpreted_constant(f.ret);
            Val z;
            memo.emplace(terms::index_of(f.sym), z);
            tm.set_term_name(f.sym, f.name);
            names.emplace(f.name, f.sym);
            funs.push_back(f);
        }
        // a few histories build ever larger terms: stop early rather than run out of time or memory
        auto limit = std::clock() + 90 * CLOCKS_PER_SEC;
        for (int i = 0; i < steps && report.violations.empty() && std::clock() < limit; ++i)
        {
            step();
            if (meaning && g.chance(6)) substitution();
            if (unique && g.chance(20) && !calls.empty())
            {
                auto& c = g.pick(calls);
                EXPECT(build(c.op, c.args) == c.result, "later-construction:" + c.op, c.text);
                report.count("constructions repeated later");
            }
        }
        if (unique)
        {
            for (auto& [i, s] : shadow) recheck(i, s);
            for (auto& c : calls)
            {
                EXPECT(build(c.op, c.args) == c.result, "later-construction:" + c.op, c.text);
                report.count("constructions repeated later");
            }
            for (auto& [q, t] : constants)
            {
                EXPECT(tm.is_arithmetic_constant(t) && to_mpq(tm.arithmetic_constant_value(t)) == mpq_class(q), "constant-changed", q);
            }
            check_names();
        }
        report.top("terms in one manager", static_cast<long long>(std::max(shadow.size(), memo.size())));
    }
};

// Many terms which differ in few arguments: none of them may be taken for another one, and none may be built twice.
struct Dense
{
    Rng g;
    Term_manager tm;
    std::vector<term_t> reals, bools;
    struct Built { std::string op; std::vector<term_t> args; };
    std::unordered_map<int32_t, Built> built; // handle -> construction
    std::string op;

    explicit Dense(std::uint64_t seed) : g(seed) {}

    static std::string text(Built const& b)
    {
        std::string s = "(" + b.op;
        for (auto a : b.args) s += " " + std::to_string(a.x);
        return s + ")";
    }

    term_t make(std::vector<term_t> args)
    {
        if (op == "or") return tm.mk_or(args);
        if (op == "and") return tm.mk_and(args);
        if (op == "+") return tm.mk_arithmetic_plus(args);
        if (op == "ite") return tm.mk_ite(args[0], args[1], args[2]);
        if (op[0] == '@') return tm.mk_app(op.substr(1), op == "@p" ? types::bool_type : types::real_type, args);
        return tm.mk_term(op, args, true);
    }

    void add(std::vector<term_t> const& args)
    {
        term_t t = make(args);
        auto [it, fresh] = built.try_emplace(t.x, Built{op, args});
        report.count("neighbouring terms");
        EXPECT(fresh || (it->second.op == op && it->second.args == args), "two-constructions-one-term", text({op, args}) << " is " << text(it->second));
        if (g.chance(2)) EXPECT(make(args) == t, "repeated-construction:" + op, text({op, args}));
        if ((op == "or" || op == "and" || op == "+") && g.chance(10)) // the tail or two arguments are out of order
        {
            auto p = args;
            auto n = static_cast<int>(p.size());
            int from = g.below(n);
            std::vector<term_t> part(p.begin() + from, p.end());
            g.shuffle(part);
            std::copy(part.begin(), part.end(), p.begin() + from);
            if (g.chance(30)) p = args, std::swap(p[g.below(n)], p[g.below(n)]);
            if (g.chance(20)) std::reverse(p.begin(), p.end());
            EXPECT(make(p) == t, "commuted:" + op, text({op, args}) << " and " << text({op, p}));
            report.count("commuted constructions");
        }
    }

    void run()
    {
        for (int i = 0, n = g.range(70, 110); i < n; ++i)
        {
            term_t b = tm.mk_uninterpreted_constant(types::bool_type), r = tm.mk_uninterpreted_constant(types::real_type);
            bools.push_back(b);
            reals.push_back(r);
        }
        for (auto n : {"f", "p"}) tm.set_term_name(tm.mk_uninterpreted_constant(*n == 'p' ? types::bool_type : types::real_type), n);
        int n = static_cast<int>(bools.size());
        for (auto o : {"or", "and", "+"})
        {
            op = o;
            auto& pool = op == "+" ? reals : bools;
            // the middle arguments vary
            int extra = g.chance(70) ? g.below(4) : g.below(20);
            std::vector<term_t> args(4 + extra);
            for (int k = 0; k < extra / 2; ++k) args[k] = pool[k];
            for (int k = 0; k < extra - extra / 2; ++k) args[args.size() - 1 - k] = pool[n - 1 - k];
            int lo = extra / 2, hi = n - 1 - (extra - extra / 2);
            args[lo] = pool[lo];
            args[lo + 3] = pool[hi];
            for (int b = lo + 1; b < hi; ++b)
            {
                for (int c = b + 1; c < hi; ++c)
                {
                    args[lo + 1] = pool[b];
                    args[lo + 2] = pool[c];
                    add(args);
                }
            }
            // the outer arguments vary
            for (int k = 0; k < 2500; ++k)
            {
                int a = g.below(n - 10), d = a + 9 + g.below(n - a - 9);
                std::vector<term_t> v{pool[a], pool[a + 3], pool[a + 5], pool[d]};
                term_t t = make(v);
                auto [it, fresh] = built.try_emplace(t.x, Built{op, v});
                EXPECT(fresh || (it->second.op == op && it->second.args == v), "two-constructions-one-term", text({op, v}) << " is " << text(it->second));
            }
        }
        for (auto o : {"@f", "@p"})
        {
            op = o;
            auto &a = g.pick(reals), &b = g.pick(reals);
            for (auto x : reals)
                for (auto y : reals) add({a, x, y, b});
        }
        op = "ite";
        for (auto c : bools)
            for (int k = 0; k < 60; ++k)
            {
                int x = g.below(n), y = g.below(n);
                if (x != y) { auto t = std::vector<term_t>{c, reals[x], reals[y]}; term_t u = make(t); auto [it, fresh] = built.try_emplace(u.x, Built{op, t}); EXPECT(fresh || (it->second.op == op && it->second.args == t), "two-constructions-one-term", text({op, t}) << " is " << text(it->second)); report.count("neighbouring terms"); }
            }
        // constants
        std::unordered_map<int32_t, mpq_class> values;
        int far = g.chance(50) ? 0 : g.range(0, 2000000000);
        for (int p = 0; p <= 110; ++p)
        {
            for (int q = 1; q <= 70; ++q)
            {
                mpq_class v(far + p, q);
                v.canonicalize();
                std::vector<term_t> a{tm.mk_integer_constant(std::to_string(far + p)), tm.mk_integer_constant(std::to_string(q))};
                term_t t = tm.mk_divides(a[0], a[1]);
                auto [it, fresh] = values.try_emplace(t.x, v);
                EXPECT(it->second == v, "two-constants-one-term", v << " and " << it->second);
                report.count("neighbouring terms");
            }
        }
        // nothing changed in the meantime
        for (auto& [x, b] : built)
        {
            if (!g.chance(5) || b.op == "and") continue;
            auto sp = tm.get_args(term_t{x});
            EXPECT(std::equal(sp.begin(), sp.end(), b.args.begin(), b.args.end()), "arguments", text(b));
            op = b.op;
            EXPECT(make(b.args).x == x, "later-construction:" + op, text(b));
        }
        report.top("terms in one manager", static_cast<long long>(built.size()));
        report.mix(built.size());
        report.mix(n);
        report.seen();
    }
};

int main(int argc, char** argv)
{
    std::uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    int iters = argc > 2 ? atoi(argv[2]) : 10;
    std::string mode = argc > 3 ? argv[3] : "both";
    int steps = argc > 4 ? atoi(argv[4]) : 250;
    for (int i = 0; i < iters && mode == "dense"; ++i)
    {
        Dense d(seed * 1000003 + i);
        d.run();
        report.count("histories");
    }
    for (int i = 0; i < iters && mode != "dense" && report.violations.empty(); ++i)
    {
        World w(seed * 1000003 + i, mode != "unique", mode != "meaning");
        w.run(steps);
        report.count("histories");
    }
    report.print();
    return 0;
}
