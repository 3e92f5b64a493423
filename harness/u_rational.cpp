// C10: random histories of rational operations against GMP.
#include <gmpxx.h>
#include "Rational.h"
#include "unit.h"

using yaga::Rational;

struct Cell
{
    Rational r;
    mpq_class q;
};

static mpz_class random_big(Rng& g)
{
    mpz_class z = 0;
    int words = g.range(1, 4);
    for (int i = 0; i < words; ++i)
    {
        z = z * mpz_class("18446744073709551616") + mpz_class(std::to_string(g.next()));
    }
    return z;
}

static mpz_class edge_int(Rng& g)
{
    mpz_class z;
    switch (g.below(9))
    {
    case 0: z = g.range(0, 3); break;
    case 1: z = g.range(0, 40); break;
    case 2: z = mpz_class("2147483648") + g.range(-3, 3); break;
    case 3: z = mpz_class("4294967296") + g.range(-3, 3); break;
    case 4: z = mpz_class("9223372036854775808") + g.range(-3, 3); break;
    case 5: z = mpz_class("18446744073709551616") + g.range(-3, 3); break;
    case 6: z = mpz_class(std::to_string(g.next() & 0xffffffff)); break;
    case 7: z = (mpz_class(1) << g.range(0, 70)) + g.range(-1, 1); break;
    default: z = random_big(g); break;
    }
    if (g.chance(45)) z = -z;
    return z;
}

static mpq_class edge_rational(Rng& g)
{
    mpz_class d = g.chance(40) ? mpz_class(1) : edge_int(g);
    if (d == 0) d = 1;
    mpz_class n = edge_int(g);
    mpq_class q(n, d);
    q.canonicalize();
    return q;
}

static bool fits(mpq_class const& q)
{
    return q.get_num() >= -mpz_class("2147483648") && q.get_num() <= mpz_class("2147483647") &&
           q.get_den() <= mpz_class("4294967295");
}

// value stored in a rational, read back through its own printing
static mpq_class read_back(Rational const& r)
{
    mpq_class q;
    if (q.set_str(r.get_str(), 10) != 0)
    {
        report.violation("get_str-unreadable", r.get_str());
        return mpq_class(0);
    }
    return q; // deliberately not canonicalised: lowest terms are part of the property
}

static std::string smt(mpq_class const& q)
{
    // SMT-LIB spelling expected from operator<<, modulo "(/ n 1)" for integers
    std::ostringstream os;
    os << q;
    return os.str();
}

static mpq_class parse_smt(std::string const& s, bool& ok)
{
    // n | (- n) | (/ n d) | (/ (- n) d)
    std::vector<std::string> tok;
    std::string cur;
    for (char c : s)
    {
        if (c == '(' || c == ')' || c == ' ')
        {
            if (!cur.empty()) tok.push_back(cur);
            cur.clear();
            if (c != ' ') tok.emplace_back(1, c);
        }
        else
        {
            cur += c;
        }
    }
    if (!cur.empty()) tok.push_back(cur);
    std::size_t i = 0;
    ok = true;
    auto num = [&]() -> mpz_class {
        if (i >= tok.size()) { ok = false; return 0; }
        std::string t = tok[i++];
        for (char c : t)
        {
            if (c < '0' || c > '9') { ok = false; return 0; }
        }
        return mpz_class(t);
    };
    auto expect = [&](char const* t) {
        if (i >= tok.size() || tok[i] != t) { ok = false; return; }
        ++i;
    };
    auto snum = [&]() -> mpz_class {
        if (i < tok.size() && tok[i] == "(")
        {
            ++i;
            expect("-");
            mpz_class z = -num();
            expect(")");
            return z;
        }
        return num();
    };
    mpq_class res;
    if (tok.size() > 1 && tok[0] == "(" && tok[1] == "/")
    {
        i = 2;
        mpz_class n = snum(), d = num();
        expect(")");
        if (d == 0) { ok = false; return res; }
        res.get_num() = n;
        res.get_den() = d;
    }
    else
    {
        res = mpq_class(snum());
    }
    if (i != tok.size()) ok = false;
    return res;
}

static void check(Cell const& c, char const* op, std::string const& ctx)
{
    EXPECT(c.r.wordPartValid() || c.r.mpqPartValid(), std::string("no-valid-part:") + op, ctx);
    EXPECT(c.r.isWellFormed(), std::string("not-well-formed:") + op, ctx << " expected " << c.q);
    mpq_class got = read_back(c.r);
    EXPECT(got.get_num() == c.q.get_num() && got.get_den() == c.q.get_den(), std::string("value:") + op,
           ctx << " = " << got << ", expected " << c.q);
    EXPECT(c.r.wordPartValid() == fits(c.q), std::string("representation:") + op, ctx << " = " << c.q);
}

static Rational make(Rng& g, mpq_class const& q, char const*& how)
{
    std::vector<int> ways{0, 0, 1};
    bool w = fits(q);
    if (w) ways.push_back(2);
    if (w && q.get_den() == 1) { ways.push_back(3); ways.push_back(3); }
    if (q.get_den() == 1) ways.push_back(4);
    if (q.get_den() == 1 && q >= 0 && q <= mpz_class("4294967295")) ways.push_back(5);
    switch (g.pick(ways))
    {
    case 1: // not reduced
    {
        mpz_class k = edge_int(g);
        if (k <= 0) k = 6;
        mpz_class n = q.get_num() * k, d = q.get_den() * k;
        how = "ctor-unreduced-string";
        return Rational((n.get_str() + "/" + d.get_str()).c_str());
    }
    case 2:
    {
        how = "ctor-word-uword";
        long n = q.get_num().get_si();
        unsigned long d = q.get_den().get_ui();
        for (int k = g.range(2, 12); k > 1; --k) // a non-reduced spelling, if it fits
        {
            if (g.chance(50) && n * k >= INT_MIN && n * k <= INT_MAX && d * k <= UINT_MAX)
            {
                n *= k;
                d *= k;
                break;
            }
        }
        return Rational(static_cast<yaga::word>(n), static_cast<yaga::uword>(d));
    }
    case 3: how = "ctor-word"; return Rational(static_cast<yaga::word>(q.get_num().get_si()));
    case 4:
    {
        how = "ctor-mpz";
        mpz_class z = q.get_num();
        return Rational(z.get_mpz_t());
    }
    case 5: how = "ctor-uint32"; return Rational(static_cast<uint32_t>(q.get_num().get_ui()));
    default: how = "ctor-string"; return Rational(q.get_str().c_str());
    }
}

static void run(std::uint64_t seed, int ops)
{
    Rng g(seed);
    std::vector<Cell> cells;
    int n = g.range(3, 9);
    int size_limit = g.range(80, 700); // bits
    for (int i = 0; i < n; ++i)
    {
        mpq_class q = edge_rational(g);
        char const* how = "";
        cells.push_back({make(g, q, how), q});
        check(cells.back(), how, q.get_str());
    }
    for (int step = 0; step < ops; ++step)
    {
        int ia = g.below(n), ib = g.chance(15) ? ia : g.below(n), id = g.chance(30) ? ia : g.below(n);
        Cell& a = cells[ia];
        Cell& b = cells[ib];
        Cell& d = cells[id];
        int op = g.below(34);
        std::ostringstream cs;
        cs << a.q << " , " << b.q << " (step " << step << " op " << op << (ia == ib ? ", same object" : "")
           << (id == ia ? ", target is first" : "") << (id == ib ? ", target is second" : "") << ")";
        std::string ctx = cs.str();
        char const* name = "";
        bool bin = false;
        report.mix(static_cast<std::uint64_t>(op) * 31 + (a.r.wordPartValid() ? 1 : 0) + (b.r.wordPartValid() ? 2 : 0));
        report.mix(a.q.get_str());
        if (op < 16) bin = true;
        switch (op)
        {
        case 0: { name = "+"; mpq_class q = a.q + b.q; d.r = a.r + b.r; d.q = q; break; }
        case 1: { name = "-"; mpq_class q = a.q - b.q; d.r = a.r - b.r; d.q = q; break; }
        case 2: { name = "*"; mpq_class q = a.q * b.q; d.r = a.r * b.r; d.q = q; break; }
        case 3:
            name = "/";
            if (b.q != 0) { mpq_class q = a.q / b.q; d.r = a.r / b.r; d.q = q; }
            break;
        case 4: case 5: { name = "+="; mpq_class q = a.q + b.q; a.r += b.r; a.q = q; id = ia; break; }
        case 6: case 7: { name = "-="; mpq_class q = a.q - b.q; a.r -= b.r; a.q = q; id = ia; break; }
        case 8: case 9: { name = "*="; mpq_class q = a.q * b.q; a.r *= b.r; a.q = q; id = ia; break; }
        case 10: case 11:
            name = "/=";
            if (b.q != 0) { mpq_class q = a.q / b.q; a.r /= b.r; a.q = q; }
            id = ia;
            break;
        case 12: case 13:
        {
            name = "compare";
            int c = cmp(a.q, b.q);
            EXPECT((a.r < b.r) == (c < 0), "<", ctx);
            EXPECT((a.r > b.r) == (c > 0), ">", ctx);
            EXPECT((a.r <= b.r) == (c <= 0), "<=", ctx);
            EXPECT((a.r >= b.r) == (c >= 0), ">=", ctx);
            EXPECT((a.r == b.r) == (c == 0), "==", ctx);
            EXPECT((a.r != b.r) == (c != 0), "!=", ctx);
            int k = a.r.compare(b.r);
            EXPECT((k < 0) == (c < 0) && (k > 0) == (c > 0), "compare()", ctx);
            if (c == 0)
            {
                report.count("equal pairs");
                EXPECT(std::hash<Rational>{}(a.r) == std::hash<Rational>{}(b.r), "hash", ctx);
            }
            break;
        }
        case 14: case 15:
        {
            name = "hash-equal"; // same value reached in two ways
            Rational x = a.r + b.r;
            x -= b.r;
            EXPECT(x == a.r && a.r == x, "==:after-roundtrip", ctx);
            EXPECT(std::hash<Rational>{}(x) == std::hash<Rational>{}(a.r), "hash:after-roundtrip", ctx);
            Rational y = a.r;
            if (b.q != 0)
            {
                y *= b.r;
                y /= b.r;
            }
            EXPECT(y == a.r, "==:after-roundtrip-product", ctx);
            EXPECT(std::hash<Rational>{}(y) == std::hash<Rational>{}(a.r), "hash:after-roundtrip-product", ctx);
            EXPECT(x.getHashValue() == y.getHashValue(), "hash:two-roundtrips", ctx);
            break;
        }
        case 16: { name = "negation"; mpq_class q = -a.q; d.r = -a.r; d.q = q; break; }
        case 17: { name = "negate()"; a.r.negate(); a.q = -a.q; id = ia; break; }
        case 18: case 19:
            name = "inverse";
            if (a.q != 0)
            {
                mpq_class q = 1 / a.q;
                d.r = g.chance(50) ? a.r.inverse() : a.r.inv();
                d.q = q;
            }
            break;
        case 20: { name = "abs"; mpq_class q = abs(a.q); d.r = yaga::abs(a.r); d.q = q; break; }
        case 21: case 22:
        {
            name = "floor";
            mpz_class z;
            mpz_fdiv_q(z.get_mpz_t(), a.q.get_num_mpz_t(), a.q.get_den_mpz_t());
            d.r = a.r.floor();
            d.q = mpq_class(z);
            break;
        }
        case 23: case 24:
        {
            name = "ceil";
            mpz_class z;
            mpz_cdiv_q(z.get_mpz_t(), a.q.get_num_mpz_t(), a.q.get_den_mpz_t());
            d.r = a.r.ceil();
            d.q = mpq_class(z);
            break;
        }
        case 25:
        {
            name = "queries";
            EXPECT(a.r.sign() == sgn(a.q), "sign", ctx);
            EXPECT(a.r.isZero() == (a.q == 0), "isZero", ctx);
            EXPECT(a.r.isOne() == (a.q == 1), "isOne", ctx);
            EXPECT(a.r.isInteger() == (a.q.get_den() == 1), "isInteger", ctx);
            EXPECT(yaga::isNegative(a.r) == (a.q < 0), "isNegative", ctx);
            EXPECT(yaga::isPositive(a.r) == (a.q > 0), "isPositive", ctx);
            EXPECT(yaga::isNonNegative(a.r) == (a.q >= 0), "isNonNegative", ctx);
            EXPECT(yaga::isNonPositive(a.r) == (a.q <= 0), "isNonPositive", ctx);
            int c = cmp(abs(a.q), abs(b.q));
            int k = yaga::cmpabs(a.r, b.r);
            EXPECT((k < 0) == (c < 0) && (k > 0) == (c > 0), "cmpabs", ctx);
            break;
        }
        case 26:
        {
            name = "num/den";
            EXPECT(read_back(a.r.numerator()) == mpq_class(a.q.get_num()), "numerator", ctx);
            EXPECT(read_back(a.r.denominator()) == mpq_class(a.q.get_den()), "denominator", ctx);
            break;
        }
        case 27:
        {
            name = "print";
            std::ostringstream os;
            os << a.r;
            bool ok = false;
            mpq_class q = parse_smt(os.str(), ok);
            EXPECT(ok, "print:syntax", ctx << " printed as " << os.str());
            EXPECT(!ok || (q.get_num() == a.q.get_num() && q.get_den() == a.q.get_den()), "print:value",
                   ctx << " printed as " << os.str());
            break;
        }
        case 28: { name = "copy"; Rational x(a.r); d.r = x; d.q = mpq_class(a.q); break; }
        case 29:
        {
            name = "move";
            mpq_class q = a.q;
            Rational x(std::move(a.r)); // a is now unspecified
            char const* how = "";
            mpq_class fresh = edge_rational(g);
            a.r = make(g, fresh, how);
            a.q = fresh;
            check(a, "assign-after-move", ctx);
            d.r = std::move(x);
            d.q = q;
            break;
        }
        case 30: { name = "self-assign"; Rational& alias = a.r; a.r = alias; id = ia; break; }
        case 31:
        {
            name = "gcd/lcm";
            if (a.q.get_den() == 1 && b.q.get_den() == 1 && a.q > 0 && b.q > 0)
            {
                mpz_class z = gcd(a.q.get_num(), b.q.get_num()), l = lcm(a.q.get_num(), b.q.get_num());
                EXPECT(read_back(yaga::gcd(a.r, b.r)) == mpq_class(z), "gcd", ctx);
                EXPECT(read_back(yaga::lcm(a.r, b.r)) == mpq_class(l), "lcm", ctx);
            }
            break;
        }
        case 32:
            name = "reset";
            if (g.chance(20)) { a.r.reset(); a.q = 0; }
            id = ia;
            break;
        default:
        {
            mpq_class q = edge_rational(g);
            char const* how = "";
            d.r = make(g, q, how);
            d.q = q;
            name = how;
            break;
        }
        }
        report.count(std::string("op ") + name);
        if (bin && (!a.r.wordPartValid() || !b.r.wordPartValid())) report.count("big operands");
        if (bin && a.r.wordPartValid() != b.r.wordPartValid()) report.count("mixed representations");
        check(cells[id], name, ctx);
        check(a, (std::string(name) + ":first-operand").c_str(), ctx); // operands keep their values
        check(b, (std::string(name) + ":second-operand").c_str(), ctx);
        if (step % 4 == 0) report.seen();
        auto bits = mpz_sizeinbase(cells[id].q.get_num_mpz_t(), 2) + mpz_sizeinbase(cells[id].q.get_den_mpz_t(), 2);
        report.top("bits", static_cast<long long>(bits));
        if (static_cast<int>(bits) > size_limit || (step % 7 == 0 && !fits(cells[id].q)))
        {
            mpq_class q = edge_rational(g);
            char const* how = "";
            cells[id].r = make(g, q, how);
            cells[id].q = q;
            check(cells[id], how, "reseed");
        }
    }
    for (auto& c : cells) check(c, "end", "end of history");
}

// every binary operation on word-sized operands close to the limits of words
static mpz_class word_num(Rng& g)
{
    static std::vector<char const*> const vals{"1", "2", "3", "2147483647", "2147483646", "2147483645", "2147483648",
                                               "1073741824", "1073741823", "65536", "65535", "46341", "46340", "715827883"};
    mpz_class z;
    if (g.chance(60)) z = mpz_class(vals[g.below(static_cast<int>(vals.size()))]) - (g.chance(20) ? 1 : 0);
    else if (g.chance(50)) z = mpz_class(std::to_string(g.next() & 0x7fffffff));
    else z = g.range(0, 60);
    if (z == mpz_class("2147483648") || g.chance(50)) z = -z;
    return z;
}

static mpz_class word_den(Rng& g)
{
    static std::vector<char const*> const vals{"1", "1", "1", "2", "3", "4294967295", "4294967294", "2147483648", "2147483647",
                                               "4294967291", "65536", "65537", "46341", "1431655765"};
    if (g.chance(65)) return mpz_class(vals[g.below(static_cast<int>(vals.size()))]);
    if (g.chance(50)) return mpz_class(std::to_string((g.next() & 0xffffffff) | 1));
    return g.range(1, 60);
}

static void pairs(std::uint64_t seed, int n)
{
    Rng g(seed);
    for (int i = 0; i < n; ++i)
    {
        mpq_class x(word_num(g), word_den(g)), y(word_num(g), g.chance(25) ? mpz_class(x.get_den()) : word_den(g));
        x.canonicalize();
        y.canonicalize();
        if (g.chance(10)) y = -x;
        if (!fits(x) || !fits(y)) continue;
        char const* how = "";
        Rational a = make(g, x, how), b = make(g, y, how);
        std::string ctx = x.get_str() + " , " + y.get_str();
        auto one = [&](char const* op, Rational const& r, mpq_class const& q) { check({r, q}, op, ctx); };
        one("+", a + b, x + y);
        one("-", a - b, x - y);
        one("*", a * b, x * y);
        if (y != 0) one("/", a / b, x / y);
        { Rational c = a; c += b; one("+=", c, x + y); c -= b; one("-=:back", c, x); }
        { Rational c = a; c -= b; one("-=", c, x - y); c += b; one("+=:back", c, x); }
        { Rational c = a; c *= b; one("*=", c, x * y); if (y != 0) { c /= b; one("/=:back", c, x); } }
        if (y != 0) { Rational c = a; c /= b; one("/=", c, x / y); c *= b; one("*=:back", c, x); }
        { Rational c = a; c += c; one("+=:alias", c, x + x); }
        { Rational c = a; c -= c; one("-=:alias", c, mpq_class(0)); }
        { Rational c = a; c *= c; one("*=:alias", c, x * x); }
        if (x != 0) { Rational c = a; c /= c; one("/=:alias", c, mpq_class(1)); one("inverse", a.inv(), 1 / x); }
        one("negation", -a, -x);
        { Rational c = a; c.negate(); one("negate()", c, -x); c.negate(); one("negate():twice", c, x); }
        int c = cmp(x, y);
        EXPECT((a < b) == (c < 0) && (a > b) == (c > 0) && (a == b) == (c == 0) && (a <= b) == (c <= 0) &&
                   (a >= b) == (c >= 0) && (a != b) == (c != 0), "compare:words", ctx);
        mpz_class z;
        mpz_fdiv_q(z.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t());
        one("floor", a.floor(), mpq_class(z));
        mpz_cdiv_q(z.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t());
        one("ceil", a.ceil(), mpq_class(z));
        one("abs", yaga::abs(a), abs(x));
        Rational s = a + b;
        one("-:sum", s - b, x);
        Rational t = s - b;
        EXPECT(std::hash<Rational>{}(t) == std::hash<Rational>{}(a), "hash:sum", ctx);
        report.mix(ctx);
        report.seen();
        report.count("operand pairs at the limits of words");
        if (!s.wordPartValid()) report.count("sums of words which do not fit in words");
        check({a, x}, "operand:first", ctx);
        check({b, y}, "operand:second", ctx);
    }
}

int main(int argc, char** argv)
{
    std::uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    int iters = argc > 2 ? atoi(argv[2]) : 10;
    for (int i = 0; i < iters && report.violations.empty(); ++i)
    {
        run(seed * 1000003 + i, 150);
        pairs(seed * 1000003 + i, 200);
        report.count("histories");
    }
    report.print();
    return 0;
}
