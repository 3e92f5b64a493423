"""Seeded generators of SMT-LIB scripts (QF_LRA / QF_UFLRA). All randomness comes from `rng`."""
from fractions import Fraction as F
from smtast import Script

T, FALSE = ('bool', True), ('bool', False)


def V(n):
    return ('var', n)


def N(x):
    return ('num', F(x))


def mk(op, *a):
    return (op,) + tuple(a)


def neg(t):
    return t[1] if t[0] == 'not' else ('not', t)


class G:
    """Random term generator over a script's declared constants and functions."""

    def __init__(self, rng, script, consts='small', nary=True, apps=0.25, calls=0.2, let=0.08):
        self.rng = rng
        self.s = script
        self.consts = consts
        self.nary = nary
        self.p_app = apps
        self.p_call = calls
        self.p_let = let
        self.scope = [dict(script.sorts)]
        self.fresh = 0

    def names(self, sort):
        return [n for n, so in self.scope[-1].items() if so == sort]

    def const(self):
        r = self.rng
        c = self.consts
        if c == 'mixed':
            c = r.choice(['small', 'small', 'frac', 'mid', 'word', 'big'])
        if c == 'small':
            return F(r.randrange(-3, 4))
        if c == 'frac':
            return F(r.randrange(-12, 13), r.randrange(1, 9))
        if c == 'mid':
            return F(r.randrange(-1000, 1001), r.choice([1, 1, 2, 3, 7, 10, 100]))
        if c == 'word':
            base = r.choice([2**31, 2**31 - 1, 2**32, 2**30, 65536, 46341, 2**31 + 1])
            n = base + r.randrange(-2, 3)
            d = r.choice([1, 1, 1, 2, 3, 2**31 - 1, 2**32 - 1, 2**31, 65537])
            return F(n if r.random() < 0.5 else -n, d)
        base = r.choice([2**63, 2**64, 2**62, 10**18, 10**19, 3**50, 2**100])
        n = base + r.randrange(-2, 3)
        d = r.choice([1, 1, 3, 2**32, 2**63, 10**9 + 7])
        return F(n if r.random() < 0.5 else -n, d)

    def nz(self):
        while True:
            c = self.const()
            if c != 0:
                return c

    # linear real term
    def real(self, d):
        r = self.rng
        vs = self.names('Real')
        x = r.random()
        if d <= 0 or x < 0.12:
            if vs and r.random() < 0.8:
                return V(r.choice(vs))
            return ('num', self.const())
        rf = [n for n, (a, ret) in self.s.funs.items() if ret == 'Real' and n not in self.scope[-1]]
        if rf and r.random() < self.p_app:
            return self.app(r.choice(rf), d)
        df = [n for n, (p, ret, _) in self.s.defs.items() if ret == 'Real' and n not in self.scope[-1]]
        if df and r.random() < self.p_call:
            return self.call(r.choice(df), d)
        if r.random() < self.p_let:
            return self.let('Real', d)
        x = r.random()
        if x < 0.35:
            k = r.choice([2, 2, 3, 4]) if self.nary else 2
            return mk('+', *[self.real(d - 1) for _ in range(k)])
        if x < 0.55:
            if r.random() < 0.25:
                return mk('-', self.real(d - 1))
            k = r.choice([2, 2, 2, 3]) if self.nary else 2
            return mk('-', *[self.real(d - 1) for _ in range(k)])
        if x < 0.75:
            c = ('num', self.const())
            t = self.real(d - 1)
            if self.nary and r.random() < 0.1:
                a = [c, t] + [('num', self.const()) for _ in range(r.choice([1, 1, 2, 3, 4, 6]))]
                r.shuffle(a)
                return mk('*', *a)
            return mk('*', c, t) if r.random() < 0.6 else mk('*', t, c)
        if x < 0.82:
            return mk('/', self.real(d - 1), ('num', self.nz()))
        if x < 0.95:
            return mk('ite', self.boolean(d - 1), self.real(d - 1), self.real(d - 1))
        return mk('+', self.real(d - 1)) if r.random() < 0.0 else self.lin()

    def lin(self, k=None):
        """c1*x1 + ... + ck*xk (+ c)"""
        r = self.rng
        vs = self.names('Real')
        if not vs:
            return ('num', self.const())
        k = k or r.randrange(1, 4)
        terms = []
        for _ in range(k):
            c = self.nz()
            v = V(r.choice(vs))
            terms.append(v if c == 1 else mk('*', ('num', c), v))
        if r.random() < 0.4:
            terms.append(('num', self.const()))
        return terms[0] if len(terms) == 1 else mk('+', *terms)

    def app(self, f, d):
        args, _ = self.s.funs[f]
        return ('app', f) + tuple(self.real(d - 1) if a == 'Real' else self.boolean(d - 2) for a in args)

    def call(self, f, d):
        params, _, _ = self.s.defs[f]
        return ('call', f) + tuple(self.real(d - 1) if so == 'Real' else self.boolean(d - 1) for _, so in params)

    def let(self, sort, d):
        r = self.rng
        k = r.choice([1, 1, 2, 3])
        binds = []
        used = set()
        for _ in range(k):
            so = r.choice(['Bool', 'Real'])
            old = [n for n in self.scope[-1] if n not in used]
            fns = [n for n in list(self.s.defs) + list(self.s.funs) if n not in used]
            if fns and r.random() < 0.1:
                n = r.choice(fns)       # hides a function
            elif old and r.random() < 0.4:
                n = r.choice(old)       # shadowing
            else:
                self.fresh += 1
                n = 'l%d' % self.fresh
            used.add(n)
            if n in self.scope[-1] and r.random() < 0.3:
                so = self.scope[-1][n]
                binds.append((n, so, V(n)))     # bound to the value it has anyway
                continue
            binds.append((n, so, self.real(d - 1) if so == 'Real' else self.boolean(d - 1)))
        new = dict(self.scope[-1])
        for n, so, _ in binds:
            new[n] = so
        self.scope.append(new)
        body = self.real(d - 1) if sort == 'Real' else self.boolean(d - 1)
        self.scope.pop()
        t = ('let', tuple((n, b) for n, _, b in binds), body)
        outer = [n for n, _, _ in binds if self.scope[-1].get(n) == sort]
        if outer and r.random() < 0.5:
            # the outer meaning of a name which the let has hidden, read after the let
            v = V(r.choice(outer))
            if sort == 'Real':
                return mk(r.choice(['+', '-']), t, v)
            return mk(r.choice(['=', 'xor', 'and', 'or']), t, v)
        return t

    def atom(self, d):
        r = self.rng
        op = r.choice(['<', '<=', '>', '>=', '=', '=', 'distinct', '<=', '<'])
        k = 2
        if self.nary and r.random() < 0.08:
            k = 3
        if r.random() < 0.5:
            a = [self.lin()] + [self.lin() if r.random() < 0.3 else ('num', self.const()) for _ in range(k - 1)]
            if r.random() < 0.3:
                a.reverse()
            return mk(op, *a)
        return mk(op, *[self.real(d - 1) for _ in range(k)])

    def boolean(self, d):
        r = self.rng
        vs = self.names('Bool')
        if d <= 0 or r.random() < 0.1:
            if vs and r.random() < 0.7:
                v = V(r.choice(vs))
                return v if r.random() < 0.7 else mk('not', v)
            if r.random() < 0.05:
                return ('bool', r.random() < 0.5)
            if self.names('Real'):
                return mk(r.choice(['<', '<=', '>', '>=', '=', 'distinct']), self.lin(1), ('num', self.const()))
            return ('bool', r.random() < 0.5)
        bf = [n for n, (a, ret) in self.s.funs.items() if ret == 'Bool' and n not in self.scope[-1]]
        if bf and r.random() < self.p_app:
            return self.app(r.choice(bf), d)
        df = [n for n, (p, ret, _) in self.s.defs.items() if ret == 'Bool' and n not in self.scope[-1]]
        if df and r.random() < self.p_call:
            return self.call(r.choice(df), d)
        if r.random() < self.p_let:
            return self.let('Bool', d)
        x = r.random()
        if x < 0.35:
            return self.atom(d)
        if x < 0.62:
            if r.random() < 0.05:
                return mk(r.choice(['and', 'or']), *[self.boolean(r.choice([0, 0, 0, 1])) for _ in range(r.randrange(5, 14))])
            return mk(r.choice(['and', 'or', 'or']), *[self.boolean(d - 1) for _ in range(r.choice([2, 2, 3, 4]))])
        if x < 0.72:
            return mk('not', self.boolean(d - 1))
        if x < 0.80:
            k = r.choice([2, 2, 2, 3]) if self.nary else 2
            return mk('=>', *[self.boolean(d - 1) for _ in range(k)])
        if x < 0.86:
            k = r.choice([2, 2, 2, 3]) if self.nary else 2
            return mk('xor', *[self.boolean(d - 1) for _ in range(k)])
        if x < 0.92:
            k = r.choice([2, 2, 2, 3]) if self.nary else 2
            return mk(r.choice(['=', '=', 'distinct']), *[self.boolean(d - 1) for _ in range(k)])
        return mk('ite', self.boolean(d - 1), self.boolean(d - 1), self.boolean(d - 1))


NAMES_R = ['x', 'y', 'z', 'w', 'u', 'v', 's', 't', 'p0', 'q0', 'r0', 'k1', 'k2', 'k3']
NAMES_B = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'b1', 'b2', 'b3', 'b4', 'b5', 'b6']


WEIRD = ['x y', 'let', '1x', '', 'a;b', 'a(b', '!q', 'assert', 'x"y', '<=>', '.z', 'Real', 'a\tb', 'caf\u00e9', '0', '-5',
         'check-sat', '@v', 'x0', 'x1', 'define-fun', "it's", '#b1', 'A:B']


def base(rng, nr, nb, logic='QF_LRA'):
    s = Script(logic)
    rn = [NAMES_R[i] if i < len(NAMES_R) else 'r_%d' % i for i in range(nr)]
    bn = [NAMES_B[i] if i < len(NAMES_B) else 'bb_%d' % i for i in range(nb)]
    if rng.random() < 0.06:
        odd = rng.sample(WEIRD, min(len(WEIRD), nr + nb))
        for i, n in enumerate(odd):
            if rng.random() < 0.6:
                if i < nr:
                    rn[i] = n
                else:
                    bn[i - nr] = n
    for n in rn:
        s.declare(n, 'Real')
    for n in bn:
        s.declare(n, 'Bool')
    return s


def fin(s, tag):
    s.tag = tag
    s.check()
    s.model()
    return s


# ------------------------------------------------------------ LRA profiles
def p_random(rng):
    """random boolean/arithmetic structure"""
    s = base(rng, rng.randrange(1, 5), rng.randrange(0, 4))
    g = G(rng, s, consts=rng.choice(['small', 'small', 'frac', 'mixed']))
    for _ in range(rng.randrange(1, 7)):
        s.assert_(g.boolean(rng.randrange(1, 5)))
    return fin(s, 'random')


def p_let_define(rng):
    """let / define-fun heavy"""
    s = base(rng, rng.randrange(1, 4), rng.randrange(1, 3))
    g = G(rng, s, consts='small', let=0.3, calls=0.5)
    for i in range(rng.randrange(1, 4)):
        k = rng.randrange(0, 4)
        params = []
        for j in range(k):
            # parameters may shadow globals and functions
            n = 'm%d' % j if rng.random() < 0.6 else rng.choice(list(s.sorts) + list(s.defs))
            if n in [p[0] for p in params]:
                n = 'm%d' % j
            params.append((n, rng.choice(['Real', 'Real', 'Bool'])))
        ret = rng.choice(['Real', 'Bool', 'Bool'])
        new = dict(s.sorts)
        new.update(dict(params))
        g.scope.append(new)
        body = g.real(rng.randrange(0, 4)) if ret == 'Real' else g.boolean(rng.randrange(0, 4))
        g.scope.pop()
        s.define_fun('fn%d' % i, tuple(params), ret, body)
    for _ in range(rng.randrange(1, 5)):
        s.assert_(g.boolean(rng.randrange(1, 4)))
    return fin(s, 'let_define')


def lin_of(rng, g, vs, k):
    vs = rng.sample(vs, min(k, len(vs)))
    terms = []
    for v in vs:
        c = g.nz()
        terms.append(V(v) if c == 1 else mk('*', ('num', c), V(v)))
    return vs, terms[0] if len(terms) == 1 else mk('+', *terms)


def ev_lin(t, m):
    from smtast import evaluate
    return evaluate(t, m, {}, {})


def p_wide(rng):
    """sums over many variables"""
    nr = rng.randrange(9, 18)
    s = base(rng, nr, rng.randrange(0, 3))
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    g = G(rng, s, consts='small')
    m = {v: F(rng.randrange(-4, 5)) for v in vs}
    pin = rng.choice([0, .5, .9, 1])
    for v in vs:
        if rng.random() < pin:
            s.assert_(mk('=', V(v), ('num', m[v])) if rng.random() < .7 else mk('and', mk('<=', V(v), ('num', m[v])), mk('>=', V(v), ('num', m[v]))))
    for _ in range(rng.randrange(1, 4)):
        _, t = lin_of(rng, g, vs, rng.randrange(6, nr + 1))
        val = ev_lin(t, m)
        if rng.random() < .5:
            c = F(rng.randrange(-5, 6))
            t, val = (mk('+', t, ('num', c)) if rng.random() < .5 else mk('+', ('num', c), t)), val + c
        if rng.random() < .4:
            c = F(rng.choice([-3, -2, -1, 2, 3, -5]), rng.choice([1, 1, 2]))
            if rng.random() < .5:
                t, val = mk('/', t, ('num', c)), val / c
            else:
                t, val = mk('*', ('num', c), t), val * c
        if rng.random() < .2:
            c = F(rng.randrange(-5, 6))
            t, val = mk('-', t, ('num', c)) if rng.random() < .5 else mk('-', t, mk('*', ('num', c), V(vs[0]))), val - (c if rng.random() < 0 else 0)
            val = ev_lin(t, m)
        x = rng.random()
        val += rng.choice([0, 0, 0, 0, 1, -1])
        a = mk('=' if x < .6 else '<=' if x < .8 else '>', t, ('num', val))
        if rng.random() < .2:
            a = mk('or', a, g.boolean(1))
        if rng.random() < .3:
            a = mk('not', mk('not', a)) if rng.random() < .5 else mk('=', t, mk('+', V(vs[0]), mk('-', ('num', val), V(vs[0]))))
        s.assert_(a)
    return fin(s, 'wide')


def p_system(rng):
    """conjunctions of linear constraints around a planted point (tight), some perturbed"""
    nr = rng.randrange(2, 8)
    s = base(rng, nr, 0)
    vs = list(s.sorts)
    g = G(rng, s, consts=rng.choice(['small', 'small', 'frac', 'mid', 'mixed']))
    m = {v: F(rng.randrange(-6, 7), rng.choice([1, 1, 1, 2, 3, 7])) for v in vs}
    n = rng.randrange(nr, 3 * nr + 2)
    strictness = rng.choice([0, 0.2, 0.5])
    for _ in range(n):
        _, t = lin_of(rng, g, vs, rng.randrange(1, min(5, nr) + 1))
        val = ev_lin(t, m)
        x = rng.random()
        slack = F(rng.choice([0, 0, 0, 1, 2]), rng.choice([1, 3, 10]))
        if x < 0.3:
            op, c = '<=', val + slack
        elif x < 0.6:
            op, c = '>=', val - slack
        elif x < 0.6 + 0.2:
            op, c = '=', val
        else:
            op, c = 'distinct', val + rng.choice([1, -1, F(1, 2)])
        if rng.random() < strictness and op in ('<=', '>='):
            op = op[0]          # strict: may become infeasible when slack = 0
        if rng.random() < 0.05:
            c += rng.choice([-1, 1])
        s.assert_(mk(op, t, ('num', c)))
    return fin(s, 'system')


def p_farkas(rng):
    """infeasible systems: positive combination of the rows is 0 < 0 or 0 <= -c, one row optionally relaxed"""
    nr = rng.randrange(2, 7)
    s = base(rng, nr, rng.randrange(0, 3))
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    bs = [v for v in s.sorts if s.sorts[v] == 'Bool']
    k = rng.randrange(2, nr + 2)
    rows = []
    tot = {v: F(0) for v in vs}
    ctot = F(0)
    strict_any = False
    for i in range(k):
        co = {v: F(rng.randrange(-4, 5), rng.choice([1, 1, 2])) for v in rng.sample(vs, rng.randrange(1, nr + 1))}
        c = F(rng.randrange(-5, 6))
        lam = F(rng.randrange(1, 5), rng.choice([1, 2, 3]))
        strict = rng.random() < 0.25
        strict_any |= strict
        rows.append((co, c, strict))
        for v, x in co.items():
            tot[v] += lam * x
        ctot += lam * c
    # closing row makes the sum cancel: sum <= ctot + c' with c' = -ctot - eps
    eps = rng.choice([F(0), F(0), F(1), F(1, 7), F(-1)])
    last = {v: -x for v, x in tot.items() if x != 0}
    if last:
        rows.append((last, -ctot - eps, rng.random() < 0.3))
    rng.shuffle(rows)
    for co, c, strict in rows:
        terms = [mk('*', ('num', x), V(v)) for v, x in co.items() if x != 0]
        if not terms:
            continue
        t = terms[0] if len(terms) == 1 else mk('+', *terms)
        a = mk('<' if strict else '<=', t, ('num', c))
        if rng.random() < 0.3:
            a = mk('>' if strict else '>=', ('num', -c), t) if False else mk('not', mk('>=' if strict else '>', t, ('num', c)))
        if bs and rng.random() < 0.5:
            a = mk('or', a, V(rng.choice(bs)) if rng.random() < 0.5 else mk('not', V(rng.choice(bs))))
        s.assert_(a)
    for _ in range(rng.randrange(0, 3)):
        v = rng.choice(vs)
        s.assert_(mk('distinct', V(v), N(rng.randrange(-2, 3))))
    return fin(s, 'farkas')


def p_cnf_atoms(rng):
    """CNF over a pool of arithmetic atoms and booleans: many conflicts"""
    nr = rng.randrange(2, 6)
    nb = rng.randrange(0, 5)
    s = base(rng, nr, nb)
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    bs = [v for v in s.sorts if s.sorts[v] == 'Bool']
    g = G(rng, s, consts=rng.choice(['small', 'small', 'small', 'frac', 'word']))
    pool = [V(b) for b in bs]
    for _ in range(rng.randrange(4, 14)):
        _, t = lin_of(rng, g, vs, rng.randrange(1, 4))
        pool.append(mk(rng.choice(['<', '<=', '>', '>=', '=']), t, ('num', g.const())))
    n = int(len(pool) * rng.choice([1.5, 2.5, 3.5, 4.5]))
    for _ in range(n):
        k = rng.choice([1, 2, 2, 3, 3, 3])
        lits = [x if rng.random() < 0.5 else mk('not', x) for x in rng.sample(pool, min(k, len(pool)))]
        s.assert_(lits[0] if len(lits) == 1 else mk('or', *lits))
    return fin(s, 'cnf_atoms')


def p_difference(rng):
    """difference constraints with disjunctions (scheduling)"""
    n = rng.randrange(3, 7)
    s = base(rng, n, 0)
    vs = list(s.sorts)
    dur = {v: F(rng.randrange(1, 5)) for v in vs}
    horizon = F(rng.randrange(3, 14))
    for v in vs:
        s.assert_(mk('>=', V(v), N(0)))
        s.assert_(mk('<=', mk('+', V(v), ('num', dur[v])), ('num', horizon)))
    for i in range(n):
        for j in range(i + 1, n):
            if rng.random() < 0.6:
                a, b = vs[i], vs[j]
                s.assert_(mk('or', mk('>=', mk('-', V(b), V(a)), ('num', dur[a])),
                             mk('<=', mk('-', V(b), V(a)), ('num', -dur[b]))))
            elif rng.random() < 0.3:
                s.assert_(mk(rng.choice(['<', '<=', 'distinct']), V(vs[i]), V(vs[j])))
    return fin(s, 'difference')


def p_ite(rng):
    """ite definitions: max / abs / piecewise functions"""
    s = base(rng, rng.randrange(2, 5), rng.randrange(0, 3))
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    g = G(rng, s, consts=rng.choice(['small', 'frac']), nary=False)

    def piece(d):
        a = V(rng.choice(vs)) if d <= 0 else piece(d - 1)
        b = V(rng.choice(vs)) if rng.random() < 0.6 else g.lin(2)
        x = rng.random()
        if x < 0.3:
            return mk('ite', mk(rng.choice(['<', '>=']), a, b), a, b)
        if x < 0.5:
            return mk('ite', mk('>=', a, N(0)), a, mk('-', a))
        if x < 0.7:
            return mk('+', a, mk('*', ('num', g.nz()), b))
        return mk('ite', g.boolean(1), a, b)
    for _ in range(rng.randrange(2, 6)):
        s.assert_(mk(rng.choice(['<', '<=', '=', '>', '>=', 'distinct']), piece(rng.randrange(0, 3)), piece(0)))
    return fin(s, 'ite')


def p_bigcoef(rng):
    """coefficients and constants around machine-word boundaries"""
    nr = rng.randrange(1, 5)
    s = base(rng, nr, rng.randrange(0, 2))
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    g = G(rng, s, consts=rng.choice(['word', 'big', 'mixed']))
    m = {v: g.const() for v in vs}
    for _ in range(rng.randrange(2, 8)):
        _, t = lin_of(rng, g, vs, rng.randrange(1, 4))
        val = ev_lin(t, m)
        op = rng.choice(['<', '<=', '>', '>=', '=', '=', 'distinct'])
        if rng.random() < 0.3:
            val += rng.choice([F(1), F(-1), F(1, 2**31), F(-1, 2**33)])
        s.assert_(mk(op, t, ('num', val)))
    if rng.random() < 0.5:
        s.assert_(g.boolean(2))
    return fin(s, 'bigcoef')


def p_php(rng):
    """pigeonhole / at-most-one over booleans, optionally with reals as guards"""
    n = rng.randrange(3, 6)
    m = n if rng.random() < 0.3 else n - 1
    s = Script('QF_LRA')
    guard = rng.random() < 0.4
    for i in range(n):
        for j in range(m):
            s.declare('p_%d_%d' % (i, j), 'Real' if guard else 'Bool')

    def lit(i, j):
        v = V('p_%d_%d' % (i, j))
        return mk('>', v, N(0)) if guard else v
    for i in range(n):
        s.assert_(mk('or', *[lit(i, j) for j in range(m)]) if m > 1 else lit(i, 0))
    for j in range(m):
        for i in range(n):
            for k in range(i + 1, n):
                s.assert_(mk('or', mk('not', lit(i, j)), mk('not', lit(k, j))))
    return fin(s, 'php')


def p_3sat(rng):
    """random 3-SAT near the threshold"""
    n = rng.randrange(8, 40)
    s = base(rng, 0, n)
    vs = list(s.sorts)
    for _ in range(int(n * rng.choice([3.6, 4.0, 4.26, 4.6, 5.2]))):
        lits = [V(v) if rng.random() < 0.5 else mk('not', V(v)) for v in rng.sample(vs, 3)]
        s.assert_(mk('or', *lits))
    return fin(s, '3sat')


def p_parity(rng):
    """xor chains (hard for resolution, many learned clauses)"""
    n = rng.randrange(4, 10)
    s = base(rng, 0, n)
    vs = list(s.sorts)
    for _ in range(rng.randrange(n - 1, n + 3)):
        k = rng.randrange(2, 5)
        t = V(vs[rng.randrange(n)])
        for v in rng.sample(vs, min(k, n) - 1):
            t = mk('xor', t, V(v))
        s.assert_(t if rng.random() < 0.5 else mk('not', t))
    return fin(s, 'parity')


def p_equalities(rng):
    """chains of equalities and disequalities over real variables"""
    nr = rng.randrange(3, 9)
    s = base(rng, nr, rng.randrange(0, 3))
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    bs = [v for v in s.sorts if s.sorts[v] == 'Bool']
    for _ in range(rng.randrange(nr - 1, 2 * nr + 2)):
        a, b = rng.sample(vs, 2)
        x = rng.random()
        if x < 0.4:
            t = mk('=', V(a), V(b))
        elif x < 0.6:
            t = mk('=', V(a), mk('+', V(b), N(rng.randrange(-2, 3))))
        elif x < 0.8:
            t = mk('distinct', V(a), V(b))
        else:
            t = mk('=', V(a), N(rng.randrange(-1, 2)))
        if bs and rng.random() < 0.5:
            t = mk('or', t, V(rng.choice(bs)) if rng.random() < .5 else mk('not', V(rng.choice(bs))))
        elif rng.random() < 0.3:
            c, d = rng.sample(vs, 2)
            t = mk('or', t, mk(rng.choice(['=', '<', 'distinct']), V(c), V(d)))
        s.assert_(t)
    return fin(s, 'equalities')


def p_edge(rng):
    """degenerate shapes: trivial formulas, duplicate/opposite atoms, unused and fixed variables"""
    s = base(rng, rng.randrange(0, 3), rng.randrange(0, 3))
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    bs = [v for v in s.sorts if s.sorts[v] == 'Bool']
    g = G(rng, s, consts='small')
    opts = ['const', 'dup', 'opp', 'selfeq', 'zero', 'eq0', 'cancel']
    for _ in range(rng.randrange(0, 5)):
        k = rng.choice(opts)
        b = g.boolean(1)
        x = V(rng.choice(vs)) if vs else N(1)
        if k == 'const':
            t = mk('or', ('bool', rng.random() < .7), b)
        elif k == 'dup':
            t = mk('or', b, b)
        elif k == 'opp':
            t = mk(rng.choice(['or', 'and']), b, mk('not', b)) if rng.random() < .3 else mk('or', b, mk('not', b), g.boolean(1))
        elif k == 'selfeq':
            t = mk(rng.choice(['=', '<=', '>=']), x, x)
        elif k == 'zero':
            t = mk(rng.choice(['<=', '>=', '=']), mk('*', N(0), x), N(0))
        elif k == 'eq0':
            t = mk('=', mk('*', N(rng.choice([2, -1, 3])), x), N(0))
        else:
            t = mk(rng.choice(['<=', '<', '=']), mk('-', mk('+', x, N(1)), x), N(rng.randrange(0, 3)))
        s.assert_(t)
    return fin(s, 'edge')


def p_chain(rng):
    """bounds which follow from bounds: variables with intervals (often one of several), sums of them, sums of the sums,
    and demands at, just inside or just outside the interval of a sum"""
    n, m = rng.randrange(2, 6), rng.randrange(1, 5)
    s = base(rng, n + m, rng.randrange(1, 4))
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    bs = [v for v in s.sorts if s.sorts[v] == 'Bool']
    rng.shuffle(vs)

    def bl():
        b = V(rng.choice(bs))
        return b if rng.random() < .5 else mk('not', b)

    def le(a, b, strict):
        r = rng.random()
        if r < .35:
            return mk('<' if strict else '<=', a, b)
        if r < .7:
            return mk('>' if strict else '>=', b, a)
        return mk('not', mk('<=' if strict else '<', b, a))

    iv = {}
    rows = []
    for v in vs[:n]:
        opts = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            lo = F(rng.randrange(-4, 5), rng.choice([1, 1, 1, 2]))
            hi = lo + rng.choice([0, 0, F(1, 2), 1, 2, 3])
            opts.append((lo, hi, rng.random() < .2 and lo < hi, rng.random() < .2 and lo < hi))
        iv[v] = [(lo, hi) for lo, hi, _, _ in opts]
        alts = []
        for lo, hi, sl, sh in opts:
            if lo == hi and rng.random() < .6:
                alts.append(mk('=', V(v), N(lo)))
            elif rng.random() < .1:
                alts.append(le(N(lo), V(v), sl) if rng.random() < .5 else le(V(v), N(hi), sh))
            else:
                alts.append(mk('and', le(N(lo), V(v), sl), le(V(v), N(hi), sh)))
        if rng.random() < .25:
            alts.append(bl())
        rows.append(alts[0] if len(alts) == 1 else mk('or', *alts))
    known = list(vs[:n])
    for v in vs[n:]:
        k = rng.randrange(2, min(len(known), 5) + 1) if len(known) > 1 else 1
        part = rng.sample(known, k)
        co = {u: F(rng.choice([1, 1, 1, -1, -1, 2, -2, 3, F(1, 2)])) for u in part}
        c0 = F(rng.randrange(-3, 4)) if rng.random() < .4 else F(0)
        t = [mk('*', N(c), V(u)) if c != 1 else V(u) for u, c in co.items()] + ([N(c0)] if c0 else [])
        t = t[0] if len(t) == 1 else mk('+', *t)
        alts = []
        for _ in range(2):
            lo = hi = c0
            for u, c in co.items():
                a, b = rng.choice(iv[u])
                lo, hi = lo + min(c * a, c * b), hi + max(c * a, c * b)
            alts.append((lo, hi))
        iv[v] = alts
        r = rng.random()
        if r < .55:
            a = [mk('=', V(v), t)]
        elif r < .75:
            a = [le(V(v), t, False), le(t, V(v), False)]
        else:
            a = [le(V(v), t, rng.random() < .3)] if rng.random() < .5 else [le(t, V(v), rng.random() < .3)]
        for x in a:
            rows.append(mk('or', x, bl()) if rng.random() < .25 else x)
        known.append(v)
    for _ in range(rng.randrange(1, 4)):
        v = rng.choice(vs[n:] if rng.random() < .8 else vs)
        lo, hi = rng.choice(iv[v])
        e = rng.choice([0, 0, 0, F(1, 3), -F(1, 3), 1])
        r = rng.random()
        if r < .4:
            a = le(V(v), N(lo + e), rng.random() < .4)
        elif r < .8:
            a = le(N(hi + e), V(v), rng.random() < .4)
        elif r < .9:
            a = mk('=', V(v), N(rng.choice([lo, hi]) + e))
        else:
            a = mk('distinct', V(v), N(rng.choice([lo, hi]) + e))
        rows.append(mk('or', a, bl()) if rng.random() < .4 else a)
    rng.shuffle(rows)
    for a in rows:
        s.assert_(a)
    return fin(s, 'chain')


def p_pinch(rng):
    """variables pinched between bounds which meet in a value that may be forbidden; bounds and forbidden values come from
    sums of different lengths over variables with a few possible values"""
    n = rng.randrange(2, 7) if rng.random() < .8 else rng.randrange(7, 11)
    s = base(rng, n + rng.randrange(1, 3), rng.randrange(0, 3))
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    bs = [v for v in s.sorts if s.sorts[v] == 'Bool']
    rng.shuffle(vs)
    m = {v: F(rng.randrange(-4, 5), rng.choice([1, 1, 1, 2, 3])) for v in vs}
    rows = []

    def bl():
        b = V(rng.choice(bs))
        return b if rng.random() < .5 else mk('not', b)

    def add(a, p=.25):
        rows.append(mk('or', a, bl()) if bs and rng.random() < p else a)

    for v in vs[:n]:
        r = rng.random()
        if r < .2:
            add(mk('=', V(v), N(m[v])), .4)
        elif r < .6:
            add(mk('or', *[mk('=', V(v), N(m[v] + d)) for d in rng.sample([0, 0, 1, -1, F(1, 2)], rng.choice([2, 2, 3]))]), 0)
        elif r < .8:
            add(mk('<=', V(v), N(m[v])))
            add(mk('>=', V(v), N(m[v])))
        elif r < .9 and n > 1:
            u = rng.choice([u for u in vs[:n] if u != v])
            add(mk('=', mk('+', V(v), V(u)), N(m[v] + m[u])))

    def form(x, k):
        """x against a sum of k other variables with the value of x at the point"""
        part = rng.sample(vs[:n], min(k, n))
        co = {u: F(rng.choice([1, 1, -1, 2, -2, F(1, 2)])) for u in part}
        c = m[x] - sum(co[u] * m[u] for u in part)
        t = [mk('*', N(a), V(u)) if a != 1 else V(u) for u, a in co.items()] + ([N(c)] if c or not part else [])
        return t[0] if len(t) == 1 else mk('+', *t)

    for x in vs[n:]:
        strict = rng.random() < .1
        kind = rng.random()
        for op in ('>=', '<='):
            if kind < .2:
                op = '='
            t = form(x, rng.choice([0, 1, 1, 2, 3, 4, 5, 6, n]))
            add(mk(op[0] if strict and op != '=' else op, V(x), t))
            if rng.random() < .2:
                add(mk(op, V(x), form(x, rng.choice([0, 1, 2, 3]))))
            if kind < .2:
                break
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            t = form(x, rng.choice([0, 1, 2, 3, 4, 5, n]))
            if rng.random() < .15:
                t = mk('+', t, N(rng.choice([1, -1, F(1, 3)])))
            a = mk('distinct', V(x), t) if rng.random() < .5 else mk('not', mk('=', t, V(x)))
            add(a, .4)
    rng.shuffle(rows)
    for a in rows:
        s.assert_(a)
    return fin(s, 'pinch')


LRA_PROFILES = [(p_random, 5), (p_let_define, 3), (p_system, 4), (p_farkas, 4), (p_cnf_atoms, 5), (p_chain, 5), (p_pinch, 3), (p_difference, 2),
                (p_ite, 3), (p_bigcoef, 3), (p_php, 1), (p_3sat, 1), (p_parity, 1), (p_equalities, 2), (p_edge, 1), (p_wide, 1)]


# ------------------------------------------------------------ UF profiles
def decl_funs(rng, s, bools=True):
    sig = []
    for i in range(rng.randrange(1, 4)):
        k = rng.choice([1, 1, 1, 2, 2, 3])
        args = ['Bool' if bools and rng.random() < 0.2 else 'Real' for _ in range(k)]
        ret = 'Bool' if bools and rng.random() < 0.25 else 'Real'
        s.declare_fun('F%d' % i, args, ret)
        sig.append((args, ret))
    return sig


def u_random(rng):
    s = base(rng, rng.randrange(1, 4), rng.randrange(0, 3), 'QF_UFLRA')
    decl_funs(rng, s)
    g = G(rng, s, consts='small', apps=0.5, calls=0, let=0.05)
    for _ in range(rng.randrange(1, 6)):
        s.assert_(g.boolean(rng.randrange(1, 4)))
    return fin(s, 'uf_random')


def u_congruence(rng):
    """equalities between arguments and (dis)equalities between applications"""
    nr = rng.randrange(2, 6)
    s = base(rng, nr, rng.randrange(0, 3), 'QF_UFLRA')
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    bs = [v for v in s.sorts if s.sorts[v] == 'Bool']
    ar = rng.choice([1, 1, 2])
    s.declare_fun('F', ['Real'] * ar, 'Real')
    s.declare_fun('G', ['Real'], 'Real')
    if rng.random() < 0.4:
        s.declare_fun('P', ['Real'], 'Bool')

    def term(d):
        x = rng.random()
        if d <= 0 or x < 0.3:
            return V(rng.choice(vs))
        if x < 0.6:
            return ('app', 'F') + tuple(term(d - 1) for _ in range(ar))
        if x < 0.85:
            return ('app', 'G', term(d - 1))
        return mk('+', term(d - 1), N(rng.randrange(-1, 2)))
    for _ in range(rng.randrange(2, 9)):
        x = rng.random()
        if x < 0.5:
            t = mk('=', term(rng.randrange(0, 3)), term(rng.randrange(0, 3)))
        elif x < 0.8:
            t = mk('distinct', term(rng.randrange(0, 3)), term(rng.randrange(0, 3)))
        elif x < 0.9 or 'P' not in s.funs:
            t = mk(rng.choice(['<', '<=']), term(2), term(1))
        else:
            t = ('app', 'P', term(1))
            if rng.random() < .5:
                t = mk('not', t)
        if bs and rng.random() < 0.4:
            t = mk('or', t, V(rng.choice(bs)) if rng.random() < .5 else mk('not', V(rng.choice(bs))))
        s.assert_(t)
    return fin(s, 'uf_congruence')


def u_wide(rng):
    """functions of many arguments, which are sums of many variables; around a planted point"""
    nr = rng.randrange(4, 10)
    s = base(rng, nr, rng.randrange(0, 2), 'QF_UFLRA')
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    bs = [v for v in s.sorts if s.sorts[v] == 'Bool']
    m = {v: F(rng.randrange(-3, 4)) for v in vs}
    ar = rng.choice([1, 2, 4, 5, 6, 7])
    s.declare_fun('F', ['Real'] * ar, 'Real')
    fixed = rng.choice([.5, .8, 1])

    def bl():
        return V(rng.choice(bs)) if rng.random() < .5 else mk('not', V(rng.choice(bs)))
    rows = []
    for v in vs:
        if rng.random() < fixed:
            x = rng.random()
            if x < .5:
                rows.append(mk('=', V(v), N(m[v])))
            elif x < .8:
                rows.append(mk('or', mk('=', V(v), N(m[v])), mk('=', V(v), N(m[v] + 1))))
            else:
                u = rng.choice(vs)
                rows.append(mk('=', mk('-', V(v), V(u)), N(m[v] - m[u])) if u != v else mk('>=', V(v), N(m[v])))

    def arg(val):
        """a sum with the given value at the point"""
        k = rng.choice([0, 1, 1, 2, 3, 4, 6, 8])
        part = rng.sample(vs, min(k, nr))
        co = {u: F(rng.choice([1, 1, -1, 2])) for u in part}
        c = val - sum(co[u] * m[u] for u in part)
        t = [mk('*', N(a), V(u)) if a != 1 else V(u) for u, a in co.items()] + ([N(c)] if c or not part else [])
        rng.shuffle(t)
        return t[0] if len(t) == 1 else mk('+', *t)
    vals = [[F(rng.randrange(-2, 3)) for _ in range(ar)] for _ in range(2)]
    out = [F(rng.randrange(0, 4)) for _ in vals]
    apps = []
    for _ in range(rng.randrange(2, 5)):
        k = rng.randrange(len(vals))
        a = ('app', 'F') + tuple(arg(x) for x in vals[k])
        apps.append(a)
        x = rng.random()
        if x < .4:
            t = mk('=', a, N(out[k]))
        elif x < .7:
            t = mk(rng.choice(['<', '<=', '>', 'distinct']), a, arg(out[k]))
        else:
            t = mk(rng.choice(['=', 'distinct']), a, rng.choice(apps))
        if bs and rng.random() < .2:
            t = mk('or', t, bl())
        rows.append(t)
    rng.shuffle(rows)
    for t in rows:
        s.assert_(t)
    return fin(s, 'uf_wide')


def u_pigeon(rng):
    """F maps n bounded points into few values: disequalities force a congruence conflict"""
    n = rng.randrange(2, 5)
    s = base(rng, n, 0, 'QF_UFLRA')
    vs = list(s.sorts)
    s.declare_fun('F', ['Real'], 'Real')
    vals = rng.randrange(1, n + 1)
    for v in vs:
        s.assert_(mk('or', *[mk('=', V(v), N(i)) for i in range(vals)]) if vals > 1 else mk('=', V(v), N(0)))
    for i in range(n):
        for j in range(i + 1, n):
            if rng.random() < 0.8:
                s.assert_(mk('distinct', ('app', 'F', V(vs[i])), ('app', 'F', V(vs[j]))))
    if rng.random() < .5:
        s.assert_(mk('=', ('app', 'F', mk('+', V(vs[0]), N(1))), V(vs[-1])))
    return fin(s, 'uf_pigeon')


def u_bool(rng):
    """functions with Bool arguments / results"""
    s = base(rng, rng.randrange(1, 3), rng.randrange(1, 4), 'QF_UFLRA')
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    bs = [v for v in s.sorts if s.sorts[v] == 'Bool']
    s.declare_fun('B', ['Bool'], 'Real')
    s.declare_fun('Q', ['Real', 'Bool'], 'Bool')
    g = G(rng, s, consts='small', apps=0.6, calls=0, let=0)
    for _ in range(rng.randrange(2, 6)):
        x = rng.random()
        if x < 0.4:
            t = mk(rng.choice(['=', '<', 'distinct']), ('app', 'B', g.boolean(rng.randrange(0, 2))), N(rng.randrange(0, 3)))
        elif x < 0.7:
            t = ('app', 'Q', V(rng.choice(vs)), g.boolean(rng.randrange(0, 2)))
            if rng.random() < .5:
                t = mk('not', t)
        else:
            t = g.boolean(2)
        s.assert_(t)
    return fin(s, 'uf_bool')


def u_mixed(rng):
    """applications inside linear arithmetic with tight bounds"""
    s = base(rng, rng.randrange(2, 5), rng.randrange(0, 2), 'QF_UFLRA')
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    s.declare_fun('F', ['Real'], 'Real')
    s.declare_fun('H', ['Real', 'Real'], 'Real')
    g = G(rng, s, consts='small')
    terms = [V(v) for v in vs]
    for _ in range(rng.randrange(2, 6)):
        a = rng.choice(terms)
        if rng.random() < 0.6:
            arg = a if rng.random() < .6 else mk('+', a, mk('*', ('num', g.nz()), rng.choice(terms)))
            terms.append(('app', 'F', arg))
        else:
            terms.append(('app', 'H', a, rng.choice(terms + [N(rng.randrange(-1, 2))])))
    for _ in range(rng.randrange(3, 9)):
        k = rng.randrange(1, 4)
        ts = [rng.choice(terms) for _ in range(k)]
        t = ts[0]
        if k > 1:
            t = mk('+', *[x if rng.random() < .5 else mk('*', ('num', g.nz()), x) for x in ts])
        t = mk(rng.choice(['<', '<=', '=', '>=', 'distinct', '=']), t, N(rng.randrange(-2, 3)))
        if rng.random() < .25:
            t = mk('or', t, mk('=', rng.choice(terms), rng.choice(terms)))
        s.assert_(t)
    return fin(s, 'uf_mixed')


# ------------------------------------------------------------ larger, conflict-rich
def p_hard3sat(rng):
    """random 3-SAT at the threshold, big enough for restarts and clause deletion"""
    n = rng.randrange(60, 151)
    s = base(rng, 0, n)
    vs = list(s.sorts)
    for _ in range(int(n * rng.choice([4.1, 4.26, 4.26, 4.5, 5]))):
        lits = [V(v) if rng.random() < 0.5 else mk('not', V(v)) for v in rng.sample(vs, 3)]
        s.assert_(mk('or', *lits))
    return fin(s, 'hard3sat')


def p_hardcnf(rng):
    """CNF over many arithmetic atoms of few variables"""
    nr = rng.randrange(3, 9)
    s = base(rng, nr, rng.randrange(0, 12))
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    bs = [v for v in s.sorts if s.sorts[v] == 'Bool']
    g = G(rng, s, consts=rng.choice(['small', 'small', 'frac']))
    pool = [V(b) for b in bs]
    for _ in range(rng.randrange(20, 50)):
        _, t = lin_of(rng, g, vs, rng.choice([1, 1, 2, 2, 3]))
        pool.append(mk(rng.choice(['<', '<=', '>', '>=', '=']), t, ('num', g.const())))
    for _ in range(int(len(pool) * rng.choice([2.5, 3, 3.5, 4]))):
        lits = [x if rng.random() < 0.5 else mk('not', x) for x in rng.sample(pool, 3)]
        s.assert_(mk('or', *lits))
    return fin(s, 'hardcnf')


def p_sched(rng):
    """job shop: difference constraints with a tight horizon"""
    n = rng.randrange(5, 9)
    s = base(rng, n, 0)
    vs = list(s.sorts)
    dur = {v: F(rng.randrange(1, 6), rng.choice([1, 1, 2])) for v in vs}
    groups = 1 if n < 7 else 2
    tot = sum(dur.values())
    horizon = tot / groups + rng.choice([F(-1), F(0), F(1, 2), F(1), F(2)])
    grp = {v: i % groups for i, v in enumerate(vs)}
    for v in vs:
        s.assert_(mk('>=', V(v), N(0)))
        s.assert_(mk('<=', mk('+', V(v), ('num', dur[v])), ('num', horizon)))
    for i in range(n):
        for j in range(i + 1, n):
            a, b = vs[i], vs[j]
            if grp[a] == grp[b]:
                s.assert_(mk('or', mk('>=', mk('-', V(b), V(a)), ('num', dur[a])),
                             mk('<=', mk('-', V(b), V(a)), ('num', -dur[b]))))
            elif rng.random() < 0.2:
                s.assert_(mk('<=', mk('+', V(a), ('num', dur[a])), V(b)))
    return fin(s, 'sched')


def p_hardparity(rng):
    n = rng.randrange(14, 40)
    s = base(rng, 0, n)
    vs = list(s.sorts)
    for _ in range(rng.randrange(n - 1, n + 2)):
        a, b, c = rng.sample(vs, 3)
        t = mk('xor', mk('xor', V(a), V(b)), V(c))
        s.assert_(t if rng.random() < 0.5 else mk('not', t))
    return fin(s, 'hardparity')


def u_hard(rng):
    """CNF over equalities and inequalities between nested applications"""
    nr = rng.randrange(3, 8)
    s = base(rng, nr, rng.randrange(0, 4), 'QF_UFLRA')
    vs = [v for v in s.sorts if s.sorts[v] == 'Real']
    bs = [v for v in s.sorts if s.sorts[v] == 'Bool']
    s.declare_fun('F', ['Real'], 'Real')
    s.declare_fun('H', ['Real', 'Real'], 'Real')
    if rng.random() < .4:
        s.declare_fun('P', ['Real'], 'Bool')
    terms = [V(v) for v in vs]
    for _ in range(rng.randrange(6, 16)):
        if rng.random() < .6:
            terms.append(('app', 'F', rng.choice(terms)))
        else:
            terms.append(('app', 'H', rng.choice(terms), rng.choice(terms)))
    pool = [V(b) for b in bs]
    for _ in range(rng.randrange(20, 60)):
        if 'P' in s.funs and rng.random() < .15:
            pool.append(('app', 'P', rng.choice(terms)))
            continue
        a, b = rng.sample(terms, 2)
        x = rng.random()
        if x < .5:
            pool.append(mk('=', a, b))
        elif x < .8:
            pool.append(mk(rng.choice(['<', '<=']), a, b))
        else:
            pool.append(mk(rng.choice(['<', '<=', '=']), a, N(rng.randrange(-2, 3))))
    for _ in range(int(len(pool) * rng.choice([1.4, 1.7, 2, 2.4]))):
        lits = [x if rng.random() < 0.5 else mk('not', x) for x in rng.sample(pool, rng.choice([2, 3, 3]))]
        s.assert_(mk('or', *lits))
    return fin(s, 'uf_hard')


UF_PROFILES = [(u_random, 4), (u_congruence, 4), (u_pigeon, 2), (u_bool, 3), (u_mixed, 3), (u_wide, 2)]


def pick(rng, profiles):
    tot = sum(w for _, w in profiles)
    x = rng.randrange(tot)
    for p, w in profiles:
        if x < w:
            return p(rng)
        x -= w


def gen(rng, uf=None):
    if uf is None:
        uf = rng.random() < 0.3
    return pick(rng, UF_PROFILES if uf else LRA_PROFILES)
