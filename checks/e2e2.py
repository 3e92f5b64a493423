"""End-to-end checks, part two: differential, syntactic, erroneous, incremental and DIMACS workloads."""
import copy
import os
import random
import subprocess
import tempfile
from fractions import Fraction as F

import build
import e2e
import oracle
import runner
import smtast
import smtgen
from e2e import abnormal, crash_detail, get_exec, note, opt_join, rep
from smtast import Script

V, N, mk = smtgen.V, smtgen.N, smtgen.mk


def pick_script(rng, p_uf=0.3, p_large=0.02):
    if rng.random() < p_large:
        return e2e.sized(rng) if rng.random() > p_uf else e2e.uf_sized(rng)
    return smtgen.gen(rng, rng.random() < p_uf)


# ------------------------------------------------------------------ C03
ALL_OPTS = [opt_join(a, b, c, d) for a in ('', 'prop_rational') for b in ('', 'deduce_bounds')
            for c in ('', 'positive', 'negative', 'cache') for d in ('', 'stats')]


def c03(chk):
    exes = build.build([('smt_batch', 'debug'), ('smt_batch', 'release')])

    def case(ctx, i, rng, large=False):
        s = pick_script(rng, p_large=1.0) if large else pick_script(rng)
        if rng.random() < .15:
            e2e.multi(s, rng)
        txt = smtast.script_str(s, rng, noise=True)
        k = 3 if large else 5
        confs = [('debug', '-'), ('release', rng.choice(ALL_OPTS))]
        confs += [(rng.choice(['debug', 'release']), o) for o in rng.sample(ALL_OPTS, k)]
        base = None
        for cfg, o in confs:
            ctx.count('runs ' + cfg)
            for w in o.split(','):
                ctx.count('runs with ' + w)
            r = get_exec(ctx, cfg, exes[('smt_batch', cfg)]).run(txt, o)
            a = abnormal(r)
            if a:
                ctx.seen(txt)
                return ctx.violation(a, crash_detail(r), rep(s, txt, o, r, cfg))
            j = oracle.examine(s, r.out, verdicts=False)
            note(ctx, s, txt, cfg + o, j)
            for kind, d in j.problems:
                return ctx.violation('%s:%s' % (kind, s.tag), '%s %s: %s' % (cfg, o, d), rep(s, txt, o, r, cfg))
            ans = tuple(j.answers)
            if base is None:
                base = ans
            elif ans != base:
                return ctx.violation('answers:' + s.tag, 'debug - %s, %s %s %s' % (base, cfg, o, ans), rep(s, txt, o, r, cfg))
            ctx.count('answer sequences compared')
    chk.stage('random', chk.n(8000, 150000), case)
    chk.stage('large', chk.n(400, 6000), lambda c, i, r: case(c, i, r, True))


# ------------------------------------------------------------------ C06
def dimacs_gen(rng):
    """(number of variables, clauses, family)"""
    x = rng.random()
    if x < .12:
        n = rng.randrange(0, 4)
        cl = [[rng.choice([-1, 1]) * rng.randrange(1, n + 1) for _ in range(rng.randrange(0 if rng.random() < .3 else 1, 4))] if n else []
              for _ in range(rng.randrange(0, 9))]
        if n == 0:
            cl = cl[:rng.randrange(0, 2)]
        return n, cl, 'tiny'
    if x < .55:
        n = rng.randrange(3, 13)
        k = rng.choice([2, 3, 3, 3])
        m = int(n * {2: rng.choice([.8, 1.2, 2]), 3: rng.choice([2, 3.5, 4.3, 5])}[k])
        cl = [[rng.choice([-1, 1]) * rng.randrange(1, n + 1) for _ in range(rng.choice([1, 2, k, k, k]))] for _ in range(m)]
        return n, cl, 'small'
    if x < .7:
        # pigeonhole, at-most-one, parity
        h = rng.randrange(2, 5)
        p = h + rng.randrange(0, 2)
        v = lambda i, j: i * h + j + 1
        cl = [[v(i, j) for j in range(h)] for i in range(p)]
        for j in range(h):
            for a in range(p):
                for b in range(a + 1, p):
                    cl.append([-v(a, j), -v(b, j)])
        rng.shuffle(cl)
        if rng.random() < .3:
            cl.pop(rng.randrange(len(cl)))
        return p * h, cl, 'php'
    if x < .82:
        # implication chains: long propagation, then a contradiction or not
        n = rng.randrange(5, 80)
        cl = [[-i, i + 1] for i in range(1, n)]
        if rng.random() < .5:
            cl.append([1])
        if rng.random() < .5:
            cl.append([-n])
        if rng.random() < .5:
            cl.append([1, n])
        rng.shuffle(cl)
        return n, cl, 'chain'
    n = rng.randrange(20, 90)
    r = rng.choice([3.6, 4.1, 4.26, 4.5])
    cl = [[rng.choice([-1, 1]) * v for v in rng.sample(range(1, n + 1), 3)] for _ in range(int(n * r))]
    for _ in range(rng.randrange(0, 4)):
        cl.append([rng.choice([-1, 1]) * rng.randrange(1, n + 1)])
    return n, cl, '3sat'


def dimacs_str(n, cl, rng):
    out = []

    def comment():
        while rng.random() < .12:
            out.append(rng.choice(['c', 'c hello 1 2 0', 'c p cnf 1 1', '', '  ', '   c indented', 'c\t', '\tc 1 0', 'cnf 1 0', '\t']))
    comment()
    out.append(rng.choice(['p cnf %d %d', 'p cnf %d %d', ' p cnf %d %d', '\tp cnf %d %d', ' \t p cnf %d %d', 'p cnf  %d   %d ', 'p cnf\t%d\t%d']) % (n, len(cl)))
    style = rng.choice(['line', 'line', 'split', 'join'])
    toks = []
    for c in cl:
        c = list(c)
        if c and rng.random() < .05:
            c.append(rng.choice(c))            # duplicate literal
        if c and rng.random() < .03:
            c.append(-rng.choice(c))           # tautology
        toks.append([str(x) for x in c] + ['0'])
    norm = [[int(x) for x in t[:-1]] for t in toks]
    sep = lambda: rng.choice([' ', ' ', ' ', '  ', '\t'])
    if style == 'line':
        for t in toks:
            comment()
            out.append(rng.choice(['', '', ' ', '\t']) + sep().join(t) + rng.choice(['', '', ' ']))
    else:
        cur = []
        for t in toks:
            for x in t:
                cur.append(x)
                if rng.random() < (.3 if style == 'split' else .08):
                    out.append(sep().join(cur))
                    cur = []
                    comment()
        if cur:
            out.append(sep().join(cur))
    comment()
    nl = '\r\n' if rng.random() < .05 else '\n'
    return nl.join(out) + ('' if rng.random() < .1 else nl), norm


def brute(n, cl):
    """bit-parallel truth table"""
    N_ = 1 << n
    full = (1 << N_) - 1
    col = []
    for i in range(n):
        b = 1 << i
        # bits where variable i is 1
        pat = ((1 << b) - 1) << b
        w = 2 * b
        while w < N_:
            pat |= pat << w
            w *= 2
        col.append(pat)
    f = full
    for c in cl:
        m = 0
        for l in c:
            m |= col[l - 1] if l > 0 else full ^ col[-l - 1]
        f &= m
        if not f:
            return False
    return bool(f)


def z3_cnf(n, cl):
    import z3
    vs = [z3.Bool('v%d' % i) for i in range(n)]
    s = z3.Solver()
    s.set('timeout', 8000)
    for c in cl:
        s.add(z3.Or(*[vs[l - 1] if l > 0 else z3.Not(vs[-l - 1]) for l in c]))
    r = str(s.check())
    return None if r == 'unknown' else r == 'sat'


class Proc:
    """one-shot runs of an executable on a file in a private scratch directory"""

    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='vp-')

    def stop(self):
        import shutil
        shutil.rmtree(self.d, ignore_errors=True)

    def run(self, argv, data=None, name='in', env=None, timeout=60, cwd=None):
        path = os.path.join(self.d, name)
        if data is not None:
            with open(path, 'wb') as f:
                f.write(data.encode('utf-8', 'surrogateescape') if isinstance(data, str) else data)
        try:
            p = subprocess.run([a.replace('@', path) if a == '@' else a for a in argv], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=env or runner.ENV, timeout=timeout, cwd=cwd or self.d)
        except subprocess.TimeoutExpired:
            return None, b'', b''
        return p.returncode, p.stdout, p.stderr


def sub_header(t, f):
    """replaces the problem line"""
    ls = t.replace('\r\n', '\n').split('\n')
    for k, l in enumerate(ls):
        if l.strip().startswith('p cnf'):
            ls[k] = f
            break
    return '\n'.join(ls)


def second_header(t, n, m, rng):
    """another problem line anywhere behind the first one; the counts may fit the rest of the file or nothing"""
    ls = t.replace('\r\n', '\n').rstrip('\n').split('\n')
    k = next(k for k, l in enumerate(ls) if l.strip().startswith('p cnf'))
    h = rng.choice(['', ' ', '\t']) + 'p cnf %d %d' % (rng.choice([n, n, n + 1, 0, 1]), rng.choice([m, 0, 0, 1, m + 1]))
    ls.insert(rng.choice([k + 1, len(ls), len(ls), rng.randrange(k + 1, len(ls) + 1)]), h)
    return '\n'.join(ls) + '\n'


BAD_DIMACS = [
    ('no header', lambda t, n, m, rng: '\n'.join(l for l in t.split('\n') if not l.strip().startswith('p'))),
    ('empty file', lambda t, n, m, rng: ''),
    ('only comments', lambda t, n, m, rng: 'c nothing\nc here\n'),
    ('duplicate header', lambda t, n, m, rng: t.rstrip('\n') + '\np cnf %d %d\n' % (n, m)),
    ('duplicate header', lambda t, n, m, rng: second_header(t, n, m, rng)),
    ('duplicate header', lambda t, n, m, rng: second_header(t, n, m, rng)),
    ('clause before header', lambda t, n, m, rng: '1 0\n' + t),
    ('missing clauses', lambda t, n, m, rng: sub_header(t, 'p cnf %d %d' % (n, m + rng.randrange(1, 5)))),
    ('out of range', lambda t, n, m, rng: 'p cnf %d %d\n%d 0\n' % (n, m + 1, rng.choice([1, -1]) * (n + rng.randrange(1, 4))) +
        '\n'.join(l for l in t.split('\n') if not l.strip().startswith('p'))),
    ('bad header', lambda t, n, m, rng: sub_header(t, rng.choice(['p cnf x %d' % m, 'p cnf -3 1', 'p cnf 2 -1', 'p cnf 3', 'p cnf', 'p cnf a b']))),
]


def c06(chk):
    exes = build.build([('sat', 'debug'), ('sat', 'release')])

    def case(ctx, i, rng):
        n, cl, fam = dimacs_gen(rng)
        txt, norm = dimacs_str(n, cl, rng)
        cfg = rng.choice(['debug', 'release'])
        exe = exes[('sat', cfg)]
        p = ctx.get('proc', Proc)
        rc, out, err = p.run([exe, '@'], txt)
        if rc is None:
            rc, out, err = p.run([exe, '@'], txt, timeout=240)
        ctx.seen(txt, len(norm) > 0)
        ctx.count('family ' + fam)
        R = {'file': txt, 'build': cfg, 'exit': rc, 'stdout': out.decode('utf-8', 'replace'), 'stderr': err.decode('utf-8', 'replace')[-1500:]}
        if rc is None:
            return ctx.violation('hang', 'no answer in 240 s', R)
        want = brute(n, norm) if n <= 12 else z3_cnf(n, norm)
        if want is None:
            return ctx.inconclusive('reference timeout')
        ctx.count('truth tables' if n <= 12 else 'answers compared with z3')
        ctx.count('satisfiable' if want else 'unsatisfiable')
        lines = out.decode('utf-8', 'replace').split('\n')
        for l in lines:
            if l.startswith('conflicts = '):
                ctx.count('conflicts', int(l[12:]))
            if l.startswith('restarts = '):
                ctx.count('restarts', int(l[11:]))
        ans = [l for l in lines if l in ('SAT', 'UNSAT', 'ERROR')]
        if ans != ['SAT' if want else 'UNSAT'] or rc != (1 if want else 0):
            return ctx.violation('answer:' + fam, 'expected %s, got %s exit %s\n%s' % ('SAT' if want else 'UNSAT', ans, rc, R['stderr']), R)

    def bad(ctx, i, rng):
        n, cl, fam = dimacs_gen(rng)
        n = max(n, 1)
        cl = [c for c in cl if c] or [[1]]
        txt, norm = dimacs_str(n, cl, rng)
        name, f = BAD_DIMACS[i % len(BAD_DIMACS)]
        txt = f(txt, n, len(cl), rng)
        cfg = rng.choice(['debug', 'release'])
        rc, out, err = ctx.get('proc', Proc).run([exes[('sat', cfg)], '@'], txt)
        ctx.seen(txt)
        ctx.count('malformed: ' + name)
        R = {'file': txt, 'build': cfg, 'exit': rc, 'stdout': out.decode('utf-8', 'replace'), 'stderr': err.decode('utf-8', 'replace')[-1500:]}
        o = out.decode('utf-8', 'replace')
        if rc != 255 or 'SAT' in o or 'ERROR' in o or not err.strip():
            ctx.violation('malformed:' + name, 'exit %s, stdout %r, stderr %r' % (rc, o[:100], err[:100]), R)
    chk.stage('wellformed', chk.n(16000, 200000), case)
    chk.stage('malformed', chk.n(2400, 20000), bad)


# ------------------------------------------------------------------ C08
def pinned(rng, logic='QF_LRA'):
    """all constants pinned to values; a term is compared with its exact value: the answer is known"""
    s = smtgen.base(rng, rng.randrange(1, 4), rng.randrange(1, 3), logic)
    g = smtgen.G(rng, s, consts=rng.choice(['small', 'frac', 'mixed']), let=rng.choice([.1, .35]), calls=.45)
    add_defs(rng, s, g)
    env = {}
    for n, so in s.sorts.items():
        env[n] = rng.random() < .5 if so == 'Bool' else F(rng.randrange(-5, 6), rng.choice([1, 1, 2, 3]))
        s.assert_(mk('=', V(n), ('num', env[n]) if so == 'Real' else ('bool', env[n])))
    so = rng.choice(['Real', 'Bool'])
    t = g.real(rng.randrange(2, 5)) if so == 'Real' else g.boolean(rng.randrange(2, 5))
    v = smtast.evaluate(t, env, {}, s.defs)
    lit = ('num', v) if so == 'Real' else ('bool', v)
    neg = rng.random() < .5
    s.assert_(mk('distinct' if neg else '=', t, lit) if rng.random() < .5 else mk('distinct' if neg else '=', lit, t))
    s.expect = 'unsat' if neg else 'sat'
    return smtgen.fin(s, 'pinned')


def add_defs(rng, s, g):
    for i in range(rng.randrange(1, 5)):
        params = []
        for j in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
            n = 'm%d' % j if rng.random() < .5 else rng.choice(list(s.sorts) + list(s.defs))
            if n in [p[0] for p in params]:
                n = 'm%d' % j
            params.append((n, rng.choice(['Real', 'Real', 'Bool'])))
        ret = rng.choice(['Real', 'Bool'])
        new = dict(s.sorts)
        new.update(dict(params))
        g.scope.append(new)
        body = g.real(rng.randrange(0, 4)) if ret == 'Real' else g.boolean(rng.randrange(0, 4))
        g.scope.pop()
        s.define_fun('fn%d' % i if rng.random() < .8 else 'm%d fn' % i, tuple(params), ret, body)


def free_lets(rng):
    uf = rng.random() < .3
    s = smtgen.base(rng, rng.randrange(1, 4), rng.randrange(1, 3), 'QF_UFLRA' if uf else 'QF_LRA')
    if uf:
        smtgen.decl_funs(rng, s)
    g = smtgen.G(rng, s, consts='small', let=rng.choice([.1, .3]), calls=.5)
    if rng.random() < .8:
        add_defs(rng, s, g)
    for _ in range(rng.randrange(1, 5)):
        s.assert_(g.boolean(rng.randrange(2, 5)))
    return smtgen.fin(s, 'uf_lets' if uf else 'lets')


def c08(chk):
    exe = build.build([('smt_batch', 'debug')])[('smt_batch', 'debug')]

    def case(ctx, i, rng):
        s = free_lets(rng) if i % 2 else pinned(rng)
        try:
            x = Script(s.logic)
            x.sorts, x.funs, x.tag = s.sorts, s.funs, s.tag
            for c in s.cmds:
                if c[0] == 'assert':
                    x.assert_(smtast.expand(c[1], s.defs))
                elif c[0] != 'define-fun':
                    x.cmds.append(c)
        except smtast.TooBig:
            return ctx.count('too big')
        if sum(smtast.size(t) for t in x.assertions()) > 8000:
            return ctx.count('too big')
        txt, xtxt = smtast.script_str(s), smtast.script_str(x)
        ex = get_exec(ctx, 'debug', exe)
        o = '-'
        res = []
        for sc, t in ((s, txt), (x, xtxt)):
            r = ex.run(t, o)
            a = abnormal(r)
            if a:
                # an abort on a let-free script is not about binding
                ctx.seen(txt)
                if sc is s:
                    r2 = ex.run(xtxt, o)
                    if not abnormal(r2):
                        return ctx.violation(a, crash_detail(r), rep(sc, t, o, r, 'debug'))
                return ctx.inconclusive('both abnormal')
            j = oracle.examine(sc, r.out, verdicts=False)
            res.append((r, j))
        (r, j), (rx, jx) = res
        note(ctx, s, txt, o, j)
        ctx.count('expanded pairs compared')
        ctx.count('binders', txt.count('(let ') + txt.count('define-fun'))
        if txt.count('(let ') + txt.count('define-fun') == 0:
            ctx.count('without binders')
        D = rep(s, txt, o, r, 'debug')
        D['expanded'] = xtxt
        D['expanded output'] = rx.out[:2000]
        if j.answers != jx.answers:
            return ctx.violation('answers:' + s.tag, 'with binders %s, expanded %s' % (j.answers, jx.answers), D)
        if s.expect and j.answers != [s.expect]:
            return ctx.violation('value:' + s.tag, 'expected %s, answered %s' % (s.expect, j.answers), D)
        for kind, d in j.problems:
            if kind == 'model' and jx.problems:
                ctx.inconclusive('both models wrong')
                break
            return ctx.violation('%s:%s' % (kind, s.tag), d, D)
        # the model printed for the expanded script satisfies the original one
        for k, m in enumerate(jx.models):
            if m and jx.verified[k]:
                bad = oracle.eval_model(m[0], m[1], s, s.assertions())
                ctx.count('models evaluated crosswise')
                if bad:
                    return ctx.violation('cross:' + s.tag, bad, D)
    chk.stage('random', chk.n(30000, 600000), case)


# ------------------------------------------------------------------ C20
def noise_env(rng):
    e = dict(runner.ENV)
    e['MALLOC_PERTURB_'] = str(rng.randrange(1, 255))
    if rng.random() < .05:
        e['GLIBC_TUNABLES'] = rng.choice(['glibc.malloc.mmap_threshold=4096', 'glibc.malloc.tcache_count=0', 'glibc.malloc.top_pad=1',
                                          'glibc.malloc.mxfast=0'])
    for k in range(rng.randrange(0, 30)):
        e['PAD_%d' % k] = 'x' * rng.randrange(1, 400)
    e['LC_ALL'] = rng.choice(['C', 'C.UTF-8', 'POSIX', 'de_DE.UTF-8'])
    e['TZ'] = rng.choice(['UTC', 'Asia/Tokyo'])
    return e


OPT_ARG = {'prop_rational': ['--prop-rational'], 'deduce_bounds': ['--deduce-bounds'], 'stats': ['--print-stats'],
           'positive': ['--phase', 'positive'], 'negative': ['--phase', 'negative'], 'cache': ['--phase', 'cache']}


def argv_of(o):
    return [a for w in o.split(',') if w in OPT_ARG for a in OPT_ARG[w]]


def c20(chk):
    exes = build.build([('smt', 'release'), ('smt_batch', 'release')])

    def case(ctx, i, rng, large=False):
        s = pick_script(rng, p_large=1.0 if large else .05)
        if rng.random() < .2:
            e2e.multi(s, rng)
        txt = smtast.script_str(s, rng, noise=True)
        o = rng.choice(ALL_OPTS)
        if 'stats' not in o and rng.random() < .7:
            o = opt_join(o, 'stats')
        runs = []
        p = ctx.get('proc', Proc)
        for k in range(2):
            rc, out, err = p.run([exes[('smt', 'release')]] + argv_of(o) + ['@'], txt, env=noise_env(rng) if k else None,
                                 name=rng.choice(['a.smt2', 'b', 'long-%d.smt2' % rng.randrange(1000)]))
            if rc is None or rc < 0:
                return ctx.inconclusive('abnormal end')
            runs.append(('process %d' % k, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')))
        for k, nm in enumerate(('batch A', 'batch B')):
            b = get_exec(ctx, nm, exes[('smt_batch', 'release')])
            if k:      # different history
                b.run(smtast.script_str(smtgen.gen(rng)), rng.choice(ALL_OPTS))
            r = b.run(txt, o)
            if r.status in ('crash', 'hang'):
                return ctx.inconclusive('abnormal end')
            runs.append((nm, r.out, ('Error: ' + r.msg + '\n') if r.status == 'error' else r.msg))
        ctx.seen(txt + o)
        ctx.count('byte-compared outputs', len(runs))
        ctx.count('bytes compared', sum(len(x[1]) for x in runs))
        for nm, out, err in runs[1:]:
            if out != runs[0][1] or err != runs[0][2]:
                return ctx.violation('differs:' + nm, '%s\n---- %s\n%s' % (runs[0][1][:600], nm, out[:600]),
                                     {'script': txt, 'options': o, 'first': runs[0][1], 'other': out, 'how': nm,
                                      'stderr': runs[0][2], 'other stderr': err})
    chk.stage('random', chk.n(8000, 150000), case)
    chk.stage('large', chk.n(500, 8000), lambda c, i, r: case(c, i, r, True))


# ------------------------------------------------------------------ C21
def bad_terms(rng, s, known):
    """texts of ill-formed assertions' bodies, with balanced parentheses"""
    R = [n for n in known if s.sorts.get(n) == 'Real']
    B = [n for n in known if s.sorts.get(n) == 'Bool']
    q = smtast.sym
    x = q(rng.choice(R)) if R else '1'
    a = q(rng.choice(B)) if B else 'true'
    out = ['undeclared_symbol', '(> undeclared_symbol 1)', '(and %s undeclared_symbol)' % a, '(undeclared_fun %s)' % x,
           '(or %s (undeclared_fun %s %s))' % (a, x, x), x, '(+ %s 1)' % x, '(and %s %s)' % (x, a), '(or %s 1)' % a, '(not %s)' % x,
           '(= 1 (+ %s 1))' % a, '(< %s 1)' % a, '(= %s %s)' % (x, a), '(= %s %s)' % (a, x), '(distinct %s %s)' % (x, a),
           '(ite %s %s %s)' % (x, a, a), '(= (ite %s %s %s) 1)' % (a, x, a), '(ite %s %s %s)' % (a, x, x), '(ite %s %s %s)' % (a, a, x),
           '(=> %s %s)' % (a, x), '(xor %s %s)' % (a, x), '(not %s %s)' % (a, a), '(not)', '(ite %s %s)' % (a, a),
           '(ite %s %s %s %s)' % (a, a, a, a), '(= 1 (-))', '(= 1 (/ %s))' % x, '(< %s)' % x, '(=> %s)' % a, '(=)', '(xor %s)' % a,
           '(let ((q (+ 1 %s))) %s)' % (a, a), '(let ((q %s)) (and q %s))' % (x, a), '()', '(and %s (or %s (not %s)))' % (a, a, x),
           '(let ((undeclared_l 1)) (> undeclared_m undeclared_l))', '(and (let ((lq %s)) (> lq 0)) (> lq 1))' % x]
    if R:
        y = q(rng.choice(R))
        out += ['(= (* %s %s) 1)' % (x, y), '(> (* %s (+ %s 1)) 0)' % (x, y), '(= (/ 1 %s) 1)' % x, '(= (/ %s %s) 1)' % (y, x),
                '(and %s (< (* %s %s) 2))' % (a, x, y), '(= (* (ite %s %s 1) %s) 2)' % (a, x, y)]
    for f, (args, ret) in s.funs.items():
        if f not in known:
            continue
        good = [x if so == 'Real' else a for so in args]
        wrap = (lambda t: t) if ret == 'Bool' else (lambda t: '(= 1 %s)' % t)
        out.append(wrap('(%s %s %s)' % (q(f), ' '.join(good), x)))
        if len(args) > 1:
            out.append(wrap('(%s %s)' % (q(f), ' '.join(good[1:]))))
        k = rng.randrange(len(args))
        w = list(good)
        w[k] = a if args[k] == 'Real' else x
        out.append(wrap('(%s %s)' % (q(f), ' '.join(w))))
        out.append(wrap(q(f)))
        out.append('(%s %s)' % (q(f), ' '.join(good)) if ret == 'Real' else '(> (%s %s) 0)' % (q(f), ' '.join(good)))
    for f, (ps, ret, _) in s.defs.items():
        if f not in known or not ps:
            continue
        good = [x if so == 'Real' else a for _, so in ps]
        wrap = (lambda t: t) if ret == 'Bool' else (lambda t: '(= 1 %s)' % t)
        out.append(wrap('(%s %s %s)' % (q(f), ' '.join(good), a)))
        k = rng.randrange(len(ps))
        w = list(good)
        w[k] = a if ps[k][1] == 'Real' else x
        out.append(wrap('(%s %s)' % (q(f), ' '.join(w))))
        out.append(wrap(q(f)))
    return out


def bad_cmds(s, known):
    q = smtast.sym
    out = ['(declare-const undeclared_q Int)', '(declare-fun undeclared_q (Int) Real)', '(define-fun undeclared_q () Bool 1)',
           '(define-fun undeclared_q () Real true)', '(define-fun undeclared_q ((p Real)) Real (+ p undeclared_r))',
           '(define-fun undeclared_q ((p Real)) Real (* p p))', '(define-fun undeclared_q ((p Int)) Real 1)',
           '(push 1)', '(get-value (true))', '(undeclared_command)', '(reset)', '(check-sat-assuming (true))', '(set-logic QF_NIA)',
           '(declare-const undeclared_q)', '(declare-fun undeclared_q Real)', '(echo 1)', ')', '42']
    if s.logic == 'QF_LRA':
        out.append('(declare-fun undeclared_q (Real) Real)')
    for n in known:
        if n in s.sorts:
            out += ['(declare-const %s Real)' % q(n), '(declare-fun %s () Bool)' % q(n), '(define-fun %s () Real 1)' % q(n)]
        elif n in s.defs:
            out += ['(declare-const %s Real)' % q(n), '(define-fun %s () Bool true)' % q(n)]
    return out


def c21(chk):
    exe = build.build([('smt_batch', 'debug')])[('smt_batch', 'debug')]

    def case(ctx, i, rng):
        s = pick_script(rng, p_uf=.35, p_large=.0) if i % 3 else free_lets(rng)
        if rng.random() < .3:
            e2e.multi(s, rng)
        clean = copy.copy(s)
        clean.cmds = list(s.cmds)
        # erroneous assertions, anywhere after the logic is set
        mixed = []
        known = []
        nbad = 0
        p = rng.choice([.15, .4])
        kinds = []
        for c in s.cmds:
            while rng.random() < p:
                t = rng.choice(bad_terms(rng, s, known))
                x = rng.random()
                if x < .15:
                    t = '(or true %s)' % t
                elif x < .25:
                    t = '(let ((lq0 true)) (and lq0 %s))' % t
                if x >= .25 or True:
                    mixed.append(('raw', '(assert %s)' % t))
                    kinds.append(t)
                    nbad += 1
            mixed.append(c)
            if c[0] in ('declare', 'declare-fun', 'define-fun'):
                known.append(c[1])
        s.cmds = mixed
        txt = smtast.script_str(s)
        ex = get_exec(ctx, 'debug', exe)
        o = e2e.rand_opts(rng)
        r = ex.run(txt, o)
        base = ex.run(smtast.script_str(clean), o)
        ctx.seen(txt, nbad > 0)
        if abnormal(base):
            return ctx.inconclusive('abnormal without erroneous commands')
        D = rep(s, txt, o, r, 'debug')
        D['script without erroneous commands'] = smtast.script_str(clean)
        D['its output'] = base.out[:2000]
        a = abnormal(r)
        if a:
            return ctx.violation(a, crash_detail(r), D)
        # split the error responses: one per erroneous assertion, at its place
        body, cnt = oracle.strip_stats(r.out)
        try:
            resp = smtast.parse_sexprs(body)
        except ValueError as e:
            return ctx.violation('malformed', str(e), D)
        pos = 0
        rest = []
        for c in s.cmds:
            if c[0] == 'raw':
                if pos >= len(resp) or not (isinstance(resp[pos], list) and resp[pos][:1] == ['error']):
                    return ctx.violation('no error', 'no error response to %s (response: %s)' % (c[1], resp[pos:pos + 1]), D)
                pos += 1
            elif c[0] in ('check', 'model'):
                rest.append(resp[pos] if pos < len(resp) else None)
                pos += 1
        if pos != len(resp):
            return ctx.violation('extra', 'unexpected output: %s' % (resp[pos:pos + 2],), D)
        ctx.count('erroneous assertions', nbad)
        jb = oracle.examine(clean, base.out, verdicts=False)
        if jb.problems:
            return ctx.inconclusive('wrong without erroneous commands')
        ans = [x for x, c in zip(rest, [c for c in s.cmds if c[0] in ('check', 'model')]) if c[0] == 'check']
        ctx.count('answers compared', len(ans))
        if ans != jb.answers:
            return ctx.violation('answers', 'with erroneous commands %s, without %s' % (ans, jb.answers), D)
        # models
        acc, ok = [], None
        for c, x in zip([c for c in s.cmds if c[0] in ('assert', 'check', 'model')],
                        interleave([c for c in s.cmds if c[0] in ('assert', 'check', 'model')], rest)):
            if c[0] == 'assert':
                acc.append(c[1])
            elif c[0] == 'check':
                ok = (x == 'sat', list(acc))
            elif c[0] == 'model':
                iserr = isinstance(x, list) and x[:1] == ['error']
                if not ok or not ok[0]:
                    if not iserr:
                        return ctx.violation('get-model', 'get-model without sat printed %s' % (x,), D)
                    ctx.count('get-model without sat')
                    continue
                if iserr:
                    return ctx.violation('get-model', 'error after sat: %s' % (x,), D)
                try:
                    env, funs = oracle.read_model(x, s)
                    bad = oracle.eval_model(env, funs, s, ok[1])
                except ValueError as e:
                    bad = str(e)
                ctx.count('models evaluated')
                if bad:
                    return ctx.violation('model', bad, D)

    def cmds(ctx, i, rng):
        s = pick_script(rng, p_uf=.35, p_large=.0)
        e2e.multi(s, rng, p=.4)
        clean = copy.copy(s)
        k = rng.randrange(0, len(s.cmds) + 1)
        known = [c[1] for c in s.cmds[:k] if c[0] in ('declare', 'declare-fun', 'define-fun')]
        bad = rng.choice(bad_cmds(s, known))
        pre = copy.copy(s)
        pre.cmds = s.cmds[:k]
        txt = smtast.script_str(pre) + bad + '\n' + smtast.script_str(s).split('\n', 1)[1] if False else None
        full = copy.copy(s)
        full.cmds = s.cmds[:k] + [('raw', bad)] + s.cmds[k:]
        txt = smtast.script_str(full)
        ex = get_exec(ctx, 'debug', exe)
        o = '-'
        rb = ex.run(smtast.script_str(clean), o)
        rp = ex.run(smtast.script_str(pre), o)
        r = ex.run(txt, o)
        ctx.seen(txt)
        if abnormal(rb) or abnormal(rp):
            return ctx.inconclusive('abnormal without erroneous commands')
        D = rep(s, txt, o, r, 'debug')
        D['message'] = r.msg
        if r.status in ('crash', 'hang'):
            return ctx.violation(abnormal(r), crash_detail(r), D)
        ctx.count('other erroneous commands')
        if not r.out.startswith(rp.out):
            return ctx.violation('earlier output', 'the output of the commands before the erroneous one changed', D)
        tail = r.out[len(rp.out):]
        if not r.msg.strip() and not tail.startswith('(error'):
            return ctx.violation('silent', 'no error for %s' % bad, D)
        want = oracle.examine(clean, rb.out, verdicts=False)
        try:
            resp = smtast.parse_sexprs(r.out)
        except ValueError as e:
            return ctx.violation('malformed', str(e), D)
        ans = [x for x in resp if x in ('sat', 'unsat')]
        ctx.count('answers compared', len(ans))
        if ans != want.answers[:len(ans)]:
            return ctx.violation('answers', 'with the erroneous command %s, without %s' % (ans, want.answers), D)
    chk.stage('assertions', chk.n(20000, 300000), case)
    chk.stage('commands', chk.n(8000, 100000), cmds)


def interleave(cmds, rest):
    it = iter(rest)
    return [None if c[0] == 'assert' else next(it) for c in cmds]


# ------------------------------------------------------------------ C24
def c24(chk):
    exe = build.build([('smt_batch', 'debug')])[('smt_batch', 'debug')]

    def case(ctx, i, rng, large=False):
        s = pick_script(rng, p_large=1.0 if large else .0)
        # rearrange: declarations only as early as needed, so that some come after checks
        cmds = [c for c in s.cmds if c[0] not in ('check', 'model')]
        if rng.random() < .6:
            cmds = late_declarations(rng, cmds)
        out = []
        n = 0
        p = min(.5, 15.0 / (1 + len(cmds)))
        for c in cmds:
            out.append(c)
            if rng.random() < p and (c[0] == 'assert' or rng.random() < .2):
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    out.append(('check',))
                    n += 1
                    for _ in range(rng.choice([0, 1, 1, 2])):
                        out.append(('model',))
            elif rng.random() < .05:
                out.append(('model',))
        out += [('check',), ('model',)]
        s.cmds = out
        txt = smtast.script_str(s)
        ex = get_exec(ctx, 'debug', exe)
        o = rng.choice(ALL_OPTS)
        r = ex.run(txt, o)
        a = abnormal(r)
        if a:
            # abnormal on a single fresh check too?
            ctx.seen(txt)
            f = copy.copy(s)
            f.cmds = [c for c in out if c[0] not in ('check', 'model')] + [('check',)]
            if abnormal(ex.run(smtast.script_str(f), o)):
                return ctx.inconclusive('abnormal end of a single check')
            return ctx.violation(a, crash_detail(r), rep(s, txt, o, r, 'debug'))
        j = oracle.examine(s, r.out, verdicts=False)
        note(ctx, s, txt, o, j)
        D = rep(s, txt, o, r, 'debug')
        ctx.top('checks in one script', len(j.answers))
        for kind, d in j.problems:
            f = copy.copy(s)
            f.cmds = [c for c in out if c[0] not in ('check', 'model')] + [('check',), ('model',)]
            return ctx.violation('%s:%s' % (kind, s.tag), d, D)
        seen_unsat = False
        for x in j.answers:
            if seen_unsat and x == 'sat':
                return ctx.violation('sat after unsat', str(j.answers), D)
            seen_unsat |= x == 'unsat'
        # fresh scripts
        idx = [k for k, c in enumerate(out) if c[0] == 'check']
        prev = None
        for m, k in enumerate(idx):
            key = tuple(id(c) for c in out[:k] if c[0] == 'assert')
            if key == prev:
                want_same = True
            prev = key
            f = copy.copy(s)
            f.cmds = [c for c in out[:k] if c[0] not in ('check', 'model')] + [('check',), ('model',)]
            rf = ex.run(smtast.script_str(f), o)
            if abnormal(rf):
                ctx.inconclusive('abnormal end of a single check')
                continue
            jf = oracle.examine(f, rf.out, verdicts=False)
            ctx.count('answers compared with a fresh script')
            if jf.answers != [j.answers[m]]:
                D['fresh'] = smtast.script_str(f)
                return ctx.violation('answers:' + s.tag, 'check-sat #%d: %s, fresh %s' % (m + 1, j.answers[m], jf.answers), D)
    chk.stage('random', chk.n(9000, 150000), case)
    chk.stage('large', chk.n(250, 4000), lambda c, i, r: case(c, i, r, True))


def names_in(t, acc):
    if t[0] == 'var':
        acc.add(t[1])
    elif t[0] in ('app', 'call'):
        acc.add(t[1])
        for a in t[2:]:
            names_in(a, acc)
    elif t[0] == 'let':
        for _, b in t[1]:
            names_in(b, acc)
        names_in(t[2], acc)
    elif t[0] not in ('num', 'bool'):
        for a in t[1:]:
            names_in(a, acc)


def late_declarations(rng, cmds):
    """moves declarations to just before their first use"""
    decls = {c[1]: c for c in cmds if c[0] in ('declare', 'declare-fun')}
    out = []
    left = dict(decls)
    for c in cmds:
        if c[0] in ('declare', 'declare-fun'):
            continue
        used = set()
        if c[0] == 'assert':
            names_in(c[1], used)
        elif c[0] == 'define-fun':
            names_in(c[4], used)
        for n in list(left):
            if n in used or rng.random() < .1:
                out.append(left.pop(n))
        out.append(c)
    out += list(left.values())
    return out


# ------------------------------------------------------------------ C27
def tokens(txt):
    """lexical tokens of a canonical script"""
    out = []
    i = 0
    while i < len(txt):
        c = txt[i]
        if c.isspace():
            i += 1
        elif c in '()':
            out.append(c)
            i += 1
        elif c == '|':
            j = txt.index('|', i + 1)
            out.append(txt[i:j + 1])
            i = j + 1
        else:
            j = i
            while j < len(txt) and not txt[j].isspace() and txt[j] not in '()':
                j += 1
            out.append(txt[i:j])
            i = j
    return out


SPACES = ['\n', ' ', '\t', '\r\n', '\r', '\r\r\t', '  ', ' ; c (assert false)\n', ';\n', '\n;|\n', ' ;"\r\n', '\n\n', ' ; (check-sat) )\n']


def respace(txt, rng, p):
    out = []
    toks = tokens(txt)
    for k, t in enumerate(toks):
        out.append(t)
        nxt = toks[k + 1] if k + 1 < len(toks) else ')'
        need = t not in '()' and nxt not in ('(', ')')
        if rng.random() < p:
            out.append(rng.choice(SPACES))
        elif need or rng.random() < .3:
            out.append(' ')
    return ''.join(out) + rng.choice(['', '\n', ' ', '; end', '\n;'])


RENAME_POOL = (['v%d' % i for i in range(30)] + ['a' * k for k in range(2, 20)] + smtgen.WEIRD + ['x y z', '%', '~', '-x', '+1', '<', 'A', 'Zz',
               '?q', '$', '^', '&', '*x', '/y', 'define', 'lambda', 'Bool2', 'in.s', 'LRA', 'sat', 'unsat', '\u03b1', 'tru', 'true1', 'QF_LRA'])


def lookalikes(rng):
    """names which are easily confused, each a different symbol"""
    b = rng.choice(['a', 'x', 'xy', 'let', 'b1', 'v0', 'Q', '', 'true', 'x0', '+', '.', ';', '(', '0', '12', '-1', '1.5', '#b1', ':k', 'and'])
    v = [b + ' ', ' ' + b, b + '  ', b + '\t', b + '\n', b + '\r\n', '\t' + b, b + ' ' + b, b + '\t' + b, b + '  ' + b, b + '\n' + b, b.upper() + '_', b.lower() + '_', b + '\x27',
         '"' + b, '"' + b + '"', b + ';', b + '; ', b + '(', b + ')', '(' + b + ')', b + '\u00e9', b + '#', ':' + b + ' ', b + b, b + '_', '_' + b, b + '0', b + '1', b + '!0', b + '!1']
    rng.shuffle(v)
    return list(dict.fromkeys(v))


def rename(s, m):
    def nm(n, env):
        return env.get(n, m.get(n, n))

    def go(t, bound):
        k = t[0]
        if k == 'var':
            return t if t[1] in bound else ('var', m.get(t[1], t[1]))
        if k in ('num', 'bool'):
            return t
        if k in ('app', 'call'):
            return (k, m.get(t[1], t[1])) + tuple(go(a, bound) for a in t[2:])
        if k == 'let':
            return ('let', tuple((n, go(b, bound)) for n, b in t[1]), go(t[2], bound | {n for n, _ in t[1]}))
        return (k,) + tuple(go(a, bound) for a in t[1:])
    r = Script(s.logic)
    r.tag = s.tag
    for c in s.cmds:
        if c[0] == 'declare':
            r.declare(m.get(c[1], c[1]), c[2])
        elif c[0] == 'declare-fun':
            r.declare_fun(m.get(c[1], c[1]), c[2], c[3])
        elif c[0] == 'define-fun':
            r.define_fun(m.get(c[1], c[1]), c[2], c[3], go(c[4], {n for n, _ in c[2]}))
        elif c[0] == 'assert':
            r.assert_(go(c[1], frozenset()))
        else:
            r.cmds.append(c)
    return r


def map_names(x, m):
    """names of the definitions of a printed model"""
    if isinstance(x, list) and x and isinstance(x[0], list) and x[0][:1] == ['define-fun']:
        return [[d[0], m.get(d[1], d[1])] + d[2:] for d in x]
    return x


def c27(chk):
    exe = build.build([('smt_batch', 'debug')])[('smt_batch', 'debug')]

    def case(ctx, i, rng):
        s = free_lets(rng) if rng.random() < .25 else pick_script(rng, p_large=.01)
        if rng.random() < .2:
            e2e.multi(s, rng)
        ex = get_exec(ctx, 'debug', exe)
        o = opt_join(rng.choice(ALL_OPTS), 'stats') if rng.random() < .6 else '-'
        canon = smtast.script_str(s)
        r0 = ex.run(canon, o)
        if r0.status != 'ok':
            return ctx.inconclusive('abnormal end')
        ctx.seen(canon + o)
        for k in range(3):
            # spacing and comments; quoting, declare-const; spelling of constants
            t = respace(canon, rng, rng.choice([.05, .4])) if k == 0 else smtast.script_str(s, rng, noise=True, nums=k == 2)
            r = ex.run(t, o)
            ctx.count(('respaced scripts', 'requoted scripts', 'scripts with respelled constants')[k])
            if k == 2:
                # (/ 3 6) builds other terms than 0.5: the models may differ, the answers may not
                if r.status == 'ok':
                    j0, j = oracle.examine(s, r0.out, verdicts=False), oracle.examine(s, r.out, verdicts=False)
                    if j0.problems:
                        ctx.inconclusive('wrong in canonical spelling')
                        continue
                    if j.answers == j0.answers and not j.problems:
                        continue
                return ctx.violation('constants', '%s\n----\n%s\n%s' % (r0.out[:500], r.out[:500], r.msg),
                                     {'canonical': canon, 'respelled': t, 'options': o, 'output': r0.out, 'respelled output': r.out,
                                      'status': r.status})
            if r.status != 'ok' or r.out != r0.out:
                return ctx.violation('spelling', '%s\n----\n%s\n%s' % (r0.out[:500], r.out[:500], r.msg),
                                     {'canonical': canon, 'respelled': t, 'options': o, 'output': r0.out, 'respelled output': r.out,
                                      'status': r.status})
        # bijective renaming of constants and functions; binders keep their names, so targets avoid them
        names = list(s.sorts) + list(s.funs) + list(s.defs)
        avoid = set()
        for tok in tokens(canon):
            avoid.add(tok.strip('|'))
        binders = bound_names(s)
        pool = [n for n in (lookalikes(rng) if rng.random() < .3 else RENAME_POOL) if n not in avoid and n not in binders]
        rng.shuffle(pool)
        free = [n for n in names if n not in binders]
        if len(pool) < len(free):
            pool += ['fresh_%d_%s' % (k, 'z' * rng.randrange(5)) for k in range(len(free) - len(pool))]
        m = dict(zip(free, pool))
        if rng.random() < .3:       # permute the names instead
            perm = list(free)
            rng.shuffle(perm)
            m = dict(zip(free, perm))
        q = rename(s, m)
        t = smtast.script_str(q)
        r = ex.run(t, o)
        ctx.count('renamed scripts')
        D = {'script': canon, 'renamed': t, 'options': o, 'output': r0.out, 'renamed output': r.out, 'status': r.status, 'msg': r.msg}
        if r.status != 'ok':
            return ctx.violation('renaming', 'status %s %s' % (r.status, r.msg), D)
        b0, c0 = oracle.strip_stats(r0.out)
        b1, c1 = oracle.strip_stats(r.out)
        try:
            x0, x1 = smtast.parse_sexprs(b0), smtast.parse_sexprs(b1)
        except ValueError as e:
            return ctx.violation('renaming', 'unparsable output %s' % e, D)
        if [map_names(x, m) for x in x0] != x1:
            return ctx.violation('renaming', 'outputs differ\n%s\n----\n%s' % (b0[:500], b1[:500]), D)
        if c0 != c1:
            return ctx.violation('renaming statistics', '%s %s' % (c0, c1), D)
    chk.stage('random', chk.n(16000, 250000), case)


def bound_names(s):
    acc = set()

    def go(t):
        if t[0] == 'let':
            for n, b in t[1]:
                acc.add(n)
                go(b)
            go(t[2])
        elif t[0] not in ('var', 'num', 'bool'):
            for a in (t[2:] if t[0] in ('app', 'call') else t[1:]):
                go(a)
    for c in s.cmds:
        if c[0] == 'assert':
            go(c[1])
        elif c[0] == 'define-fun':
            acc.update(n for n, _ in c[2])
            go(c[4])
    return acc


# ------------------------------------------------------------------ C19
def mutate(txt, rng):
    """token and byte level mutations of a script"""
    b = txt
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        x = rng.random()
        toks = b.replace('(', ' ( ').replace(')', ' ) ').split(' ') if x < .7 else None
        if x < .12 and len(toks) > 4:
            k = rng.randrange(len(toks))
            del toks[k]
        elif x < .24:
            k = rng.randrange(len(toks))
            toks.insert(k, rng.choice(toks))
        elif x < .38:
            a, c = rng.randrange(len(toks)), rng.randrange(len(toks))
            toks[a], toks[c] = toks[c], toks[a]
        elif x < .5:
            k = rng.randrange(len(toks))
            toks[k] = rng.choice(['let', 'ite', 'and', 'or', '=', '<', '+', '-', '*', '/', 'distinct', 'true', 'false', 'not', 'xor', '=>', '0', '1.5',
                                  'Bool', 'Real', '(', ')', 'nope', '99999999999999999999', '0.0000000001', '1e5', '#b1', '|', '"', ';', '||', '! ',
                                  'check-sat', 'assert', 'declare-fun', 'define-fun', 'set-logic', 'exists', 'forall', '_', 'as', '2147483648',
                                  '-9223372036854775808', '9223372036854775808', '1/2', '00', 'F', 'x'])
        elif x < .58:
            # duplicate or drop a line
            ls = b.split('\n')
            k = rng.randrange(len(ls))
            if rng.random() < .5:
                ls.insert(rng.randrange(len(ls)), ls[k])
            else:
                del ls[k]
            b = '\n'.join(ls)
            continue
        elif x < .64:
            k = rng.randrange(len(toks))
            toks[k] = str(rng.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 10 ** 30])) + rng.choice(['', '.0', '.123456789123'])
        elif x < .7:
            # balanced subterm moved elsewhere
            op = [k for k, t in enumerate(toks) if t == '(']
            if op:
                k = rng.choice(op)
                d, e = 0, k
                while e < len(toks):
                    d += toks[e] == '('
                    d -= toks[e] == ')'
                    e += 1
                    if d == 0:
                        break
                sub = toks[k:e]
                p = rng.randrange(len(toks))
                toks[p:p] = sub
        elif x < .8:
            b = b[:rng.randrange(len(b) + 1)]          # truncation
            continue
        else:
            k = rng.randrange(len(b) + 1)
            ch = chr(rng.choice([0, 9, 10, 13, 27, 34, 40, 41, 59, 124, 92, 127, rng.randrange(256), rng.randrange(32, 127)]))
            b = b[:k] + ch + b[k + rng.randrange(0, 2):]
            continue
        b = ' '.join(toks)
    return b


def mutate_dimacs(t, rng):
    for _ in range(rng.choice([1, 1, 2, 4])):
        x = rng.random()
        if x < .3:
            k = rng.randrange(len(t) + 1)
            t = t[:k] + rng.choice(['-', '0', ' ', '\n', 'x', 'p', 'c', '1', '999999', '\0', '%', '-0', '2147483647', '-2147483648', '99999999999', 'p cnf 3 2\n'
                                    , '\xff', '.5', '\t', '\r']) + t[k + rng.randrange(0, 2):]
        elif x < .5:
            t = t[:rng.randrange(len(t) + 1)]
        elif x < .7:
            ls = t.split('\n')
            k = rng.randrange(len(ls))
            if rng.random() < .5:
                ls.insert(rng.randrange(len(ls)), ls[k])
            else:
                del ls[k]
            t = '\n'.join(ls)
        elif x < .85:
            ls = t.split('\n')
            for k, l in enumerate(ls):
                if l.strip().startswith('p cnf'):
                    ls[k] = 'p cnf %s %s' % (rng.choice(['-1', '0', '1', '3', '7', '100', 'x', '']), rng.choice(['-1', '0', '1', '3', '100', 'y', '']))
                    break
            t = '\n'.join(ls)
        else:
            ls = t.split('\n')
            rng.shuffle(ls)
            t = '\n'.join(ls)
    return t


def died(rc, err):
    """signal, sanitizer report, failed assertion or uncaught exception"""
    return rc < 0 or rc in (98, 99, 134, 139) or any(w in err for w in (
        'Sanitizer', 'runtime error:', "' failed.", 'terminate called'))


class VgExec(e2e.Exec):
    """batch harness under valgrind memcheck"""

    def __init__(self, exe):
        wrap = tempfile.NamedTemporaryFile('w', suffix='.sh', delete=False, prefix='vg-')
        wrap.write('#!/bin/sh\nexec valgrind -q --error-exitcode=98 --exit-on-first-error=yes --leak-check=no --undef-value-errors=yes %s\n' % exe)
        wrap.close()
        os.chmod(wrap.name, 0o700)
        self.path = wrap.name
        self.b = runner.Batch(wrap.name)

    def stop(self):
        self.b.stop()
        os.unlink(self.path)


def c19(chk):
    exes = build.build([('smt_batch', 'asan'), ('sat', 'asan'), ('smt', 'asan'), ('smt_batch', 'vg')])
    A = exes[('smt_batch', 'asan')]

    def examine(ctx, txt, o, r, cfg, tag):
        ctx.seen(txt + o)
        ctx.count('runs %s %s' % (cfg, tag))
        ctx.count('answers', len(r.answers()))
        if r.status == 'crash':
            ctx.violation('crash:' + runner.crash_key(r.crash), crash_detail(r), {'script': txt, 'options': o, 'build': cfg, 'report': r.crash[1][:6000]})
        elif r.status == 'hang':
            ctx.inconclusive('slow')

    def wellformed(ctx, i, rng, large=False):
        s = pick_script(rng, p_uf=.4, p_large=1.0 if large else .01) if rng.random() < .9 else free_lets(rng)
        if rng.random() < .2:
            e2e.multi(s, rng)
        txt = smtast.script_str(s, rng, noise=True)
        o = rng.choice(ALL_OPTS)
        examine(ctx, txt, o, get_exec(ctx, 'asan', A).run(txt, o, 30), 'asan', 'well-formed')

    def mutated(ctx, i, rng):
        s = pick_script(rng, p_uf=.4, p_large=0) if rng.random() < .8 else free_lets(rng)
        if rng.random() < .3:
            e2e.multi(s, rng)
        txt = mutate(smtast.script_str(s, rng, noise=True), rng)
        o = rng.choice(ALL_OPTS)
        r = get_exec(ctx, 'asan', A).run(txt, o, 30)
        examine(ctx, txt, o, r, 'asan', 'mutated')

    def errors(ctx, i, rng):
        """several erroneous assertions and commands in one script"""
        s = pick_script(rng, p_uf=.5, p_large=0) if rng.random() < .6 else free_lets(rng)
        e2e.multi(s, rng, p=.3)
        out, known = [], []
        for c in s.cmds:
            while rng.random() < .3:
                out.append(('raw', '(assert %s)' % rng.choice(bad_terms(rng, s, known))))
            out.append(c)
            if c[0] in ('declare', 'declare-fun', 'define-fun'):
                known.append(c[1])
        if rng.random() < .5:
            out.insert(rng.randrange(len(out)), ('raw', rng.choice(bad_cmds(s, known))))
        s.cmds = out
        txt = smtast.script_str(s)
        o = rng.choice(ALL_OPTS)
        examine(ctx, txt, o, get_exec(ctx, 'asan', A).run(txt, o, 30), 'asan', 'erroneous')

    def deep(ctx, i, rng):
        n = rng.choice([200, 2000, 20000])
        d = '(set-logic QF_LRA)(declare-const a Bool)(declare-const x Real)(assert '
        kind = i % 6
        if kind == 0:
            t = '(not ' * n + 'a' + ')' * n
        elif kind == 1:
            t = '(< ' + '(+ 1 ' * n + 'x' + ')' * n + ' 3)'
        elif kind == 2:
            n = min(n, 2000)
            t = '(or a (and a ' * n + 'a' + '))' * n
        elif kind == 3:
            t = ''.join('(let ((l%d (or a (not %s)))) ' % (k, 'a' if k == 0 else 'l%d' % (k - 1)) for k in range(n)) + 'l%d' % (n - 1) + ')' * n
        elif kind == 4:
            n = min(n, 300)
            t = '(< 2 ' + '(ite a 1 ' * n + 'x' + ')' * n + ')'
        else:
            t = '(' * n
        txt = d + t + (')' if kind != 5 else '') + '(check-sat)(get-model)\n'
        if rng.random() < .3:
            txt = txt[:rng.randrange(len(txt))]
        examine(ctx, txt, '-', get_exec(ctx, 'asan', A).run(txt, '-', 60), 'asan', 'deeply nested')

    def sat(ctx, i, rng):
        n, cl, fam = dimacs_gen(rng)
        txt, _ = dimacs_str(n, cl, rng)
        if rng.random() < .6:
            txt = mutate_dimacs(txt, rng)
        # huge headers ask for memory, not for a verdict
        rc, out, err = ctx.get('proc', Proc).run([exes[('sat', 'asan')], '@'], txt, timeout=120)
        big = any(len(t.strip('-')) > 7 for t in txt.split() if t.strip('-').isdigit())
        ctx.seen(txt)
        ctx.count('runs asan sat')
        if rc is None:
            return ctx.inconclusive('slow')
        e = err.decode('utf-8', 'replace')
        if died(rc, e):
            if big and ('bad_alloc' in e or 'allocation-size-too-big' in e or 'out-of-memory' in e):
                return ctx.inconclusive('out of memory')
            ctx.violation('sat:' + runner.crash_key((rc, e)), e[-1500:], {'file': txt, 'exit': rc, 'stderr': e[:6000]})

    def cli(ctx, i, rng):
        """command lines of the real executables"""
        s = pick_script(rng, p_large=0)
        txt = smtast.script_str(s)
        words = ['--prop-rational', '--deduce-bounds', '--print-stats', '--phase', 'positive', 'negative', 'cache', 'foo', '--nope', '-', '', '/nonexistent/x']
        args = [rng.choice(words) for _ in range(rng.randrange(0, 5))]
        if rng.random() < .8:
            args.insert(rng.randrange(len(args) + 1), '@')
        ex = rng.choice(['smt', 'smt', 'smt', 'sat'])
        if rng.random() < .1:
            args = [rng.choice(['/', '/dev/null', '.'])]
        rc, out, err = ctx.get('proc', Proc).run([exes[(ex, 'asan')]] + args, txt, timeout=120)
        ctx.seen(repr(args) + txt)
        ctx.count('command lines')
        if rc is None:
            return ctx.inconclusive('slow')
        e = err.decode('utf-8', 'replace')
        if died(rc, e):
            ctx.violation('cli:' + runner.crash_key((rc, e)), e[-1500:], {'executable': ex, 'arguments': args, 'file': txt, 'exit': rc, 'stderr': e[:6000]})

    def vg(ctx, i, rng):
        s = pick_script(rng, p_uf=.4, p_large=0)
        txt = smtast.script_str(s, rng, noise=True)
        if rng.random() < .3:
            txt = mutate(txt, rng)
        o = rng.choice(ALL_OPTS)
        r = ctx.get('vg', lambda: VgExec(exes[('smt_batch', 'vg')])).run(txt, o, 120)
        if r.status == 'crash' and r.crash[0] != 98 and 'Assertion' not in r.crash[1] and '==' not in r.crash[1]:
            return ctx.inconclusive('valgrind ended')
        examine(ctx, txt, o, r, 'valgrind', 'any')
    chk.stage('wellformed', chk.n(14000, 250000), wellformed)
    chk.stage('mutated', chk.n(16000, 300000), mutated)
    chk.stage('errors', chk.n(4000, 60000), errors)
    chk.stage('large', chk.n(160, 4000), lambda c, i, r: wellformed(c, i, r, True))
    chk.stage('deep', chk.n(48, 300), deep)
    chk.stage('sat', chk.n(2400, 30000), sat)
    chk.stage('cli', chk.n(320, 3000), cli)
    chk.stage('valgrind', chk.n(400, 8000), vg)
