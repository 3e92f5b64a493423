"""Checks decided by the monitor attached to the real search (harness/monitor.cpp)."""
import build
import e2e
import e2e2
import oracle
import runner
import smtast
import smtgen

ORDERS = ['', '', '', 'order:random', 'order:random', 'order:first']
RESTARTS = ['', '', 'restart:never', 'restart:1', 'restart:2', 'restart:3', 'restart:7', 'restart:20']


def exe():
    return build.build([('monitor', 'mon')])[('monitor', 'mon')]


def hostile(rng):
    """options of the search: solver options, and schedules"""
    if rng.random() < .35:
        return e2e.opt_join(rng.choice(e2e.OPTS), rng.choice(e2e.PHASES))
    return e2e.opt_join(rng.choice(e2e.OPTS), rng.choice(e2e.PHASES + ['rphase']), rng.choice(ORDERS), rng.choice(RESTARTS))


def plain(rng):
    """options of the solver only"""
    return e2e.opt_join(rng.choice(e2e.OPTS), rng.choice(e2e.PHASES))


def lra(rng):
    return smtgen.gen(rng, False)


def uf(rng):
    return smtgen.gen(rng, True)


def case(ctx, i, rng, prog, pids, gen, opts, p_multi, timeout, cap):
    s = gen(rng)
    if rng.random() < p_multi:
        e2e.multi(s, rng)
    txt = smtast.script_str(s, rng, noise=False)
    o = e2e.opt_join(opts(rng), *['mon:' + p for p in pids]) + ',seed:%d' % rng.randrange(1, 1 << 40)
    if cap:
        o += ',cap:%d' % cap
    r = ctx.get('monitor', lambda: runner.Batch(prog)).run(txt, o, timeout)
    ctx.count('profile ' + s.tag)
    rp = {'script': txt, 'options': o, 'build': 'monitor', 'profile': s.tag}
    if r.status in ('hang', 'crash'):
        # the search did not come back; what the monitor saw before counts
        said = [l[5:].partition('\t') for l in r.msg.split('\n') if l.startswith('viol ')]
        said = [(k, d) for k, _, d in said if k.split(':')[0] == pids[0]]
        for k, d in said:
            ctx.violation(k, d + '\nmonitor ' + o, rp)
        if not said:
            ctx.inconclusive('time limit' if r.status == 'hang' else 'crash: ' + runner.crash_key(r.crash)[:60])
        return None
    if r.status == 'error':
        ctx.inconclusive('exception')
    for line in r.msg.split('\n'):
        kind, _, rest = line.partition(' ')
        if kind == 'count':
            nm, _, k = rest.rpartition(' ')
            ctx.count(nm, int(k))
        elif kind == 'top':
            nm, _, k = rest.rpartition(' ')
            ctx.top(nm, int(k))
        elif kind == 'seen':
            ctx.evals += 1
            ctx.hashes.add(bytes.fromhex(rest.rjust(16, '0')))
        elif kind == 'viol':
            key, _, detail = rest.partition('\t')
            if key.split(':')[0] == pids[0]:
                ctx.violation(key, detail + '\nmonitor ' + o, rp)
    for a in r.answers():
        ctx.count('answers ' + a)
    if len(txt) < 700 and ctx.evals % 29 == 3:
        ctx.sample(o + '\n' + txt)
    return s, txt, o, r


def stages(chk, n_lra, n_uf, n_large, opts=hostile, p_multi=.15, timeout=30.0, cap=(5000, 12000)):
    """numbers are (quick, thorough)"""
    prog = exe()
    pids = [chk.pid]
    chk.stage('mon-lra', chk.n(*n_lra), lambda c, i, r: case(c, i, r, prog, pids, lra, opts, p_multi, timeout, cap[0]))
    chk.stage('mon-uf', chk.n(*n_uf), lambda c, i, r: case(c, i, r, prog, pids, uf, opts, p_multi, timeout, cap[0]))
    chk.stage('mon-large', chk.n(*n_large), lambda c, i, r: case(
        c, i, r, prog, pids, e2e.uf_sized if r.random() < .3 else e2e.sized, opts, .05, 3 * timeout, cap[1]))


def storm(rng):
    return e2e.opt_join(rng.choice(e2e.OPTS), rng.choice(e2e.PHASES + ['rphase']), rng.choice(ORDERS), rng.choice(RESTARTS), 'storm:%d' % rng.choice([20, 60, 60, 150]))


def storms(chk, n):
    """random walks over partial assignments before each search (see Mon_theory::storm)"""
    prog = exe()
    chk.stage('mon-storm', chk.n(*n), lambda c, i, r: case(
        c, i, r, prog, [chk.pid], uf if r.random() < .4 else lra, storm, .1, 60.0, 3000))


def c11(chk):
    stages(chk, (1700, 60000), (700, 25000), (60, 2500))
    storms(chk, (500, 20000))


def c12(chk):
    stages(chk, (9000, 250000), (4500, 120000), (400, 10000))
    storms(chk, (2500, 60000))


def c13(chk):
    stages(chk, (12000, 300000), (7000, 200000), (500, 12000))
    storms(chk, (4000, 100000))


def c14(chk):
    stages(chk, (8000, 200000), (1200, 40000), (300, 8000))
    storms(chk, (2000, 50000))


def c25(chk):
    stages(chk, (12000, 300000), (6000, 150000), (500, 12000))
    # the solver's own order and restarts, to the end
    stages2(chk, 'whole', (5000, 100000), plain)


def stages2(chk, name, n, opts, large=.08, p_multi=.1):
    prog = exe()
    def gen(r):
        if r.random() < large:
            return e2e.uf_sized(r) if r.random() < .25 else e2e.sized(r)
        return smtgen.gen(r, r.random() < .3)
    chk.stage('mon-' + name, chk.n(*n), lambda c, i, r: case(c, i, r, prog, [chk.pid], gen, opts, p_multi, 90.0, 0))


def same_search(ctx, i, rng, prog, smt, pid, gen=None):
    """the executable makes the Boolean decisions of the phase it was given: its run, as far as statistics, answers and
    models show it, is that of the monitored search with the same phase, and not that of one with another phase"""
    s = gen(rng) if gen else smtgen.gen(rng, rng.random() < .3)
    if rng.random() < .3:
        e2e.multi(s, rng)
    txt = smtast.script_str(s, rng, noise=False)
    base = rng.choice(e2e.OPTS)
    watched = {}
    for ph in ('positive', 'negative', 'cache'):
        o = e2e.opt_join(base, ph, 'stats', 'mon:none')
        r = ctx.get('monitor', lambda: runner.Batch(prog)).run(txt, o, 30.0)
        if r.status != 'ok':
            return ctx.inconclusive('monitored run: ' + r.status)
        watched[ph] = r.out
    p = ctx.get('proc', e2e2.Proc)
    ctx.seen(txt + base)
    if len(set(watched.values())) > 1:
        ctx.count('scripts whose run depends on the phase')
    for given in ('positive', 'negative', 'cache', ''):
        ph = given or 'positive'
        argv = e2e2.argv_of(e2e.opt_join(base, given, 'stats'))
        rc, out, err = p.run([smt] + argv + ['@'], txt)
        if rc != 0:
            return ctx.inconclusive('abnormal end')
        out = out.decode('utf-8', 'replace')
        if out == watched[ph]:
            ctx.count('runs of the executable equal to the watched one')
            continue
        other = [q for q in watched if watched[q] == out]
        if other:
            return ctx.violation('executable:%s' % (given or 'default'),
                                 'phase %s: the executable decides as with phase %s' % (given or 'default', other[0]),
                                 {'script': txt, 'options': argv, 'output': out, 'watched': watched})
        ctx.inconclusive('another search than the watched one')


def flipped(ctx, i, rng, smt):
    """Boolean variables under clauses; without conflicts, a variable can only differ from the phase if it was propagated"""
    n = rng.randrange(2, 14)
    names = ['b%d' % k for k in range(n)]
    m = rng.randrange(1, 3 + n)
    lines = ['(set-logic QF_LRA)'] + ['(declare-fun %s () Bool)' % x for x in names]
    for _ in range(m):
        lits = rng.sample(names, min(n, rng.randrange(2, 5)))
        lines.append('(assert (or %s))' % ' '.join(x if rng.random() < .5 else '(not %s)' % x for x in lits))
    lines += ['(check-sat)', '(get-model)']
    txt = '\n'.join(lines) + '\n'
    p = ctx.get('proc', e2e2.Proc)
    for given in ('', 'positive', 'negative', 'cache'):
        argv = e2e2.argv_of(e2e.opt_join(rng.choice(e2e.OPTS), given, 'stats'))
        rc, out, err = p.run([smt] + argv + ['@'], txt)
        if rc != 0:
            return ctx.inconclusive('abnormal end')
        body, st = oracle.strip_stats(out.decode('utf-8', 'replace'))
        ctx.seen(txt + given)
        if not body.startswith('sat') or len(st) != 1:
            continue
        st = st[0]
        if st.get('Conflicts') != 0 or st.get('Restarts') != 0 or 'Decisions' not in st:
            ctx.count('runs with a conflict')
            continue
        vals = [w[-1] for w in (l.replace(')', ' ').replace('(', ' ').split() for l in body.split('\n')) if 'define-fun' in w or 'define-const' in w]
        if len(vals) != n:
            continue
        against = vals.count('true' if given == 'negative' else 'false')
        ctx.count('runs without conflicts compared with the phase')
        ctx.count('variables which differ from the phase', against)
        if against > n - st['Decisions']:
            return ctx.violation('flipped:%s' % (given or 'default'),
                                 'phase %s: %d of %d variables have the other value, but only %d were propagated'
                                 % (given or 'default', against, n, n - st['Decisions']), {'script': txt, 'options': argv, 'output': out.decode()})


def c23(chk):
    stages(chk, (8000, 250000), (4000, 120000), (400, 10000))
    prog = exe()
    smt = build.build([('smt', 'release')])[('smt', 'release')]
    chk.stage('executable', chk.n(1200, 40000), lambda c, i, r: same_search(c, i, r, prog, smt, 'C23'))
    chk.stage('flipped', chk.n(700, 15000), lambda c, i, r: flipped(c, i, r, smt))


def with_without(ctx, i, rng, exes, large=False):
    """--print-stats adds one block after each answer and changes nothing else"""
    s = e2e2.pick_script(rng, p_large=1.0 if large else .03)
    if rng.random() < .5:
        e2e.multi(s, rng)
    txt = smtast.script_str(s, rng, noise=True)
    cfg = rng.choice(['debug', 'release'])
    o = plain(rng)
    x = e2e.get_exec(ctx, cfg, exes[('smt_batch', cfg)])
    a, b = x.run(txt, o), x.run(txt, e2e.opt_join(o, 'stats'))
    if a.status in ('hang', 'crash') or b.status in ('hang', 'crash'):
        return ctx.inconclusive('abnormal end')
    ctx.seen(txt + o)
    body, blocks = oracle.strip_stats(b.out)
    rp = {'script': txt, 'options': o, 'build': cfg, 'without': a.out[:3000], 'with': b.out[:3000]}
    ctx.count('outputs compared')
    ctx.count('blocks of statistics', len(blocks))
    if body != a.out or a.status != b.status:
        return ctx.violation('output', 'statistics change the rest of the output', rp)
    # a check decided by the parser (a constant false assertion) prints no statistics
    lines = body.split('\n')
    lo, hi = lines.count('sat'), sum(1 for l in lines if l in ('sat', 'unsat', 'unknown'))
    if not lo <= len(blocks) <= hi:
        return ctx.violation('blocks', '%d blocks of statistics for %d answers' % (len(blocks), hi), rp)
    for st in blocks:
        if set(st) != {'Conflicts', 'Conflict clauses', 'Learned clauses', 'Decisions', 'Restarts'}:
            return ctx.violation('numbers', 'a number is missing or printed twice: %s' % st, rp)
        if min(st.values()) < 0 or st['Conflict clauses'] < st['Conflicts'] or (st['Conflicts'] == 0) != (st['Conflict clauses'] == 0) \
                or (st['Conflicts'] == 0 and st['Learned clauses']) or st['Learned clauses'] > st['Conflict clauses']:
            return ctx.violation('relation', 'impossible numbers: %s' % st, rp)


def c22(chk):
    stages(chk, (12000, 300000), (6000, 150000), (500, 12000), opts=lambda r: hostile(r) + ',stats', p_multi=.4)
    exes = build.build([('smt_batch', 'debug'), ('smt_batch', 'release')])
    chk.stage('output', chk.n(10000, 200000), lambda c, i, r: with_without(c, i, r, exes))
    chk.stage('output-large', chk.n(300, 5000), lambda c, i, r: with_without(c, i, r, exes, True))


def small(chk):
    """monitor stages of the properties which unit harnesses decide as well"""
    stages(chk, (3000, 100000), (1500, 50000), (150, 4000))
