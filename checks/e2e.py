"""End-to-end checks: the real parser and solver on generated scripts, judged by lib/oracle."""
import os
import random
import sys

import build
import oracle
import runner
import smtast
import smtgen

OPTS = ['-', 'prop_rational', 'deduce_bounds', 'prop_rational,deduce_bounds']
PHASES = ['', 'positive', 'negative', 'cache']


def opt_join(*a):
    x = ','.join(o for o in a if o and o != '-')
    return x or '-'


def rand_opts(rng, p_default=0.7):
    if rng.random() < p_default:
        return rng.choice(['-', 'stats'])
    return opt_join(rng.choice(OPTS), rng.choice(PHASES), rng.choice(['', 'stats']))


def multi(s, rng, p=0.3):
    """insert further checks, so that later answers depend on state left behind by earlier ones"""
    cmds = []
    p = min(p, 12.0 / (1 + len(s.cmds)))
    for c in s.cmds:
        cmds.append(c)
        if c[0] == 'assert' and rng.random() < p:
            cmds.append(('check',))
            if rng.random() < .7:
                cmds.append(('model',))
            if rng.random() < .2:
                cmds.append(('check',))
    s.cmds = cmds
    return s


class Exec:
    """persistent process plus the policy for hangs and crashes"""

    def __init__(self, exe):
        self.b = runner.Batch(exe)

    def stop(self):
        self.b.stop()

    def run(self, txt, opts, timeout=20.0):
        r = self.b.run(txt, opts, timeout)
        if r.status == 'hang':
            # re-run alone in a fresh process before it is called a hang
            r = self.b.run(txt, opts, max(120.0, 4 * timeout))
        elif r.status == 'crash':
            first = r
            r = self.b.run(txt, opts, max(120.0, 4 * timeout))
            if r.status != 'crash':
                r.msg = 'UNREPRODUCED ' + runner.crash_key(first.crash)
        return r


def get_exec(ctx, name, exe):
    return ctx.get(name, lambda: Exec(exe))


def abnormal(r):
    """key of an abnormal end of the run or None"""
    if r.status == 'crash':
        return 'crash:' + runner.crash_key(r.crash)
    if r.status == 'hang':
        return 'hang'
    if r.status == 'error':
        return 'exception:' + r.msg.strip()[:60]
    return None


def crash_detail(r):
    return r.crash[1][-1500:] if r.crash else r.msg[:500]


def note(ctx, s, txt, opts, j):
    """evidence of one examined run"""
    c = j.counters
    for x in c:
        ctx.count('conflicts', x.get('Conflicts', 0))
        ctx.count('learned clauses', x.get('Learned clauses', 0))
        ctx.count('decisions', x.get('Decisions', 0))
        ctx.count('restarts', x.get('Restarts', 0))
        ctx.top('conflicts in one check', x.get('Conflicts', 0))
    ctx.count('answers sat', j.answers.count('sat'))
    ctx.count('answers unsat', j.answers.count('unsat'))
    ctx.count('sat answers certified by their model', sum(j.verified))
    ctx.count('answers compared with z3', j.n_ref)
    ctx.count('models evaluated', j.n_models)
    ctx.count('printed values', j.n_values)
    ctx.count('profile ' + s.tag)
    if j.n_unknown:
        ctx.inconclusive('reference timeout')
    ctx.seen(txt + opts, len(s.assertions()) > 0)
    if len(txt) < 900 and ctx.evals % 37 == 5:
        ctx.sample(txt)


def rep(s, txt, opts, r, exe):
    return {'script': txt, 'options': opts, 'build': exe, 'profile': s.tag, 'output': r.out[:3000] if r else ''}


def std_case(ctx, i, rng, exe, cfg, uf, kinds, gen=None, crash=True, opts=None, p_multi=0.15, timeout=20.0):
    s = gen(rng) if gen else smtgen.gen(rng, uf)
    if rng.random() < p_multi:
        multi(s, rng)
    txt = smtast.script_str(s, rng, noise=True)
    o = opts or rand_opts(rng)
    r = get_exec(ctx, cfg, exe).run(txt, o, timeout)
    k = abnormal(r)
    if k:
        if crash:
            ctx.seen(txt)
            ctx.violation(k, crash_detail(r), rep(s, txt, o, r, cfg))
        else:
            ctx.inconclusive(k[:40])
        return
    j = oracle.examine(s, r.out, verdicts='verdict' in kinds)
    note(ctx, s, txt, o, j)
    for kind, d in j.problems:
        if kind in kinds:
            ctx.violation('%s:%s' % (kind, s.tag), d, rep(s, txt, o, r, cfg))
        else:
            ctx.inconclusive('other property: ' + kind)


def sized(rng):
    """larger formulas of the conflict-rich profiles: hundreds of conflicts, restarts, clause deletion"""
    return rng.choice([smtgen.p_hard3sat, smtgen.p_hardcnf, smtgen.p_sched, smtgen.p_hardparity])(rng)


def uf_sized(rng):
    return smtgen.u_hard(rng)


def c01(chk):
    exe = build.build([('smt_batch', 'debug')])[('smt_batch', 'debug')]
    kinds = {'verdict', 'error'}
    chk.stage('random', chk.n(24000, 400000), lambda c, i, r: std_case(c, i, r, exe, 'debug', False, kinds))
    chk.stage('large', chk.n(900, 12000), lambda c, i, r: std_case(c, i, r, exe, 'debug', False, kinds, gen=sized, p_multi=0.05))


def c02(chk):
    exe = build.build([('smt_batch', 'debug')])[('smt_batch', 'debug')]
    kinds = {'model', 'malformed'}
    chk.stage('random', chk.n(30000, 500000), lambda c, i, r: std_case(c, i, r, exe, 'debug', False, kinds, crash=False))
    chk.stage('large', chk.n(600, 8000), lambda c, i, r: std_case(c, i, r, exe, 'debug', False, kinds, gen=sized, crash=False))


def c04(chk):
    exe = build.build([('smt_batch', 'debug')])[('smt_batch', 'debug')]
    kinds = {'verdict', 'error'}
    chk.stage('random', chk.n(24000, 400000), lambda c, i, r: std_case(c, i, r, exe, 'debug', True, kinds))
    chk.stage('large', chk.n(900, 12000), lambda c, i, r: std_case(c, i, r, exe, 'debug', True, kinds, gen=uf_sized, p_multi=0.05))


def c05(chk):
    exe = build.build([('smt_batch', 'debug')])[('smt_batch', 'debug')]
    kinds = {'model', 'malformed'}
    chk.stage('random', chk.n(30000, 500000), lambda c, i, r: std_case(c, i, r, exe, 'debug', True, kinds, crash=False))
    chk.stage('large', chk.n(600, 8000), lambda c, i, r: std_case(c, i, r, exe, 'debug', True, kinds, gen=uf_sized, crash=False))
