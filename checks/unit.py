"""Checks which drive one component through a harness process per case (protocol of harness/unit.h)."""
import hashlib
import subprocess
import tempfile

import build
import mon
import runner

CASES = {}


def proc_stage(chk, stage, n, exe, argv, timeout=240, name=None):
    """n processes `exe seed argv...`; argv may be a function of (index, rng)"""

    def case(ctx, i, rng):
        seed = int.from_bytes(hashlib.blake2b(('%d:%s:%s:%d' % (chk.seed, chk.pid, stage, i)).encode(), digest_size=6).digest(), 'big')
        args = [str(a) for a in (argv(i, rng) if callable(argv) else argv)]
        cmd = [exe, str(seed)] + args
        rp = {'harness': name or exe.split('/bin-')[-1].rsplit('-', 1)[0], 'seed': seed, 'args': args}
        with tempfile.TemporaryFile() as ef:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=ef, env=runner.ENV,
                                 preexec_fn=runner.limits)
            try:
                out, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                ef.seek(0)
                said = [l[5:].partition('\t') for l in ef.read().decode('utf-8', 'replace').split('\n') if l.startswith('viol ')]
                for key, _, detail in said:
                    ctx.violation(key, '%s\n%s %s' % (detail, rp['harness'], ' '.join(cmd[1:])), rp)
                if not said:
                    ctx.inconclusive('harness ran over its time')
                return
            ef.seek(0)
            err = ef.read().decode('utf-8', 'replace')
        ctx.evals += 1
        for line in out.decode('utf-8', 'replace').split('\n'):
            kind, _, rest = line.partition(' ')
            if kind == 'count':
                nm, _, k = rest.rpartition(' ')
                ctx.count(nm, int(k))
            elif kind == 'top':
                nm, _, k = rest.rpartition(' ')
                ctx.top(nm, int(k))
            elif kind == 'seen':
                ctx.evals += 1
                ctx.hashes.add(bytes.fromhex(rest.rjust(16, '0')))
            elif kind == 'sample':
                ctx.sample(rest)
            elif kind == 'viol':
                key, _, detail = rest.partition('\t')
                ctx.violation(key, '%s\n%s %s' % (detail, rp['harness'], ' '.join(cmd[1:])), rp)
        if p.returncode != 0:
            key = runner.crash_key((p.returncode, err))
            ctx.violation(key, err[-3000:] + '\n%s %s' % (rp['harness'], ' '.join(cmd[1:])), rp)
        if i < 1:
            ctx.sample('%s %s' % (rp['harness'], ' '.join(cmd[1:])))
    chk.stage(stage, n, case)


def c07(chk):
    e = build.build([('u_terms', 'asan'), ('u_terms', 'debug')])
    proc_stage(chk, 'asan', chk.n(24, 400), e[('u_terms', 'asan')], (40, 'meaning', 250))
    proc_stage(chk, 'fast', chk.n(48, 1600), e[('u_terms', 'debug')], (150, 'meaning', 250))
    proc_stage(chk, 'short', chk.n(16, 400), e[('u_terms', 'debug')], (1500, 'meaning', 30))
    proc_stage(chk, 'dense', chk.n(16, 300), e[('u_terms', 'debug')], (20, 'dense'))


def c09(chk):
    e = build.build([('u_terms', 'asan'), ('u_terms', 'debug')])
    proc_stage(chk, 'asan', chk.n(16, 300), e[('u_terms', 'asan')], (30, 'unique', 250))
    proc_stage(chk, 'fast', chk.n(32, 1000), e[('u_terms', 'debug')], (60, 'unique', 250))
    # terms which differ in few arguments
    proc_stage(chk, 'dense', chk.n(16, 300), e[('u_terms', 'debug')], (20, 'dense'))
    # many terms in one manager: rehashing and growth of the tables
    proc_stage(chk, 'long', chk.n(16, 200), e[('u_terms', 'debug')], lambda i, r: (1, 'unique', r.choice([3000, 8000, 20000])))
    proc_stage(chk, 'longer', chk.n(1, 12), e[('u_terms', 'debug')], (1, 'unique', 60000), timeout=500)


def c10(chk):
    e = build.build([('u_rational', 'asan'), ('u_rational', 'release')])
    proc_stage(chk, 'asan', chk.n(24, 600), e[('u_rational', 'asan')], (60,))
    proc_stage(chk, 'release', chk.n(24, 2000), e[('u_rational', 'release')], (500,))


def both(chk, name, asan, fast, argv_asan, argv_fast):
    """the same harness under sanitizers and at full speed; asan, fast: (cases in quick, cases in thorough)"""
    e = build.build([(name, 'asan'), (name, 'debug')])
    proc_stage(chk, name + '-asan', chk.n(*asan), e[(name, 'asan')], argv_asan)
    proc_stage(chk, name + '-fast', chk.n(*fast), e[(name, 'debug')], argv_fast)


def c15(chk):
    both(chk, 'u_lincons', (16, 400), (48, 4000), (50, 120), lambda i, r: (300, r.choice([30, 120, 120])) if i % 8 else (10, 3000))
    mon.small(chk)


def c16(chk):
    both(chk, 'u_subsume', (16, 400), (48, 4000), (150,), (2500,))
    mon.small(chk)


def c17(chk):
    both(chk, 'u_order', (16, 300), (48, 3000), (100,), (700,))
    mon.small(chk)


def c18(chk):
    both(chk, 'u_restart', (8, 100), (32, 1500), (3,), (20,))
    mon.small(chk)


def c26(chk):
    e = build.build([('u_facade', 'asan'), ('u_facade', 'debug')])
    proc_stage(chk, 'asan', chk.n(32, 800), e[('u_facade', 'asan')], (15,), timeout=120)
    proc_stage(chk, 'fast', chk.n(128, 8000), e[('u_facade', 'debug')], (100,), timeout=120)


def c29(chk):
    both(chk, 'u_events', (32, 800), (96, 6000), (50,), (300,))
