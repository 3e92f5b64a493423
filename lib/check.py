"""Driver shared by all checks: parallel, seeded, count-bounded exploration; known findings; evidence; verdict.

A check is a module function `setup(chk)` which registers stages. A stage is (name, number of cases, function);
the function gets (ctx, i, rng) and reports through ctx:
  ctx.seen(case_text, nontrivial)   one evaluation (for evidence)
  ctx.count(name, n)                what the monitors observed
  ctx.sample(text)
  ctx.violation(key, detail, replay_dict)
  ctx.inconclusive(why)
"""
import hashlib
import json
import multiprocessing as mp
import os
import queue
import random
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOW = float(os.environ.get('VERIF_SLOW', '0'))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Ctx:
    """per worker process"""

    def __init__(self, chk, wid, stop):
        self.chk, self.wid, self.stop = chk, wid, stop
        self.counters = Counter()
        self.hashes = set()
        self.evals = 0
        self.samples = []
        self.violations = []
        self.inc = Counter()
        self.local = {}

    def seen(self, text, nontrivial=True):
        self.evals += 1
        if nontrivial:
            if not isinstance(text, bytes):
                text = text.encode('utf-8', 'surrogateescape')
            self.hashes.add(hashlib.blake2b(text, digest_size=8).digest())

    def count(self, name, n=1):
        self.counters[name] += n

    def top(self, name, n):
        """running maximum"""
        k = 'max ' + name
        if n > self.counters[k]:
            self.counters[k] = n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s if len(s) < 1500 else s[:1500] + '...')

    def violation(self, key, detail, replay):
        self.violations.append((key, detail, replay))
        if not self.chk.is_known(key):
            self.counters['violations'] += 1
            self.stop.set()

    def inconclusive(self, why):
        self.inc[why] += 1

    def get(self, name, make):
        """object which lives as long as the worker"""
        if name not in self.local:
            self.local[name] = make()
        return self.local[name]

    def close(self):
        for o in self.local.values():
            if hasattr(o, 'stop'):
                o.stop()


def worker(chk, wid, stop, out, stages, deadline):
    ctx = Ctx(chk, wid, stop)
    err = None
    truncated = False
    try:
        for name, n, fn in stages:
            for i in range(wid, n, WORKERS):
                if stop.is_set():
                    break
                if time.time() > deadline:
                    truncated = True
                    break
                rng = random.Random('%d:%s:%s:%d' % (chk.seed, chk.pid, name, i))
                ctx.case = '%s:%d' % (name, i)
                t1 = time.time()
                fn(ctx, i, rng)
                if SLOW and time.time() - t1 > SLOW:
                    sys.stderr.write('slow: %s %.1f s\n' % (ctx.case, time.time() - t1))
    except BaseException:
        err = 'case %s\n%s' % (getattr(ctx, 'case', '?'), traceback.format_exc())
        stop.set()
    try:
        ctx.close()
    except Exception:
        pass
    out.put((ctx.counters, ctx.hashes, ctx.evals, ctx.samples, ctx.violations, ctx.inc, err, truncated))
    out.close()
    out.join_thread()
    os._exit(0)


# cases per quick run relative to the numbers in the stages, so that every check takes about half a minute on 8 cores
QUICK = {'C01': 3, 'C02': 2, 'C03': 2, 'C04': 2.5, 'C05': 5, 'C08': 4, 'C09': 1.5, 'C12': 1.5, 'C13': 1.3, 'C15': 1.5, 'C18': 2,
         'C20': 1.5, 'C21': 6, 'C22': 2, 'C23': 3, 'C24': 2.5, 'C25': 3, 'C27': 2.5}


class Check:
    def __init__(self, pid, rule, level='exploration'):
        self.pid, self.rule, self.level = pid, rule, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.scale = float(os.environ.get('VERIF_SCALE', '1'))
        self.thorough = self.tier == 'thorough'
        self.stages = []
        self.assumptions = []
        self.t0 = time.time()
        self.wall_cap = 6 * 3600 if self.thorough else 540    # safety net only; the bound is the number of cases
        self.known = {}
        path = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line.startswith('known: property=%s ' % pid):
                    rest = line.split(' ', 2)[2]
                    key, _, desc = rest.partition(' :: ')
                    self.known[key[len('key='):]] = desc
        self.min_evals = 1

    def is_known(self, key):
        return key in self.known

    def n(self, quick, thorough):
        return max(1, int((thorough if self.thorough else quick * QUICK.get(self.pid, 1)) * self.scale))

    def stage(self, name, n, fn):
        self.stages.append((name, n, fn))

    def run(self, only=None):
        stages = self.stages
        if only:
            nm, i = only.rsplit(':', 1)
            stages = [(s, n, f) for s, n, f in stages if s == nm]
            i = int(i)
            ctx = Ctx(self, 0, mp.Event())
            ctx.case = only
            for s, n, f in stages:
                f(ctx, i, random.Random('%d:%s:%s:%d' % (self.seed, self.pid, s, i)))
            ctx.close()
            print(dict(ctx.counters), dict(ctx.inc))
            for v in ctx.violations:
                print(v[0], '\n', v[1], '\n', json.dumps(v[2])[:4000])
            return 1 if ctx.violations else 0
        mpc = mp.get_context('fork')
        stop = mpc.Event()
        out = mpc.Queue()
        deadline = self.t0 + self.wall_cap
        ps = [mpc.Process(target=worker, args=(self, w, stop, out, stages, deadline)) for w in range(WORKERS)]
        for p in ps:
            p.start()
        counters, hashes, evals, samples, viols, inc, errs, trunc = Counter(), set(), 0, [], [], Counter(), [], False
        got = 0
        while got < len(ps):
            try:
                c, h, e, s, v, ic, err, tr = out.get(timeout=5)
            except queue.Empty:
                if not any(p.is_alive() for p in ps):
                    errs.append('a worker died')
                    break
                continue
            got += 1
            for k, x in c.items():
                counters[k] = max(counters[k], x) if k.startswith('max ') else counters[k] + x
            hashes |= h
            evals += e
            samples += s
            viols += v
            inc += ic
            trunc |= tr
            if err:
                errs.append(err)
        for p in ps:
            p.join(10)
        return self.finish(counters, hashes, evals, samples, viols, inc, errs, trunc)

    def finish(self, counters, hashes, evals, samples, viols, inc, errs, trunc):
        new = {}
        known = {}
        for key, detail, replay in viols:
            (known if key in self.known else new).setdefault(key, []).append((detail, replay))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': {
                'evaluations': evals, 'distinct_nontrivial': len(hashes), 'rule': self.rule,
                'samples': samples[:4],
                'observed': {k: v for k, v in sorted(counters.items())},
                'inconclusive': dict(inc), 'truncated_by_wall_clock': trunc,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(new),
        }
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s' % (
            self.pid, self.tier, self.seed, evals, len(hashes), ev['wall_s']))
        for k, v in sorted(counters.items()):
            print('  %-44s %d' % (k, v))
        for k, v in inc.most_common():
            print('  inconclusive: %s x%d' % (k, v))
        for key in sorted(self.known):
            if key in known or True:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[key]))
        if new:
            rd = os.path.join(VERIF, 'replay', self.pid)
            os.makedirs(rd, exist_ok=True)
            for n, (key, items) in enumerate(sorted(new.items())):
                detail, replay = min(items, key=lambda x: len(json.dumps(x[1], default=str)))
                h = hashlib.blake2b(key.encode(), digest_size=6).hexdigest()
                path = os.path.join(rd, '%s.json' % h)
                with open(path, 'w') as f:
                    json.dump({'property': self.pid, 'key': key, 'detail': detail, 'seed': self.seed,
                               'tier': self.tier, 'case': replay}, f, indent=1, default=str)
                print('  violation: %s\n    %s' % (key, detail.replace('\n', '\n    ')[:1500]))
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            for e in errs:
                sys.stderr.write(e + '\n')
            return 1
        if errs:
            for e in errs:
                sys.stderr.write(e + '\n')
            return 2
        if evals < self.min_evals or not hashes:
            sys.stderr.write('nothing was observed\n')
            return 2
        return 0
