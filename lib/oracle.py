"""Online oracle over one execution of the solver on one script: judges every answer and every model printed.

Trusted: z3 (verdicts), the exact evaluator of smtast (models)."""
import re
from fractions import Fraction

import smtast

MODEL_ERR = 'error'


class Finding(Exception):
    pass


def defaults(k):
    return {'Real': Fraction(0) if k == 0 else Fraction(355 + k, 113), 'Bool': k != 0}


def check_fun_body(body, params, ret):
    """a model body may refer to its formal parameters only"""
    names = {n for n, _ in params}

    def go(t):
        if t[0] == 'var' and t[1] not in names:
            raise ValueError('model body refers to %s' % t[1])
        for a in t[1:]:
            if isinstance(a, tuple):
                go(a)
    go(body)


def read_model(sx, script):
    """list of define-fun -> (env, funs); raises ValueError if it is not a well-formed model of the signature"""
    env, funs = {}, {}
    if not isinstance(sx, list):
        raise ValueError('not a list: %r' % (sx,))
    for d in sx:
        if not isinstance(d, list) or len(d) != 5 or d[0] != 'define-fun':
            raise ValueError('not a define-fun: %r' % (d,))
        _, name, params, sort, body = d
        if name in env or name in funs:
            raise ValueError('%s defined twice' % name)
        if params == []:
            if name not in script.sorts:
                raise ValueError('value of undeclared constant %s' % name)
            if sort != script.sorts[name]:
                raise ValueError('wrong sort of %s' % name)
            v = smtast.parse_value(body)
            if isinstance(v, bool) != (sort == 'Bool'):
                raise ValueError('ill-sorted value of %s' % name)
            env[name] = v
        else:
            if name not in script.funs:
                raise ValueError('value of undeclared function %s' % name)
            args, ret = script.funs[name]
            if [p[1] for p in params] != list(args) or sort != ret:
                raise ValueError('wrong signature of %s' % name)
            if len({p[0] for p in params}) != len(params):
                raise ValueError('repeated parameter of %s' % name)
            b = smtast.sexpr_term(body)
            ps = [p[0] for p in params]
            check_fun_body(b, params, ret)
            isb = ret == 'Bool'

            def f(a, b=b, ps=ps, isb=isb, name=name):
                v = smtast.evaluate(b, dict(zip(ps, a)), {}, {})
                if isinstance(v, bool) != isb:
                    raise ValueError('ill-sorted value of %s' % name)
                return v
            funs[name] = f
    return env, funs


def eval_model(env, funs, script, assertions):
    """None or a description of the assertion the model falsifies. Constants and functions the model does not
    mention may take any value: several are tried."""
    miss = [n for n in script.sorts if n not in env]
    missf = [n for n in script.funs if n not in funs]
    for k in range(2 if (miss or missf) else 1):
        d = defaults(k)
        e = dict(env)
        fs = dict(funs)
        for n in miss:
            e[n] = d[script.sorts[n]]
        for n in missf:
            fs[n] = lambda a, v=d[script.funs[n][1]]: v
        for i, t in enumerate(assertions):
            try:
                ok = smtast.evaluate(t, e, fs, script.defs)
            except smtast.Undefined as u:
                raise ValueError('undefined %s' % u)
            if not ok:
                return 'assertion %d is false%s: %s' % (i, ' (unprinted %s := default %d)' % (miss + missf, k) if miss or missf else '',
                                                       smtast.term_str(t)[:300])
    return None


STAT = re.compile(r'^(Conflicts|Conflict clauses|Learned clauses|Decisions|Restarts) = (-?\d+)\n', re.M)


def strip_stats(out):
    """removes the lines of --print-stats; returns (rest, [counters of each check])"""
    cs = []
    for m in STAT.finditer(out):
        if m.group(1) == 'Conflicts':
            cs.append({})
        if not cs:
            cs.append({})
        cs[-1][m.group(1)] = int(m.group(2))
    return STAT.sub('', out), cs


def expected(script, timeout_ms=4000):
    """z3 verdict of each check-sat of the script"""
    out = []
    acc = []
    for c in script.cmds:
        if c[0] == 'assert':
            acc.append(c[1])
        elif c[0] == 'check':
            out.append(smtast.z3_status(script, list(acc), timeout_ms))
    return out


def judge(script, out, exp, verdicts=True, models=True, stats=None):
    """Compares the printed responses with the expected ones. Returns list of (kind, detail).
    kinds: verdict, model, malformed, error"""
    probs = []
    out, counters = strip_stats(out)
    if stats is not None:
        for c in counters:
            for k, v in c.items():
                stats[k] = stats.get(k, 0) + v
    try:
        resp = smtast.parse_sexprs(out)
    except ValueError as e:
        return [('malformed', 'unparsable output: %s' % e)]
    pos = 0
    acc = []
    at_check = []
    last = None
    ci = 0
    for c in script.cmds:
        if c[0] == 'assert':
            acc.append(c[1])
        elif c[0] == 'check':
            if pos >= len(resp):
                return probs + [('malformed', 'no response to a check-sat')]
            r = resp[pos]
            pos += 1
            if r not in ('sat', 'unsat'):
                return probs + [('error', 'response to check-sat: %s' % (r,))]
            e = exp[ci] if exp is not None else 'unknown'
            ci += 1
            if verdicts and e in ('sat', 'unsat') and e != r:
                probs.append(('verdict', 'answer %s, reference %s (check-sat #%d)' % (r, e, ci)))
            last = r
            at_check = list(acc)
            if stats is not None:
                stats['checks'] = stats.get('checks', 0) + 1
                stats[r] = stats.get(r, 0) + 1
        elif c[0] == 'model':
            if pos >= len(resp):
                return probs + [('malformed', 'no response to a get-model')]
            r = resp[pos]
            pos += 1
            iserr = isinstance(r, list) and r and r[0] == 'error'
            if last != 'sat':
                if not iserr:
                    probs.append(('malformed', 'get-model without a sat answer printed %r' % (r,)))
                continue
            if iserr or r == 'error':
                probs.append(('model', 'error instead of a model: %s' % (r,)))
                continue
            if not models:
                continue
            try:
                env, funs = read_model(r, script)
                bad = eval_model(env, funs, script, at_check)
            except ValueError as e:
                probs.append(('model', 'malformed model: %s' % e))
                continue
            if stats is not None:
                stats['models'] = stats.get('models', 0) + 1
                stats['model_values'] = stats.get('model_values', 0) + len(env) + len(funs)
            if bad:
                probs.append(('model', 'falsified: ' + bad))
    if pos != len(resp):
        probs.append(('malformed', 'unexpected output: %r' % (resp[pos:pos + 2],)))
    return probs


class Judgement:
    def __init__(self):
        self.problems = []       # (kind, detail)
        self.answers = []        # one per check-sat
        self.verified = []       # model of that sat answer was verified exactly
        self.counters = []       # statistics printed at each check
        self.models = []         # (env, funs) per check or None
        self.n_models = 0
        self.n_values = 0
        self.n_ref = 0           # verdicts compared with z3
        self.n_unknown = 0

    def kinds(self):
        return {k for k, _ in self.problems}


def examine(script, out, timeout_ms=4000, verdicts=True):
    """The oracle: every answer and every model of one run. A sat answer is certified by its model (exact
    evaluation); unsat answers, and sat answers without a certified model, are compared with z3."""
    j = Judgement()
    body, j.counters = strip_stats(out)
    try:
        resp = smtast.parse_sexprs(body)
    except ValueError as e:
        j.problems.append(('malformed', 'unparsable output: %s' % e))
        return j
    pos = 0
    acc = []
    snaps = []
    for c in script.cmds:
        if c[0] == 'assert':
            acc.append(c[1])
        elif c[0] == 'check':
            if pos >= len(resp):
                j.problems.append(('error', 'no response to a check-sat'))
                break
            r = resp[pos]
            pos += 1
            if r not in ('sat', 'unsat'):
                j.problems.append(('error', 'response to check-sat: %s' % (r,)))
                break
            snaps.append(list(acc))
            j.answers.append(r)
            j.verified.append(False)
            j.models.append(None)
        elif c[0] == 'model':
            if pos >= len(resp):
                j.problems.append(('malformed', 'no response to a get-model'))
                break
            r = resp[pos]
            pos += 1
            iserr = isinstance(r, list) and len(r) > 0 and r[0] == 'error'
            if not j.answers or j.answers[-1] != 'sat':
                if not iserr:
                    j.problems.append(('malformed', 'get-model without a sat answer printed %r' % (r,)))
                continue
            if iserr or r == 'error':
                j.problems.append(('model', 'error instead of a model: %s' % (r,)))
                continue
            try:
                env, funs = read_model(r, script)
                bad = eval_model(env, funs, script, snaps[-1])
            except ValueError as e:
                j.problems.append(('model', 'malformed model: %s' % e))
                continue
            j.n_models += 1
            j.n_values += len(env) + len(funs)
            j.models[-1] = (env, funs)
            if bad:
                j.problems.append(('model', 'falsified: ' + bad))
            else:
                j.verified[-1] = True
    else:
        if pos != len(resp):
            j.problems.append(('malformed', 'unexpected output: %r' % (resp[pos:pos + 2],)))
    if verdicts:
        for k, (r, v) in enumerate(zip(j.answers, j.verified)):
            if r == 'sat' and v:
                continue
            e = smtast.z3_status(script, snaps[k], timeout_ms)
            if e not in ('sat', 'unsat'):
                j.n_unknown += 1
                continue
            j.n_ref += 1
            if e != r:
                j.problems.append(('verdict', 'answer %s, reference %s (check-sat #%d)' % (r, e, k + 1)))
    return j
