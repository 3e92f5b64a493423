"""AST of SMT-LIB scripts, printer with syntactic variation, exact evaluator, z3 translation.

Terms are nested tuples:
  ('var', name)            variable / formal parameter / let variable
  ('num', Fraction)        rational constant
  ('bool', True|False)
  (op, a1, ..., an)        op in OPS
  ('app', f, a1, ..., an)  application of a declared function
  ('call', f, a1, ..., an) application of a defined function (define-fun)
  ('let', ((name, term), ...), body)
"""
from fractions import Fraction
import functools

BOOL_OPS = {'and', 'or', 'not', '=>', 'xor'}
REL_OPS = {'<', '<=', '>', '>='}
ARITH_OPS = {'+', '-', '*', '/'}


class Script:
    def __init__(self, logic='QF_LRA'):
        self.logic = logic
        self.cmds = []       # list of tuples
        self.sorts = {}      # constant name -> sort
        self.funs = {}       # function name -> (arg sorts, ret sort)
        self.defs = {}       # defined function -> (params [(n,s)], ret, body)
        self.tag = ''
        self.expect = None   # optional known status

    def declare(self, name, sort):
        self.sorts[name] = sort
        self.cmds.append(('declare', name, sort))

    def declare_fun(self, name, args, ret):
        self.funs[name] = (tuple(args), ret)
        self.cmds.append(('declare-fun', name, tuple(args), ret))

    def define_fun(self, name, params, ret, body):
        self.defs[name] = (params, ret, body)
        self.cmds.append(('define-fun', name, params, ret, body))

    def assert_(self, term):
        self.cmds.append(('assert', term))

    def check(self):
        self.cmds.append(('check',))

    def model(self):
        self.cmds.append(('model',))

    def assertions(self):
        return [c[1] for c in self.cmds if c[0] == 'assert']


# ------------------------------------------------------------------ printing
SIMPLE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789~!@$%^&*+=<>.?/_-')


RESERVED = {'let', 'assert', 'check-sat', 'define-fun', '!', '_', 'as', 'par', 'match', 'push', 'pop', 'exit', 'reset'}


def sym(name):
    if name and name not in RESERVED and all(c in SIMPLE for c in name) and not name[0].isdigit():
        return name
    return '|' + name + '|'


def num_str(q, rng=None):
    """Render a rational literal, using one of the several SMT-LIB spellings."""
    neg = q < 0
    a = -q if neg else q
    n, d = a.numerator, a.denominator
    style = rng.randrange(6) if rng else 0
    # decimal possible?
    dd = d
    while dd % 2 == 0:
        dd //= 2
    while dd % 5 == 0:
        dd //= 5
    s = None
    if dd == 1 and style in (1, 2) and d < 10**12:
        k = 0
        while (10 ** k) % d:
            k += 1
        if style == 2 and rng:
            k += rng.randrange(3) if rng.random() < .9 else rng.randrange(6, 45)
        k = max(k, 1)
        v = n * 10 ** k // d
        t = str(v).rjust(k + 1, '0')
        s = t[:-k] + '.' + t[-k:]
    if s is None:
        if d == 1:
            s = str(n)
        else:
            if style == 3 and neg:
                return '(/ (- %d) %d)' % (n, d)
            if style == 4 and rng:
                m = rng.randrange(1, 5) if rng.random() < .9 else rng.randrange(1, 10 ** 15)
                s = '(/ %d %d)' % (n * m, d * m)
            elif style == 5 and rng:
                s = '(/ %d.0 %d.0)' % (n, d)
            else:
                s = '(/ %d %d)' % (n, d)
    return '(- %s)' % s if neg else s


def term_str(t, rng=None, quote=None):
    q = quote or sym
    k = t[0]
    if k == 'var':
        return q(t[1])
    if k == 'num':
        return num_str(t[1], rng)
    if k == 'bool':
        return 'true' if t[1] else 'false'
    if k in ('app', 'call'):
        if len(t) == 2:
            return q(t[1])
        return '(%s %s)' % (q(t[1]), ' '.join(term_str(a, rng, quote) for a in t[2:]))
    if k == 'let':
        return '(let (%s) %s)' % (' '.join('(%s %s)' % (q(n), term_str(b, rng, quote)) for n, b in t[1]),
                                  term_str(t[2], rng, quote))
    return '(%s %s)' % (k, ' '.join(term_str(a, rng, quote) for a in t[1:]))


def script_str(s, rng=None, noise=False, nums=True):
    quote = sym
    nrng = rng if nums else None
    if noise and rng is not None and rng.random() < 0.3:
        quoted = {}

        def quote(n):
            # each use of a symbol may be quoted or not
            return '|%s|' % n if rng.random() < 0.3 else sym(n)
    out = []
    if noise and rng is not None and rng.random() < 0.5:
        out.append('; a comment (assert false) "')
        out.append('(set-info :status unknown)')
        out.append('(set-info :smt-lib-version 2.6)')
        out.append('(set-info :source |some (text) ; here|)')
    if s.logic:
        out.append('(set-logic %s)' % s.logic)
    for c in s.cmds:
        if c[0] == 'declare':
            if rng is not None and rng.random() < 0.5:
                out.append('(declare-const %s %s)' % (quote(c[1]), c[2]))
            else:
                out.append('(declare-fun %s () %s)' % (quote(c[1]), c[2]))
        elif c[0] == 'declare-fun':
            out.append('(declare-fun %s (%s) %s)' % (quote(c[1]), ' '.join(c[2]), c[3]))
        elif c[0] == 'define-fun':
            out.append('(define-fun %s (%s) %s %s)' % (
                quote(c[1]), ' '.join('(%s %s)' % (quote(n), so) for n, so in c[2]), c[3],
                term_str(c[4], nrng, quote)))
        elif c[0] == 'assert':
            out.append('(assert %s)' % term_str(c[1], nrng, quote))
        elif c[0] == 'check':
            out.append('(check-sat)')
        elif c[0] == 'model':
            out.append('(get-model)')
        elif c[0] == 'raw':
            out.append(c[1])
        if noise and rng is not None and rng.random() < 0.1:
            out.append(rng.choice(['; comment', '', ' \t', ';; (check-sat)']))
    sep = '\n'
    if noise and rng is not None and rng.random() < 0.1:
        sep = '\r\n'
    return sep.join(out) + '\n'


# ------------------------------------------------------------------ evaluation
class Undefined(Exception):
    pass


def evaluate(t, env, funs, defs):
    """env: name -> bool/Fraction ; funs: name -> callable ; defs: define-fun table."""
    k = t[0]
    if k == 'var':
        if t[1] not in env:
            raise Undefined(t[1])
        return env[t[1]]
    if k == 'num' or k == 'bool':
        return t[1]
    if k == 'let':
        new = dict(env)
        new.setdefault('__g__', env)
        vals = [(n, evaluate(b, env, funs, defs)) for n, b in t[1]]
        new.update(vals)
        return evaluate(t[2], new, funs, defs)
    if k == 'ite':
        return evaluate(t[2] if evaluate(t[1], env, funs, defs) else t[3], env, funs, defs)
    if k == 'app':
        return funs[t[1]](tuple(evaluate(a, env, funs, defs) for a in t[2:]))
    if k == 'call':
        params, _, body = defs[t[1]]
        g = env.get('__g__', env)
        new = dict(g)
        new['__g__'] = g
        for (n, _), a in zip(params, t[2:]):
            new[n] = evaluate(a, env, funs, defs)
        return evaluate(body, new, funs, defs)
    a = [evaluate(x, env, funs, defs) for x in t[1:]]
    if k == 'and':
        return all(a)
    if k == 'or':
        return any(a)
    if k == 'not':
        return not a[0]
    if k == '=>':
        return (not all(a[:-1])) or a[-1]
    if k == 'xor':
        r = a[0]
        for x in a[1:]:
            r = r != x
        return r
    if k == '=':
        return all(a[i] == a[i + 1] for i in range(len(a) - 1))
    if k == 'distinct':
        return len(set(a)) == len(a)
    if k == '<':
        return all(a[i] < a[i + 1] for i in range(len(a) - 1))
    if k == '<=':
        return all(a[i] <= a[i + 1] for i in range(len(a) - 1))
    if k == '>':
        return all(a[i] > a[i + 1] for i in range(len(a) - 1))
    if k == '>=':
        return all(a[i] >= a[i + 1] for i in range(len(a) - 1))
    if k == '+':
        return sum(a, Fraction(0))
    if k == '-':
        if len(a) == 1:
            return -a[0]
        r = a[0]
        for x in a[1:]:
            r -= x
        return r
    if k == '*':
        r = Fraction(1)
        for x in a:
            r *= x
        return r
    if k == '/':
        r = a[0]
        for x in a[1:]:
            if x == 0:
                raise Undefined('/0')
            r = r / x
        return r
    raise ValueError(k)


# ------------------------------------------------------------------ expansion
class TooBig(Exception):
    pass


def expand(t, defs, env=None, budget=None):
    """The term without let and without defined functions: simultaneous substitution. The result has no binders, so
    nothing can be captured; a global is shadowed exactly where a binder of its name is in scope."""
    if budget is None:
        budget = [6000]
    env = env or {}
    k = t[0]
    if k == 'var':
        return env.get(t[1], t)
    if k in ('num', 'bool'):
        return t
    budget[0] -= 1
    if budget[0] < 0:
        raise TooBig()
    if k == 'let':
        new = dict(env)
        for n, b in t[1]:
            new[n] = expand(b, defs, env, budget)
        r = expand(t[2], defs, new, budget)
    elif k == 'call':
        params, _, body = defs[t[1]]
        args = [expand(a, defs, env, budget) for a in t[2:]]
        r = expand(body, defs, {n: a for (n, _), a in zip(params, args)}, budget)
    elif k == 'app':
        return ('app', t[1]) + tuple(expand(a, defs, env, budget) for a in t[2:])
    else:
        return (k,) + tuple(expand(a, defs, env, budget) for a in t[1:])
    budget[0] -= 0
    return r


def size(t, cap=100000):
    n = 0
    st = [t]
    while st:
        x = st.pop()
        n += 1
        if n > cap:
            return n
        for a in x[1:]:
            if isinstance(a, tuple):
                if a and isinstance(a[0], tuple):      # let bindings
                    st.extend(b for _, b in a)
                else:
                    st.append(a)
    return n


# ------------------------------------------------------------------ z3
def to_z3(script, assertions=None):
    import z3
    consts = {}
    for n, so in script.sorts.items():
        consts[n] = z3.Bool(n) if so == 'Bool' else z3.Real(n)
    S = {'Bool': z3.BoolSort(), 'Real': z3.RealSort()}
    fs = {n: z3.Function(n, *[S[x] for x in a], S[r]) for n, (a, r) in script.funs.items()}
    defs = script.defs

    def conv(t, env):
        k = t[0]
        if k == 'var':
            return env[t[1]]
        if k == 'num':
            return z3.RealVal(str(t[1].numerator) + '/' + str(t[1].denominator))
        if k == 'bool':
            return z3.BoolVal(t[1])
        if k == 'let':
            new = dict(env)
            for n, b in t[1]:
                new[n] = conv(b, env)
            return conv(t[2], new)
        if k == 'call':
            params, _, body = defs[t[1]]
            new = dict(consts)
            for (n, _), a in zip(params, t[2:]):
                new[n] = conv(a, env)
            return conv(body, new)
        a = [conv(x, env) for x in (t[2:] if k == 'app' else t[1:])]
        if k == 'app':
            return fs[t[1]](*a)
        if k == 'ite':
            return z3.If(a[0], a[1], a[2])
        if k == 'and':
            return z3.And(*a)
        if k == 'or':
            return z3.Or(*a)
        if k == 'not':
            return z3.Not(a[0])
        if k == '=>':
            return z3.Implies(z3.And(*a[:-1]), a[-1])
        if k == 'xor':
            r = a[0]
            for x in a[1:]:
                r = z3.Xor(r, x)
            return r
        if k == '=':
            return z3.And(*[a[i] == a[i + 1] for i in range(len(a) - 1)])
        if k == 'distinct':
            return z3.And(*[a[i] != a[j] for i in range(len(a)) for j in range(i + 1, len(a))])
        if k in REL_OPS:
            f = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y,
                 '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}[k]
            return z3.And(*[f(a[i], a[i + 1]) for i in range(len(a) - 1)])
        if k == '+':
            return z3.Sum(*a) if len(a) > 1 else a[0]
        if k == '-':
            if len(a) == 1:
                return -a[0]
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if k == '*':
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if k == '/':
            r = a[0]
            for x in a[1:]:
                r = r / x
            return r
        raise ValueError(k)

    return [conv(t, consts) for t in (script.assertions() if assertions is None else assertions)]


def z3_status(script, assertions=None, timeout_ms=4000):
    """'sat' | 'unsat' | 'unknown'"""
    import z3
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(*to_z3(script, assertions))
    return str(s.check())


# ------------------------------------------------------------------ s-expressions
def parse_sexprs(text):
    """Parse text into nested lists of atoms. Raises ValueError if not well formed."""
    toks = []
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
        elif c in '()':
            toks.append(c)
            i += 1
        elif c == '|':
            j = text.index('|', i + 1)
            toks.append(('s', text[i + 1:j]))
            i = j + 1
        elif c == '"':
            j = i + 1
            while True:
                j = text.index('"', j)
                if text[j:j + 2] == '""':
                    j += 2
                    continue
                break
            toks.append(('str', text[i + 1:j]))
            i = j + 1
        elif c == ';':
            j = text.find('\n', i)
            i = n if j < 0 else j
        else:
            j = i
            while j < n and not text[j].isspace() and text[j] not in '()|";':
                j += 1
            toks.append(('s', text[i:j]))
            i = j
    out = []
    stack = [out]
    for t in toks:
        if t == '(':
            stack.append([])
        elif t == ')':
            if len(stack) < 2:
                raise ValueError('unbalanced )')
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(t[1] if t[0] == 's' else '"' + t[1])
    if len(stack) != 1:
        raise ValueError('unbalanced (')
    return out


def parse_value(x):
    """Printed value -> bool / Fraction; raises ValueError."""
    if x == 'true':
        return True
    if x == 'false':
        return False
    if isinstance(x, str):
        if not x or not all(c.isdigit() for c in x):
            raise ValueError('bad literal %r' % x)
        return Fraction(int(x))
    if len(x) == 2 and x[0] == '-':
        v = parse_value(x[1])
        if isinstance(v, bool):
            raise ValueError('bad literal')
        return -v
    if len(x) == 3 and x[0] == '/':
        a, b = parse_value(x[1]), parse_value(x[2])
        if isinstance(a, bool) or isinstance(b, bool) or b == 0:
            raise ValueError('bad literal')
        return Fraction(a, b)
    raise ValueError('bad value %r' % (x,))


def sexpr_term(x):
    """Parsed s-expression of a function body -> AST (only what models use)."""
    if isinstance(x, str):
        if x == 'true' or x == 'false':
            return ('bool', x == 'true')
        if x[0].isdigit():
            return ('num', parse_value(x))
        return ('var', x)
    h = x[0]
    if h in ('ite', 'and', 'or', 'not', '=', '-', '/', '+'):
        return (h,) + tuple(sexpr_term(y) for y in x[1:])
    raise ValueError('bad term %r' % (x,))
