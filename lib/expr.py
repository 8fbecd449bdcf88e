"""Expressions of the specification (module Expr): making, printing, size guard, reading back"""
import ast
from fractions import Fraction

BIN = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
UNARY_FN = ['abs', 'floor', 'ceil', 'tw']
FOLDED = {
    'logexp': 'log(exp({0}))', 'sqrtsq': 'sqrt(({0})**2)', 'hypot': 'hypot(3*({0}),4*({0}))',
    'logis': 'logit(expit({0}))', 'trig': '(sin({0})**2+cos({0})**2)', 'tan': '(tan({0})-sin({0})/cos({0}))',
    'expadd': 'exp({0}+{1})/(exp({0})*exp({1}))', 'erf': '(erf({0})+erf(-({0})))'}
NARGS = {'add': 2, 'sub': 2, 'mul': 2, 'div': 2, 'neg': 1, 'pow': 1, 'min': 2, 'max': 2, 'iflt': 4, 'ifge': 4,
         'step': 4, 'lin': 2, 'abs': 1, 'floor': 1, 'ceil': 1, 'tw': 1, 'logexp': 1, 'sqrtsq': 1, 'hypot': 1,
         'logis': 1, 'trig': 1, 'tan': 1, 'expadd': 2, 'erf': 1, 'and': 2, 'or': 2, 'not': 1, 'if': 3, 'in': 3,
         'lt': 2, 'le': 2, 'eq': 2, 'ne': 2, 'chain': 3, 'fdiv': 2, 'mod': 2}
WORDS = {'and': ['{0} and {1}'], 'or': ['{0} or {1}'], 'not': ['not {0}'], 'if': ['{1} if {0} else {2}'],
         'in': ['{0} in ( {1} , {2} )', '{0} in [ {1} , {2} ]'], 'lt': ['{0} < {1}', '{1} > {0}', 'not {0} >= {1}'],
         'le': ['{0} <= {1}', '{1} >= {0}'], 'eq': ['{0} == {1}'],
         'ne': ['{0} != {1}', 'not {0} == {1}'], 'chain': ['{0} < {1} <= {2}', '{0} < {1} and {1} <= {2}'],
         'fdiv': ['{0} // {1}'], 'mod': ['{0} % {1}']}


def node(op, *a, v=0, n=''):
    return {'op': op, 'v': v, 'n': n, 'a': list(a)}


def num(i):
    return node('num', v=i)


def var(x):
    return node('var', n=x)


def make(rng, names, depth, plain=False, pnum=.35):
    if depth == 0 or rng.random() < .15:
        if names and rng.random() > pnum:
            return var(rng.choice(names))
        return num(rng.randint(0, 9))
    ops = ['add', 'sub', 'mul', 'div', 'neg', 'pow', 'min', 'max', 'iflt', 'ifge', 'step', 'lin', 'abs', 'floor',
           'ceil', 'tw', 'and', 'or', 'not', 'if', 'if', 'in', 'lt', 'le', 'eq', 'ne', 'chain', 'fdiv', 'mod']
    if not plain:
        ops += list(FOLDED)
    op = rng.choice(ops + ['add', 'sub', 'mul', 'div'] * 2)
    return node(op, *[make(rng, names, depth - 1, plain, pnum) for _ in range(NARGS[op])],
                v=rng.choice([2, 2, 3, 1, 0]) if op == 'pow' else 0)


def text(e, rng, sp=None, lazy=True):
    """Print with redundant brackets or not, function or operator forms, blanks or not"""
    s = ' ' if (sp if sp is not None else rng.random() < .3) else ''
    t = lambda x: text(x, rng, sp, lazy)
    def wrap(x):
        r = t(x)
        return r if x['op'] in ('num', 'var') or x['op'] in NARGS and x['op'] not in list(BIN) + list(WORDS) + ['neg', 'pow', 'expadd'] and \
            not r.startswith('-') and x['op'] not in ('iflt', 'ifge') else '(' + r + ')'
    o, a = e['op'], e['a']
    if o == 'num':
        return str(e['v'])
    if o == 'var':
        return e['n']
    if o in BIN:
        return wrap(a[0]) + s + BIN[o] + s + wrap(a[1])
    if o == 'neg':
        return '-' + wrap(a[0])
    if o in WORDS:
        return _spaced([x.format(*map(wrap, a)) for x in rng.choice(WORDS[o]).split(' ')], rng, s)
    if o == 'pow':
        return wrap(a[0]) + '**' + str(e['v']) if rng.random() < .5 else 'pow(%s,%s%d)' % (t(a[0]), s, e['v'])
    if o in ('abs', 'floor', 'ceil', 'tw'):
        return '%s(%s)' % (o, t(a[0]))
    if o in ('min', 'max'):
        return '%s(%s,%s%s)' % (o, t(a[0]), s, t(a[1]))
    if o == 'lin':
        x, y = t(a[0]), t(a[1])
        return rng.choice(['lin({0}, {1})', 'lin({0},y={1})', 'lin(x={0}, y={1})', 'lin(y={1},x={0})']).format(x, y)
    if o in ('iflt', 'ifge'):
        x, y, z, w = map(wrap, a)
        c = {'iflt': ['{0}<{1}', '{1}>{0}', '({0}<{1})and(2>1)', 'not({0}>={1})'],
             'ifge': ['{0}>={1}', '{1}<={0}', '({0}>{1})or({0}=={1})']}[o]
        return rng.choice(['ifelse(%s,{2},{3})', 'ifelse(%s, {2}, {3})', '(({2})if(%s)else({3}))'][:3 if lazy else 2]).replace(
            '%s', rng.choice(c)).format(x, y, z, w)
    if o == 'step':
        return 'step(%s)' % (',' + s).join(map(t, a))
    return FOLDED[o].format(*['(%s)' % t(x) for x in a])


def _spaced(tokens, rng, s):
    """Tokens one after the other: at least a blank between two words, anything elsewhere"""
    r = ''
    word = lambda ch: ch.isalnum() or ch == '_'
    for x in tokens:
        if r and word(r[-1]) and word(x[0]):
            r += rng.choice([' ', ' ', ' ', '  ', '\t'])
        elif r:
            r += rng.choice([s, s, s, '  ']) if s else ''
        r += x
    return r


def guard(e, env, lim=3000, exact=False):
    """Can the value be computed with small numbers by the specification and by floats?  (no oracle)"""
    try:
        r = _val(e, env, lim)
        return r is not None and (r[1] or not exact)
    except (ZeroDivisionError, KeyError, OverflowError):
        return False


LAZY = ('and', 'or', 'if', 'chain')
BOOLS = ('not', 'in', 'lt', 'le', 'eq', 'ne', 'chain')


def _val(e, env, lim):
    """(value, is the float computation exact, is it a truth value), or None where floats and rationals could disagree"""
    import math
    if e['op'] == 'num':
        return Fraction(e['v']), True, False
    if e['op'] == 'var':
        f = Fraction(*env[e['n']])
        return f, f.denominator in (1, 2, 4, 8), False
    o = e['op']
    if o in LAZY:
        c = _val(e['a'][0], env, lim)
        if c is None or c[0] == 0 and not c[1]:
            return None
        if o == 'and':
            return c if c[0] == 0 else _val(e['a'][1], env, lim)
        if o == 'or':
            return _val(e['a'][1], env, lim) if c[0] == 0 else c
        if o == 'if':
            return _val(e['a'][1 if c[0] else 2], env, lim)
        y = _val(e['a'][1], env, lim)
        if y is None or c[0] == y[0] and not (c[1] and y[1]):
            return None
        if not c[0] < y[0]:
            return Fraction(0), True, True
        z = _val(e['a'][2], env, lim)
        if z is None or z[0] == y[0] and not (z[1] and y[1]):
            return None
        return Fraction(int(y[0] <= z[0])), True, True
    sub = [_val(x, env, lim) for x in e['a']]
    if any(x is None for x in sub):
        return None
    a = [x[0] for x in sub]
    ex = [x[1] for x in sub]
    bo = [x[2] for x in sub]
    exact = all(ex)
    x = a[0]
    y = a[1] if len(a) > 1 else 0
    # arithmetic between truth values depends on where they come from (numpy)
    if any(bo) and (o in FOLDED or o in ('neg', 'abs', 'floor', 'ceil', 'pow', 'tw', 'lin') or all(bo) and
                    o in ('add', 'sub', 'mul', 'div', 'fdiv', 'mod')):
        return None
    if o in ('iflt', 'ifge', 'step', 'lt', 'le', 'eq', 'ne', 'in') and x == y and not (ex[0] and ex[1]):
        return None
    if o == 'in' and x == a[2] and not (ex[0] and ex[2]) or o == 'not' and x == 0 and not exact:
        return None
    if o in ('fdiv', 'mod') and not exact and (x / y).denominator == 1:
        return None
    if o in ('floor', 'ceil') and x.denominator == 1 and not exact:
        return None
    if o in ('floor', 'ceil', 'fdiv') or o in BOOLS:
        exact = True
    r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'div': lambda: x / y, 'neg': lambda: -x,
         'pow': lambda: x ** e['v'], 'abs': lambda: abs(x), 'floor': lambda: Fraction(math.floor(x)),
         'ceil': lambda: Fraction(math.ceil(x)), 'min': lambda: min(x, y), 'max': lambda: max(x, y),
         'iflt': lambda: a[2] if x < y else a[3], 'ifge': lambda: a[2] if x >= y else a[3],
         'step': lambda: a[2] if x < y else a[3], 'tw': lambda: 2 * x + 1, 'lin': lambda: 2 * x + 3 * y,
         'not': lambda: Fraction(int(x == 0)), 'in': lambda: Fraction(int(x in (y, a[2]))),
         'lt': lambda: Fraction(int(x < y)), 'le': lambda: Fraction(int(x <= y)), 'eq': lambda: Fraction(int(x == y)),
         'ne': lambda: Fraction(int(x != y)), 'fdiv': lambda: Fraction(x // y), 'mod': lambda: x % y,
         'sqrtsq': lambda: abs(x), 'hypot': lambda: 5 * abs(x), 'trig': lambda: Fraction(1), 'tan': lambda: Fraction(0),
         'expadd': lambda: Fraction(1), 'erf': lambda: Fraction(0)}.get(o, lambda: x)()
    if o in ('logexp', 'logis', 'expadd') and (abs(x) > 9 or abs(y) > 9):
        return None
    if o in ('trig', 'tan') and (abs(x) > 50 or abs(math.cos(x)) < .05):
        return None
    if abs(r.numerator) > lim or r.denominator > lim:
        return None
    d = r.denominator
    return r, exact and o not in FOLDED and d & (d - 1) == 0, o in BOOLS or o in ('min', 'max', 'iflt', 'ifge', 'step') and any(bo)


def _folded(e):
    return e['op'] in FOLDED or any(map(_folded, e['a']))


def frac(v, truth=False):
    """A number returned by the code as [num, den], or None if it is not a number of the size used"""
    try:
        import numpy as np
        if isinstance(v, (bool, np.bool_)) and not truth:
            return None
        v = float(v)
        f = Fraction(v).limit_denominator(100000)
        if abs(float(f) - v) <= 1e-8 * max(1.0, abs(v)) and abs(f.numerator) < 2 ** 30:
            return [f.numerator, f.denominator]
    except (TypeError, ValueError, OverflowError):
        pass
    return None


def read(src):
    """Text -> generic syntax tree of the same record shape, for comparing expressions structurally"""
    return _conv(ast.parse(src, mode='eval').body)


def _conv(t):
    if isinstance(t, ast.Constant):
        if isinstance(t.value, int) and not isinstance(t.value, bool):
            return num(t.value)
        if isinstance(t.value, float):
            f = Fraction(t.value).limit_denominator(10000)
            return num(f.numerator) if f.denominator == 1 else node('call:ratio', num(f.numerator), num(f.denominator))
        return node('const', n=repr(t.value))
    if isinstance(t, ast.Name):
        return var(t.id)
    if isinstance(t, ast.BinOp):
        return node('bin:' + type(t.op).__name__, _conv(t.left), _conv(t.right))
    if isinstance(t, ast.UnaryOp):
        return node('un:' + type(t.op).__name__, _conv(t.operand))
    if isinstance(t, ast.BoolOp):
        return node('bool:' + type(t.op).__name__, *map(_conv, t.values))
    if isinstance(t, ast.Compare):
        return node('cmp:' + ','.join(type(o).__name__ for o in t.ops), _conv(t.left), *map(_conv, t.comparators))
    if isinstance(t, ast.IfExp):
        return node('if', _conv(t.test), _conv(t.body), _conv(t.orelse))
    if isinstance(t, ast.Call):
        return node('call:' + getattr(t.func, 'id', '?'), *(list(map(_conv, t.args)) + [
            node('kw', _conv(k.value), n=str(k.arg)) for k in t.keywords]))
    if isinstance(t, ast.Dict):
        return node('dict', *[node('item', _conv(k), _conv(v)) for k, v in zip(t.keys, t.values)])
    return node('other:' + type(t).__name__, n=ast.dump(t))


def vars_of(e):
    return ({e['n']} if e['op'] == 'var' else set()) | set().union(*map(vars_of, e['a']))
