"""C22 converters, C25 resampling, C26 distributions, C28 targets.
Specifications: Converter*, Resample*, Dist*, Targets*."""
import itertools, math, random
from fractions import Fraction as Fr
import numpy as np
import vp

S0 = 10000
BIG = 10 ** 8


def fx(x):
    """fixed point; what is not a moderate number becomes a number that matches nothing"""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return -BIG
    return round(x * S0) if x == x and abs(x) * S0 < BIG else -BIG


def q(x):
    x = Fr(x)
    return [x.numerator, x.denominator]


# ------------------------------------------------------------------ C26
PARS = {'k': ['k'], 'gamma': ['shape', 'rate'], 'exp': ['rate'], 'lnorm': ['meanlog', 'sdlog'], 'unif': ['min', 'max'],
        'chisq': ['df'], 'beta': ['shape1', 'shape2'], 'invgamma': ['a', 'rate'], 'norm': ['mean', 'sd'],
        'triangle': ['a', 'm', 'b'], 'binom': ['size', 'prob'], 'pois': ['lam']}
CATS = ['A', 'B', 'C', 'D', 'E']


def spell(x):
    x = Fr(x)
    return str(x.numerator) if x.denominator == 1 else repr(float(x))


def call(f, p, rng):
    """(text, values of variables): one of the ways of giving the parameters"""
    loc = {}

    def arg(x):
        w = rng.random()
        if w < .5:
            return spell(x)
        n = 'v%d' % len(loc)
        if w < .8:
            loc[n] = int(x) if Fr(x).denominator == 1 else float(x)
            return n
        loc[n] = float(x) - 1 if f != 'binom' else float(2 * x)
        return '(%s + 1)' % n if f != 'binom' else '%s / 2' % n
    if f == 'cat':
        return 'cat({%s})' % ', '.join('"%s": %s' % (c, arg(x)) for c, x in zip(CATS, p)), loc
    if f == 'binom' and rng.random() < .8:
        return 'binom(%s, %s)' % (spell(p[0]), spell(p[1])), {}
    names = PARS[f]
    w = rng.random()
    if w < .4:
        return '%s(%s)' % (f, ', '.join(arg(x) for x in p)), loc
    if w < .7:
        ns = list(zip(names, p))
        rng.shuffle(ns)
        return '%s(%s)' % (f, ', '.join('%s = %s' % (n, arg(x)) for n, x in ns)), loc
    k = rng.randint(0, len(p))
    return '%s(%s)' % (f, ', '.join([arg(x) for x in p[:k]] + ['%s=%s' % (n, arg(x)) for n, x in list(zip(names, p))[k:]])), loc


def bound(x):
    if x is None:
        return ['none', 0, 1]
    if math.isinf(x):
        return ['inf', 1 if x > 0 else -1, 1]
    r = Fr(float(x)).limit_denominator(64)
    return ['fin'] + q(r) if abs(float(r) - x) < 1e-9 else ['num', fx(x), S0]


def density(d, xs):
    try:
        r = np.asarray(d.logpdf(np.asarray(xs)), float)
        assert r.shape == (len(xs),)
        return r
    except Exception:
        return np.array([float(d.logpdf(x)) for x in xs])


def mass(f, p, d):
    if f == 'k':
        return []
    if f in ('binom', 'pois'):
        hi = int(p[0]) if f == 'binom' else 100
        return [fx(np.exp(density(d, np.arange(0, hi + 1))).sum()), 2]
    n = 20000

    def mid(a, b):
        return a + (b - a) * (np.arange(n) + .5) / n, (b - a) / n
    if f in ('unif', 'triangle'):
        xs, h = mid(float(min(p)), float(max(p)))
        w = np.ones(n)
    elif f == 'norm':
        xs, h = mid(float(p[0]) - 10 * float(p[1]), float(p[0]) + 10 * float(p[1]))
        w = np.ones(n)
    elif f == 'beta':
        t, h = mid(-33., 33.)
        xs = 1 / (1 + np.exp(-t))
        w = xs * (1 / (1 + np.exp(t)))
    else:
        t, h = mid(-150., 80.)
        xs = np.exp(t)
        w = xs
    return [fx((np.exp(density(d, xs)) * w).sum() * h), 200]


def kind(x):
    x = float(x)
    return 'fin' if math.isfinite(x) else 'nan' if x != x else '-inf' if x < 0 else 'inf'


def flat(x):
    return np.ndim(x) == 0


def unordered(x, rng):
    """how much the order of draws tells, in thousandths: equal neighbours, equal halves, rising"""
    x = np.asarray(x, float)
    y = np.array(rng.sample(list(x), len(x)))
    h = len(x) // 2

    def shape(z):
        return np.array([np.mean(z[0::2] == z[1::2]), np.mean(z[1:-1:2] == z[2::2]), np.mean(z[:h] == z[h:]), np.mean(np.sign(np.diff(z))) / 2])
    return round(1000 * float(np.abs(shape(x) - shape(y)).max()))


def dist_case(a):
    from sims_pars import parse_distribution
    f, p, seed = a
    rng = random.Random('%s%s%s' % (f, p, seed))
    np.random.seed(rng.randrange(2 ** 31))
    text, loc = call(f, p, rng)
    rec = {'f': f, 'p': [q(x) for x in p], 'text': text, 'ok': False, 'error': '', 'mean': 0, 'var': 0, 'lo': ['none', 0, 1], 'up': ['none', 0, 1],
           'tp': '', 'args': [], 'shown': False, 'bare': False, 'once': False, 'many': [], 'draws': [], 'avg': [], 'at': [], 'mass': [], 'probs': [], 'lag': 0, 'same': 0}
    ok, d = vp.attempt(parse_distribution, text, loc)
    if ok:
        ok, e = vp.attempt(d.sample, 1)
        if not ok:
            rec['error'] = str(e)[:100]
    else:
        rec['error'] = str(d)[:100]
    rec['ok'] = ok
    if not ok or not valid(f, p):
        return [rec]
    rec['tp'] = d.Type if isinstance(d.Type, str) else 'other'
    # what it was made from
    ok, a = vp.attempt(lambda: list((lambda js: js['kv'] if f == 'cat' else js)(d.to_json()['Args']).values()))
    rec['args'] = [q(Fr(x)) for x in a] if ok else [[0, 0]]
    rec['shown'] = vp.attempt(lambda: text in str(d) and text in repr(d)) == (True, True)
    rec['bare'] = vp.attempt(lambda: isinstance(repr(parse_distribution(text, loc, append_src=False)), str)) == (True, True)
    rec['once'] = vp.attempt(lambda: flat(d()))[1] is True
    if f == 'cat':
        some = [rng.choice([i for i, x in enumerate(p) if x]) for _ in range(rng.randint(0, 3))]
        cnt = [some.count(i) for i in range(len(p))]
        ok, v = vp.attempt(lambda: float(d.logpdf({c: k for c, k in zip(CATS, cnt) if k or rng.random() < .5})))
        rec['many'] = cnt + [fx(math.exp(v)) if ok and sum(cnt) else S0 if ok else -1]
    sizes = [1, 2, 5, 300] if f != 'cat' else [1, 2, 7, 1000]
    for n in sizes:
        ok, x = vp.attempt(d.sample, n)
        r = {'n': n, 'ok': ok, 'got': 0, 'flat': False, 'below': 0, 'above': 0, 'frac': 0, 'cnt': []}
        if ok:
            r['flat'] = flat(x)
            xs = [x] if r['flat'] else list(x)
            r['got'] = len(xs)
            if f == 'cat':
                r['cnt'] = [sum(1 for y in xs if y == c) for c in CATS[:len(p)]]
                r['below'] = len(xs) - sum(r['cnt'])
            else:
                lo, up = float(d.Lower), float(d.Upper)
                r['below'] = sum(1 for y in xs if not y >= lo)
                r['above'] = sum(1 for y in xs if not y <= up)
                r['frac'] = sum(1 for y in xs if float(y) != int(y)) if f in ('binom', 'pois') else 0
        rec['draws'].append(r)
    if f == 'cat':
        pr = [float(np.exp(d.logpdf(c))) for c in CATS[:len(p)]]
        rec['probs'], rec['mass'] = [fx(x) for x in pr], [fx(sum(pr)), 5]
        rec['at'] = [{'x': [0, 1], 'd': kind(d.logpdf(c))} for c in ('zz', CATS[len(p)] if len(p) < len(CATS) else 'F', '')]
        return [rec]
    m, s = float(d.mean()), float(d.std())
    rec['lo'], rec['up'] = bound(d.Lower), bound(d.Upper)
    if f == 'lnorm':
        s2 = np.log1p((s / m) ** 2) if s / m < 1e8 else 2 * np.log(s / m)
        rec['mean'], rec['var'] = fx(np.log(np.log(m) - s2 / 2)), fx(np.log(s2) / 2)
    else:
        rec['mean'], rec['var'] = fx(m), fx(s * s)
    if not (f == 'lnorm' or (f == 'invgamma' and p[0] < 5) or (f in ('gamma', 'chisq') and p[0] < 1)) and f != 'k':
        x = d.sample(4000)
        rec['avg'] = [fx(np.mean(x)), int(6.5 * s / math.sqrt(4000) * S0) + 3]
        rec['lag'] = unordered(x, rng)
        if f in ('unif', 'norm', 'exp', 'triangle'):
            rec['same'] = len(x) + 300 - len(set(map(float, x)) | set(map(float, d.sample(300))))
    lo = float(d.Lower) if math.isfinite(d.Lower) else m - 5
    up = float(d.Upper) if math.isfinite(d.Upper) else m + 5
    qs = set()
    for base in (lo, up, m):
        b = Fr(round(base * 8), 8)
        qs |= {b + Fr(k, 8) for k in (-16, -8, -4, -1, 0, 1, 4, 8, 16)}
    qs |= {Fr(round((lo + (up - lo) * rng.random()) * 16), 16) for _ in range(10)}
    qs |= {Fr(-1), Fr(-1, 4), Fr(-30)} | {Fr(k) for k in range(0, 8)}
    tiny = Fr(1, 2 ** 20)
    if f in ('unif', 'triangle'):
        qs |= {Fr(z) + k * tiny for z in (min(p), max(p)) for k in (-1, 1)}
    elif f in ('gamma', 'exp', 'chisq', 'invgamma', 'lnorm'):
        qs |= {-tiny}
    elif f == 'beta':
        qs |= {-tiny, 1 + tiny}
    if f == 'binom' and p[1] in (0, 1):
        qs = {x for x in qs if x < 0 or x > p[0] or x.denominator > 1}
    if f != 'k':
        rec['at'] = [{'x': q(x), 'd': kind(d.logpdf(float(x) if x.denominator > 1 else int(x)))} for x in sorted(qs) if abs(x) < 100 and (x.denominator < 64 or x.denominator == 2 ** 20)]
    else:
        rec['at'] = [{'x': q(x), 'd': kind(d.logpdf(float(x)))} for x in (p[0] - 1, p[0] + Fr(1, 4), p[0] + tiny, p[0] - tiny)]
    rec['mass'] = mass(f, p, d)
    return [rec]


def valid(f, p):
    if f == 'cat':
        return all(x >= 0 for x in p) and any(x > 0 for x in p)
    return {'k': True, 'gamma': min(p) > 0, 'exp': p[0] > 0, 'lnorm': f != 'lnorm' or (p[0] >= 0 and p[1] > 0), 'unif': f != 'unif' or p[0] < p[1],
            'chisq': p[0] > 0, 'beta': min(p) > 0, 'invgamma': f != 'invgamma' or (p[0] > 2 and p[1] > 0), 'norm': f != 'norm' or p[1] > 0,
            'triangle': min(p) < max(p), 'binom': f != 'binom' or (p[0] > 0 and Fr(p[0]).denominator == 1 and 0 <= p[1] <= 1), 'pois': p[0] > 0}[f]


def dist_params(rng, big):
    qa = [Fr(k, 4) for k in range(1, 33)]
    al = [Fr(k, 4) for k in range(-20, 33)]
    out = []
    n = 60 if big else 12
    for _ in range(n):
        out += [('k', (rng.choice(al),)), ('gamma', (rng.choice(qa), rng.choice(qa))), ('exp', (rng.choice(qa),)),
                ('lnorm', (Fr(rng.randint(0, 8), 4), Fr(rng.randint(1, 8), 4))), ('unif', tuple(sorted(rng.sample(al, 2)))),
                ('chisq', (rng.choice(qa),)), ('beta', (rng.choice(qa), rng.choice(qa))), ('invgamma', (Fr(rng.randint(9, 32), 4), rng.choice(qa))),
                ('norm', (rng.choice(al), rng.choice(qa))), ('triangle', tuple(rng.sample(al, 3))), ('pois', (rng.choice(qa),)),
                ('binom', (Fr(rng.randint(1, 12)), Fr(rng.randint(0, 8), 8))),
                ('cat', tuple(Fr(rng.randint(0, 16), rng.choice([1, 4])) / 4 for _ in range(rng.randint(1, 5))))]
    out = [(f, p) for f, p in out if not (f == 'cat' and (not any(p) or sum(p).numerator > 24 or any((x / sum(p)).denominator > 24 for x in p)))]
    out += [('cat', p) for p in [(1,), (1, 1), (3, 1), (0, 1), (1, 0, 2), (2, 3, 5), (1, 2, 3, 4), (10, 1, 1), (Fr(1, 2), Fr(1, 2)), (Fr(1, 4), Fr(3, 4), 0), (4, 4, 4, 4, 4)]]
    out += [('triangle', p) for p in [(0, 0, 1), (0, 1, 1), (1, 0, 3), (3, 1, 2), (2, 3, 1), (-1, Fr(1, 2), -2)]]
    out += [('binom', p) for p in [(1, 1), (3, 0), (1, Fr(1, 2)), (20, Fr(1, 4))]]
    # inadmissible parameters
    out += [('gamma', (0, 1)), ('gamma', (-1, 1)), ('gamma', (1, 0)), ('gamma', (1, -2)), ('exp', (0,)), ('exp', (-1,)), ('unif', (2, 1)), ('unif', (0, -1)),
            ('chisq', (0,)), ('chisq', (-2,)), ('beta', (0, 1)), ('beta', (1, 0)), ('beta', (1, -1)), ('beta', (-1, 1)), ('norm', (0, 0)), ('norm', (1, -1)),
            ('binom', (0, Fr(1, 2))), ('binom', (-1, Fr(1, 2))), ('binom', (Fr(5, 2), Fr(1, 2))), ('binom', (3, Fr(3, 2))), ('binom', (3, Fr(-1, 4))),
            ('pois', (0,)), ('pois', (-1,)), ('invgamma', (1, 1)), ('invgamma', (2, 1)), ('invgamma', (3, 0)), ('invgamma', (3, -1)),
            ('lnorm', (0, 0)), ('lnorm', (0, -1)), ('lnorm', (-1, 1)), ('cat', (-1, 2)), ('cat', (2, -1, 3)), ('cat', (0, 0)), ('cat', (0,)), ('triangle', (1, 1, 1))]
    return out


def run26(c):
    rng = random.Random(vp.SEED)
    inv = ['Binomial', 'MeanInside', 'Popoviciu', 'RatesAreRates', 'Special']
    c.count_model(vp.model_check('DistMC', {'MaxN': '6' if vp.THOROUGH else '4'}, inv))
    ps = dist_params(rng, vp.THOROUGH)
    cases = vp.pmap(dist_case, [(f, tuple(Fr(x) for x in p), '%d.%d' % (vp.SEED, i)) for i, (f, p) in enumerate(ps)])
    c.note(parameter_sets=len(ps), families=sorted({f for f, _ in ps}))
    c.check('DistTrace', cases, {'C26'}, min_chunk=20)


# ------------------------------------------------------------------ C25
class Member:
    def __init__(self, i):
        self.i = i


def resample_case(a):
    from sims_pars.util import resample
    w, asked, log, comp, unit, arr, seed = a
    rng = random.Random(seed)
    np.random.seed(rng.randrange(2 ** 31))
    bad = [math.inf, math.nan, -math.inf] if not log else [math.inf, math.nan]
    if log:
        wts = [rng.choice(bad) if x[0] == 'bad' else (math.log(x[1]) + unit if x[1] > 0 else -math.inf) for x in w]
    else:
        wts = [rng.choice(bad) if x[0] == 'bad' else -x[1] * unit if x[0] == 'neg' else x[1] * unit for x in w]
    wi = np.array(wts) if arr else list(wts)
    hs = [Member(i) for i in range(len(w))]
    ps = [('p', i) for i in range(len(w))]
    hs0, ps0 = list(hs), list(ps)
    kw = {'log': log} if not log or rng.random() < .5 else {}
    if comp:
        kw['pars'] = ps
    if asked:
        kw['new_size'] = asked
    ok, r = vp.attempt(lambda: resample(wi, hs, **kw))
    rec = {'w': [list(x) for x in w], 'asked': asked, 'log': log, 'comp': comp, 'ok': ok, 'sel': [], 'cosel': [], 'mean': -1,
           'same': hs == hs0 and ps == ps0 and len(wi) == len(wts) and all((x == y) or (x != x and y != y) for x, y in zip(wi, wts))}
    if not ok:
        rec['error'] = r
        return [rec]
    ok, r = vp.attempt(lambda: (
        [hs0.index(h) + 1 for h in r[0]], [ps0.index(p) + 1 for p in r[1]] if comp else [],
        math.exp(float(r[-1]) - (unit if log else math.log(unit))) * (asked or len(w)) * 1000 if any(x[0] == 'w' and x[1] for x in w) else 0))
    if ok:
        rec['sel'], rec['cosel'] = r[0], r[1]
        rec['mean'] = round(r[2]) if r[2] < 1e8 else -1
    else:
        rec['ok'], rec['error'] = False, r
    return [rec]


def run25(c):
    big = vp.THOROUGH
    rng = random.Random(vp.SEED)
    r = vp.model_check('ResampleMC', {'MaxLen': '4' if big else '3', 'MaxW': '3', 'Emitting': 'TRUE'}, ['Sound', 'FairIsLoose', 'AllShares', 'Emit'], workers=1, timeout=1500)
    c.count_model(r)
    ws = r.prints_json('W')
    if not ws:
        raise vp.MachineryError('no population printed')
    args = []
    offs = [0., -700., 650., -3000., 12.5, 1e5]
    for i, x in enumerate(ws):
        log = i % 2 == 0
        args.append((x['w'], x['asked'], log, rng.random() < .5, rng.choice(offs) if log else rng.choice([1., 2. ** -30, 1024., 2. ** -500]), rng.random() < .5, i))
    for i in range(3000 if big else 300):
        k = rng.randint(1, 6)
        while True:
            w = [['bad', 0] if rng.random() < .12 else ['w', rng.choice([0, 1, 1, 2, 3, 4, 5])] for _ in range(k)]
            if 0 < sum(x[1] for x in w) <= 20:
                break
        log = rng.random() < .5
        args.append((w, rng.choice([1, 2, 10, 2000, 2000]), log, rng.random() < .5, rng.choice(offs) if log else rng.choice([1., .125, 1024.]), rng.random() < .5, 'r%d.%d' % (vp.SEED, i)))
    for i in range(300 if big else 60):
        k = rng.randint(6, 40)
        w = [['bad', 0] if rng.random() < .2 else ['w', rng.choice([0, 0, 1, 2, 3])] for _ in range(k)]
        log = rng.random() < .5
        args.append((w, rng.choice([0, 0, 5, 80]), log, rng.random() < .5, rng.choice(offs) if log else 1., rng.random() < .5, 'l%d.%d' % (vp.SEED, i)))
    # weights below zero
    for i in range(200 if big else 40):
        w = [rng.choice([['w', 1], ['w', 3], ['w', 0], ['bad', 0]]) for _ in range(rng.randint(0, 6))] + [['neg', rng.randint(1, 3)], ['w', 4]]
        rng.shuffle(w)
        args.append((w, rng.choice([0, 0, 5, 80]), False, rng.random() < .5, rng.choice([1., .125, 1024.]), rng.random() < .5, 'n%d.%d' % (vp.SEED, i)))
    cases = vp.pmap(resample_case, args)
    c.note(populations_generated=len(ws))
    c.check('ResampleTrace', cases, {'C25'}, min_chunk=200)


# ------------------------------------------------------------------ C22
def converter_case(a):
    from sims_pars.fit.base import Domain
    from sims_pars.fit.converter import get_converter
    lo, up, loc, sc, seed = a
    rng = random.Random(seed)
    rec = {'ok': False, 'lo': 0, 'up': 0, 'u0': 0, 'u1': 0, 'pts': [], 'vals': [], 'dom': [str(lo), str(up), str(loc), str(sc)]}
    ff = math.isfinite(lo) and math.isfinite(up)
    scale = up - lo if ff else sc
    us = {0., 1., .5, .25, .75, .125, 1e-3, 1 - 1e-3, 1e-6, 1 - 1e-6, .5 - 1e-6, .5 + 1e-6} | {round(rng.random(), 5) for _ in range(12)}
    # far out on the sides without a bound
    if math.isinf(lo):
        us |= {1e-9, 1e-12, 1e-15, 1e-200}
    if math.isinf(up):
        us |= {1 - 1e-9, 1 - 1e-12, 1 - 2 ** -53}
    us = sorted(us)

    def go():
        d = Domain('x', lower=lo, upper=up, loc=loc, scale=sc)
        cv = get_converter(d)
        vs = [float(cv.uniform2value(u)) for u in us]
        bk = [float(cv.value2uniform(v)) for v in vs]
        xs = []
        for _ in range(12):
            if ff:
                x = lo + (up - lo) * rng.random()
            elif math.isfinite(lo):
                x = lo + sc * 10 * rng.random()
            elif math.isfinite(up):
                x = up - sc * 10 * rng.random()
            else:
                x = loc + sc * 20 * (rng.random() - .5)
            xs.append(x)
        if math.isinf(lo):
            xs += [(loc if math.isinf(up) else up) - sc * k for k in (25, 100, 600)]
        if ff:
            xs += [lo, up]
        elif math.isfinite(lo):
            xs.append(lo)
        elif math.isfinite(up):
            xs.append(up)
        else:
            xs.append(loc)
        xu = [float(cv.value2uniform(x)) for x in xs]
        xb = [float(cv.uniform2value(u)) for u in xu]
        return vs, bk, xs, xu, xb
    ok, r = vp.attempt(go)
    rec['ok'] = ok
    if not ok:
        rec['error'] = r
        return [rec]
    vs, bk, xs, xu, xb = r
    tol = 1e-9 * scale + 1e-13 * max([abs(v) for v in vs if math.isfinite(v)] + [0])
    order = sorted({v for v in vs + [lo, up] if v == v})
    rank, last, k = {}, None, 0
    for v in order:
        if last is None or not (v - last <= tol or v == last):
            k += 1
        rank[v] = k
        last = v
    ur = {u: i for i, u in enumerate(us)}

    def err(x, y, s):
        if x == y:
            return 0
        e = abs(x - y) / s * 1e9
        return round(e) if e < 1e9 else 10 ** 9
    rec['lo'], rec['up'], rec['u0'], rec['u1'] = rank[lo], rank[up], 0, len(us) - 1
    rec['pts'] = [{'u': ur[u], 'v': rank.get(v, -1), 'back': err(b, u, 1.), 'tol': 10} for u, v, b in zip(us, vs, bk)]
    rec['vals'] = [{'in': 0 <= u <= 1, 'back': err(b, x, scale), 'tol': 200} for x, u, b in zip(xs, xu, xb)]
    return [rec]


def run22(c):
    big = vp.THOROUGH
    rng = random.Random(vp.SEED)
    c.count_model(vp.model_check('ConverterMC', {}, ['Good', 'Covers']))
    inf = math.inf
    args = []
    pool = [-7., -1., -.25, 0., .125, 1., 3., 7., 100., -100.]
    for i in range(4000 if big else 600):
        if i % 4 == 0:
            a, b = sorted(rng.sample(pool, 2)) if rng.random() < .6 else sorted([rng.uniform(-50, 50), rng.uniform(-50, 50)])
            if b - a < 1e-2:
                b = a + .5
        else:
            x = rng.choice(pool) if rng.random() < .6 else rng.uniform(-50, 50)
            a, b = {1: (x, inf), 2: (-inf, x), 3: (-inf, inf)}[i % 4]
        args.append((a, b, rng.choice(pool), rng.choice([1., 1., .1, 3., 20., 30., rng.uniform(.1, 10)]), '%d.%d' % (vp.SEED, i)))
    for s in (1e-9, 1e-7, 1e-4, 1e5, 1e9):
        for a, b in ((0., s), (s, 3 * s), (-s, s), (-3 * s, 0.), (0., inf), (-inf, 0.), (-inf, inf)):
            args.append((a, b, 0., s, 's%d.%s.%s.%s' % (vp.SEED, s, a, b)))
    c.check('ConverterTrace', vp.pmap(converter_case, args), {'C22'}, min_chunk=50)


# ------------------------------------------------------------------ C28
TEXTS = ['norm(1, 2)', 'unif(0, 2)', 'exp(0.5)', 'pois(3)', 'binom(5, 0.25)', 'beta(2, 3)', 'gamma(2, 0.5)', 'triangle(0, 1, 3)', 'k(2)']


def targets_case(a):
    from sims_pars import parse_distribution
    from sims_pars.fit.targets import read_targets
    from sims_pars.fit.targets.single import DataPointError, DataPointRange, DataDistribution
    seed, bad = a
    rng = random.Random(seed)
    rec = {'op': 'read', 'ok': False, 'keys': [], 'ts': []}
    quarter = lambda lo, hi: Fr(rng.randint(lo * 4, hi * 4), 4)

    def num(x):
        return int(x) if x.denominator == 1 and rng.random() < .5 else float(x)
    src, info = {}, []
    default = rng.choice([None, Fr(1, 10), Fr(1, 20), Fr(1, 2)])
    n = rng.randint(1, 5)
    forms = [rng.choice(['number', 'error', 'bare', 'range', 'text', 'target']) for _ in range(n)]
    if bad:
        forms[rng.randrange(n)] = rng.choice(['other', 'badrange'])
    for k, form in zip(rng.sample(['T1', 'b', 'x_2', 'Inc', 'prev', 'z'], n), forms):
        m = quarter(-5, 5)
        if m == 0:
            m = Fr(1, 2)
        if rng.random() < .15:
            m *= 80
        e, l, u = Fr(rng.randint(1, 20), 20), m - 1, m + 1
        kind, obj, text = form, None, ''
        if form == 'number':
            v = num(m)
        elif form == 'error':
            v = {'m': num(m), 'error': num(e)}
        elif form == 'bare':
            v = {'m': num(m)}
            if rng.random() < .3:
                v['l'] = float(m - 1)
        elif form == 'range':
            l, u = m - quarter(1, 4) / 2, m + quarter(1, 4) / 2
            v = {'m': num(m), 'l': num(l), 'u': num(u)}
            if rng.random() < .2:
                v['error'] = .3
        elif form == 'badrange':
            form = 'range'
            l, u = rng.choice([(m, m + 1), (m - 1, m), (m + 1, m + 2), (m - 2, m - 1), (m + 1, m - 1), (m, m)])
            v = {'m': num(m), 'l': num(l), 'u': num(u)}
        elif form == 'text':
            text = rng.choice(TEXTS)
            v = text
        elif form == 'target':
            obj = rng.choice([lambda: DataPointError('own', 2., .1), lambda: DataPointRange(k, 1, 0, 2), lambda: DataDistribution(k, parse_distribution('norm(0,1)'))])()
            v = obj
        else:
            v = rng.choice([None, [1, 2], (1., 2.), {'mean': 1}, {'l': 0, 'u': 1}, {}, object()])
        src[k] = v
        info.append((k, form, m, e, l, u, text, obj))
    keep = {k: dict(v) if isinstance(v, dict) else v for k, v in src.items()}
    ok, ts = vp.attempt(lambda: read_targets(src) if default is None else read_targets(src, error=float(default)))
    rec['ok'] = ok
    rec['ts'] = [{'k': k, 'form': form, 'm': q(m), 'e': q(e), 'l': q(l), 'u': q(u), 'kind': '', 'name': '', 'itself': False, 'ev': 0, 'ds': [], 'lp': []}
                 for k, form, m, e, l, u, text, obj in info]
    out = [rec]
    if not ok:
        rec['error'] = ts
        return out
    if src != keep:
        rec['ok'] = False
        rec['error'] = 'source changed'
        return out
    rec['keys'] = [str(k) for k in ts]
    for t, (k, form, m, e, l, u, text, obj) in zip(rec['ts'], info):
        if k not in ts:
            continue
        o = ts[k]
        t['itself'] = o is obj
        t['kind'] = 'target' if form == 'target' else 'range' if isinstance(o, DataPointRange) else 'point' if isinstance(o, DataPointError) else 'distribution' if isinstance(o, DataDistribution) else '?'
        t['name'] = str(o.Name)
        t['ev'] = fx(o.ev()[0])
        if form in ('number', 'error', 'bare', 'range'):
            ys = {m, m + 1, m - 1, m + Fr(1, 4), m - Fr(1, 4), -m, Fr(0), 2 * m} | {quarter(-10, 10) for _ in range(4)}
            sim = {'other': 1.}
            ds = []
            for y in sorted(ys):
                sim[k] = float(y)
                ds.append((y, float(o.calc_distance(sim))))
            order, rank, last, j = sorted({d for _, d in ds if d == d}), {}, None, 0
            for d in order:
                if abs(d) < 1e-14:
                    rank[d] = 0
                    continue
                if last is None or d - last > 1e-9 * max(abs(d), abs(last)):
                    j += 1
                rank[d] = j if d > 0 else -1
                last = d
            t['ds'] = [{'y': q(y), 'r': rank.get(d, -2)} for y, d in ds]
        if form == 'text':
            d0 = parse_distribution(text)
            for y in [0, 1, 2, 3, .5, -1, 7, 1.25]:
                d, lp = float(o.calc_distance({k: y})), float(d0.logpdf(y))
                t['lp'].append({'inf': math.isinf(lp), 'dinf': math.isinf(d) and d > 0, 'd': fx(d), 'lp': fx(lp)})
    # everything in other units, and errors of other sizes
    for _ in range(2):
        m, dev, w = float(quarter(-5, 5) or Fr(1)), float(quarter(-3, 3)), float(quarter(1, 4)) / 2
        e, z = rng.randint(1, 20) / 20, 10. ** rng.choice([-8, -5, -3, -1, 2, 5])

        def unit(f):
            out.append({'op': 'scale', 'ok': False, 'd1': 0, 'd2': 0, 'e1': [1, 1], 'e2': [1, 1]})
            ok, r = vp.attempt(f)
            out[-1]['ok'] = ok and all(x == x for x in r)
            if out[-1]['ok']:
                out[-1]['d1'], out[-1]['d2'] = [fx(x * (1 if abs(r[0]) < 10 else 1e-3)) for x in r]
        one = lambda v, y, **kw: float(read_targets({'t': v}, **kw)['t'].calc_distance({'t': y}))
        unit(lambda: [one({'m': m * k, 'error': e}, (m + dev) * k) / k for k in (1., z)])
        unit(lambda: [one(m * k, (m + dev) * k, error=e) / k for k in (1., z)])
        unit(lambda: [one({'m': m * k, 'l': (m - w) * k, 'u': (m + w) * k}, (m + dev) * k) / k for k in (1., z)])
        unit(lambda: [one({'m': m, 'error': e * k}, m + dev) * k for k in (1., z)])
        unit(lambda: [float(read_targets({'t': {'m': m, 'error': e * k}})['t'].ev()[1]) / k ** 2 for k in (1., z)])
    # the same datum with different errors
    for _ in range(3):
        m = quarter(-5, 5) or Fr(1)
        e1, e2 = Fr(rng.randint(1, 20), 20), Fr(rng.randint(1, 20), 20)
        y = m + quarter(-3, 3)

        def two(f, a1=e1, a2=e2):
            out.append({'op': 'scale', 'ok': False, 'd1': 0, 'd2': 0, 'e1': q(a1), 'e2': q(a2)})
            ok, r = vp.attempt(f)
            out[-1]['ok'] = ok and all(x == x for x in r)
            if out[-1]['ok']:
                if max(abs(x) for x in r) > 60:
                    out.pop()
                else:
                    out[-1]['d1'], out[-1]['d2'] = fx(r[0]), fx(r[1])
        two(lambda: [float(read_targets({'t': {'m': float(m), 'error': float(e)}})['t'].calc_distance({'t': float(y)})) for e in (e1, e2)])
        two(lambda: [float(read_targets({'t': float(m)}, error=float(e))['t'].calc_distance({'t': float(y)})) for e in (e1, e2)])
        two(lambda: [float(read_targets({'t': x}, error=float(e2))['t'].calc_distance({'t': float(y)})) for x in ({'m': float(m), 'error': float(e1)}, float(m))])
        w1, w2 = Fr(rng.randint(2, 12), 2), Fr(rng.randint(2, 12), 2)
        two(lambda: [float(read_targets({'t': {'m': float(m), 'l': float(m - Fr(1, 2)), 'u': float(m - Fr(1, 2) + w)}})['t'].calc_distance({'t': float(y)})) for w in (w1, w2)], w1, w2)
        # the variance grows with the square of the error
        e1, e2 = Fr(rng.randint(1, 8), 4), Fr(rng.randint(1, 8), 4)
        two(lambda: [1e-2 / float(read_targets({'t': {'m': float(m), 'error': float(e)}})['t'].ev()[1]) for e in (e1, e2)], e1 * e1, e2 * e2)
        two(lambda: [1 / float(read_targets({'t': {'m': float(m), 'l': float(m - Fr(1, 2)), 'u': float(m - Fr(1, 2) + w)}})['t'].ev()[1]) for w in (w1, w2)], w1 * w1, w2 * w2)
    return out


def run28(c):
    big = vp.THOROUGH
    c.count_model(vp.model_check('TargetsMC', {}, ['Zero', 'Grows', 'Inverse', 'Positive1']))
    args = [('%d.%d' % (vp.SEED, i), i % 5 == 0) for i in range(4000 if big else 400)]
    c.check('TargetsTrace', vp.pmap(targets_case, args), {'C28'}, min_chunk=100)


def run(c, prop):
    {'C22': run22, 'C25': run25, 'C26': run26, 'C28': run28}[prop](c)
