"""C24: operators of the genetic algorithm. Specification: Ga, GaMC, GaTrace."""
import math, random
import numpy as np
import vp

NONE = -1000000


class Dom:
    def __init__(self, name, lo, up):
        self.Name, self.Type, self.Lower, self.Upper = name, 'Double', lo, up


class Obj:
    def __init__(self, doms):
        self.Domain = doms


class Member:
    """What the operators use of a parameter set"""
    def __init__(self, i, vals, lik=0., post=0.):
        self.i, self.vals, self.LogLikelihood, self.LogPosterior, self.LogPrior = i, dict(vals), lik, post, post - lik if math.isfinite(lik) and math.isfinite(post) else 0.
        self.cloned = 0

    def __getitem__(self, k):
        return self.vals[k]

    def __iter__(self):
        return iter(self.vals.items())

    def clone(self):
        m = Member(self.i, self.vals, self.LogLikelihood, self.LogPosterior)
        return m

    def state(self):
        return (self.i, dict(self.vals), repr(self.LogLikelihood), repr(self.LogPosterior))


NAMES = ['p1', 'p2', 'beta', 'x_3', 'mu']


def cross(rng, kind):
    from sims_pars.fit.ga.cross import get_crossover
    ns = rng.sample(NAMES, rng.randint(1, 5))
    extra = [n for n in NAMES if n not in ns]
    ps = [Member(i, {n: float(2 * rng.randint(-6, 6)) for n in ns + extra}) for i in range(2)]
    obj = Obj([Dom(n, -100., 100.) for n in ns])
    before = [p.state() for p in ps]
    ok, r = vp.attempt(lambda: list(get_crossover(kind).crossover(ps[0], ps[1], obj)))
    rec = {'op': 'cross', 'kind': kind.split('(')[0], 'ok': ok, 'keys': False, 'a': [int(ps[0][n]) for n in ns], 'b': [int(ps[1][n]) for n in ns],
           'c': [], 'd': [], 'same': before == [p.state() for p in ps]}
    if ok:
        c, d = dict(r[0]), dict(r[1])
        rec['keys'] = len(r) == 2 and set(c) == set(d) == set(ns)
        ok, v = vp.attempt(lambda: [[whole(x[n]) for n in ns] for x in (c, d)])
        rec['c'], rec['d'] = v if ok else ([], [])
        # the children can be changed one by one
        if rec['keys']:
            c[ns[0]] = 12345.
            rec['keys'] = dict(r[1])[ns[0]] != 12345. and r[0] is not r[1]
    return rec


def whole(x):
    return int(x) if float(x) == int(x) else NONE


def mutate(rng):
    from sims_pars.fit.ga.mutate import get_mutator
    ns = rng.sample(NAMES, rng.randint(1, 5))
    inf = math.inf
    doms = []
    for n in ns:
        a = rng.choice([0., 0., -1., 3., -7.5, 100., 1e-3])
        w = rng.choice([1., 1., .5, 10., 1e-2, 1e3])
        doms.append(Dom(n, rng.choice([a, a, a, -inf]), rng.choice([a + w, a + w, a + w, inf])))
    same_all = rng.random() < .2
    pop = []
    for i in range(rng.randint(2, 12)):
        vals = {}
        for d in doms:
            lo = d.Lower if math.isfinite(d.Lower) else (d.Upper - 5 if math.isfinite(d.Upper) else -3.)
            up = d.Upper if math.isfinite(d.Upper) else lo + 6
            vals[d.Name] = lo + (up - lo) * (rng.choice([.5, .01, .99, rng.random()]) if not same_all else .75)
        pop.append(Member(i, vals))
    obj = Obj(doms)
    before = [p.state() for p in pop]

    def go():
        m = get_mutator(rng.choice(['rw', 'rw()']))
        m.set_scales(pop, obj)
        return [dict(m.propose(p, obj)) for p in pop for _ in range(3)]
    np.random.seed(rng.randrange(2 ** 31))
    ok, r = vp.attempt(go)
    rec = {'op': 'mut', 'ok': ok, 'keys': False, 'lo': [], 'up': [], 'v': [], 'same': before == [p.state() for p in pop], 'error': '' if ok else r}
    if ok:
        rec['keys'] = all(set(x) == set(ns) for x in r)
        for x in r:
            for d in doms:
                v = float(x.get(d.Name, math.nan))
                rk = sorted({y for y in (d.Lower, d.Upper, v) if y == y})
                rec['lo'].append(rk.index(d.Lower))
                rec['up'].append(rk.index(d.Upper))
                rec['v'].append(rk.index(v) if v == v else -1)
        # a mutation moves: not all proposals are where they came from
        rec['keys'] = rec['keys'] and any(x[d.Name] != p[d.Name] for x, p in zip(r, [p for p in pop for _ in range(3)]) for d in doms)
    return rec


def select(rng, fair):
    from sims_pars.fit.ga.select import get_selector
    kind = rng.choice(['tour', 'importance'])
    n = rng.choice([6, 7, 8]) if fair else rng.randint(2, 14)
    k = rng.randint(1, 4)
    text = {'tour': rng.choice(['tour(%d)' % k, 'tour(K=%d)' % k]), 'importance': 'importance'}[kind]
    if kind == 'tour' and rng.random() < .3:
        k, text = 3, rng.choice(['tour', 'tour()'])
    by = rng.choice(['MAP', 'MAP', 'MLE'])
    off = rng.choice([0., -1000., 700., -50.5])
    pop, w = [], []
    ranks = list(range(1, n + 1))
    rng.shuffle(ranks)
    tied = not fair and rng.random() < .5
    for i in range(n):
        a, b = (ranks[i], rng.randint(1, 5)) if by == 'MLE' else (rng.randint(1, 5), ranks[i])
        if kind == 'importance':
            a, b = rng.randint(1, 3), rng.choice([0, 1, 1, 2, 3])
            if by == 'MLE':
                a, b = max(b, 1), a
        elif tied:
            a, b = rng.randint(1, 3), rng.randint(1, 3)
        lik, post = a, b
        fl = lambda x: math.log(x) + off if x > 0 else -math.inf
        bad = not fair and rng.random() < .2 or (fair and i == 0 and n > 6)
        if bad:
            m = Member(i, {'p1': float(i)}, rng.choice([-math.inf, math.nan, math.inf]), rng.choice([-math.inf, 1e5, math.nan]))
            pop.append({'lik': NONE, 'post': NONE})
            w.append(0)
        else:
            m = Member(i, {'p1': float(i)}, fl(lik), fl(post))
            pop.append({'lik': lik, 'post': post if post > 0 else NONE})
            w.append(post if by == 'MAP' else lik)
        w_m = m
        pop[-1]['m'] = w_m
    ms = [x.pop('m') for x in pop]
    rounds = 2000 // n + 1 if fair else 1
    if kind == 'importance' and sum(w) == 0:
        w[0] = w[0]
    before = [m.state() for m in ms]
    ids = [id(m) for m in ms]
    np.random.seed(rng.randrange(2 ** 31))

    def go():
        sel = get_selector(text)
        out = []
        for _ in range(rounds):
            out += list(sel.select(ms, Obj([Dom('p1', 0., 1.)]), *([] if by == 'MAP' and rng.random() < .5 else [by])))
        return out
    ok, r = vp.attempt(go)
    fits = [x['post' if by == 'MAP' else 'lik'] for x in pop if x['lik'] != NONE]
    rec = {'op': 'select', 'kind': kind, 'k': k, 'by': by, 'pop': pop, 'w': w, 'ok': ok, 'sel': [], 'rounds': rounds, 'clones': False,
           'distinct': len(set(fits)) == len(fits), 'same': before == [m.state() for m in ms] and ids == [id(m) for m in ms], 'error': '' if ok else r}
    if ok:
        rec['sel'] = [m.i + 1 for m in r]
        rec['clones'] = len({id(m) for m in r}) == len(r) and not {id(m) for m in r} & set(ids) and all(m.state() == ms[m.i].state() for m in r)
    if kind == 'importance' and not any(x > 0 for x, y in zip(w, pop) if y['lik'] != NONE):
        return None        # nobody with a positive weight
    return rec


def case(a):
    kind, seed = a
    rng = random.Random('%s%s' % (kind, seed))
    np.random.seed(rng.randrange(2 ** 31))
    if kind == 'select' or kind == 'fair':
        r = select(rng, kind == 'fair')
        return [r] if r else []
    return [mutate(rng) if kind == 'mut' else cross(rng, kind)]


def run(c, prop):
    big = vp.THOROUGH
    for n, k, f in ([(4, 2, 2), (4, 3, 1)] if big else [(3, 2, 1), (4, 2, 0)]):
        c.count_model(vp.model_check('GaMC', {'N': str(n), 'K': str(k), 'MaxF': str(f)}, ['WinnerIsSound', 'AllWinners', 'Ways', 'Children'], workers=8, timeout=2000, mem='6g'))
    m = 10 if big else 1
    args = [(k, '%d.%d' % (vp.SEED, i)) for k, n in [('average', 100), ('average()', 20), ('shuffle', 300), ('shuffle()', 30), ('mut', 400), ('select', 600), ('fair', 120)] for i in range(n * m)]
    cases = [x for x in vp.pmap(case, args) if x]
    c.check('GaTrace', cases, {prop}, min_chunk=100)
