"""C29 data tables, C30 regressions.  Specifications: Tables*, Series*, Regress*."""
import math, random
from fractions import Fraction as Fr
import numpy as np
import vp

S0 = 10000
BIG = 10 ** 8


def fx(x, s=S0):
    """fixed point; what is not a moderate number becomes a number that matches nothing"""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return -BIG
    return round(x * s) if x == x and abs(x) * s < BIG else -BIG


def q(x):
    x = Fr(x)
    return [x.numerator, x.denominator]


# ------------------------------------------------------------------ C29: tables
DRAWS = 400


def tag(v):
    """numbers and texts stay different"""
    if isinstance(v, (int, float, np.integer, np.floating)):
        return 'n:%r' % float(v)
    return 's:%s' % v


def pairs(d):
    return sorted([str(k), tag(v)] for k, v in d.items())


LABELS = {'str': {'u': 'north', 'v': 'south', 'w': 'West End'}, 'int': {'u': 1, 'v': 2, 'w': 30}, 'mixed': {'u': 'u', 'v': 0, 'w': 'w'},
          'float': {'u': .5, 'v': 1.5, 'w': -2.}, 'whole': {'u': 1., 'v': 2., 'w': 30.}, 'prefix': {'u': '1', 'v': '11', 'w': '111'}}


def spelled(rng, v):
    """an equal value of another type"""
    if isinstance(v, str) or rng.random() < .5:
        return v
    return rng.choice([float, np.float64] + ([int, np.int64] if v == int(v) else []))(v)


def table_case(a):
    import pandas as pd
    import sims_pars.data as sd
    rows, ops, seed = a
    rng = random.Random('t%s' % (seed,))
    np.random.seed(rng.randrange(2 ** 31))
    nix = len(rows[0]) - 1
    kinds = [LABELS[rng.choice(sorted(LABELS))] for _ in range(nix)]
    names = ['a', 'b', 'c', 'd'][:nix]
    real = rng.sample(['age', 'b', 'Sex_2', 'x y', 'p0', 'A'], nix)
    nm = dict(zip(names, real))
    lab = {n: k for n, k in zip(names, kinds)}
    rows = [list(r) for r in rows]
    rng.shuffle(rows)
    unit = rng.choice([1, 1, .01, .5, 1000, 1e-6, 1e-9, 1e6])
    tot = sum(r[-1] for r in rows)
    norm = rng.random() < .3
    pcol = rng.choice(['p', 'Pr', 'z prob'])
    cols = {nm[n]: [lab[n][r[i]] for r in rows] for i, n in enumerate(names)}
    order = list(cols) + [pcol]
    cols[pcol] = [(r[-1] / tot if norm else r[-1] * unit if unit != 1 else r[-1]) for r in rows]
    rng.shuffle(order)
    index = rng.choice([None, list(range(5, 5 + len(rows))), ['r%d' % i for i in range(len(rows))]])
    df = pd.DataFrame({k: cols[k] for k in order}, index=index)
    keep = df.copy(deep=True)
    ixs = [nm[n] for n in names]
    rng.shuffle(ixs)
    made, recs = [], []

    def show(t):
        o = {'ok': False, 'n': DRAWS, 'got': 0, 'cnt': [], 'seen': False, 'probs': []}

        def go():
            xs = t.sample(DRAWS - 1)
            xs = list(xs) + [t()]
            c = {}
            for x in xs:
                key = tuple(map(tuple, pairs(x)))
                c[key] = c.get(key, 0) + 1
            return len(xs), [[[list(p) for p in k], n] for k, n in sorted(c.items())]
        ok, r = vp.attempt(go)
        o['ok'] = ok
        if ok:
            o['got'], o['cnt'] = r
        else:
            o['error'] = r
        ok, r = vp.attempt(lambda: [[pairs(t.Groups[k]), fx(p)] for k, p in t.InvGroups.items()])
        if ok:
            o['seen'], o['probs'] = True, r
        return o

    def rec(**kw):
        r = {'k': 'table', 'op': '', 'ix': [], 'rows': [], 'from': 1, 'given': [], 'index': '', 'ok': True, 'frame': True, 'obs': []}
        r.update(kw)
        recs.append(r)
        r['frame'] = keep.equals(df) and list(df.columns) == order
        if r['ok']:
            # after every step all tables made so far are looked at again
            r['obs'] = [show(t) for t in made]
        return r['ok']
    ok, t = vp.attempt(sd.ConditionalProbabilityTable, df, ixs, pcol)
    if ok:
        made.append(t)
    spec = [[pairs({nm[n]: lab[n][r[i]] for i, n in enumerate(names)}), r[-1]] for r in rows]
    if not rec(op='new', ix=ixs, rows=spec, ok=ok, **({} if ok else {'error': t})):
        return recs
    frm = 1
    j = 0
    while j < len(ops):
        what, x, l = ops[j]
        if what == 'condition':
            given = {nm[x]: spelled(rng, lab[x][l])}
            # neighbouring conditions are sometimes given in one call
            while j + 1 < len(ops) and ops[j + 1][0] == 'condition' and rng.random() < .5:
                j += 1
                given[nm[ops[j][1]]] = spelled(rng, lab[ops[j][1]][ops[j][2]])
            ok, t = vp.attempt(lambda: made[frm - 1].condition(**given))
            kw = {'given': pairs(given)}
        else:
            ok, t = vp.attempt(made[frm - 1].marginalise, nm[x])
            kw = {'index': nm[x]}
        if ok:
            made.append(t)
        if not rec(op=what, ok=ok, **{'from': frm}, **kw, **({} if ok else {'error': t})):
            return recs
        frm = len(made)
        j += 1
    # a value that no row has, among them texts which look like the numbers and numbers which look like the texts
    left = [n for n in names if nm[n] in made[-1].Indices]
    if left:
        n = rng.choice(left)
        have = {tag(lab[n][r[names.index(n)]]) for r in rows}
        v = rng.choice([z for z in ['1', '11', '0', '30', '0.5', '1.0', 'zz', 1, 11, 0, 30, 7, .25, 111] if tag(z) not in have])
        frm = rng.choice([1, len(made)])
        ok, t = vp.attempt(lambda: made[frm - 1].condition(**{nm[n]: v}))
        drew = ok and vp.attempt(lambda: t.sample(3))[0]
        rec(op='absent', given=pairs({nm[n]: v}), ok=drew, **{'from': frm})
    return recs


def random_table(rng):
    nix = rng.randint(1, 4)
    names = ['a', 'b', 'c', 'd'][:nix]
    keys = set()
    for _ in range(rng.randint(1, 7)):
        keys.add(tuple(rng.choice('uvw') for _ in names))
    rows = [list(k) + [rng.choice([0, 1, 1, 2, 3, 4])] for k in sorted(keys)]
    if not any(r[-1] for r in rows):
        rows[0][-1] = 1
    ops, left, cur = [], list(names), [r[:] for r in rows]
    while left and rng.random() < .75 and len(ops) < 3:
        x = rng.choice(left)
        i = names.index(x)
        if rng.random() < .5 and len(left) > 1:
            ops.append(['marginalise', x, ''])
        else:
            live = sorted({r[i] for r in cur if r[-1] > 0})
            l = rng.choice(live)
            cur = [r for r in cur if r[i] == l]
            ops.append(['condition', x, l])
        left.remove(x)
    return rows, ops


# ------------------------------------------------------------------ C29: series and moves
def times(rng, n):
    ts = rng.sample(range(-20, 41), n)
    if rng.random() < .4:
        ts = [4 * t for t in rng.sample(range(-5, 11), n)]
    if rng.random() < .3:
        ts.sort()
    return ts


def asks(rng, ts):
    qs = set(ts) | {min(ts) - 3, min(ts) - 40, max(ts) + 5, max(ts) + 60}
    s = sorted(ts)
    for x, y in zip(s, s[1:]):
        qs |= {(x + y) // 2, x + (y - x) // 4, x + 1, y - 1}
    qs = sorted(x for x in qs)
    rng.shuffle(qs)
    return qs[:14]


def spell(rng, t):
    """quarters as the times a user writes"""
    return t // 4 if t % 4 == 0 and rng.random() < .6 else t / 4


def frame(rng, cols):
    import pandas as pd
    n = len(next(iter(cols.values())))
    index = rng.choice([None, None, list(range(10, 10 + n)), list(reversed(range(n)))])
    order = list(cols)
    rng.shuffle(order)
    return pd.DataFrame({k: cols[k] for k in order}, index=index)


def series_case(seed):
    import sims_pars.data as sd
    rng = random.Random('s%s' % (seed,))
    np.random.seed(rng.randrange(2 ** 31))
    n, m = rng.randint(2, 7), rng.choice([1, 1, 2, 3])
    ts = times(rng, n)
    tt = [t / 4 for t in ts] if any(t % 4 for t in ts) or rng.random() < .5 else [t // 4 for t in ts]
    xs = [[rng.randint(-30, 60) for _ in ts] for _ in range(m)]
    kind = rng.choice(['nearest', 'nearest', 'linear'])
    tn, cn = rng.choice(['Time', 't', 'yr']), rng.sample(['x', 'y', 'Pop', 'z 1'], m)
    df = frame(rng, {tn: tt, **{c: ([float(v) for v in x] if rng.random() < .5 else x) for c, x in zip(cn, xs)}, 'other': [99] * n})
    vec = m > 1 or rng.random() < .3
    kw = {} if kind == 'nearest' and rng.random() < .6 else {'kind': kind}
    ok, t = vp.attempt(lambda: sd.TimeSeriesVector(df, tn, list(cn), **kw) if vec else sd.TimeSeries(df, tn, cn[0], **kw))
    rec = {'k': 'series', 'kind': kind, 'ts': ts, 'xs': xs, 'ok': ok, 'asked': []}
    if not ok:
        rec['error'] = t
        return [rec]
    for x in asks(rng, ts):
        way = rng.choice(['call', 'key', 'sample'])

        def go():
            v = spell(rng, x)
            y = t(v) if way == 'call' else t(t=v) if way == 'key' else t.sample(t=v) if rng.random() < .5 else t.sample(2, t=v)[1]
            return [fx(y[c]) for c in cn] if vec else [fx(y)]
        ok, r = vp.attempt(go)
        rec['asked'].append({'q': x, 'ok': ok, 'got': r if ok else []})
    return [rec]


def ptable_case(seed):
    import sims_pars.data as sd
    rng = random.Random('p%s' % (seed,))
    np.random.seed(rng.randrange(2 ** 31))
    n, m = rng.randint(2, 5), rng.randint(1, 4)
    ts = times(rng, n)
    tt = [t / 4 for t in ts] if any(t % 4 for t in ts) or rng.random() < .5 else [t // 4 for t in ts]
    ws = [[rng.choice([0, 0, 1, 2, 3, 5]) for _ in ts] for _ in range(m)]
    for i in range(n):
        if not any(w[i] for w in ws):
            ws[rng.randrange(m)][i] = 1
    labs = rng.sample(['A', 'B', 'no', 'x y', 'p1'], m)
    unit = rng.choice([1, .1, 10, 1e-3, 1e-6, 1e5])
    df = frame(rng, {'Time': tt, **{c: [v * unit for v in w] for c, w in zip(labs, ws)}})
    ok, t = vp.attempt(sd.TimeSeriesProbabilityTable, df, 'Time', list(labs))
    rec = {'k': 'ptable', 'ts': ts, 'ws': ws, 'ok': ok, 'asked': []}
    if not ok:
        rec['error'] = t
        return [rec]
    for x in asks(rng, ts)[:7]:
        def go():
            v = spell(rng, x)
            xs = list(t.sample(DRAWS - 1, t=v)) + [t(v) if rng.random() < .5 else t.sample(t=v)]
            assert all(y in labs for y in xs)
            return len(xs), [sum(1 for y in xs if y == c) for c in labs]
        ok, r = vp.attempt(go)
        rec['asked'].append({'q': x, 'ok': ok, 'n': DRAWS, 'got': r[0] if ok else 0, 'cnt': r[1] if ok else []})
    return [rec]


def lee_case(seed):
    import sims_pars.data as sd
    rng = random.Random('l%s' % (seed,))
    n, m = rng.randint(2, 6), rng.choice([1, 2, 3, 4, 5, 21])
    ts = times(rng, n)
    tt = [t / 4 for t in ts]
    kappa = [rng.randint(-12, 12) for _ in ts]
    alpha, beta = [rng.randint(-20, 4) for _ in range(m)], [rng.randint(-4, 4) for _ in range(m)]
    ages = rng.sample(range(0, 105, 5), m) if rng.random() < .5 or m > 5 else rng.sample(['0-4', '5-9', '10+', 'x', 'old'], m)
    kind = rng.choice(['nearest', 'linear'])
    names = {'i_time': 'Year', 'i_ka': 'K'} if rng.random() < .4 else {}
    names2 = {'i_age': 'Group', 'i_al': 'a', 'i_be': 'b'} if rng.random() < .4 else {}
    dft = frame(rng, {names.get('i_time', 'Time'): tt, names.get('i_ka', 'Kappa'): [k / 4 for k in kappa]})
    dfa = frame(rng, {names2.get('i_age', 'Age'): ages, names2.get('i_al', 'Alpha'): [k / 4 for k in alpha], names2.get('i_be', 'Beta'): [k / 4 for k in beta]})
    kw = {} if kind == 'nearest' and rng.random() < .5 else {'kind': kind}
    ok, t = vp.attempt(lambda: sd.LeeCarter(dft, dfa, **names, **names2, **kw))
    rec = {'k': 'lee', 'kind': kind, 'ts': ts, 'kappa': kappa, 'alpha': alpha, 'beta': beta, 'ok': ok, 'asked': []}
    if not ok:
        rec['error'] = t
        return [rec]
    for x in asks(rng, ts):
        ok, r = vp.attempt(lambda: [fx(math.log(v)) for y in [t(x / 4)] for v in [y[g] for g in ages] if len(y) == len(ages)])
        rec['asked'].append({'q': x, 'ok': ok, 'got': r if ok else []})
    return [rec]


def moves_case(seed):
    import pandas as pd
    import sims_pars.data as sd
    rng = random.Random('m%s' % (seed,))
    np.random.seed(rng.randrange(2 ** 31))
    n, m = rng.randint(1, 4), rng.randint(1, 5)
    pool = rng.choice([['S', 'I', 'R', 'D', 'x y'], [0, 1, 2, 3, 7], ['A', '1', 'B', '2', 'AB']])
    frm = rng.sample(pool, n)
    to = rng.sample(pool, m)
    w = []
    for _ in frm:
        r = [rng.choice([0, 0, 1, 2, 3]) for _ in to]
        if not any(r):
            r[rng.randrange(m)] = 1
        w.append(r)
    scale = rng.random() < .5
    unit = rng.choice([1, 1e-6, 250])
    df = pd.DataFrame([[x / sum(r) if scale else x * unit for x in r] for r in w], index=frm, columns=to)
    ok, t = vp.attempt(sd.TransitionMatrix, df)
    rec = {'k': 'moves', 'w': w, 'ok': ok, 'calls': []}
    if not ok:
        rec['error'] = t
        return [rec]
    same = lambda x, y: tag(x) == tag(y)

    def count(xs):
        c = [sum(1 for x in xs if same(x, s)) for s in to]
        return c
    for _ in range(5):
        way = rng.choice(['one', 'same', 'list', 'unknown', 'unknowns'])
        r = {'known': True, 'ok': True, 'n': 0, 'got': 0, 'cnt': [], 'way': way}
        i = rng.randrange(n)
        if way == 'one':
            ok, xs = vp.attempt(lambda: [t(frm[i]), t(current=frm[i]), t.sample(current=frm[i])] + [t.sample_next(frm[i]) for _ in range(197)])
            r['n'] = 200
            cnt = lambda: [[i + 1, 200, count(xs)]]
        elif way == 'same':
            k = rng.choice([2, 5, 300])
            ok, xs = vp.attempt(lambda: list(t.sample(k, current=frm[i])) if rng.random() < .5 else list(t.sample(n=k, current=frm[i])))
            r['n'] = k
            cnt = lambda: [[i + 1, k, count(xs)]]
        elif way == 'list':
            cur = [rng.randrange(n) for _ in range(rng.choice([1, 3, 300]))]
            ok, xs = vp.attempt(lambda: list(t.sample(currents=[frm[c] for c in cur])))
            r['n'] = len(cur)
            cnt = lambda: [[s + 1, cur.count(s), count([x for x, c in zip(xs, cur) if c == s])] for s in sorted(set(cur))]
        else:
            r['known'] = False
            z = rng.choice(['zz', '', 99, 'SI', None])
            ok, xs = vp.attempt(lambda: t(z) if way == 'unknown' else t.sample(3, current=z) if rng.random() < .5 else t.sample(currents=[frm[0], z]))
            cnt = lambda: []
        r['ok'] = ok
        if ok and r['known']:
            r['got'] = len(xs)
            r['cnt'] = cnt()
        rec['calls'].append(r)
    return [rec]


def run29(c):
    big = vp.THOROUGH
    rng = random.Random(vp.SEED)
    r = vp.model_check('TablesMC', {'MaxRows': '4' if big else '3', 'MaxOps': '3' if big else '2', 'Weights': '{0, 1, 3}' if big else '{0, 1}'},
                       ['OrderFree', 'MassKept', 'Splits', 'DrawsFromSource', 'Emit'], workers=8 if big else 4, timeout=2400, mem='6g')
    c.count_model(r)
    ws = r.prints_json('W')
    if not ws:
        raise vp.MachineryError('no table printed')
    c.count_model(vp.model_check('SeriesMC', {'MaxLen': '4' if big else '3', 'MaxTime': '5' if big else '4', 'Values': '{0, 1, 3}'}, ['Hits', 'AnyOrder', 'Ends', 'Between', 'TieAtMiddle'], workers=8 if big else 4))
    ws.sort(key=repr)
    rng.shuffle(ws)
    n = 1500 if big else 180
    args = [(w['rows'], w['ops'], '%d.%d' % (vp.SEED, i)) for i, w in enumerate(ws[:n])]
    args += [random_table(rng) + ('r%d.%d' % (vp.SEED, i),) for i in range(n)]
    cases = vp.pmap(table_case, args)
    k = 1200 if big else 150
    for fn, m in [(series_case, k), (ptable_case, k // 3), (lee_case, k // 3), (moves_case, k // 2)]:
        cases += vp.pmap(fn, ['%d.%d' % (vp.SEED, i) for i in range(m)])
    c.note(histories_generated=len(ws), draws_per_table=DRAWS)
    c.check('TablesTrace', cases, {'C29'}, min_chunk=60)


# ------------------------------------------------------------------ C30
COEF = [Fr(k, 4) for k in range(-4, 5)]
MARKS = [1, 2, 4, 8, 12]


def lin(rng, most=4, coefs=COEF):
    """(specification's regressors, values, the library's description, its values, the sum)"""
    gs, vs, js, xs, lp = [], [], [], {}, Fr(0)
    names = rng.sample(['Male', 'Age', 'x', 'Region', 'y z', 'b2', 'A', 'Ag'], rng.randint(0, most))
    for n in names:
        tp = rng.choice(['Boolean', 'Continuous', 'Categorical'])
        if tp == 'Categorical':
            k = rng.randint(1, 4)
            cs = [rng.choice(coefs) for _ in range(k)]
            labels = rng.sample(['none', 'low', 'high', 'x', '2'], k)
            ref = rng.randrange(k)
            cs[ref] = Fr(0)
            v = rng.randrange(k)
            lp += cs[v]
            js.append({'Name': n, 'Type': tp, 'Values': [rng.choice([float, str])(float(c)) for c in cs], 'Labels': labels, 'Ref': labels[ref]})
            xs[n] = v
        else:
            cs = [rng.choice(coefs)]
            if tp == 'Boolean':
                v = rng.choice([0, 1])
                xs[n] = rng.choice([bool(v), bool(v), v, float(v), np.bool_(v), rng.choice([2, -1]) if v else 0])
            else:
                v = rng.choice([Fr(0), Fr(1), Fr(2), Fr(-1), Fr(1, 2), Fr(-3, 4)])
                xs[n] = int(v) if v.denominator == 1 and rng.random() < .5 else float(v)
            lp += cs[0] * v
            c = cs[0]
            js.append({'Name': n, 'Type': tp, 'Value': int(c) if c.denominator == 1 and rng.random() < .5 else float(c)})
        gs.append({'tp': tp, 'cs': [q(c) for c in cs]})
        vs.append(q(v))
    if rng.random() < .4:
        xs['unused'] = 17
    ks = list(xs)
    rng.shuffle(ks)
    return gs, vs, js, {k: xs[k] for k in ks}, lp


def logit(p):
    p = float(p)
    return math.log(p / (1 - p))


def glm_case(seed):
    import json
    import sims_pars.data as sd
    rng = random.Random('g%s' % (seed,))
    np.random.seed(rng.randrange(2 ** 31))
    tp = rng.choice(['logistic', 'linear', 'poisson'])
    while True:
        gs, vs, js, xs, lp = lin(rng, 5 if tp == 'linear' else 4)
        ic = rng.choice([Fr(k, 4) for k in range(-6, 7)])
        if tp == 'linear' or abs(lp + ic) <= 3:
            break
    se = rng.choice([Fr(1, 4), Fr(1), Fr(5, 2)])
    d = {'Intercept': float(ic), 'Regressors': js}
    if tp == 'linear':
        d['SE'] = float(se)
    d0 = json.dumps(d)
    rec = {'k': 'glm', 'tp': tp, 'regs': gs, 'vals': vs, 'intercept': q(ic), 'se': q(se), 'ok': False, 'link': 0, 'names': False, 'again': 0, 'drew': False,
           'outside': 0, 'sampler': 0, 'avg': 0, 'avg2': 0, 'e': 0, 'tol': 0, 'sd': 0, 'doc': True}
    link = {'logistic': logit, 'linear': float, 'poisson': math.log}[tp]
    xs0 = dict(xs)

    def go():
        r = {'logistic': sd.LogisticRegression, 'linear': sd.LinearRegression, 'poisson': sd.PoissonRegression}[tp](d)
        e = float(r.expectation(xs))
        smp = r.get_sampler(xs)
        rec['link'], rec['e'] = fx(link(e)), fx(e)
        rec['sampler'] = fx(link(smp.mean()))
        rec['sd'] = fx(smp.std()) if tp == 'linear' else 0
        return r, e, smp
    ok, v = vp.attempt(go)
    rec['ok'] = ok
    if not ok:
        rec['error'] = v
        return [rec]
    r, e, smp = v
    rec['doc'] = json.dumps(d) == d0
    rec['names'] = list(r.LC.list_regressors()) == [j['Name'] for j in js]

    def again():
        from sims_pars.data.reg.linear import LinearCombination
        lc = LinearCombination(json.loads(json.dumps([g.to_json() for g in r.LC.Regressors])))
        return fx(lc.predict(xs) + float(ic))
    ok, v = vp.attempt(again)
    rec['again'] = v if ok else -BIG

    def draws():
        a = [float(x) for x in smp.sample(900)]
        if tp == 'linear':
            b = [float(x) for x in r.predict(xs, 899)] + [float(np.ravel(r.predict(xs))[0])]
        else:
            b = [float(r.predict(xs)) for _ in range(900)]
        return a, b
    ok, v = vp.attempt(draws)
    rec['drew'] = ok and len(v[0]) == len(v[1]) == 900 and xs == xs0
    if not ok:
        rec['error'] = v
        return [rec]
    a, b = v
    good = {'logistic': lambda x: x in (0, 1), 'linear': math.isfinite, 'poisson': lambda x: x >= 0 and x == int(x)}[tp]
    rec['outside'] = sum(1 for x in a + b if not good(x))
    rec['avg'], rec['avg2'] = fx(np.mean(a)), fx(np.mean(b))
    rec['tol'] = int(6.5 * S0 * (float(se) if tp == 'linear' else math.sqrt(e) if tp == 'poisson' else 0) / 30) + 30
    rec['doc'] = rec['doc'] and json.dumps(d) == d0
    return [rec]


def multi_case(seed):
    import json
    import sims_pars.data as sd
    rng = random.Random('u%s' % (seed,))
    np.random.seed(rng.randrange(2 ** 31))
    n = rng.randint(1, 4)
    gs, vs, js, xs = [], [], [], {}
    ics = [rng.choice([Fr(k, 2) for k in range(-4, 5)]) for _ in range(n)]
    for _ in range(n):
        while True:
            g, v, j, x, _ = lin(rng, 3)
            if all(k not in xs or xs[k] == x[k] for k in x) and all(v1[1] for v1 in v):
                break
        gs.append(g)
        vs.append(v)
        js.append(j)
        xs.update(x)
    labels = rng.sample(['A', 'B', 'C', 'no way'], n) if rng.random() < .7 else [str(i) for i in range(n)]
    d = {'Intercepts': [float(i) for i in ics], 'Regressions': js}
    if not all(l.isdigit() for l in labels):
        d['Labels'] = labels
    d0 = json.dumps(d)
    rec = {'k': 'multi', 'doc': True, 'intercepts': [q(i) for i in ics], 'regs': gs, 'vals': vs, 'ok': False, 'probs': [], 'drew': False, 'outside': 0, 'shares': [], 'shares2': []}

    def go():
        r = sd.MultinomialLogisticRegression(d)
        return r, [fx(p) for p in r.expectation(xs)], r.get_sampler(xs)
    ok, v = vp.attempt(go)
    rec['ok'] = ok
    if not ok:
        rec['error'] = v
        return [rec]
    r, rec['probs'], smp = v
    rec['doc'] = json.dumps(d) == d0
    ok, v = vp.attempt(lambda: ([str(x) for x in smp.sample(900)], [str(np.ravel(r.predict(xs))[0]) for _ in range(900)]))
    rec['drew'] = ok
    if ok:
        rec['outside'] = sum(1 for x in v[0] + v[1] if x not in labels)
        rec['shares'], rec['shares2'] = [[fx(y.count(l) / 900) for l in labels] for y in v]
    else:
        rec['error'] = v
        rec['shares'] = rec['shares2'] = [-BIG] * n
    return [rec]


def baseline(rng):
    """(for the specification, description for the library, shape)"""
    tp = rng.choice(['exp', 'weibull', 'weibull', 'weibull', 'empirical'])
    a = rng.choice([Fr(1, 2), Fr(1), Fr(2), Fr(3, 2), Fr(5, 2), Fr(3)])
    k = Fr(1)
    pts = []
    if tp == 'exp':
        js = {'Type': rng.choice(['exp', 'Exp', 'EXP']), 'Rate': float(a)}
    elif tp == 'weibull':
        k = rng.choice([Fr(1), Fr(2), Fr(1, 2)])
        js = {'Type': rng.choice(['weibull', 'Weibull']), 'Lambda': float(a), 'K': float(k) if rng.random() < .5 or k.denominator > 1 else int(k)}
    else:
        t, h = Fr(0), Fr(0)
        pts = [[q(t), q(h)]]
        ts, hs = [0.], [0.]
        for _ in range(rng.randint(1, 5)):
            t += rng.choice([Fr(1, 2), Fr(1), Fr(2)])
            h += rng.choice([Fr(1, 4), Fr(1, 2), Fr(1), Fr(2)])
            pts.append([q(t), q(h)])
            ts.append(float(t))
            hs.append(float(h))
        js = {'Type': 'empirical', 'Time': ts, 'CumHaz': hs}
    return {'tp': tp, 'a': q(a), 'k': q(k), 'pts': pts}, js, k


def make_hazard(sd, b, js):
    if b['tp'] == 'exp':
        return sd.ExponentialHazard(js['Rate'])
    if b['tp'] == 'weibull':
        return sd.WeibullHazard(js['Lambda'], js['K'])
    return sd.EmpiricalHazard(js['Time'], js['CumHaz'])


def thousand(d, n=1000):
    """draws in several sizes; n in total"""
    xs = [float(x) for x in d.sample(n - 12)] + [float(x) for x in d.sample(2)] + [float(d.sample()) for _ in range(5)] + [float(d.sample(1)) for _ in range(5)]
    assert len(xs) == n
    return xs


def s1(x):
    return fx(x, 1000)


def hazard_case(seed):
    import sims_pars.data as sd
    rng = random.Random('h%s' % (seed,))
    np.random.seed(rng.randrange(2 ** 31))
    b, js, k = baseline(rng)
    rr = rng.choice([Fr(1, 2), Fr(1), Fr(2), Fr(3, 2), Fr(3)])
    p = Fr(rng.randint(1, 3), 4)
    rec = {'k': 'hazard', 'b': b, 'rr': q(rr), 'p': q(p), 'ok': False, 'cum': [], 'inv': [], 'mean': 0, 'var': 0, 'zmean': 0, 'zvar': 0, 'rate': [],
           'negative': '', 'atzero': 0, 'drew': False, 'below': 0, 'beyond': [], 'zeros': 0}
    emp = b['tp'] == 'empirical'
    cp, ip, mp = (2 if k == Fr(1, 2) else 1), (2 if k == 2 else 1), (2 if k == 2 else 1)
    grid = [Fr(x, 4) for x in (1, 2, 3, 4, 6, 8, 12)] + ([Fr(0), Fr(30)] if emp else [Fr(0)])

    def go():
        h = make_hazard(sd, b, js)
        d = sd.HazardDistribution(h, float(rr))
        z = sd.ZeroInflatedHazardDistribution(float(p), h, float(rr))
        rec['cum'] = [[q(t), s1(float(h.cum_hazard(float(t))) ** cp)] for t in grid]
        rec['inv'] = [[q(t), s1(float(h.inv_cum_hazard(float(t))) ** ip)] for t in grid]
        if not emp:
            rec['mean'], rec['var'] = s1(float(d.mean()) ** mp), s1(float(d.std()) ** 2)
            rec['zmean'], rec['zvar'] = s1(float(z.mean()) ** mp), s1(float(z.std()) ** 2)
        if emp:
            ts = [Fr(x[0][0], x[0][1]) for x in b['pts']]
            at = [(x + y) / 2 for x, y in zip(ts, ts[1:])]
        else:
            at = [t for t in grid if 0 < float(h.cum_hazard(float(t))) * float(rr) < 5]
        if b['tp'] == 'exp':
            rec['rate'].append([q(0), s1(math.exp(float(d.logpdf(0)))), s1(math.exp(float(d.logpdf(0.))))])
        for t in at:
            t1 = float(t)
            up = math.exp(float(rr) * float(h.cum_hazard(t1)))
            rec['rate'].append([q(t), s1((math.exp(float(d.logpdf(t1))) * up) ** cp), s1((math.exp(float(z.logpdf(t1))) * up / (1 - float(p))) ** cp)])
        x, y = float(d.logpdf(-.5)), float(z.logpdf(-2))
        rec['negative'] = '-inf' if x == y == -math.inf else 'other'
        rec['atzero'] = fx(math.exp(float(z.logpdf(0))))
        return h, d, z
    ok, v = vp.attempt(go)
    rec['ok'] = ok
    if not ok:
        rec['error'] = v
        return [rec]
    h, d, z = v
    ok, v = vp.attempt(lambda: (thousand(d), thousand(z)))
    rec['drew'] = ok
    if not ok:
        rec['error'] = v
        return [rec]
    xs, zs = v
    rec['below'] = sum(1 for x in xs + zs if not x >= 0)
    rec['zeros'] = sum(1 for x in zs if x == 0)
    top = js['CumHaz'][-1] if emp else math.inf
    for m in MARKS:
        if m / 4 / float(rr) < top * .999:
            t = float(h.inv_cum_hazard(m / 4 / float(rr)))
            rec['beyond'].append([m, sum(1 for x in xs if x > t), sum(1 for x in zs if x > t)])
    return [rec]


def cox_case(seed):
    import json
    import sims_pars.data as sd
    rng = random.Random('c%s' % (seed,))
    np.random.seed(rng.randrange(2 ** 31))
    b, bjs, k = baseline(rng)
    while True:
        gs, vs, js, xs, lp = lin(rng, 3)
        zg, zv, zjs, zxs, zlp = lin(rng, 3)
        ic = rng.choice([Fr(n, 4) for n in range(-4, 5)])
        if abs(lp) <= Fr(3, 2) and abs(zlp + ic) <= 2 and all(xs.get(n, v) == v for n, v in zxs.items()):
            break
    emp = b['tp'] == 'empirical'
    xz = dict(xs, **zxs)
    dc, dz = {'Baseline': bjs, 'Regressors': js}, {'PrZero': {'Intercept': float(ic), 'Regressors': zjs}, 'PrTTE': {'Baseline': bjs, 'Regressors': js}}
    d0 = json.dumps([dc, dz])
    rec = {'k': 'cox', 'doc': True, 'b': b, 'regs': gs, 'vals': vs, 'zregs': zg, 'zvals': zv, 'intercept': q(ic), 'ok': False, 'ratio': 0, 'samplerratio': 0, 'rate': 0, 'zlogit': 0,
           'zratio': 0, 'zrate': 0, 'drew': False, 'below': 0, 'beyond': [], 'keep': 0, 'zbeyond': 0}

    def go():
        r = sd.CoxRegression(dc)
        z = sd.ZeroInflatedCoxRegression(dz)
        h = make_hazard(sd, b, bjs)
        base = sd.HazardDistribution(h, 1)
        d, zd = r.get_sampler(xs), z.get_sampler(xz)
        pz = math.exp(float(zd.logpdf(0)))
        rec['zlogit'] = fx(logit(pz))
        if not emp:
            m = float(base.mean())
            rec['ratio'], rec['samplerratio'] = fx(math.log(float(r.expectation(xs)) / m)), fx(math.log(float(d.mean()) / m))
            rec['zratio'] = fx(math.log(float(z.expectation(xz)) / m / (1 - pz)))
        top = .4 * (bjs['CumHaz'][-1] if emp else 1)
        for h1 in (.23 * top, .19 * top, .31 * top):
            t1, t2 = float(h.inv_cum_hazard(h1)), float(h.inv_cum_hazard(2 * h1))
            if emp and any(abs(t - x) < 1e-3 for t in (t1, t2) for x in bjs['Time']):
                continue
            g = lambda f, t: float(f.logpdf(t)) - float(base.logpdf(t))
            rec['rate'] = s1(2 * g(d, t1) - g(d, t2))
            rec['zrate'] = s1(2 * g(zd, t1) - g(zd, t2) - math.log(1 - pz))
            break
        rec['keep'] = round(1000 * (1 - pz))
        rec['doc'] = json.dumps([dc, dz]) == d0
        return r, z, h, d, zd
    ok, v = vp.attempt(go)
    rec['ok'] = ok
    if not ok:
        rec['error'] = v
        return [rec]
    r, z, h, d, zd = v
    ok, v = vp.attempt(lambda: (thousand(d), [float(r.predict(xs)) for _ in range(1000)], thousand(zd, 500) + [float(z.predict(xz)) for _ in range(500)]))
    rec['drew'] = ok
    if not ok:
        rec['error'] = v
        return [rec]
    a, c, e = v
    rec['below'] = sum(1 for x in a + c + e if not x >= 0)
    rr = math.exp(lp)
    t = float(h.inv_cum_hazard(1 / rr))
    if not emp or 1 / rr < bjs['CumHaz'][-1] * .999:
        rec['beyond'] = [[4, sum(1 for x in y if x > t)] for y in (a, c)]
        rec['zbeyond'] = sum(1 for x in e if x > t)
    else:
        rec['zbeyond'] = rec['keep'] * 368 // 1000
    return [rec]


def run30(c):
    import sims_pars.data as sd
    big = vp.THOROUGH
    c.count_model(vp.model_check('RegressMC', {'Big': 'TRUE' if big else 'FALSE'}, ['Undo', 'UndoSquares', 'Grows', 'Faster', 'Proportional', 'SameAsExp', 'ZeroEnds', 'Swapped', 'Reference'],
                                 workers=8 if big else 4, timeout=2400))
    cases = []
    k = 1600 if big else 160
    for fn, m in [(glm_case, k), (multi_case, k // 2), (hazard_case, k), (cox_case, k)]:
        cases += vp.pmap(fn, ['%d.%d' % (vp.SEED, i) for i in range(m)])
    for tp in ('gamma', '', 'expo', 'Weib'):
        ok, _ = vp.attempt(sd.CoxRegression, {'Baseline': {'Type': tp, 'Rate': 1., 'Lambda': 1., 'K': 1., 'Time': [0, 1], 'CumHaz': [0, 1]}, 'Regressors': []})
        cases.append([{'k': 'unknown', 'ok': ok}])
    # descriptions which leave something out, values and labels which do not exist
    for b in ({'Type': 'exp'}, {'Type': 'weibull', 'K': 1.}, {'Type': 'weibull', 'Lambda': 1.}, {'Type': 'empirical', 'Time': [0, 1]}, {'Type': 'empirical', 'CumHaz': [0, 1]}, {'Rate': 1.}):
        ok, _ = vp.attempt(sd.CoxRegression, {'Baseline': b, 'Regressors': []})
        cases.append([{'k': 'refuse', 'ok': ok, 'what': 'baseline %r' % b}])
    cat = {'Name': 'x', 'Type': 'Categorical', 'Values': [0, 1., -1.], 'Labels': ['a', 'b', 'c'], 'Ref': 'a'}
    for v in (3, 4, 30):
        for reg in (sd.LogisticRegression, sd.PoissonRegression):
            ok, _ = vp.attempt(lambda: reg({'Intercept': 0, 'Regressors': [cat]}).expectation({'x': v}))
            cases.append([{'k': 'refuse', 'ok': ok, 'what': 'class %d of 3' % v}])
    for reg in (cat, {'Name': 'x', 'Type': 'Boolean', 'Value': 1}, {'Name': 'x', 'Type': 'Continuous', 'Value': 1}):
        ok, _ = vp.attempt(lambda: sd.LogisticRegression({'Intercept': 0, 'Regressors': [reg]}).expectation({'y': 1}))
        cases.append([{'k': 'refuse', 'ok': ok, 'what': 'missing value'}])
    ok, _ = vp.attempt(lambda: sd.LogisticRegression({'Intercept': 0, 'Regressors': [dict(cat, Ref='d')]}))
    cases.append([{'k': 'refuse', 'ok': ok, 'what': 'unknown reference'}])
    c.check('RegressTrace', cases, {'C30'}, min_chunk=40)


def run(c, prop):
    {'C29': run29, 'C30': run30}[prop](c)
