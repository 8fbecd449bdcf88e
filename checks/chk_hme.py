"""C21: history matching with emulators. Specification: Hme, HmeMC, HmeTrace.
The library behind the emulators (gpflow) is not installed: a stand-in records what it is trained on and predicts scripted values."""
import math, random, sys, types
import numpy as np
import vp
import chk_fit
from chk_fit import LOGS, NETS, same
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.targets.base import AbsData

EVENTS, SCRIPT = [], {}


class Num:
    def __init__(self, a):
        self.a = a

    def numpy(self):
        return self.a


class GPR:
    """Output k (0, 1, ..) of simulation i is 1000 * (k + 1) + i"""
    def __init__(self, data, kernel=None, mean_function=None, **kw):
        self.data, self.trained = data, False
        self.trainable_variables = ('v',)

    def training_loss(self):
        return 0.

    def predict_f(self, xs, **kw):
        xs, ys = np.array(xs, float), np.array(self.data[1], float).reshape(-1)
        k = int(ys[0] // 1000) - 1
        s = SCRIPT
        rng = s['rng']
        mean, var, y4, v4 = [], [], [], []
        for x in xs:
            sd = rng.choice([1, 1, 2, 4])
            far = s['range'] if not s['slope'] else max(1, int(s['range'] * abs(float(x[0]) - .4)))
            y = s['e'][k] + rng.randint(-far, far)
            v = 4 * sd * sd - s['vm'] - s['vo'][k]
            y4.append(y)
            v4.append(4 * sd * sd)
            mean.append([y / 4])
            var.append([v / 4])
        EVENTS.append({'ev': 'predict', 'k': k, 'xs': xs.tolist(), 'y': y4, 'v': v4, 'data': np.array(self.data[0], float).tolist(),
                       'ids': [int(y % 1000) for y in ys], 'trained': self.trained})
        return Num(np.array(mean)), Num(np.array(var))


class Scipy:
    def minimize(self, loss, variables, **kw):
        owner = getattr(loss, '__self__', None)
        loss()
        if owner is not None:
            owner.trained = True


def install():
    m = {n: types.ModuleType(n) for n in ('gpflow', 'gpflow.kernels', 'gpflow.models', 'gpflow.optimizers')}
    m['gpflow.kernels'].RBF = m['gpflow.kernels'].SquaredExponential = lambda *a, **k: object()
    m['gpflow.models'].GPR = GPR
    m['gpflow.optimizers'].Scipy = Scipy
    m['gpflow'].kernels, m['gpflow'].models, m['gpflow'].optimizers = m['gpflow.kernels'], m['gpflow.models'], m['gpflow.optimizers']
    sys.modules.update(m)


install()
NETS.update({
    'one': ('PCore M {\n x ~ qunif(0, 1)\n y ~ qnorm(x, 1)\n}', {}, None),
    'two': ('PCore M {\n x ~ qunif(-1, 3)\n m ~ qnorm(2, 3)\n y ~ qnorm(m, 1)\n w = x + y\n}', {}, None),
    'three': ('PCore M {\n k\n r ~ qexp(2)\n x ~ qunif(0, 10)\n m ~ qnorm(0, 1)\n y = x * k + m\n}', {'k': 2.0}, None),
})


class Target(AbsData):
    def __init__(self, name, value, var):
        AbsData.__init__(self, name, value)
        self.var = var

    def get_var_obs(self):
        return self.var

    def calc_distance(self, sim):
        return abs(sim[self.Name] - self.Value)

    def calc_likelihood(self, sim):
        return -abs(sim[self.Name] - self.Value)


class Model(DataModel):
    def __init__(self, net, data):
        self.key = id(self)
        self.n_sim = 0
        DataModel.__init__(self, data, NETS[net][0], NETS[net][1])

    def simulate(self, pars):
        i = self.n_sim
        self.n_sim += 1
        EVENTS.append({'ev': 'sim', 'id': i, 'pars': dict(pars)})
        return Particle(pars, dict({k: 1000. * (j + 1) + i for j, k in enumerate(self.Data)}, id=i))


def hme_case(a):
    from sims_pars.fit.hme import BayesHistoryMatching
    from sims_pars.fit.converter import get_converter
    net, seed, small = a
    rng = random.Random(seed)
    np.random.seed(rng.randrange(2 ** 31))
    del EVENTS[:]
    K = rng.choice([1, 2, 2, 3])
    names = rng.sample(['a', 'b', 'prev', 'x_1'], K)
    vm = rng.choice([0, 1, 2])
    vo = [rng.choice([0, 1, 2]) for _ in names]
    e = [rng.randint(-12, 12) for _ in names]
    acc = rng.choice([(1, 8), (1, 4), (1, 2), (1, 8), (3, 4)])
    cutoff4 = rng.choice([0, 1, 2, 4, 8, 12])
    n_ems, n_sims = rng.randint(5, 40), rng.randint(2, 12)
    many = random.Random('many' + seed)
    if many.random() < .05:
        n_sims = many.choice([51, 53, 64])
    max_wave, n_collect = rng.randint(1, 4), rng.randint(1, 10)
    SCRIPT.clear()
    SCRIPT.update({'rng': random.Random('s' + seed), 'vm': vm, 'vo': vo, 'e': e, 'range': rng.choice([3, 10, 30]), 'slope': rng.random() < .6})
    data = {n: Target(n, y / 4, v / 4) for n, y, v in zip(names, e, vo)}
    m = Model(net, data)
    doms = m.Domain
    P = len(doms)
    kw = {'n_sims': n_sims, 'n_ems': n_ems}
    if small:
        kw = rng.choice([{}, {'n_sims': 2}, {'n_ems': 30}])
        max_wave = rng.randint(1, 2)
        n_sims = kw.get('n_sims', 10 * P)
        n_ems = kw.get('n_ems', 100 * n_sims)
    rec = {'net': net, 'ok': False, 'error': '', 'n_sims': n_sims, 'n_ems': n_ems, 'max_wave': max_wave, 'n_collect': n_collect, 'acc': list(acc),
           'limit': cutoff4 * 32, 'e': e, 'waves': [], 'kept': [], 'co': 0, 'lo': [], 'up': [], 'lo0': [], 'up0': [], 'wave': 0, 'notes': {}, 'post': []}
    alg = BayesHistoryMatching(max_wave=max_wave, var_model=vm / 4, cutoff=cutoff4 / 4, min_acc=acc[0] / acc[1], **kw)
    ok, r = vp.attempt(alg.fit, m, seconds=60)
    cut = len(EVENTS)
    if ok:
        ok, po = vp.attempt(alg.sample_posteriors, n_collect, seconds=60)
        r = po
    if not ok:
        rec['error'] = r
        return [rec]
    cons = [get_converter(d) for d in doms]
    full = lambda p: set(p) == set(m.BayesianNetwork.Order) | set(NETS[net][1])

    def close(v, x, c):
        w = float(c.uniform2value(x))
        return v == w or abs(v - w) <= 1e-9 * (1 + abs(w))
    # waves
    waves, w = [], None
    for ev in EVENTS[:cut]:
        if ev['ev'] == 'sim' and (w is None or w['pred']):
            w = {'sims': [], 'pred': []}
            waves.append(w)
        if w is None:
            w = {'sims': [], 'pred': []}
            waves.append(w)
        w['sims' if ev['ev'] == 'sim' else 'pred'].append(ev)
    st = alg.State
    vals = [{0., 1., float(st.Bounds[0][j]), float(st.Bounds[1][j])} for j in range(P)]
    for w in waves:
        for p in w['pred']:
            for x in p['xs'] + p['data']:
                for j in range(P):
                    vals[j].add(x[j])
    rank = [{v: i for i, v in enumerate(sorted(s))} for s in vals]
    rk = lambda x: [rank[j].get(float(v), -1) for j, v in enumerate(x)]
    rec['lo0'], rec['up0'] = rk([0.] * P), rk([1.] * P)
    rec['lo'], rec['up'] = rk(st.Bounds[0]), rk(st.Bounds[1])
    scale = 128 * acc[1]
    for w in waves:
        preds = {}
        for p in w['pred']:
            q = preds.setdefault(p['k'], {'xs': [], 'y': [], 'v': [], 'data': p['data'], 'ids': p['ids'], 'trained': p['trained']})
            q['xs'] += p['xs']
            q['y'] += p['y']
            q['v'] += p['v']
            q['trained'] = q['trained'] and p['trained'] and q['ids'] == p['ids']
        at = {i: x for q in list(preds.values())[:1] for i, x in zip(q['ids'], q['data'])}
        xs = list(preds.values())[0]['xs'] if preds else []
        rec['waves'].append({
            'sims': [{'id': s['id'], 'x': rk(at[s['id']]) if s['id'] in at else [-1] * P, 'full': full(s['pars']),
                      'conv': s['id'] in at and all(close(s['pars'][d.Name], x, c) for d, x, c in zip(doms, at[s['id']], cons))} for s in w['sims']],
            'ems': [{'trained': q['trained'], 'pts': [{'id': i, 'x': rk(x)} for i, x in zip(q['ids'], q['data'])]} for q in preds.values()],
            'same': len(preds) == K and all(q['xs'] == xs for q in preds.values()),
            'cand': [{'x': rk(x), 'y': [preds[k]['y'][i] for k in range(K)], 'v': [preds[k]['v'][i] for k in range(K)]} for i, x in enumerate(xs)]
            if len(preds) == K and all(len(q['xs']) == len(xs) for q in preds.values()) else []})
    pool = [(tuple(x), [preds[k]['y'][i] / 4 for k in range(K)], max(abs(e[k] - preds[k]['y'][i]) * 32 / {4: 1, 16: 2, 64: 4}[preds[k]['v'][i]] for k in range(K))) for i, x in enumerate(xs)] if rec['waves'][-1]['cand'] else []
    used = set()

    def number(pt):
        x, y = tuple(float(v) for v in pt['Xs']), [float(np.asarray(pt['Ys'][n]).reshape(-1)[0]) for n in names]
        for i, c in enumerate(pool):
            if c[:2] == (x, y) and i not in used and abs(c[2] - float(pt['Imp']) * 128) < .5:
                used.add(i)
                return i + 1
        for i, c in enumerate(pool):
            if c[:2] == (x, y) and i not in used:
                used.add(i)
                return i + 1
        return 0

    def final():
        ps = [{'i': number(pt), 'imp': round(float(pt['Imp']) * 128)} for pt in st.Particles]
        byid = {ev['id']: ev for ev in EVENTS if ev['ev'] == 'sim'}
        lo, up = [float(c.uniform2value(x)) for c, x in zip(cons, st.Bounds[0])], [float(c.uniform2value(x)) for c, x in zip(cons, st.Bounds[1])]
        eps = [1e-9 * (1 + abs(x)) for x in lo]
        post = [{'full': full(dict(pt.Pars)), 'own': pt.Sims['id'] in byid and same(pt.Pars, byid[pt.Sims['id']]['pars']),
                 'inside': all(a - t <= pt.Pars[d.Name] <= b + t for a, b, d, t in zip(lo, up, doms, eps))} for pt in po.Particles]
        bnd = [(n, float(x), float(y)) for n, x, y in po['Bounds']]
        return {'kept': ps, 'co': round(float(st.CutOff) * scale), 'wave': int(st.Wave), 'post': post,
                'notes': {'co': round(float(po['CutOff']) * scale), 'acc': round(float(po['Acceptance']) * 10000), 'mse': round(float(po['MSE']) * 1000),
                          'bounds': len(bnd) == P and {n for n, _, _ in bnd} == {d.Name for d in doms} and
                          all(close(dict((n, v) for n, v, _ in bnd)[d.Name], x, c) and close(dict((n, v) for n, _, v in bnd)[d.Name], y, c)
                              for d, c, x, y in zip(doms, cons, *st.Bounds))}}
    ok, r = vp.attempt(final)
    rec['ok'], rec['error'] = ok, '' if ok else r
    if ok:
        rec.update(r)
    return [rec]


def run(c, prop):
    big = vp.THOROUGH
    inv = ['Nested', 'Enough', 'NoneLeftOut', 'MonotoneKept']
    for n, g, mi, wv, a1, a2, lim in ([(4, 3, 2, 2, 1, 4, 1), (3, 3, 3, 3, 1, 2, 0), (5, 2, 2, 2, 1, 4, 0)] if big else [(3, 3, 2, 2, 1, 4, 1)]):
        c.count_model(vp.model_check('HmeMC', {'N': str(n), 'Grid': str(g), 'MaxImp': str(mi), 'Waves': str(wv), 'A1': str(a1), 'A2': str(a2), 'Limit': str(lim)},
                                     inv, workers=8, timeout=2400, mem='8g'))
    args = [(random.Random(i).choice(['one', 'two', 'three']), '%d.%d' % (vp.SEED, i), False) for i in range(2000 if big else 160)]
    args += [('one', 'd%d.%d' % (vp.SEED, i), True) for i in range(12 if big else 3)]
    cases = vp.pmap(hme_case, args, chunk=4)
    c.note(waves=sum(len(x[0]['waves']) for x in cases))
    c.check('HmeTrace', cases, {prop}, min_chunk=15)
