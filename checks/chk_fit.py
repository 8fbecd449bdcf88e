"""C19 rejection ABC and C20 sequential ABC. Specifications: Abc*, Smc*.
The model under inference is scripted: every simulation is logged with its parameters and has the next distance of the script."""
import json, logging, math, os, random, tempfile, threading
import numpy as np
import pydantic.types as ptp
import vp
from sims_pars.prob import AbsDistribution
from sims_pars.factory import get_atelier, AbsCreator
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.targets.base import AbsData

logging.disable(logging.CRITICAL)
INF, BIG = float('inf'), 1000000000
LOGS, LOCK = {}, threading.RLock()
UNITS = [1, 1, 2. ** -13, 2. ** 17]        # of the distances; powers of two, so that nothing is rounded

# quick stand-ins for the distributions of the prior
class Quick(AbsDistribution):
    def __init__(self, lo, up, mean, std, draw, lpdf):
        AbsDistribution.__init__(self)
        self.v = lo, up, mean, std, draw, lpdf

    @property
    def Interval(self):
        return self.v[0], self.v[1]

    @property
    def Type(self):
        return 'Double'

    def sample(self, n=1, **kwargs):
        return self.v[4]() if n == 1 else np.array([self.v[4]() for _ in range(n)])

    def logpdf(self, x):
        return self.v[5](float(x)) if self.v[0] <= x <= self.v[1] else -INF

    def mean(self):
        return self.v[2]

    def std(self):
        return self.v[3]


class CreQNorm(AbsCreator):
    m: float = 0
    s: ptp.PositiveFloat = 1

    def create(self):
        m, s = self.m, self.s
        return Quick(-INF, INF, m, s, lambda: float(np.random.normal(m, s)), lambda x: -((x - m) / s) ** 2 / 2 - math.log(s) - .9189385332046727)


class CreQUnif(AbsCreator):
    a: float = 0
    b: float = 1

    def create(self):
        a, b = self.a, self.b
        return Quick(a, b, (a + b) / 2, (b - a) / math.sqrt(12), lambda: float(np.random.uniform(a, b)), lambda x: -math.log(b - a))


class CreQExp(AbsCreator):
    r: ptp.PositiveFloat = 1

    def create(self):
        r = self.r
        return Quick(0., INF, 1 / r, 1 / r, lambda: float(np.random.exponential(1 / r)), lambda x: math.log(r) - r * x)


for _n, _c in (('qnorm', CreQNorm), ('qunif', CreQUnif), ('qexp', CreQExp)):
    get_atelier('Distributions').register(_n, _c)

NETS = {
    'free': ('PCore M {\n x ~ qnorm(0, 1)\n y ~ qnorm(x, 2)\n z = x + y\n}', {}, lambda p: True),
    'unit': ('PCore M {\n x ~ qunif(0, 1)\n y ~ qnorm(x, 1)\n}', {}, lambda p: 0 <= p['x'] <= 1),
    'rate': ('PCore M {\n x ~ qexp(1)\n s ~ qunif(0, 2)\n y ~ qnorm(0, s)\n}', {}, lambda p: p['x'] >= 0 and 0 < p['s'] <= 2),
    'exo': ('PCore M {\n k\n x ~ qnorm(k, 1)\n v ~ qunif(0, 1)\n}', {'k': 2.0}, lambda p: p['k'] == 2.0 and 0 < p['v'] < 1),
}


class Target(AbsData):
    def get_var_obs(self):
        return 1.

    def calc_distance(self, sim):
        return sim[self.Name]

    def calc_likelihood(self, sim):
        return -sim[self.Name]


class Model(DataModel):
    def __init__(self, net, script, tail, seed, path=None):
        self.net, self.script, self.tail, self.seed, self.path = net, script, tail, seed, path
        self.key = '%s-%s' % (seed, id(self))
        self.unit = UNITS[sum(map(ord, seed)) % 4]
        LOGS[self.key] = []
        src, exo, _ = NETS[net]
        DataModel.__init__(self, {'a': Target('a', 0.), 'b': Target('b', 0.)}, src, exo)

    def simulate(self, pars):
        with LOCK:
            log = LOGS.setdefault(self.key, [])
            n = len(log)
            d = self.script[n] if n < len(self.script) else random.Random('%s/%s/%d' % (self.seed, os.getpid() if self.path else '', n)).choice(self.tail)
            part = 1 if isinstance(d, int) and d > 1 and n % 3 == 0 else 0
            i = n if not self.path else os.getpid() * 10000 + n
            ev = {'id': i, 'd': d, 'pars': dict(pars), 'who': '%d.%d' % (os.getpid(), threading.get_ident())}
            log.append(ev)
            if self.path:
                with open(self.path, 'a') as fh:
                    fh.write(json.dumps(ev) + '\n')
            return Particle(pars, {'a': (float(d) - part) * self.unit, 'b': part * self.unit, 'id': i})

    def read_log(self):
        if self.path:
            return [json.loads(x) for x in open(self.path)] if os.path.exists(self.path) else []
        return LOGS[self.key]


def dist(d):
    d = float(d)
    return ['nan', 0] if d != d else ['inf', 1] if math.isinf(d) else ['fin', int(d)]


def milli(x):
    x = float(x)
    return BIG if x == INF else round(x * 1000) if x == x and abs(x) < 1e5 else -BIG


def same(p, q):
    p, q = dict(p), dict(q)
    return set(p) == set(q) and all(p[k] == q[k] for k in p)


def own(pt, log, unit):
    """The particle has the parameters and the output of the simulation of its number"""
    ok, r = vp.attempt(lambda: (log[pt.Sims['id']], dict(pt.Sims), dict(pt.Pars)))
    if not ok:
        return False
    ev, sims, pars = r
    d = float(ev['d']) * unit
    return same(pars, ev['pars']) and sims['a'] + sims['b'] == d and pt.Notes.get('distance', d) == d


class backend:
    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        if self.kind == 'threads':
            from joblib import parallel_config
            self.c = parallel_config(backend='threading')
            self.c.__enter__()

    def __exit__(self, *a):
        if self.kind == 'threads':
            self.c.__exit__(*a)


# ------------------------------------------------------------------ C19
def abc_case(a):
    from sims_pars.fit.abcom.alg import ApproxBayesCom
    mode, net, n_test, p, n_collect, script, tail, seed = a
    np.random.seed(random.Random('np' + seed).randrange(2 ** 31))
    tmp = tempfile.mkdtemp(prefix='vp-abc-') if mode == 'processes' else None
    try:
        m = Model(net, script, tail, seed, os.path.join(tmp, 'log') if tmp else None)
        rec = {'mode': mode, 'net': net, 'n_test': n_test, 'p': list(p), 'n_collect': n_collect, 'ok': False, 'error': '', 'tests': [], 'tries': [],
               'eps': 0, 'note': 0, 'acc': 0, 'post': [], 'rows': -1}
        with backend(mode):
            alg = ApproxBayesCom(parallel=mode != 'serial', n_test=n_test, p_test=p[0] / p[1], n_core=4 if mode == 'threads' else 2, verbose=0)
            ok, r = vp.attempt(alg.fit, m, seconds=60)
            cut = len(m.read_log())
            if ok:
                ok, po = vp.attempt(alg.sample_posteriors, n_collect, seconds=60)
                r = po
        log = m.read_log()
        rec['ok'], rec['error'] = ok, '' if ok else r
        support = NETS[net][2]
        used, evs = set(), []
        for e in log:
            vals = {v for k, v in e['pars'].items() if k not in NETS[net][1]}
            evs.append({'id': e['id'], 'd': dist(e['d']), 'fresh': bool(support(e['pars'])) and not (vals & used), 'who': e['who']})
            used |= vals
        for part, evs_ in (('tests', evs[:cut]), ('tries', evs[cut:])):
            ws = []
            for e in evs_:
                if e['who'] not in ws:
                    ws.append(e['who'])
            rec[part] = [[{k: e[k] for k in ('id', 'd', 'fresh')} for e in evs_ if e['who'] == w] for w in ws]
        if not ok:
            return [rec]
        byid = {e['id']: e for e in log}
        ok, r = vp.attempt(lambda: {'eps': milli(alg.State.Eps / m.unit), 'note': milli(po['Eps'] / m.unit), 'acc': round(po['Acceptance'] * 10000),
                                    'post': [{'id': pt.Sims['id'], 'own': own(pt, byid, m.unit)} for pt in po.Particles],
                                    'rows': len(po.to_df()) if len(po.to_df()) == len(po.to_pred_df()) == len(po) else -1})
        rec['ok'], rec['error'] = ok, '' if ok else r
        if ok:
            rec.update(r)
        return [rec]
    finally:
        if tmp:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)


def undist(d):
    return {'fin': lambda: d[1], 'inf': lambda: INF, 'nan': lambda: math.nan}[d[0]]()


def run19(c):
    big = vp.THOROUGH
    rng = random.Random(vp.SEED)
    args = []
    inv = ['AllWithin', 'Complete', 'EpsInRange', 'Emit']
    for nt, p, mx, md in ([(2, (1, 2), 6, 3), (3, (1, 4), 6, 3), (3, (3, 4), 6, 2)] if big else [(2, (1, 2), 5, 2), (3, (1, 4), 5, 1)]):
        r = abc_model(nt, p, mx, md, inv)
        c.count_model(r)
        hs = r.prints_json('H')
        if not hs:
            raise vp.MachineryError('no run printed')
        c.note(**{'runs_generated_%d_%d_%d' % (nt, p[0], p[1]): len(hs)})
        for i, h in enumerate(hs if big else rng.sample(hs, min(len(hs), 200))):
            args.append(('serial', 'unit', nt, p, 2, [undist(d) for d in h['d']], [0], 'h%d-%d' % (nt, i)))
    for i in range(1500 if big else 120):
        tail = rng.choice([[0, 1, 2, 3], list(range(50)), [0, 1, 1, 2, INF], [1, 2, 3, INF, math.nan, math.nan], [4, 4, 4, 5], list(range(10)) + [math.nan]])
        args.append((rng.choice(['serial', 'threads']), rng.choice(sorted(NETS)), rng.randint(2, 30), rng.choice([(1, 20), (1, 4), (1, 2), (1, 10), (3, 4), (9, 10)]),
                     rng.randint(1, 12) if i % 24 else rng.choice([120, 150, 230]), [], tail, 'r%d.%d' % (vp.SEED, i)))
    cases = vp.pmap(abc_case, args)
    for i in range(6 if big else 1):
        cases.append(abc_case(('processes', 'unit', 12, (1, 4), 6, [], [0, 1, 2, 3, 5, INF, math.nan], 'p%d.%d' % (vp.SEED, i))))
    c.check('AbcTrace', cases, {'C19'}, min_chunk=100)


def abc_model(nt, p, mx, md, inv):
    return vp.model_check('AbcMC', {'NTest': str(nt), 'NCollect': '2', 'MaxSims': str(mx), 'MaxD': str(md), 'Emitting': 'TRUE', 'PN': str(p[0]), 'PK': str(p[1])},
                          inv, workers=1, timeout=2000, mem='6g')


# ------------------------------------------------------------------ C20
def smc_state(alg, log):
    s = alg.State
    byid = {e['id']: e for e in log}
    return {'eps': milli(s.Eps / alg.Model.unit), 'round': int(s.Round), 'stay': int(s.Stay), 'acc': round(float(s.Acceptance) * 10000), 'top': len(log) - 1,
            'w': [round(float(w) * 1000000) for w in s.Wts], 'pts': [particle(p, byid, alg.Model) for p in s.Particles]}


def particle(p, byid, model):
    i = p.Sims['id']
    d = byid[i]['d'] if i in byid else INF
    return {'id': i, 'd': d if isinstance(d, int) else BIG, 'own': own(p, byid, model.unit), 'fin': bool(NETS[model.net][2](dict(p.Pars)))}


def smc_case(a):
    from sims_pars.fit.abc_smc.alg import ApproxBayesComSMC
    mode, net, n, alpha, thr, max_round, max_stay, min_acc, n_collect, script, tail, parents, seed = a
    rng = random.Random('np' + seed)
    s0 = rng.randrange(2 ** 31)
    ps0 = [{'x': round(rng.random(), 6)} for _ in range(rng.choice([5, 60]))] if parents else None
    rec = {'serial': mode == 'serial', 'mode': mode, 'net': net, 'n': n, 'alpha': list(alpha), 'thr': list(thr), 'max_round': max_round, 'max_stay': max_stay,
           'min_acc': list(min_acc), 'n_collect': n_collect, 'exact': net == 'free' and all(isinstance(d, int) for d in list(script[n:]) + list(tail)), 'ok': False, 'error': '', 'states': [], 'monitor': [],
           'post': [], 'postok': False, 'posteps': 0, 'parents': True, 'muts': [], 'trace': []}
    logs = []

    def go(rounds):
        np.random.seed(s0)
        m = Model(net, script, tail, seed)
        alg = ApproxBayesComSMC(parallel=mode != 'serial', n_iter=n, alpha=alpha[0] / alpha[1], p_thres=thr[0] / thr[1], max_round=max(rounds, 1),
                                max_stay=max_stay, min_acc=min_acc[0] / min_acc[1], n_core=3, verbose=0)
        if ps0:
            alg.set_parents(ps0)
        with backend(mode):
            if rounds == 0:
                alg.attach(m)
                ok, r = vp.attempt(alg.initialise, seconds=60)
            else:
                ok, r = vp.attempt(alg.fit, m, seconds=60)
        return alg, m, ok, r
    alg, m, ok, r = go(0)
    if not ok:
        rec['error'] = r
        return [rec]
    first = smc_state(alg, m.read_log())
    if ps0:
        used = [p.Pars['x'] for p in alg.State.Particles]
        rec['parents'] = set(used) <= {q['x'] for q in ps0} and len(set(used)) > 1
        if len(ps0) == 60:        # not only the first or the last of them
            at = [[q['x'] for q in ps0].index(x) for x in used if x in [q['x'] for q in ps0]]
            rec['parents'] = rec['parents'] and any(j >= n for j in at) and any(j < 60 - n for j in at)
    if mode == 'serial':
        rec['states'] = [first]
        logs = [m.read_log()]
        for k in range(1, max_round + 1):
            alg, m, ok, r = go(k)
            logs.append(m.read_log())
            if not ok:
                break
            st = smc_state(alg, m.read_log())
            if st['round'] < k:
                break
            rec['states'].append(st)
        # the run itself, with the configured limit
        alg, m, ok, r = go(max_round)
        log = m.read_log()
        prefix = all([same(x['pars'], y['pars']) for x, y in zip(lg, log)] == [True] * min(len(lg), len(log)) for lg in logs)
        if not prefix:
            rec['serial'] = False
        if ok:
            st = smc_state(alg, log)
            if not prefix:
                rec['states'] = [st]
            elif st != rec['states'][-1]:
                rec['states'].append(st)
        elif not prefix:
            rec['states'] = [first]
    else:
        alg, m, ok, r = go(max_round)
        log = m.read_log()
        rec['states'] = [smc_state(alg, log)] if ok else [first]
    rec['ok'], rec['error'] = ok, '' if ok else r
    if not ok:
        return [rec]
    rec['monitor'] = [{'round': int(x['Round']), 'eps': milli(x['Eps'] / m.unit), 'ess': round(float(x['ESS']) * 1000), 'acc': round(float(x['Acc']) * 10000)} for x in alg.Monitor.Records]
    cut = len(m.read_log())
    with backend(mode):
        pok, po = vp.attempt(alg.sample_posteriors, n_collect, seconds=60)
    rec['postok'] = pok
    if not pok:
        rec['error'] = po
        return [rec]
    after = m.read_log()[cut:]
    if mode == 'serial' and len(after) == n_collect == len(po) and all(isinstance(e['d'], int) for e in after):
        rec['muts'] = [{'id': e['id'], 'd': e['d']} for e in after]
    byid = {e['id']: e for e in m.read_log()}
    rec['post'] = [particle(p, byid, m) for p in po.Particles]
    rec['posteps'] = milli(po['Eps'] / m.unit)
    ok, tr = vp.attempt(lambda: [{'round': int(i), 'eps': milli(e / m.unit)} for i, e in zip(po['Trace']['Round'], po['Trace']['Eps'])])
    rec['trace'] = tr if ok else []
    return [rec]


def resample_case(seed):
    """Resampling with uneven weights"""
    from sims_pars.fit.abc_smc.alg import ApproxBayesComSMC
    rng = random.Random(seed)
    n = rng.choice([3, 4, 5, 8, 16, 30])
    out = []
    m = Model('unit', [], [1, 2], seed)
    alg = ApproxBayesComSMC(parallel=False, n_iter=n, verbose=0)
    alg.attach(m)
    np.random.seed(rng.randrange(2 ** 31))
    for _ in range(12):
        wts = rng.choice([lambda: [rng.choice([0, 0, 1, 5, 40]) for _ in range(n)], lambda: [rng.randint(1, 3) for _ in range(n)],
                          lambda: [rng.randint(0, 1) for _ in range(n)], lambda: [60] + [1] * (n - 1),
                          lambda: rng.sample([1] * 4 + [0] * (n - 4), n) if n > 4 else [1] * n])()
        if not sum(wts):
            wts[0] = 1
        W, Q = sum(wts), sum(w * w for w in wts)
        t = rng.choice([rng.randint(1, 4 * n), 4 * W * W // Q + rng.choice([-1, 0, 1, 2])])
        if t < 1 or t * Q == 4 * W * W and W & (W - 1):      # equal: only where nothing is rounded
            continue
        pts = []
        for i in range(n):
            pt = Particle(m.sample_prior(), {'a': 1., 'b': 0., 'id': i + 1})
            pts.append(pt)
        arr = np.array(wts, float) / W
        ok, r = vp.attempt(alg.resample, pts, arr, t / 4)
        rec = {'wts': wts, 't': t, 'n': n, 'ok': ok, 'error': '' if ok else r, 'w': [], 'src': []}
        if ok:
            ok, r = vp.attempt(lambda: ([round(float(x) * 1000000) for x in r[0]], [int(p.Sims['id']) for p in r[1]]))
            if ok:
                rec['w'], rec['src'] = r
            else:
                rec['ok'], rec['error'] = False, r
        out.append(rec)
    return out


def run20(c):
    big = vp.THOROUGH
    rng = random.Random(vp.SEED)
    inv = ['Falls', 'LiveWithin', 'Alive', 'FirstIsFinite']
    for n, md, mr, al, th in ([(4, 2, 3, (3, 4), (3, 5)), (5, 2, 2, (7, 8), (3, 5)), (4, 3, 2, (1, 2), (4, 5))] if big else [(4, 2, 2, (3, 4), (3, 5))]):
        c.count_model(vp.model_check('SmcMC', {'N': str(n), 'MaxD': str(md), 'MaxRound': str(mr), 'A1': str(al[0]), 'A2': str(al[1]), 'T1': str(th[0]), 'T2': str(th[1])},
                                     inv, workers=8, timeout=2400, mem='10g'))
    args = []
    for i in range(1500 if big else 96):
        n = rng.choice([8, 8, 16])
        w = rng.random()
        bad = rng.random() < .3
        if w < .5:        # distances shrink over the simulations
            script = [max(0, int(rng.uniform(0, 60) * .97 ** j)) for j in range(400)]
        elif w < .8:
            script = [rng.randint(0, 6) for _ in range(300)]
        else:
            script = [rng.randint(0, 100) for _ in range(300)]
        if bad:
            script = [rng.choice([INF, math.nan, d, d, d, d]) for d in script]
        if rng.random() < .1:      # mutations that are hardly ever finite
            script = [rng.randint(0, 9) for _ in range(n)] + [rng.choice([INF] * 12 + [1]) for _ in range(300)]
        tail = rng.choice([[0, 1, 2], [0, 1, 5, 40], [50, 60], [3]])
        mode = 'threads' if i % 4 == 3 else 'serial'
        alpha = rng.choice([(1, 2), (3, 4), (7, 8)])
        if mode == 'threads':     # never too few survivors
            n, alpha = 16, rng.choice([(3, 4), (7, 8)])
        args.append((mode, rng.choice(sorted(NETS)), n, alpha, rng.choice([(9, 20), (3, 5), (7, 10)]),
                     14 if i % 12 == 0 else rng.randint(1, 7), 20 if i % 12 == 0 else rng.randint(1, 3), rng.choice([(0, 1), (1, 10), (3, 10), (1, 2), (1, 4)]), rng.randint(1, 12), script, tail, rng.random() < .25, 's%d.%d' % (vp.SEED, i)))
    cases = vp.pmap(smc_case, args)
    extra = vp.pmap(resample_case, ['w%d.%d' % (vp.SEED, i) for i in range(400 if big else 40)])
    c.note(runs=len(cases), serial=sum(1 for x in cases if x[0]['serial']), stopped_early=sum(1 for x in cases if not x[0]['ok']),
           rounds=sum(len(x[0]['states']) for x in cases))
    c.check('SmcTrace', cases + extra, {'C20'}, min_chunk=8)


def run(c, prop):
    {'C19': run19, 'C20': run20}[prop](c)
