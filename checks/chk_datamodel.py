"""C18, C23: data models, particles and parameter sets. Specification: DataModel, DataModelMC, DataModelTrace."""
import json, math, random
import vp, tracker
from chk_sampling import POOLS, lp_of

SIMS = ['y', 'z', 'w', 'Ys', 'distance']


def num(v):
    if v is None:
        return -888888
    f = float(v)
    return int(f) if f == int(f) else -999999999


def pairs(d):
    return [[str(k), num(v)] for k, v in sorted(dict(d).items())]


def make_model(rng, net, exo, data, weights):
    from sims_pars.fit.base import DataModel, Particle
    from sims_pars.fit.targets import AbsData
    calls = []

    class T(AbsData):
        def __init__(self, k, w):
            AbsData.__init__(self, k, 0)
            self.w = w

        def get_var_obs(self):
            return 1

        def calc_distance(self, sim):
            calls.append({'k': self.Name, 'y': num(sim[self.Name])})
            return self.w * sim[self.Name]

        def calc_likelihood(self, sim):
            calls.append({'k': self.Name, 'y': num(sim[self.Name])})
            return -2 * self.w * sim[self.Name]

    class M(DataModel):
        def simulate(self, pars):
            return Particle(pars, dict(self.next_sims))

    bn = tracker.build(rng, net)
    how = rng.randrange(3)
    src = bn if how == 0 else bn.to_script() if how == 1 else bn.to_json()
    targets = {k: T(k, weights[k]) for k in data}
    given = dict(exo)
    m = M(targets, src, exo=given if given or rng.random() < .5 else None)
    given.clear()            # the model keeps its own exogenous values
    m.calls = calls
    return m


class Session:
    def __init__(self, rng, net=None, exo=None):
        self.rng = rng
        tracker.prepare()
        names = rng.choice(POOLS)[:rng.choice([2, 3, 4, 5])]
        self.net = net or tracker.random_net(rng, names)
        floats = sorted(x for x in self.net if rng.random() < .7)
        tracker.STATE.update(serial=1000000, sum=True, floats=set(floats), strict=False)
        tracker.reset(self.net)
        self.exo = {x: rng.choice([0, -rng.randint(1, 90), -rng.randint(1, 90)]) for x in self.net if self.net[x][0] == 'ExoValue' or rng.random() < .1}
        self.exo = {x: float(v) if x in floats else v for x, v in self.exo.items()}
        if rng.random() < .2:
            self.exo['out1'] = 4
        self.data = rng.sample(['y', 'z', 'w', 'v9'], rng.randint(0, 3))
        self.w = {k: rng.randint(1, 9) for k in self.data}
        self.pts, self.out = {}, []
        self.set = None
        self.nset = 0
        rec = {'op': 'model', 'net': tracker.net_record(self.net), 'exo': pairs(self.exo), 'data': self.data, 'w': pairs(self.w),
               'floats': floats, 'dom': [], 'free': [], 'error': ''}
        ok, m = vp.attempt(make_model, rng, self.net, self.exo, self.data, self.w)
        if ok:
            self.m = m
            ok, r = vp.attempt(lambda: ([{'n': d.Name, 'lo': num(d.Lower), 'up': num(d.Upper), 'loc': num(d.Location), 'sc': num(d.Scale)}
                                         for d in m.Domain], [str(x) for x in m.FreeParameters]))
            if ok:
                rec['dom'], rec['free'] = r
            else:
                rec['error'] = r
        else:
            rec['error'] = m
        rec['ok'] = ok
        self.out.append(rec)
        self.alive = ok
        from sims_pars.fit.results import ParameterSet
        self.set = ParameterSet('vp')

    def pars(self, request=None, as_json=False):
        tracker.take()
        m, asked = self.m, ['none', 0]
        if request is None:
            ok, r = vp.attempt(m.sample_prior)
            same = True
        elif as_json:
            js = {'Locus': dict(request), 'LogProb': self.rng.choice([-3.0, -7, float('-inf')])}
            asked = lp_of(js['LogProb'])
            ok, r = vp.attempt(m.serve_from_json, js)
            same = js['Locus'] == request
        else:
            req = dict(request)
            ok, r = vp.attempt(m.serve, req)
            same = req == request
        if ok:
            # evaluating again changes nothing
            ok2, lp2 = vp.attempt(m.evaluate_prior, r)
            if not ok2 or lp_of(lp2) != lp_of(r.LogProb):
                ok, r = False, 'evaluate_prior: %s' % lp2
        self.out.append({'op': 'prior' if request is None else 'serve', 'req': pairs(request or {}), 'ok': ok, 'error': '' if ok else r,
                         'got': pairs(r) if ok else [], 'lp': lp_of(r.LogProb) if ok else ['none', 0], 'log': tracker.take(),
                         'json': as_json, 'asked': asked, 'same': same})
        return r if ok else None

    def seen(self):
        out = []
        for i, pt in sorted(self.pts.items()):
            n = pt.Notes
            out.append({'id': i, 'pars': pairs(pt.Pars), 'lp': lp_of(pt.Pars.LogProb), 'sims': pairs(pt.Sims),
                        'xs': [[num(x) for x in n['Xs']]] if 'Xs' in n else [], 'ys': [pairs(n['Ys'])] if 'Ys' in n else [],
                        'dist': [num(n['distance'])] if 'distance' in n else [], 'lik': [num(n['log_lik'])] if 'log_lik' in n else [],
                        'notes': pairs({k: v for k, v in n.items() if k not in ('Xs', 'Ys', 'distance', 'log_lik')})})
        return out

    def seen_set(self):
        s = self.set
        T = {'ok': False, 'ids': [], 'len': 0, 'df': [], 'js': [], 'predok': False, 'pred': [], 'notes': [], 'jnotes': [], 'error': ''}

        def rows(df):
            return [pairs({k: v for k, v in row.items() if v == v}) for _, row in df.iterrows()]

        def go():
            T['ids'] = [next((i for i, p in self.pts.items() if p is q), -1) for q in s.Particles]
            T['len'] = len(s)
            T['df'] = rows(s.to_df()) if len(s) else []
            js = s.to_json()
            assert js['Algorithm'] == 'vp'
            T['js'] = [pairs(q) for q in js['Posterior']]
            T['jnotes'] = pairs(js['Notes'])
            T['notes'] = pairs({k: s[k] for k in s.Notes})
            if all('Ys' in q.Notes for q in s.Particles):
                df = s.to_pred_df()
                T['pred'] = rows(df) if len(df.columns) else [[] for _ in range(len(df))]
                T['predok'] = len(df) == len(s)
        ok, r = vp.attempt(go)
        T['ok'], T['error'] = ok, '' if ok else r
        if ok and not len(s):
            T['predok'] = True
        return T

    def emit(self, **rec):
        rec.setdefault('id', 0)
        rec.setdefault('src', 0)
        rec['ps'], rec['set'] = self.seen(), self.seen_set()
        rec['dom'] = self.doms
        self.out.append(rec)

    def new(self, i, pars):
        still = self.rng.random() < .12        # no distance at all
        wide = ['s%d' % k for k in range(30)] if self.rng.random() < .1 else []
        sims = {k: 0 if still else self.rng.randint(-50, 90) for k in set(self.data) | set(self.rng.sample(['y', 'z', 'u', 'Xs', 'distance'], 2)) | set(wide)}
        self.m.next_sims = sims
        pt = self.m.simulate(pars)
        lp = lp_of(pars.LogProb)
        p0 = pairs(pars)
        self.pts[i] = pt
        self.doms = [d.Name for d in self.m.Domain]
        self.emit(op='new', id=i, pars=p0, lp=lp, sims=pairs(sims), ok=True)

    def do(self, op, i, j=0, k='', v=0):
        m, pts, rng = self.m, self.pts, self.rng
        from sims_pars.fit.base import Particle
        self.doms = [d.Name for d in m.Domain]
        del m.calls[:]
        rec = {'op': op, 'id': i, 'src': j, 'k': k, 'v': num(v), 'val': 0, 'calls': []}
        if op == 'flatten':
            ok, r = vp.attempt(m.flatten, pts[i])
        elif op in ('dist', 'lik'):
            ok, r = vp.attempt(m.calc_distance if op == 'dist' else m.calc_likelihood, pts[i])
            if ok:
                rec['val'] = num(r)
            rec['calls'] = list(m.calls)
        elif op == 'copy':
            ok, r = vp.attempt(pts[j].copy)
            if ok:
                ok = not any(r is p or r.Pars is p.Pars for p in pts.values())
                pts[i] = r
        elif op == 'json':
            text = rng.random() < .5

            def go():
                js = pts[j].to_json()
                pt = Particle.from_json(json.loads(json.dumps(js)) if text else js)
                if not text and rng.random() < .5:
                    # another one from the same document goes its own way
                    pt2 = Particle.from_json(js)
                    pt2['other'] = 1
                    for x, _ in list(pt2.Pars):
                        pt2.Pars[x] = 12345
                return pt
            ok, r = vp.attempt(go)
            if ok:
                pts[i] = r
        elif op == 'set':
            ok, r = vp.attempt(pts[i].Pars.__setitem__, k, v)
        elif op == 'note':
            ok, r = vp.attempt(pts[i].__setitem__, k, v)
            if ok and pts[i][k] != v:
                ok, r = False, 'note lost'
        elif op == 'add':
            ok, r = vp.attempt(self.set.append, pts[i])
        elif op == 'keep':
            ok, r = vp.attempt(self.set.keep, k, v)
        rec['ok'], rec['error'] = ok, '' if ok else str(r)
        self.emit(**rec)
        # particles replaced while in the set leave it as an object of their own: only add ids that stay


def draw_pars(ses):
    rng = ses.rng
    u = rng.random()
    if u < .4:
        return ses.pars()
    names = list(ses.net) + ['out2']
    req = {x: -rng.randint(1, 400) for x in rng.sample(names, rng.randint(0, len(names)))}
    if rng.random() < .3:
        req = dict(ses.exo, **req)
    return ses.pars(req, as_json=u > .85)


def random_case(seed):
    rng = random.Random(seed)
    cases = []
    for _ in range(10):
        ses = Session(rng)
        if ses.alive:
            for _ in range(rng.randint(1, 4)):
                draw_pars(ses)
            held = set()
            nid = 0
            for _ in range(rng.randint(4, 18)):
                if not ses.pts or rng.random() < .2:
                    p = draw_pars(ses)
                    if p is None:
                        break
                    nid += 1
                    ses.new(nid, p)
                    continue
                op = rng.choice(['flatten', 'dist', 'dist', 'lik', 'copy', 'json', 'set', 'note', 'add', 'add', 'keep'])
                i = rng.choice(list(ses.pts))
                if op in ('copy', 'json'):
                    nid += 1
                    ses.do(op, nid, i)
                elif op == 'set':
                    ses.do(op, i, k=rng.choice([k for k, _ in ses.pts[i].Pars]), v=-rng.randint(1, 90))
                elif op == 'note':
                    ses.do(op, i, k=rng.choice(['n', 'Acc', 'memo']), v=rng.choice([None, 0, 0] + [rng.randint(0, 99)] * 6))
                elif op == 'keep':
                    ses.do(op, i, k=rng.choice(['Eps', 'Acc', 'memo']), v=rng.choice([None, 0, 0] + [rng.randint(0, 99)] * 6))
                else:
                    ses.do(op, i)
        cases.append(ses.out)
    tracker.STATE.update(sum=False, floats=set())
    return cases


def replay(args):
    hs, seed = args
    rng = random.Random(seed)
    net = {'a': ('Distribution', [], 0), 'b': ('Distribution', [], 0)}
    cases = []
    for h in hs:
        ses = Session(rng, net)
        if ses.alive:
            for i in (1, 2):
                p = ses.pars()
                if p is None:
                    break
                ses.new(i, p)
            if len(ses.pts) == 2:
                fixed = set()
                for n, mv in enumerate(h):
                    if mv['op'] in ('copy', 'json') and mv['id'] in fixed:
                        continue          # the set holds the object itself
                    if mv['op'] == 'add':
                        fixed.add(mv['id'])
                    ses.do(mv['op'], mv['id'], mv['src'], k='a' if mv['op'] == 'set' else 'n', v=n + 10)
        cases.append(ses.out)
    tracker.STATE.update(sum=False, floats=set())
    return cases


def run(c, prop):
    big = vp.THOROUGH
    rng = random.Random(vp.SEED)
    inv = ['Remembered', 'SimsNever', 'OnlyOne', 'LpRight']
    c.count_model(vp.model_check('DataModelMC', {'Steps': '5' if big else '3', 'Emitting': 'FALSE'}, inv, workers=8 if big else 4,
                                 timeout=3000, mem='8g' if big else '2g'))
    r = vp.model_check('DataModelMC', {'Steps': '4' if big else '3', 'Emitting': 'TRUE'}, inv + ['Emit'], timeout=3000, mem='4g', workers=1)
    hs = r.prints_json('H')
    if not hs:
        raise vp.MachineryError('no history printed')
    c.note(histories_generated=len(hs))
    hs = rng.sample(hs, min(len(hs), 30000 if big else 800))
    parts = [(hs[i::32], '%s.r%d' % (vp.SEED, i)) for i in range(32)]
    cases = [x for p in vp.pmap(replay, parts) for x in p]
    cases += [x for p in vp.pmap(random_case, ['%s.%d' % (vp.SEED, i) for i in range(600 if big else 80)]) for x in p]
    c.check('DataModelTrace', cases, {prop})
