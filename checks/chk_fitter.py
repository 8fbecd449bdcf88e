"""C31: the life of fitters. Specification: Fitter, FitterMC, FitterTrace."""
import hashlib, random
import numpy as np
import vp
import chk_hme
from chk_hme import SCRIPT
from sims_pars.fit.base import DataModel, Fitter, Particle
from sims_pars.fit.results import ParameterSet
from sims_pars.fit.targets import read_targets

SCRIPTS = {'m1': ('PCore A {\n x ~ qunif(0, 1)\n}', ['a']), 'm2': ('PCore B {\n x ~ qunif(0, 1)\n y ~ qnorm(x, 1)\n z ~ qunif(0, 2)\n}', ['a', 'b'])}
# two settings of each kind for the histories of the specification, and what each of their values stands for
PQ = {'abc': (('n_test', {0: 5, 1: 8}), ('p_test', {0: .2, 1: .5})), 'smc': (('n_iter', {0: 9, 1: 12}), ('max_round', {0: 1, 1: 2})),
      'hme': (('n_sims', {0: 0, 1: 3}), ('max_wave', {0: 1, 1: 2})), 'own': (('p', {0: 1, 1: 2}), ('q', {0: 3, 1: 4}))}
BASE = {'abc': {'parallel': False}, 'smc': {'parallel': False, 'alpha': .8, 'min_acc': 0, 'max_stay': 9}, 'hme': {'n_ems': 12, 'var_model': .25, 'cutoff': 3}, 'own': {}}
UNKNOWN = {'z': 3, 'N_test': 4, 'settings': 1, 'model': 2}


class Planned(RuntimeError):
    pass


class Own(Fitter):
    """A fitter of a user"""
    def __init__(self, **kw):
        self.plan = None
        Fitter.__init__(self, 'Own', **kw)

    @property
    def DefaultSettings(self):
        return {'p': 1, 'q': 3, 'r': 0}

    def initialise(self):
        if self.plan == 'start':
            raise Planned()
        self.State = [self.Settings['p'], self.Settings['q'], len(self.Collector)]

    def update(self):
        self.State.append(float(self.Model.simulate(self.Model.sample_prior()).Sims['a']))
        self.Monitor.keep(Round=0)
        self.Monitor.step()
        if self.plan == 'later':
            raise Planned()

    def terminate(self):
        self.State.append('end')
        self.Collector.append(1)

    def sample_posteriors(self, n_collect=300):
        assert self.State is not None
        r = ParameterSet('own')
        for _ in range(n_collect):
            r.append(self.Model.simulate(self.Model.sample_prior()))
        return r


class M(DataModel):
    def __init__(self, name, hme):
        src, ks = SCRIPTS[name]
        self.name, self.hme, self.n, self.fail = name, hme, 0, None
        data = {k: chk_hme.Target(k, 0, .25) for k in ks} if hme else read_targets({k: .5 for k in ks})
        DataModel.__init__(self, data, src)

    def simulate(self, pars):
        self.n += 1
        if self.fail is not None and self.n >= self.fail:
            raise Planned()
        if self.hme:
            return Particle(pars, {k: 1000. * (j + 1) + self.n for j, k in enumerate(self.Data)})
        return Particle(pars, {k: float(pars['x']) * (j + 1) for j, k in enumerate(self.Data)})


def make(kind, kw):
    if kind == 'abc':
        from sims_pars.fit.abcom import ApproxBayesCom as A
    elif kind == 'smc':
        from sims_pars.fit.abc_smc import ApproxBayesComSMC as A
    elif kind == 'hme':
        from sims_pars.fit.hme import BayesHistoryMatching as A
    else:
        A = Own
    return A(**kw)


def code(v):
    if v is None or isinstance(v, (str, list)):      # values which are no numbers
        return -7700000 - len(repr(v))
    return round(float(v) * 1000)


def coded(d):
    return [[str(k), code(v)] for k, v in d.items()]


def digest(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:12]


def rows(pts):
    return [(sorted((k, float(v)) for k, v in dict(p.Pars).items()), sorted((k, float(v)) for k, v in dict(p.Sims).items())) for p in pts]


def state_of(kind, alg):
    s = alg.State
    if s is None:
        return 'none'
    if kind == 'abc':
        return digest((float(s.Eps), float(s.Acc)))
    if kind == 'smc':
        return digest((float(s.Eps), int(s.Round), [float(w) for w in s.Wts], rows(s.Particles)))
    if kind == 'hme':
        return digest((int(s.Wave), float(s.MSE), [[float(x) for x in b] for b in s.Bounds], len(s.Particles)))
    return digest(s)


class Life:
    def __init__(self, kinds=()):
        self.algs, self.kinds, self.fitted, self.out = {}, {}, {}, [{'op': 'start'}]
        self.models, self.todo = {}, []

    def model(self, kind, name):
        key = (kind == 'hme', name)
        if key not in self.models:
            self.models[key] = M(name, kind == 'hme')
        return self.models[key]

    def emit(self, **rec):
        look = []
        for f, a in self.algs.items():
            k = self.kinds[f]
            ok, r = vp.attempt(lambda: {'f': f, 'set': coded(a.Settings), 'state': state_of(k, a)})
            if not ok:
                r = {'f': f, 'set': [], 'state': 'unreadable: ' + r}
            r['model'] = 'idle' if type(a.Model).__name__ == 'IdleModel' else a.Model.name if a.Model is self.models.get((k == 'hme', getattr(a.Model, 'name', ''))) else '?'
            look.append(r)
        for k, v in dict(kw=[], m='', seed=0, n=0, ok=True, stage='', digest='', events=[], rounds=[], times=[], fresh=True, got=0, error='').items():
            rec.setdefault(k, v)
        rec['look'] = look
        self.out.append(rec)

    def new(self, f, kind, kw):
        kw = dict(BASE[kind], **kw)
        ok, a = vp.attempt(make, kind, kw)
        defaults = coded(a.DefaultSettings) if ok else []
        if ok:
            self.algs[f], self.kinds[f] = a, kind
            self.fitted[f] = None
        self.emit(op='new', f=f, kind=kind, kw=coded(kw), defaults=defaults, ok=ok, error='' if ok else a)
        if ok:
            a.Monitor.Logger.disabled = True

    def update(self, f, kw):
        given = dict(kw)
        ok, r = vp.attempt(lambda: self.algs[f].update_settings(**given))
        given.clear()
        self.emit(op='update', f=f, kw=coded(kw), ok=ok, error='' if ok else r)

    def attach(self, f, m):
        ok, r = vp.attempt(self.algs[f].attach, self.model(self.kinds[f], m))
        self.fitted[f] = self.fitted[f] if self.fitted[f] in (None, m) else '?'
        self.emit(op='attach', f=f, m=m, ok=ok, error='' if ok else r)

    def close(self, f):
        ok, r = vp.attempt(self.algs[f].close)
        self.fitted[f] = None if self.fitted[f] is None else '?'
        self.emit(op='close', f=f, ok=ok, error='' if ok else r)

    def fit(self, f, kw, m, seed, stage='done', again=True):
        a, kind = self.algs[f], self.kinds[f]
        mod = self.model(kind, m)
        if kind == 'abc' and stage == 'later':
            stage = 'start'
        if kind == 'hme' and stage == 'start':
            stage = 'later'
        settings = dict(a.Settings, **{k: v for k, v in kw.items() if k in a.Settings})
        mod.n, mod.fail = 0, None
        if kind == 'own':
            a.plan = stage
        elif stage == 'start':
            mod.fail = random.Random(seed).choice([1, 2])
        elif stage == 'later':
            mod.fail = 2 if kind == 'hme' else settings['n_iter'] + 1
        events = []

        def wrap(name):
            fn = getattr(type(a), name)

            def go(*args, **kws):
                events.append(name)
                return fn(a, *args, **kws)
            setattr(a, name, go)
        for name in ('initialise', 'update', 'terminate'):
            wrap(name)
        old = a.Collector
        self.script(seed)
        np.random.seed(seed)
        ok, r = vp.attempt(a.fit, mod, **kw)
        for name in ('initialise', 'update', 'terminate'):
            delattr(a, name)
        calls = mod.n
        mod.fail = None
        rec = dict(op='fit', f=f, kw=coded(kw), m=m, seed=seed, ok=ok, stage=stage, events=events, fresh=a.Collector is not old, error='' if ok else r)
        if ok:
            def see():
                recs = [{k: float(v) for k, v in x.items()} for x in a.Monitor.Records]
                st = (calls, int(a.State.Wave), len(a.State.Bounds[0])) if kind == 'hme' else (state_of(kind, a), recs)
                return digest(st), [int(x['Round']) for x in recs if 'Round' in x], [int(x['Time']) for x in recs]
            ok2, r = vp.attempt(see)
            if ok2:
                rec['digest'], rec['rounds'], rec['times'] = r
            else:
                rec['digest'] = 'unreadable: ' + r
        self.fitted[f] = m if stage == 'done' else None if stage == 'start' else '?'
        self.emit(**rec)
        if again and stage == 'done':
            self.todo.append(('fit', kind, settings, m, seed, len(self.out) - 1))

    def script(self, seed):
        SCRIPT.clear()
        SCRIPT.update({'rng': random.Random(seed), 'vm': 1, 'vo': [1, 1], 'e': [0, 0], 'range': 10, 'slope': False})

    def sample(self, f, n, seed):
        a, kind = self.algs[f], self.kinds[f]
        if self.fitted[f] == '?':
            return
        self.script(seed)
        if self.fitted[f] is not None:
            self.model(kind, self.fitted[f]).n = 0
        np.random.seed(seed)
        ok, po = vp.attempt(a.sample_posteriors, n)
        rec = dict(op='sample', f=f, n=n, seed=seed, ok=ok, error='' if ok else po)
        if ok:
            def see():
                if kind == 'hme':
                    return len(po), digest((sorted(str(b[0]) for b in po['Bounds']), self.model(kind, self.fitted[f]).n))
                notes = {k: po[k] for k in po.Notes}
                if 'Trace' in notes:
                    notes['Trace'] = [[float(v) for v in r] for r in notes['Trace'].values]
                return len(po), digest((rows(po.Particles), sorted((k, str(v)) for k, v in notes.items())))
            ok2, r = vp.attempt(see)
            rec['got'], rec['digest'] = r if ok2 else (0, 'unreadable: ' + r)
        self.emit(**rec)

    def finish(self):
        """What new fitters make of the same requests, twice to see whether they can be repeated at all"""
        nf = 100
        for what, kind, settings, m, seed, at in self.todo[-4:]:
            kw = {k: v for k, v in settings.items() if k != 'n_pars'}
            first = len(self.out)
            for _ in range(2):
                nf += 1
                self.new(nf, kind, kw)
                if nf in self.algs:
                    self.fit(nf, {}, m, seed, again=False)
                    self.sample(nf, 3, seed + 1)
                    del self.algs[nf]
                    self.out.append({'op': 'drop', 'f': nf})
            both = [r for r in self.out[first:] if r['op'] == 'fit']
            if len(both) == 2 and both[0]['digest'] != both[1]['digest']:
                for r in self.out[1:]:
                    if r['op'] in ('fit', 'sample') and self.kind_at(r['f']) == kind:
                        r['digest'] = ''
            ss = [r for r in self.out[first:] if r['op'] == 'sample']
            if len(ss) == 2 and ss[0]['digest'] != ss[1]['digest']:
                for r in self.out[1:]:
                    if r['op'] == 'sample' and self.kind_at(r['f']) == kind:
                        r['digest'] = ''
        return self.out

    def kind_at(self, f):
        return self.kinds.get(f, '')


def kw_of(kind, names, v=1):
    (p, pv), (q, qv) = PQ[kind]
    kw = {}
    for k in names:
        if k == 'p':
            kw[p] = pv[v]
        elif k == 'q':
            kw[q] = qv[v]
        else:
            kw['zz_unknown'] = 7
    return kw


def replay(args):
    hs, seed = args
    rng = random.Random(seed)
    out = []
    for h in hs:
        kind = rng.choice(['abc', 'smc', 'hme', 'own', 'own'])
        s = Life()
        s.new(1, kind, kw_of(kind, ['p', 'q'], 0))
        s.new(2, kind, dict(kw_of(kind, ['q'], 0), **kw_of(kind, ['p'])))
        if len(s.algs) < 2:
            out.append(s.out)
            continue
        sd = rng.randrange(1000)
        for mv in h:
            f, kw = mv['f'], kw_of(kind, list(mv['kw']) if isinstance(mv['kw'], dict) else [])
            if mv['op'] == 'update':
                s.update(f, kw)
            elif mv['op'] == 'attach':
                s.attach(f, mv['m'])
            elif mv['op'] == 'close':
                s.close(f)
            elif mv['op'] == 'fit':
                s.fit(f, kw, mv['m'], sd, mv['stage'])
            else:
                s.sample(f, 3, sd + 1)
        out.append(s.finish())
    return out


def rand(seed):
    rng = random.Random(seed)
    s = Life()
    kinds = {f: rng.choice(['abc', 'smc', 'hme', 'own']) for f in (1, 2, 3)}

    def kw(kind, p=.4):
        r = {}
        for name, vals in PQ[kind]:
            if rng.random() < p:
                r[name] = rng.choice(list(vals.values()))
        if kind == 'own' and rng.random() < p:
            r['r'] = rng.choice([None, None, False, 'text', [], '', 12, -1.5])
        if rng.random() < .3:
            r.update(rng.sample(sorted(UNKNOWN.items()), 1))
        if rng.random() < .15:
            o = rng.choice(sorted(PQ))
            if o != kind:
                r.update({k: v for k, v in kw_of(o, ['p']).items() if k not in make(kind, {}).Settings})
        return r
    for f, k in kinds.items():
        s.new(f, k, kw_of(k, ['p', 'q'], rng.choice([0, 1])))
    for _ in range(rng.randint(3, 10)):
        f = rng.choice(list(kinds))
        op = rng.choices(['fit', 'sample', 'update', 'attach', 'close'], [5, 4, 2, 1, 1])[0]
        if f not in s.algs:
            continue
        if op == 'fit':
            s.fit(f, {k: v for k, v in kw(kinds[f]).items() if k != 'model'}, rng.choice(['m1', 'm2']), rng.randrange(50), rng.choices(['done', 'start', 'later'], [5, 1, 1])[0])
        elif op == 'sample':
            s.sample(f, rng.choice([1, 2, 5]), rng.randrange(50))
        elif op == 'update':
            s.update(f, kw(kinds[f], .6))
        elif op == 'attach':
            s.attach(f, rng.choice(['m1', 'm2']))
        else:
            s.close(f)
    return [s.finish()]


def run(c, prop):
    big = vp.THOROUGH
    rng = random.Random(vp.SEED)
    inv = ['OwnResult', 'Known', 'NoMix']
    c.count_model(vp.model_check('FitterMC', {'Steps': '4' if big else '3', 'Emitting': 'FALSE'}, inv, workers=8, extra=['PROPERTY OnlyOne'], timeout=3000, mem='6g'))
    r = vp.model_check('FitterMC', {'Steps': '3' if big else '2', 'Emitting': 'TRUE'}, inv + ['Emit'], workers=1, timeout=3000, mem='4g')
    hs = r.prints_json('H')
    if not hs:
        raise vp.MachineryError('no history printed')
    c.note(histories_generated=len(hs))
    if big and len(hs) > 8000:
        hs = rng.sample(hs, 8000)
    cases = [x for p in vp.pmap(replay, [(hs[i::64], '%s.r%d' % (vp.SEED, i)) for i in range(64)]) for x in p]
    cases += [x for p in vp.pmap(rand, ['%s.%d' % (vp.SEED, i) for i in range(3000 if big else 250)]) for x in p]
    c.check('FitterTrace', cases, {prop})
