"""C08-C11: sampling, minimal sampling, log-probability, chromosomes and interventions.
Specification: Sampling, SamplingMC, SamplingTrace."""
import copy, itertools, json, math, pickle, random
import vp, tracker

POOLS = [['a', 'b', 'c', 'd', 'e'], ['x1', 'x10', 'x2', 'y', 'x'], ['beta', 'gamma', 'k', 'exp1', 'm_1'], ['N', 'E', 'S', 'I', 'pi2']]
OUT = ['out1', 'zz']


def lp_of(v):
    if v is None or isinstance(v, str):
        return ['bad', 0]
    v = float(v)
    if math.isnan(v):
        return ['none', 0]
    if v == -math.inf:
        return ['inf', 0]
    if v == math.inf or v != int(v):
        return ['bad', 0]
    return ['fin', int(v)]


def pairs(d):
    return [[k, v if type(v) is int else -999999999] for k, v in d.items()]


def snap(chs):
    return [{'id': i, 'vals': pairs(dict(ch)), 'lp': lp_of(ch.LogProb)} for i, ch in sorted(chs.items())]


def given_value(rng):
    # values that can make a density impossible or not a number: multiples of 29, 31, 37
    return rng.choice([-1, -2, -3, -5, -7, -29, -31, -37, -58, 0, 29, -11, -13]) if rng.random() < .5 else -rng.randint(1, 400)


class Session:
    """One network and the records about it"""
    def __init__(self, rng, net):
        from sims_pars.bayesnet import Chromosome
        self.rng, self.net, self.C = rng, net, Chromosome
        tracker.prepare()
        tracker.STATE['serial'] = 1000000
        tracker.reset(net)
        self.bn = tracker.build(rng, net)
        self.chs, self.docs = {}, []
        self.out = [{'op': 'net', 'net': tracker.net_record(net), 'ch': [], 'log': []}]
        self.js = self.image()

    def image(self):
        j = self.bn.to_json()
        return json.dumps([sorted(map(repr, j['Nodes'])), sorted(self.bn.Exo), self.bn.Name, self.bn.is_frozen()], default=str)

    def emit(self, **rec):
        rec['ch'] = snap(self.chs)
        rec['docs'] = all(repr(js) == s for js, s in self.docs)
        rec['log'] = tracker.take()
        self.out.append(rec)

    def container(self, g):
        u = self.rng.random()
        return self.C(g) if u < .3 else dict(g)

    def call(self, fn, g, strict=False):
        cont = self.container(g)
        tracker.take()
        tracker.STATE['strict'] = strict
        frozen = self.bn.is_frozen()
        before = self.bn.to_json()
        ok, v = vp.attempt(fn, cont)
        tracker.STATE['strict'] = False
        same = pairs(dict(cont)) == pairs(g) and self.bn.to_json()['Nodes'] == before['Nodes']
        return ok, v, same

    def sample(self, given):
        from sims_pars.fn import sample, sample_chromosome
        chrom = self.rng.random() < .3

        def go(cont):
            if chrom:
                return sample_chromosome(self.bn, cont)
            if not given and self.rng.random() < .5:
                return sample(self.bn)
            return sample(self.bn, cont)
        ok, v, same = self.call(go, given, strict=False)
        rec = dict(op='sample', given=pairs(given), ok=ok, same=same, res=[], chrom=False, lp=['none', 0],
                   error='' if ok else v)
        if ok:
            rec['res'] = pairs(dict(v))
            if chrom:
                rec['chrom'], rec['lp'] = True, lp_of(v.LogProb)
        self.emit(**rec)
        return dict(v) if ok else None

    def sample_scored(self, given):
        """sample_chromosome with distributions that may not exist: only the probability is judged"""
        from sims_pars.fn import evaluate_nodes
        res = self.sample(given)
        return res

    def minimal(self, targets, given):
        from sims_pars.fn import sample_minimally
        src = self.rng.random() < .7
        inc = self.rng.choice([list, set, tuple])(targets)

        def go(cont):
            cond = cont if given or self.rng.random() < .5 else None
            if src and self.rng.random() < .5:
                return sample_minimally(self.bn, inc, cond)
            return sample_minimally(self.bn, inc, cond, sources=src)
        ok, v, same = self.call(go, given)
        rec = dict(op='minimal', targets=list(targets), given=pairs(given), ok=ok, same=same and set(inc) == set(targets),
                   sources=src, sinks=[], med=[], error='' if ok else v)
        if ok:
            rec['sinks'] = pairs(dict(v[0] if src else v))
            rec['med'] = pairs(dict(v[1])) if src else []
        self.emit(**rec)

    def evaluate(self, vals):
        from sims_pars.fn import evaluate_nodes
        ok, v, same = self.call(lambda cont: evaluate_nodes(self.bn, cont), vals, strict=True)
        self.emit(op='evaluate', given=pairs(vals), ok=ok, same=same, lp=lp_of(v) if ok else ['none', 0], error='' if ok else v)

    # chromosomes
    def closed(self, names):
        """All parents of the random variables in names are in names"""
        return all(set(self.net[x][1]) <= set(names) for x in names if x in self.net and self.net[x][0] == 'Distribution')

    def lp_consistent(self, vals):
        return self.closed(vals)

    def make(self, i, vals, scored):
        from sims_pars.fn import evaluate_nodes
        src = dict(vals)

        def go():
            if scored:
                tracker.STATE['strict'] = True
                try:
                    ch = self.C(src, evaluate_nodes(self.bn, src))
                finally:
                    tracker.STATE['strict'] = False
            else:
                ch = self.C(src)
            src['other'] = 1           # the source is not the chromosome
            for k in vals:
                src[k] = 4
            return ch
        ok, ch = vp.attempt(go)
        if ok:
            self.chs[i] = ch
        self.emit(op='make', id=i, given=pairs(vals), ok=ok, error='' if ok else ch)

    def clone(self, i, j, how):
        ch = self.chs[i]

        def go():
            if how == 'clone':
                return ch.clone()
            if how == 'deep':
                return copy.deepcopy(ch)
            if how == 'pickle':
                return pickle.loads(pickle.dumps(ch))
            js = ch.to_json()
            self.docs.append((js, repr(js)))
            if how == 'text':
                js = json.loads(json.dumps(js))
            return self.C.from_json(js)
        ok, new = vp.attempt(go)
        if ok:
            self.chs[j] = new
        self.emit(op='clone' if how in ('clone', 'deep', 'pickle') else 'json', how=how, id=i, to=j, ok=ok, error='' if ok else new)

    def score(self, i):
        from sims_pars.fn import evaluate_nodes
        ch = self.chs[i]
        tracker.STATE['strict'] = True

        def go():
            ch.LogProb = evaluate_nodes(self.bn, ch)
        ok, e = vp.attempt(go)
        tracker.STATE['strict'] = False
        self.emit(op='score', id=i, ok=ok, error='' if ok else e)

    def setitem(self, i, x, v):
        def go():
            self.chs[i][x] = v
        ok, e = vp.attempt(go)
        self.emit(op='setitem', id=i, x=x, v=v, ok=ok, error='' if ok else e)

    def impose(self, i, given):
        g = dict(given)
        ok, e = vp.attempt(self.chs[i].impulse, g)
        self.emit(op='impose', id=i, given=pairs(given), ok=ok and g == given, error='' if ok else e)

    def impulse(self, i, given, redraw):
        g = dict(given)
        g.update({x: None for x in redraw})
        items = list(g.items())
        self.rng.shuffle(items)
        g = dict(items)
        g0, before = dict(g), self.bn.to_json()['Nodes']
        tracker.take()
        ok, e = vp.attempt(self.chs[i].impulse, g, self.bn)
        self.emit(op='impulse', id=i, given=pairs(given), redraw=sorted(redraw), ok=ok,
                  same=g == g0 and self.bn.to_json()['Nodes'] == before, error='' if ok else e)

    def show(self, i):
        ch = self.chs[i]

        def go():
            d = dict(ch)
            assert repr(ch) and len(ch) == len(d) and set(ch.keys()) == set(d) and bool(ch)
            assert all(ch[k] == v and k in ch for k, v in d.items()) and 'nosuch' not in ch
            data = ch.to_data()
            assert {k: v for k, v in data.items() if k != 'LogProb'} == d
            assert ('LogProb' in data) == ch.is_evaluated() == (not math.isnan(ch.LogProb))
            data['q'] = 3
            js = ch.to_json()
            js['Locus']['q'] = 3
            fr = self.C.to_data_frame([ch])
            assert all(fr[k][0] == v for k, v in d.items())
            m = self.C.mean([ch])
            assert all(m[k] == v for k, v in d.items())
        ok, e = vp.attempt(go)
        self.emit(op='show', id=i, ok=ok, error='' if ok else repr(e))


def given_for(rng, net, must=(), p=.3, out=True):
    g = {x: given_value(rng) for x in net if x in must or rng.random() < p}
    if out and rng.random() < .3:
        for x in OUT[:rng.randint(1, 2)]:
            g[x] = given_value(rng)
    items = list(g.items())
    rng.shuffle(items)
    return dict(items)


def subsets(xs):
    return [list(c) for n in range(len(xs) + 1) for c in itertools.combinations(xs, n)]


def systematic(args):
    """One small network: every set of given variables (and every set of targets / every intervention)"""
    prop, net, seed = args
    rng = random.Random(seed)
    s = Session(rng, net)
    names = list(net)
    for S in subsets(names):
        g = {x: given_value(rng) for x in S}
        if rng.random() < .2:
            g['out1'] = -77
        if prop == 'C08':
            s.sample(g)
        elif prop == 'C09':
            for T in subsets(names)[1:]:
                s.minimal(T, g)
        elif prop == 'C10':
            if s.closed(S):
                s.evaluate(g)
                s.evaluate({**{k: v for k, v in reversed(list(g.items()))}, 'zz': 37})
            s.sample(g)
        else:
            full = {x: given_value(rng) for x in names}
            held = full if rng.random() < .6 else {x: v for x, v in full.items() if rng.random() < .7}
            for R in subsets([x for x in names if x not in S]):
                s.make(1, held, s.closed(held) and rng.random() < .7)
                if s.closed(held):
                    s.score(1)
                s.impulse(1, {x: given_value(rng) for x in S}, set(R))
    return s.out


def history(args):
    """Random network, random history"""
    prop, seed, n = args
    rng = random.Random(seed)
    names = rng.choice(POOLS)[:rng.choice([2, 3, 4, 5, 5])]
    if n > 30:
        names = names + ['u%d' % i for i in range(rng.randint(0, 4))]
    net = tracker.random_net(rng, names)
    s = Session(rng, net)
    exo = [x for x in net if net[x][0] == 'ExoValue']
    for _ in range(n):
        must = exo if rng.random() < .85 else []
        if prop == 'C08':
            s.sample(given_for(rng, net, must, rng.choice([0, .2, .5])))
        elif prop == 'C09':
            T = rng.sample(list(net), rng.randint(1, min(3, len(net))))
            s.minimal(T, given_for(rng, net, must if rng.random() < .5 else [x for x in exo if rng.random() < .5],
                                   rng.choice([0, .2, .5])))
        elif prop == 'C10':
            if rng.random() < .4:
                s.sample(given_for(rng, net, must, rng.choice([0, .2, .5])))
            else:
                g = given_for(rng, net, p=rng.choice([.5, 1, 1]))
                if s.closed(g):
                    s.evaluate(g)
        else:
            u = rng.random()
            ids = list(s.chs)
            if not ids or u < .12:
                full = given_for(rng, net, net, out=True)
                if rng.random() < .3:
                    full = {x: v for x, v in full.items() if rng.random() < .6}
                s.make(rng.randint(1, 4), full, s.closed(full) and rng.random() < .7)
                continue
            i = rng.choice(ids)
            vals = dict(s.chs[i])
            if u < .27:
                s.clone(i, rng.choice([k for k in range(1, 6) if k != i]), rng.choice(['clone', 'deep', 'pickle', 'json', 'text']))
            elif u < .4 and s.closed(vals):
                s.score(i)
            elif u < .5:
                s.setitem(i, rng.choice(list(net) + OUT), given_value(rng))
            elif u < .6:
                s.impose(i, given_for(rng, net, p=.4))
            elif u < .68:
                s.show(i)
            else:
                xs = [x for x in net if rng.random() < rng.choice([.15, .3, .6])]
                R = {x for x in xs if rng.random() < .35}
                g = {x: given_value(rng) for x in xs if x not in R}
                if rng.random() < .1:
                    g['out1'] = -4
                s.impulse(i, g, R)
    return s.out


def _job(j):
    return j[0](j[1])


def small_nets(names, full=True):
    """Every acyclic graph over the names with every choice of kinds"""
    ns = list(names)
    prs = [(a, b) for a in ns for b in ns if a != b]
    for k in range(len(prs) + 1):
        for E in itertools.combinations(prs, k):
            par = {n: [a for a, b in E if b == n] for n in ns}
            left, changed = set(ns), True
            while changed:
                changed = False
                for n in list(left):
                    if not set(par[n]) & left:
                        left.discard(n)
                        changed = True
            if left:
                continue
            opts = [(['Function', 'Distribution'] if par[n] else ['Value', 'ExoValue', 'Distribution']) for n in ns]
            for ks in itertools.product(*opts):
                yield {n: (kk, par[n], 9000 + i if kk == 'Value' else 0) for i, (n, kk) in enumerate(zip(ns, ks))}


def run(c, prop):
    big = vp.THOROUGH
    rng = random.Random(vp.SEED)
    inv = ['Progress', 'Done', 'FullIsMinimal', 'UpToDate']
    mode = '"impulse"' if prop == 'C11' else '"full"'
    c.count_model(vp.model_check('SamplingMC', {'V0': '{"a","b","c"}', 'KindsUsed': '{"Value","ExoValue","Distribution"}', 'Mode': mode}, inv))
    if big:
        c.count_model(vp.model_check('SamplingMC', {'V0': '{"a","b","c","d"}', 'KindsUsed': '{"Distribution"}', 'Mode': mode}, inv,
                                     workers=8, timeout=3000, mem='8g'))
    jobs = []
    nets = list(small_nets(rng.choice([['a', 'b', 'c'], ['x1', 'x', 'x10']])))
    if not big:
        nets = rng.sample(nets, 200 if prop == 'C08' else 100 if prop == 'C10' else 60)
    jobs += [(systematic, (prop, n, rng.random())) for n in nets]
    for _ in range(3000 if big else 300):
        jobs.append((history, (prop, rng.random(), rng.choice([10, 20, 20, 40]))))
    cases = vp.pmap(_job, jobs)
    c.check('SamplingTrace', cases, {prop})
    ops = {}
    for x in cases:
        for r in x:
            k = r['op'] + ('' if r.get('ok', True) else '-refused')
            ops[k] = ops.get(k, 0) + 1
    c.note(calls=ops, networks=len(jobs))
    if prop == 'C10':
        lps = {}
        for x in cases:
            for r in x:
                if r['op'] == 'evaluate':
                    lps[r['lp'][0]] = lps.get(r['lp'][0], 0) + 1
        c.note(results=lps)
