"""Harness distribution and function that leave a record of every evaluation.

trk("x", ps=[a, b])   distribution whose draw is a new serial number
ff("x", a, b)         function whose result is a new serial number
Both append {x, v, pas} to LOG; values are integers, so a value identifies the evaluation that made it.
"""
LOG = []
STATE = {'serial': 1000000, 'strict': False, 'nan': True, 'sum': False, 'floats': set()}
NETPAS = {}          # variable -> list of its parents, in the order used in the definition


def prepare():
    from typing import Any, List
    from sims_pars.util import add_math_func
    from sims_pars.prob import DistributionCentre, AbsDistribution
    from sims_pars.factory import AbsCreator
    if 'trk' in DistributionCentre:
        return

    class Trk(AbsCreator):
        tag: str = ''
        ps: List[Any] = []

        def create(self):
            return make(self.tag, self.ps)

    class Data:
        """A data function: the distribution of one variable, given the values of its parents"""
        def __init__(self, tag):
            self.tag = tag

        def __call__(self):
            return self

        def get_sampler(self, loc=None):
            loc = dict(loc or {})
            par = NETPAS[self.tag]
            return make(self.tag, [loc[p] for p in par] if set(loc) == set(par) else [0] * (len(par) + 1))

    def make(tag, ps):
        s = sum(ps)
        if STATE['strict'] and ps and s % 29 == 0:
            if s % 2:
                raise ValueError('no such distribution')
            return 1 // 0
        return TrkDist(tag, list(ps))
    STATE['data'] = Data

    class TrkDist:
        def __init__(self, tag, ps):
            self.tag, self.ps = tag, ps
            self.json = None
            self.Interval = (float('-inf'), float('inf'))
            self.Upper, self.Lower, self.Type = float('inf'), float('-inf'), 'Double'
            if STATE['sum']:
                s = int(sum(ps))
                self.Lower, self.Upper = -1.0 - s % 7, 10.0 + s % 5
                self.Interval = (self.Lower, self.Upper)
                self.Type = 'Double' if tag in STATE['floats'] else 'Integer'

        def sample(self, n=1, **kw):
            v = made(self.tag, self.ps)
            return float(v) if self.tag in STATE['floats'] else v

        def logpdf(self, v):
            s = sum(self.ps)
            if (v + s) % 31 == 0:
                return float('-inf')
            if v % 37 == 0:
                return float('nan' if STATE['nan'] else '-inf')
            return float((-20000001 if (v + s) % 23 == 0 else 4) - (v + 3 * s) % 10)

        def mean(self):
            return float(sum(self.ps) % 11) if STATE['sum'] else 0

        def std(self):
            return 1.0 + sum(self.ps) % 13 if STATE['sum'] else 1

    DistributionCentre.register('trk', Trk)
    add_math_func('ff', lambda tag, *ps: made(tag, list(ps)))


def made(tag, ps):
    STATE['serial'] += 1
    LOG.append({'x': tag, 'v': STATE['serial'], 'pas': [[p, int(v)] for p, v in zip(NETPAS[tag], ps)]
                if len(NETPAS[tag]) == len(ps) else [['?', 0]]})
    return STATE['serial']


def reset(net):
    """net: {name: (kind, [parents], constant)}"""
    NETPAS.clear()
    NETPAS.update({x: list(par) for x, (k, par, c) in net.items()})
    LOG.clear()
    from sims_pars.util import add_data_func, DATA_FUNC
    for x in net:
        if 'dt_' + x not in DATA_FUNC:
            add_data_func('dt_' + x, STATE['data'](x))


def take():
    r = [dict(e) for e in LOG]
    LOG.clear()
    return r


def definition(x, kind, par, c):
    if kind == 'Value':
        return '%s = %d' % (x, c)
    if kind == 'ExoValue':
        return x
    if kind == 'Function' and STATE['sum']:
        return '%s = %s' % (x, ' + '.join(par))
    if kind == 'Function':
        return '%s = ff("%s", %s)' % (x, x, ', '.join(par))
    if (sum(map(ord, x)) + len(par)) % 4 == 0:
        return '%s ~ dt_%s(%s)' % (x, x, ', '.join(par))
    return '%s ~ trk("%s", ps=[%s])' % (x, x, ', '.join(par))


def random_net(rng, names, p=None, kinds=None):
    """Random acyclic network over the given names, any topological order of the names"""
    order = list(names)
    rng.shuffle(order)
    p = p if p is not None else rng.choice([.2, .4, .6])
    net = {}
    for i, x in enumerate(order):
        par = [y for y in order[:i] if rng.random() < p]
        rng.shuffle(par)
        if par:
            kind = rng.choice(['Function', 'Distribution', 'Distribution'])
        else:
            kind = rng.choice(kinds or ['Value', 'ExoValue', 'Distribution', 'Distribution'])
        net[x] = (kind, par, rng.randint(9000, 9999) if kind == 'Value' else 0)
    return net


def build(rng, net, name='N'):
    """The real network, through one of the public ways of making it"""
    from sims_pars.bayesnet import BayesianNetwork, bayes_net_from_script, bayes_net_from_json
    items = list(net.items())
    rng.shuffle(items)
    defs = [definition(x, *d) for x, d in items]
    how = rng.randrange(5)
    if how == 0:
        bn = bayes_net_from_script('PCore %s {\n%s\n}' % (name, '\n'.join(defs)))
    else:
        bn = BayesianNetwork(name)
        for d in defs:
            bn.append_from_definition(d)
        if how == 2:
            bn = bayes_net_from_json(bn.to_json())
        elif how == 3:
            bn = bayes_net_from_script(bn.to_script())
        if rng.random() < .6:
            bn.complete()
    return bn


def net_record(net):
    return [{'x': x, 'kind': k, 'par': sorted(par), 'c': c} for x, (k, par, c) in net.items()]
