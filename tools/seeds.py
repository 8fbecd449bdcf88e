"""Table of planted bugs: written from the statements of the properties and the code"""
SEEDS = []
def s(id, prop, edits, needs, breaks, demo, checks=None):
    d = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)
    if checks: d['checks'] = checks
    SEEDS.append(d)

s('c01-rv-roots', 'C01', [('bayesnet/bn.py', 'for a in nx.ancestors(bn.DAG, k):', 'for a in bn.DAG.parents(k):')],
  'a random variable whose random ancestor is not among its parents (a function in between)',
  'the random roots reported include variables that stand on other random variables',
  '''
from sims_pars import bayes_net_from_script
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
b = a + 1
c ~ norm(b, 1)
}""")
assert list(bn.RVRoots) == ['a'], bn.RVRoots
''')
s('c01-stale-order', 'C01', [('bayesnet/bn.py', '''    def defrost(self):
        self.DAG = DAG(self.DAG)
        self.json = None
        self.script = None
        self.__order = None
''', '''    def defrost(self):
        self.DAG = DAG(self.DAG)
        self.json = None
        self.script = None
'''), ('bayesnet/bn.py', 'return self.__order if self.is_frozen() else self.DAG.order()', 'return self.__order if self.__order is not None else self.DAG.order()')],
  'a network completed, defrosted, changed, and asked for its order before it is completed again',
  'the order reported after defrosting misses new variables',
  '''
from sims_pars import bayes_net_from_script
bn = bayes_net_from_script("""PCore T {
a = 1
b = a + 1
}""")
bn.defrost()
bn.append_from_definition('c = b + 1')
assert list(bn.Order) == ['a', 'b', 'c'], bn.Order
bn.complete()
assert list(bn.Order) == ['a', 'b', 'c']
''')
s('c01-exo-roots', 'C01', [('bayesnet/bn.py', "return [k for k, v in bn.DAG.nodes.data() if isinstance(v['loci'], ExoValueLoci)]", "return [k for k in bn.DAG.roots() if bn.is_exogenous(k)]")],
  'a pseudo function without arguments', 'pseudo nodes without parents are reported as exogenous variables',
  '''
from sims_pars import bayes_net_from_script
bn = bayes_net_from_script("""PCore T {
x = f()
y = a + x
}""")
assert list(bn.Exo) == ['a'], bn.Exo
''')
s('c02-dotted-names', 'C02', [('bayesnet/loci.py', r"elif re.match(r'\A\w+\Z', df):", r"elif re.match(r'\A\w+(\.\w+)*\Z', df):")],
  'an ill-formed line that is a dotted name', 'an ill-formed definition is accepted as an exogenous variable',
  '''
from sims_pars.bayesnet import BayesianNetwork
bn = BayesianNetwork('T')
bn.append_from_definition('a = 1')
try:
    bn.append_from_definition('a.b')
except Exception:
    pass
else:
    raise AssertionError('accepted')
assert list(bn.Order) == ['a']
''')
s('c03-copied-script', 'C03', [('bayesnet/bn.py', '''        if self.is_frozen():
            for node in self.json['Nodes']:
                bn.append_from_js(node)

            bn.complete()
''', '''        if self.is_frozen():
            for node in self.to_json()['Nodes']:
                bn.append_from_js(node)

            bn.complete()
            bn.script = self.script
''')],
  'a copy of a completed network under a new name, written out as a script and read back',
  'the script of a renamed copy carries the name of its source',
  '''
from sims_pars import bayes_net_from_script
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
}""")
c = bn.copy('U')
assert bayes_net_from_script(c.to_script()).Name == 'U'
''')
s('c03-shared-functions', 'C03', [('bayesnet/bn.py', '''                bn.append_from_js(form_node_js(self, node))
        bn.UserDefinedFunctions.update(self.UserDefinedFunctions)
        return bn
''', '''                bn.append_from_js(form_node_js(self, node))
        bn.UserDefinedFunctions = self.UserDefinedFunctions
        return bn
''')],
  'a function added to a copy (or to the source) after copying', 'a copy shares the table of user functions with its source',
  '''
from sims_pars import bayes_net_from_script
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
}""")
c = bn.copy('U')
c.add_user_defined_func('g', abs)
assert 'g' not in bn.UserDefinedFunctions
''')
s('c05-minimal-dag', 'C05', [('bayesnet/dag.py', 'for j in range(i, len(nodes)):', 'for j in range(i, min(i + 2, len(nodes))):')],
  'three targets where the first and the third are joined by a path that avoids the second',
  'the minimal sub-graph misses nodes between two of its members',
  '''
from sims_pars.bayesnet.dag import DAG, minimal_dag
g = DAG()
g.add_edge('a', 'x'); g.add_edge('x', 'c'); g.add_edge('a', 'b'); g.add_edge('b', 'c')
assert set(minimal_dag(g, ['a', 'b', 'c'])) == {'a', 'b', 'c', 'x'}
''')
s('c05-given-sinks', 'C05', [('bayesnet/dag.py', '''        pas = list(mi.predecessors(nod))
        for pa in pas:
            mi.remove_edge(pa, nod)
''', '''        pas = list(mi.predecessors(nod)) if nod not in included else []
        for pa in pas:
            mi.remove_edge(pa, nod)
''')],
  'a target that is given as well', 'a node that is both target and given still pulls in its ancestors',
  '''
from sims_pars.bayesnet.dag import DAG, get_sufficient_nodes
g = DAG()
g.add_edge('a', 'b'); g.add_edge('b', 'c')
assert get_sufficient_nodes(g, ['b'], ['b']) == {'b'}
assert get_sufficient_nodes(g, ['c'], ['b']) == {'b', 'c'}
''')
s('c06-strip-parens', 'C06', [('factory/craftstation.py', '                v = args[i]\n', "                v = args[i].strip('()')\n")],
  'a positional argument that begins or ends with a parenthesis', 'the expressions of positional arguments lose parentheses',
  '''
from sims_pars.prob import complete_function, parse_distribution
d = parse_distribution(complete_function('norm((a + 1) * (b + 2), 1)'), loc={'a': 1, 'b': 2})
assert d.mean() == 8
''')
s('c06-kept-partial', 'C06', [('factory/craftstation.py', 'if len(unnamed) == 0:', 'if not args and len(unnamed) < len(req):')],
  'a call whose arguments are all named while others are left to their defaults', 'completing leaves out the defaults of calls with named arguments only',
  '''
from sims_pars.prob import complete_function
import ast
c = ast.parse(complete_function('norm(sd=2)')).body[0].value
assert {k.arg for k in c.keywords} == {'mean', 'sd'}, ast.unparse(c)
''')
s('c07-floor', 'C07', [('util.py', "'floor': np.floor,", "'floor': np.trunc,")],
  'floor of a negative number', 'floor rounds negative numbers up',
  '''
from sims_pars.bayesnet.loci import parse_loci
l, _ = parse_loci('y = floor(x)')
assert l.render({'x': -1.5}) == -2
''')
s('c07-step', 'C07', [('util.py', 'return a if key < cut else b', 'return a if key <= cut else b')],
  'a value exactly at the cut', 'the step function takes the left value at the cut itself',
  '''
from sims_pars.bayesnet.loci import parse_loci
l, _ = parse_loci('y = step(x, 2, 10, 20)')
assert l.render({'x': 1}) == 10 and l.render({'x': 2}) == 20 and l.render({'x': 3}) == 20
''')
s('c08-falsy-given', 'C08', [('fn.py', '''    for nod in bn.Order:
        if nod not in res:
            res[nod] = g.nodes[nod]['loci'].render(res)
    return res
''', '''    for nod in bn.Order:
        if not res.get(nod):
            res[nod] = g.nodes[nod]['loci'].render(res)
    return res
''')],
  'a given value of zero', 'a given value of zero is replaced by a draw',
  '''
from sims_pars import bayes_net_from_script, sample
bn = bayes_net_from_script("""PCore T {
a ~ norm(5, 0.1)
b = a + 1
}""")
r = sample(bn, {'a': 0})
assert r['a'] == 0 and r['b'] == 1, r
''')
s('c08-mutates-given', 'C08', [('fn.py', '''    res = dict(cond)

    for nod in bn.Order:
        if nod not in res:
            res[nod] = g.nodes[nod]['loci'].render(res)
    return res
''', '''    res = cond

    for nod in bn.Order:
        if nod not in res:
            res[nod] = g.nodes[nod]['loci'].render(res)
    return res
''')],
  'the dictionary of given values used again after sampling', 'sampling writes its draws into the given values',
  '''
from sims_pars import bayes_net_from_script, sample
bn = bayes_net_from_script("""PCore T {
a ~ norm(x, 1)
}""")
g = {'x': 1}
sample(bn, g)
assert g == {'x': 1}
''')
s('c09-falsy-given', 'C09', [('fn.py', '''    given = list(cond.keys())

    suf = get_sufficient_nodes(g, included, given)
''', '''    given = [k for k, v in cond.items() if v]

    suf = get_sufficient_nodes(g, included, given)
''')],
  'a mediator given the value zero', 'the ancestors of a mediator given as zero are drawn although nothing needs them',
  '''
from sims_pars import bayes_net_from_script
from sims_pars.fn import sample_minimally
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
b = a + 1
c = b + 1
}""")
s, m = sample_minimally(bn, ['c'], {'b': 0})
assert s == {'c': 1} and m == {'b': 0}, (s, m)
''')
s('c09-exo-all', 'C09', [('fn.py', 'suf_exo = [nod for nod in bn.Exo if nod in suf]', "suf_exo = [nod for nod in bn.Exo if nod in suf or not g.descendants(nod).isdisjoint(included)]")],
  'an exogenous variable that only acts through given variables', 'an exogenous variable that is not needed has to be given',
  '''
from sims_pars import bayes_net_from_script
from sims_pars.fn import sample_minimally
bn = bayes_net_from_script("""PCore T {
b = x + 1
c = b + 1
}""")
s, m = sample_minimally(bn, ['c'], {'b': 4})
assert s == {'c': 5}
''')
s('c10-given-free', 'C10', [('fn.py', 'lp = evaluate_nodes(bn, p)', 'lp = evaluate_nodes(bn, p) if not cond else evaluate_nodes(bn, p) - evaluate_nodes(bn, cond)')],
  'a chromosome sampled with a given random variable', 'the log-probability of a sampled chromosome leaves out given random variables',
  '''
import numpy as np
from sims_pars import bayes_net_from_script
from sims_pars.fn import sample_chromosome, evaluate_nodes
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
b ~ norm(a, 1)
}""")
c = sample_chromosome(bn, {'a': 2.0})
assert np.isclose(c.LogProb, evaluate_nodes(bn, dict(c)))
''')
s('c11-shock-order', 'C11', [('bayesnet/chromosome.py', '''            for nod in bn.Order:
                if nod in shocked:
                    self[nod] = g.nodes[nod]['loci'].render(self)
''', '''            for nod in shocked:
                if nod in bn:
                    self[nod] = g.nodes[nod]['loci'].render(self)
''')],
  'an intervention with at least two descendants in a chain, and an unlucky order of the set',
  'descendants are re-derived in no particular order, from stale parents',
  '''
from sims_pars import bayes_net_from_script
from sims_pars.fn import sample_chromosome
names = ['v%d' % i for i in range(12)]
bn = bayes_net_from_script("PCore T {\\nv0 = 1\\n" + "\\n".join('%s = %s + 1' % (b, a) for a, b in zip(names, names[1:])) + "\\n}")
c = sample_chromosome(bn)
c.impulse({'v0': 100}, bn)
assert [c[n] for n in names] == [100 + i for i in range(12)]
''')
s('c11-set-keeps-prob', 'C11', [('bayesnet/chromosome.py', '''        self.Locus[key] = value
        self.reset_probability()
''', '''        if key not in self.Locus:
            self.reset_probability()
        self.Locus[key] = value
''')],
  'a direct change of a value that is already held', 'the cached log-probability survives the change of a value',
  '''
import numpy as np
from sims_pars import bayes_net_from_script
from sims_pars.fn import sample_chromosome, evaluate_nodes
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
}""")
c = sample_chromosome(bn)
c['a'] = 7.0
assert not c.is_evaluated() or np.isclose(c.LogProb, evaluate_nodes(bn, dict(c)))
''')
s('c12-first-child', 'C12', [('simulation/nodeset.py', '''            if not ch._validate_initial_conditions(bn):
                return False
''', '''            return ch._validate_initial_conditions(bn)
''')],
  'a second child group with a floating variable declared above a fixed one', 'inconsistent declarations in other than the first child group are not refused',
  '''
from sims_pars import bayes_net_from_script
from sims_pars.simulation import NodeSet
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
b ~ norm(a, 1)
}""")
ns = NodeSet('root')
ns.new_child('one')
ns.new_child('two', as_fixed=['b'], as_floating=['a'])
try:
    ns.inject_bn(bn)
except Exception:
    pass
else:
    raise AssertionError('accepted')
''')
s('c12-floating-grand', 'C12', [('simulation/nodeset.py', 'anc = g.upstream(self.__as_fixed)', 'anc = set().union(*[g.parents(d) for d in self.__as_fixed])')],
  'a floating variable that is above a fixed one but not a parent of it', 'a floating variable two steps above a fixed one is accepted',
  '''
from sims_pars import bayes_net_from_script
from sims_pars.simulation import NodeSet
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
b = a + 1
c ~ norm(b, 1)
}""")
ns = NodeSet('root', as_fixed=['c'], as_floating=['a'])
try:
    ns.inject_bn(bn)
except Exception:
    pass
else:
    raise AssertionError('accepted')
''')
s('c13-grandparents', 'C13', [('simulation/simugroup.py', 'vs[d] = parent[d]', 'vs[d] = parent.Locus[d]'), ('simulation/simugroup.py', 'except (TypeError, KeyError):\n                    self.BN[d].fill(vs)', 'except (TypeError, KeyError, AttributeError):\n                    self.BN[d].fill(vs)')],
  'a core bred below a group that does not hold the parents of its variables itself', 'the values of grandparents are drawn afresh for a grandchild, which then disagrees with what it shows',
  '''
from sims_pars import bayes_net_from_script
from sims_pars.simulation import NodeSet, as_simulation_core
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
b ~ norm(0, 1)
c = a + 10
}""")
ns = NodeSet('root', as_fixed=['a'])
m = ns.new_child('mid', as_fixed=['b'])
m.new_child('leaf', as_fixed=['c'])
sc = as_simulation_core(bn, ns)
p = sc.generate('p')
q = p.breed('q', 'mid').breed('r', 'leaf')
assert q['c'] == p['a'] + 10
''')
s('c13-supplied-prior', 'C13', [('simulation/simugroup.py', '''                try:
                    loci.fill(vs)
                except KeyError:
                    pass

            if d in vs:
                prior += loci.evaluate(vs)
''', '''                try:
                    loci.fill(vs)
                    prior += loci.evaluate(vs)
                except KeyError:
                    pass
''')],
  'a core generated with a supplied value of a random variable', 'supplied values do not enter the log-probability of a core',
  '''
import numpy as np
from sims_pars import bayes_net_from_script
from sims_pars.fn import evaluate_nodes
from sims_pars.simulation import NodeSet, as_simulation_core
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
b ~ norm(a, 1)
}""")
sc = as_simulation_core(bn, NodeSet('root', as_fixed=['a', 'b']))
p = sc.generate('p', exo={'a': 1.5})
assert np.isclose(p.LogProb, evaluate_nodes(bn, dict(p.Locus)))
''')
s('c14-repeated', 'C14', [('simulation/actor.py', 'return [self() for _ in range(n)]', 'return [self()] * n')],
  'several values asked for at once', 'one draw is repeated instead of several independent ones',
  '''
from sims_pars import bayes_net_from_script
from sims_pars.simulation import NodeSet, as_simulation_core
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
}""")
p = as_simulation_core(bn, NodeSet('root', as_floating=['a'])).generate('p')
assert len(set(p.get_sampler('a').sample(10))) == 10
''')
s('c14-shared-frozen', 'C14', [('simulation/nodeset.py', 'if set.intersection(pars, self.FixedNodes):', 'if pars <= set(self.FixedNodes):')],
  'siblings that share a sampler of a variable with one parent fixed in their own group and another above',
  'the shared sampler of one sibling draws from the values of another',
  '''
from sims_pars import bayes_net_from_script
from sims_pars.simulation import NodeSet, as_simulation_core
bn = bayes_net_from_script("""PCore T {
a = 100
b ~ unif(0, 10)
c ~ norm(a + b * 1000, 0.001)
}""")
ns = NodeSet('root', as_fixed=['a'])
ns.new_child('kid', as_fixed=['b'], as_floating=['c'])
p = as_simulation_core(bn, ns).generate('p')
k1, k2 = p.breed('k1', 'kid', exo={'b': 1}), p.breed('k2', 'kid', exo={'b': 9})
s1, s2 = k1.get_sampler('c'), k2.get_sampler('c')
assert abs(s1() - 1100) < 1 and abs(s2() - 9100) < 1 and abs(s1() - 1100) < 1
''')
s('c15-stale-actors', 'C15', [('simulation/simugroup.py', '''        for act in actors:
            pc.Actors[act].update(pc)
''', '''        for act in actors:
            if act in self.Floating:
                pc.Actors[act].update(pc)
''')],
  'a local sampler of a variable of a lower group, handed out before an intervention above',
  'local samplers of variables that float below keep drawing from old parents',
  '''
from sims_pars import bayes_net_from_script
from sims_pars.simulation import NodeSet, as_simulation_core
bn = bayes_net_from_script("""PCore T {
a ~ unif(0, 1)
b ~ norm(a * 1000, 0.001)
}""")
ns = NodeSet('root', as_fixed=['a'])
ns.new_child('kid', as_floating=['b'])
p = as_simulation_core(bn, ns).generate('p', exo={'a': 0.1})
p.get_samplers(shared=False)
p.impulse({'a': 0.9})
assert abs(p.get_actors(shared=False)['b'].sample(p) - 900) < 1
''')
s('c15-list-targets', 'C15', [('simulation/parcore.py', '''            imp = dict()
        else:
            raise AttributeError('imp defined incorrectly')
''', '''            imp = {k: v for k, v in self.Locus.items() if k in imp}
        else:
            raise AttributeError('imp defined incorrectly')
''')],
  'an intervention with a list of variables', 'variables named in a list are not redrawn, only their descendants',
  '''
from sims_pars import bayes_net_from_script
from sims_pars.simulation import NodeSet, as_simulation_core
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
b = a + 1
}""")
p = as_simulation_core(bn, NodeSet('root', as_fixed=['a', 'b'])).generate('p')
a = p['a']
p.impulse(['a'])
assert p['a'] != a and p['b'] == p['a'] + 1
''')
s('c16-shallow-clone', 'C16', [('simulation/parcore.py', '''        if include_children:
            self.__children_copy(pc_new)

        return pc_new

    def __children_copy(self, pc_new):
        for k, chd in self.Children.items():
            gp = chd.Group
            chd_new = pc_new.breed(k, gp, exo=chd.Locus)
            chd_new.LogProb = chd.LogProb
            chd.__children_copy(chd_new)


class PseudoParameterCore''', '''        if include_children:
            self.__children_copy(pc_new)

        return pc_new

    def __children_copy(self, pc_new):
        for k, chd in self.Children.items():
            gp = chd.Group
            chd_new = pc_new.breed(k, gp, exo=chd.Locus)
            chd_new.LogProb = chd.LogProb
            if self.Parent is None:
                chd.__children_copy(chd_new)


class PseudoParameterCore''')],
  'a clone with children of a tree of cores with four levels', 'the fourth level of a tree of cores is lost in a clone',
  '''
from sims_pars import bayes_net_from_script
from sims_pars.simulation import NodeSet, as_simulation_core
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
b ~ norm(a, 1)
c ~ norm(b, 1)
d ~ norm(c, 1)
}""")
ns = NodeSet('root', as_fixed=['a'])
ns.new_child('mid', as_fixed=['b']).new_child('low', as_fixed=['c']).new_child('leaf', as_fixed=['d'])
p = as_simulation_core(bn, ns).generate('p')
q = p.breed('q', 'mid').breed('r', 'low').breed('s', 'leaf')
n = p.clone(include_children=True)
assert n.find_descendant('q@r@s')['d'] == q['d']
''')
s('c16-clone-exo', 'C16', [('simulation/parcore.py', '''        pc_new = sg.generate(self.Nickname, exo=dict(self))
''', '''        pc_new = sg.generate(self.Nickname, exo={k: v for k, v in self if k in sg.Fixed})
''')],
  'a clone of a root core generated with exogenous values', 'exogenous values are lost in a clone',
  '''
from sims_pars import bayes_net_from_script
from sims_pars.simulation import NodeSet, as_simulation_core
bn = bayes_net_from_script("""PCore T {
a ~ norm(0, 1)
b = a + 1
}""")
p = as_simulation_core(bn, NodeSet('root', as_fixed=['a', 'b'])).generate('p', exo={'x': 7})
assert p['x'] == 7
assert p.clone()['x'] == 7
''')
s('c17-kept-time', 'C17', [('monitor.py', "self.Last['Time'] = self.Time", "self.Last.setdefault('Time', self.Time)")],
  'a kept quantity called Time', 'the time of a record is not the time being left when something called Time was kept',
  '''
from sims_pars.monitor import Monitor
m = Monitor('T')
m.keep(Time=99, A=1)
m.step()
assert m.Records[0]['Time'] == 0
''')
s('c17-first-kept', 'C17', [('monitor.py', 'self.Last.update(kwargs)', 'self.Last = {**kwargs, **self.Last}')],
  'the same quantity kept twice within a step', 'a record holds the first value kept instead of the latest',
  '''
from sims_pars.monitor import Monitor
m = Monitor('T')
m.keep(A=1)
m.keep(A=2)
m.step()
assert m.Records[0]['A'] == 2
''')
s('c18-exo-overridden', 'C18', [('fit/base.py', '''        p = dict(p)
        p.update(self.ExoParameters)
''', '''        p = {**self.ExoParameters, **p}
''')],
  'a parameter set served with another value of an exogenous parameter', 'requested values override the exogenous parameters',
  '''
from sims_pars.fit.base import DataModel, Particle
class M(DataModel):
    def simulate(self, pars): return Particle(pars, {})
m = M({}, """PCore T {
a ~ norm(x, 1)
}""", exo={'x': 3})
assert m.serve({'x': 8, 'a': 1.0})['x'] == 3
''')
s('c18-last-distance', 'C18', [('fit/base.py', '''        di = 0
        for k, dat in self.Data.items():
            di += dat.calc_distance(ys)
''', '''        di = 0
        for dat in {v.Value: v for v in self.Data.values()}.values():
            di += dat.calc_distance(ys)
''')],
  'two targets with the same value', 'targets with equal values count once in the distance',
  '''
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.targets import read_targets
class M(DataModel):
    def simulate(self, pars): return Particle(pars, {'A': 3, 'B': 5})
d = read_targets({'A': 2, 'B': 2})
m = M(d, """PCore T {
a ~ norm(0, 1)
}""")
p = m.simulate(m.sample_prior())
assert abs(m.calc_distance(p) - sum(v.calc_distance({'A': 3, 'B': 5}) for v in d.values())) < 1e-9
''')
s('c19-serial-tries', 'C19', [('fit/abcom/alg.py', 'n_eval += ne\n', 'n_eval += min(ne, 2)\n')],
  'a serial run in which some particle needs more than two tries', 'the reported acceptance is too large',
  '''
import numpy as np
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.abcom import ApproxBayesCom
from sims_pars.fit.targets import read_targets
n = [0]
class M(DataModel):
    def simulate(self, pars):
        n[0] += 1
        return Particle(pars, {'A': pars['a']})
np.random.seed(1)
m = M(read_targets({'A': 0.5}), """PCore T {
a ~ unif(0, 1)
}""")
alg = ApproxBayesCom(parallel=False, n_test=50, p_test=0.1)
alg.fit(m)
n[0] = 0
po = alg.sample_posteriors(20)
assert abs(po['Acceptance'] - 20 / n[0]) < 1e-9, (po['Acceptance'], n[0])
''')
s('c19-serial-unfinished', 'C19', [('fit/abcom/alg.py', '''                    di = self.Model.calc_distance(sim)
                dis.append(di)
''', '''                    di = self.Model.calc_distance(sim)
                    dis.append(di)
''')],
  'a serial run with simulations of infinite distance', 'test simulations with infinite distances enter the threshold',
  '''
import numpy as np
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.abcom import ApproxBayesCom
from sims_pars.fit.targets import read_targets
class M(DataModel):
    def simulate(self, pars):
        return Particle(pars, {'A': pars['a'] if pars['a'] < 0.2 else np.inf})
np.random.seed(1)
m = M(read_targets({'A': 0.5}), """PCore T {
a ~ unif(0, 1)
}""")
alg = ApproxBayesCom(parallel=False, n_test=20, p_test=0.8)
alg.fit(m)
assert np.isfinite(alg.State.Eps)
''')
s('c20-stay', 'C20', [('fit/abc_smc/alg.py', "elif rnd >= 3 and stay >= self.Settings['max_stay']:", "elif rnd >= 3 and stay > self.Settings['max_stay']:")],
  'a run whose threshold cannot fall any more', 'the run goes on for one more round after the stay limit',
  '''
import numpy as np
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.abc_smc import ApproxBayesComSMC
from sims_pars.fit.targets import read_targets
class M(DataModel):
    def simulate(self, pars): return Particle(pars, {'A': 1.0})
np.random.seed(1)
m = M(read_targets({'A': 0.5}), """PCore T {
a ~ unif(0, 1)
}""")
alg = ApproxBayesComSMC(parallel=False, n_iter=10, max_round=30, max_stay=3, min_acc=0)
alg.fit(m)
assert alg.State.Stay == 3, alg.State.Stay
''')
s('c20-parallel-parents', 'C20', [('fit/abc_smc/alg.py', 'p0s = rd.choice(self.__pars0, n_sim)', "p0s = rd.choice(self.__pars0, n_sim) if not self.Settings['parallel'] else list(self.__pars0)[:1] * n_sim")],
  'a parallel run that starts from several given parents', 'all first particles of a parallel run start from the first parent',
  '''
import numpy as np
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.abc_smc import ApproxBayesComSMC
from sims_pars.fit.targets import read_targets
import joblib
class M(DataModel):
    def simulate(self, pars): return Particle(pars, {'A': pars['a']})
np.random.seed(1)
m = M(read_targets({'A': 0.5}), """PCore T {
a ~ unif(0, 1)
}""")
alg = ApproxBayesComSMC(parallel=True, n_iter=30, verbose=0, n_core=2)
alg.set_parents([{'a': 0.25}, {'a': 0.75}])
with joblib.parallel_backend('threading'):
    alg.attach(m)
    alg.initialise()
assert {p.Pars['a'] for p in alg.State.Particles} == {0.25, 0.75}
''')
s('c20-tied-weights', 'C20', [('fit/abc_smc/alg.py', 'if eps_thres * (wts ** 2).sum() > 1:', 'if eps_thres > (wts > 0).sum():')],
  'uneven weights', 'resampling is decided by the number of live particles instead of the effective size',
  '''
import numpy as np
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.abc_smc import ApproxBayesComSMC
from sims_pars.fit.targets import read_targets
class M(DataModel):
    def simulate(self, pars): return Particle(pars, {'A': pars['a']})
m = M(read_targets({'A': 0.5}), """PCore T {
a ~ unif(0, 1)
}""")
alg = ApproxBayesComSMC(parallel=False, n_iter=5)
alg.attach(m)
pts = [m.simulate(m.sample_prior()) for _ in range(5)]
w, t = alg.resample(pts, np.array([0.92, 0.02, 0.02, 0.02, 0.02]), 3)
assert np.allclose(w, 0.2), w
''')
s('c21-mean-implausibility', 'C21', [('fit/hme/alg.py', 'return np.max(ims)', 'return np.max(ims) if len(ims) < 3 else np.median(ims)')],
  'three or more targets', 'with many targets the implausibility is not the largest one',
  '''
from sims_pars.fit.hme.alg import Matchers
from sims_pars.fit.base import Particle
from sims_pars.fit.targets import read_targets
d = read_targets({'A': 1, 'B': 1, 'C': 1})
p = Particle({}, {})
p['Ys'] = {'A': 1, 'B': 1, 'C': 100}
p['Vs'] = {'A': 0, 'B': 0, 'C': 0}
assert Matchers(1, d).eval_implausibility(p) > 50
''')
s('c21-posterior-wave', 'C21', [('fit/hme/alg.py', '''        xss = lower + rd.random((n_collect, n_pars)) * (upper - lower)

        post = ParameterSet('HME')
''', '''        xss = rd.random((n_collect, n_pars)) * upper

        post = ParameterSet('HME')
''')],
  'final bounds whose lower end has moved', 'the posterior is drawn below the lower ends of the final bounds',
  '''
import sys, types
import numpy as np
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.targets import read_targets
from sims_pars.fit.hme.alg import BayesHistoryMatching, StateHME, Matchers
from sims_pars.fit.converter import get_converter
class M(DataModel):
    def simulate(self, pars): return Particle(pars, {'A': pars['a']})
m = M(read_targets({'A': 0.5}), """PCore T {
a ~ unif(0, 1)
}""")
alg = BayesHistoryMatching(n_sims=5, n_ems=5, n_pars=1)
alg.attach(m)
alg.State = StateHME({}, [get_converter(d) for d in m.Domain], Matchers(1, m.Data), [], (np.array([0.8]), np.array([0.9])))
po = alg.sample_posteriors(40)
assert all(0.8 <= p.Pars['a'] <= 0.9 for p in po.Particles)
''')
s('c22-inverse-scale', 'C22', [('fit/converter.py', '''        if v > 0:
            return 1 - np.exp(-v / self.Scale) / 2
''', '''        if v > self.Scale:
            return 1 - np.exp(-v / self.Scale) / 2
''')],
  'a value between the location and one scale above it on an unbounded domain', 'converting such a value back does not give the number it came from',
  '''
from sims_pars.fit.base import Domain
from sims_pars.fit.converter import get_converter
c = get_converter(Domain('a', loc=3, scale=2))
for u in (0.1, 0.4, 0.6, 0.9, 0.99):
    assert abs(c.value2uniform(c.uniform2value(u)) - u) < 1e-9
''')
s('c22-scale-one', 'C22', [('fit/converter.py', '''        if u <= 0:
            return - np.inf
        return np.log(u) * self.Scale + self.Upper

    def value2uniform(self, v):
        return np.exp((v - self.Upper) / self.Scale)
''', '''        if u <= 0:
            return - np.inf
        return np.log(u) * self.Scale + min(self.Upper, 0)

    def value2uniform(self, v):
        return np.exp((v - min(self.Upper, 0)) / self.Scale)
''')],
  'a domain bounded above at a positive value only', 'the image of the unit interval stops short of a positive upper bound',
  '''
from sims_pars.fit.base import Domain
from sims_pars.fit.converter import get_converter
c = get_converter(Domain('a', upper=5))
assert c.uniform2value(1) == 5
''')
s('c23-shared-pars', 'C23', [('fit/base.py', 'pt = Particle(self.Pars.clone(), self.Sims)', 'pt = Particle(self.Pars, self.Sims)')],
  'a copy of a particle whose parameters are changed', 'a copy shares its parameters with the source',
  '''
from sims_pars.bayesnet import Chromosome
from sims_pars.fit.base import Particle
p = Particle(Chromosome({'a': 1}, -1), {'y': 2})
q = p.copy()
q.Pars['a'] = 5
assert p.Pars['a'] == 1
''')
s('c23-kept-distance', 'C23', [('fit/base.py', '''        if 'Xs' in self.Notes:
            pt['Xs'] = self.Notes['Xs']

        if 'Ys' in self.Notes:
            pt['Ys'] = self.Notes['Ys']
        return pt
''', '''        pt.Notes.update(self.Notes)
        return pt
''')],
  'a copy of a particle that has been compared with the data', 'a copy keeps the cached distance of its source',
  '''
from sims_pars.bayesnet import Chromosome
from sims_pars.fit.base import Particle
p = Particle(Chromosome({'a': 1}, -1), {'y': 2})
p['Xs'], p['Ys'], p['distance'] = [1], {'y': 2}, 3
q = p.copy()
assert q['Xs'] == [1] and q['Ys'] == {'y': 2} and 'distance' not in q.Notes
''')
s('c24-swap-both', 'C24', [('fit/ga/cross.py', '''                locus1[node] = p2[node]
                locus2[node] = p1[node]
''', '''                locus1[node] = p2[node]
                locus2[node] = p1[node] if p1[node] < p2[node] else p2[node]
''')],
  'shuffling where the first parent has the larger value', 'both children get the same value and the other is lost',
  '''
import numpy as np
from sims_pars.fit.ga.cross import get_crossover
class D: pass
class N:
    Name = 'a'
class O:
    Domain = [N()]
np.random.seed(0)
for i in range(50):
    x, y = get_crossover('shuffle').crossover({'a': 2}, {'a': 1}, O())
    assert sorted([x['a'], y['a']]) == [1, 2]
''')
s('c24-winner-alias', 'C24', [('fit/ga/select.py', 'sel.append(winner.clone())', 'sel.append(winner if winner not in sel else winner.clone())')],
  'a selected member changed afterwards', 'the first selection of a member is the member itself, not a clone',
  '''
import numpy as np
from sims_pars.fit.ga.select import get_selector
class P:
    def __init__(self, v): self.LogLikelihood = self.LogPosterior = v
    def clone(self): return P(self.LogLikelihood)
ps = [P(float(i)) for i in range(8)]
r = get_selector('tour(3)').select(ps, None)
assert len(r) == 8 and not any(x is p for x in r for p in ps)
''')
s('c25-companions', 'C25', [('util.py', 'pars = [par for par, f in zip(pars, fin) if f]', 'pars = [par for par, wt in zip(pars, wts) if np.isfinite(wt)]')],
  'companions together with an infinite or undefined weight before the end', 'members are returned with the companions of others',
  '''
import numpy as np
from sims_pars.util import resample
np.random.seed(0)
h, p, _ = resample([-np.inf, 0., -1.], ['a', 'b', 'c'], ['A', 'B', 'C'], new_size=50)
assert all(x.upper() == y for x, y in zip(h, p))
''')
s('c26-chi-spread', 'C26', [('prob.py', 'return SpDouble(sts.triang(loc=a, scale=b - a, c=(m - a) / (b - a)))', 'return SpDouble(sts.triang(loc=a, scale=b - a, c=(m - a) / (b - a) if a else m / b))')],
  'a triangle from zero to something: none; kept as a neutral control', 'nothing',
  'raise SystemExit(0)')
SEEDS.pop()
s('c26-uniform-width', 'C26', [('prob.py', 'return SpDouble(sts.uniform(self.min, self.max-self.min))', 'return SpDouble(sts.uniform(self.min, self.max-max(self.min, 0)))')],
  'a uniform distribution with a negative lower end', 'uniform distributions from a negative number end too early',
  '''
from sims_pars.prob import parse_distribution
d = parse_distribution('unif(-1, 1)')
assert (d.Lower, d.Upper) == (-1, 1) and d.mean() == 0
''')
s('c26-rounded-size', 'C26', [('prob.py', '''    def sample(self, n=1, **kwargs):
        if n > 1:
            return np.full(n, self.K)
        return self.K
''', '''    def sample(self, n=1, **kwargs):
        if n > 1:
            return np.full(n, int(self.K))
        return self.K
''')],
  'several draws of a constant that is not whole', 'several draws of a constant are truncated',
  '''
from sims_pars.prob import parse_distribution
assert list(parse_distribution('k(0.5)').sample(3)) == [0.5] * 3
''')
s('c27-first-registered', 'C27', [('factory/craftstation.py', 'self.Creators[name] = creator', 'self.Creators.setdefault(name, creator)')],
  'a name registered twice', 'the first creator under a name stays instead of the latest',
  '''
from sims_pars.factory import get_atelier, AbsCreator
class A(AbsCreator):
    def create(self): return 'A'
class B(AbsCreator):
    def create(self): return 'B'
w = get_atelier('demo-c27')
w.register('x', A)
w.register('x', B)
assert w.create('x()') == 'B'
''')
s('c27-case', 'C27', [('factory/__init__.py', 'ws = AtelierDict[name]', 'ws = AtelierDict[name.lower()]'), ('factory/__init__.py', 'AtelierDict[name] = ws = Atelier()', 'AtelierDict[name.lower()] = ws = Atelier()')],
  'two workshops whose names differ only in case', 'different names give the same workshop',
  '''
from sims_pars.factory import get_atelier
assert get_atelier('demo') is get_atelier('demo')
assert get_atelier('demo') is not get_atelier('Demo')
''')
s('c28-stated-error', 'C28', [('fit/targets/__init__.py', "e = v['error']", "e = max(v['error'], error)")],
  'a target with an error below the default', 'a small stated error is replaced by the default',
  '''
from sims_pars.fit.targets import read_targets
a, b = (read_targets({'A': {'m': 2, 'error': e}})['A'].calc_distance({'A': 3}) for e in (0.01, 0.02))
assert abs(a / b - 2) < 1e-9
''')
s('c28-range-edge', 'C28', [('fit/targets/__init__.py', 'assert l < m < u', 'assert l <= m <= u and l < u')],
  'a range whose end is its mean', 'a range that does not enclose its mean is accepted',
  '''
from sims_pars.fit.targets import read_targets
for l, u in ((2, 3), (1, 2), (3, 4)):
    try:
        read_targets({'A': {'m': 2, 'l': l, 'u': u}})
    except (AssertionError, ValueError):
        continue
    raise AssertionError((l, u))
''')

s('c04-merge-functions', 'C04', [('bayesnet/bn.py', "for k in list(self.DAG.parents(node)):\n                if k not in pars:", "for k in list(self.DAG.parents(node)):\n                if k not in pars and not self.is_rv(k):")],
  'none: every edge is right by then; neutral control', 'nothing', 'raise SystemExit(0)')
SEEDS.pop()
s('c04-unused-exo', 'C04', [('bayesnet/bn.py', """        exo = find_exo(self)
        for node in exo:
            if not self.DAG.children(node):
""", """        exo = find_exo(self)
        for node in exo:
            if not self.DAG.children(node) and node in self.DAG.leaves()[:1]:
""")],
  'a merge after which two exogenous variables are used by nobody', 'exogenous variables nobody uses stay in a merged network',
  '''
from sims_pars import bayes_net_from_script
a = bayes_net_from_script("""PCore A {
y = 1
b = x + z
}""")
b = bayes_net_from_script("""PCore B {
b = 2
}""")
m = a.merge('M', b)
assert set(m.Order) == {'y', 'b'}, m.Order
''')

s('c29-label-prefix', 'C29', [('data/static.py', "            mat = mat[mat[k] == kwargs[k]]", "            mat = mat[mat[k].astype(str).str.startswith(str(kwargs[k]))]")],
  'a label which is the beginning of another label', 'conditioning keeps rows of other labels',
  '''
import pandas as pd
from sims_pars.data import ConditionalProbabilityTable
df = pd.DataFrame({'g': ['1', '11', '11'], 'h': ['a', 'a', 'b'], 'p': [.2, .3, .5]})
t = ConditionalProbabilityTable(df, ['g', 'h'], 'p').condition(g='1')
assert {t()['h'] for _ in range(100)} == {'a'}
''')
s('c29-marginal-count', 'C29', [('data/static.py', "df = self.SourceMatrix.groupby(ix_new)[self.IndexProb].sum()", "df = self.SourceMatrix.groupby(ix_new)[self.IndexProb].mean()")],
  'marginalising over an index with different numbers of rows per remaining combination', 'the probabilities are averaged instead of added up',
  '''
import pandas as pd
from sims_pars.data import ConditionalProbabilityTable
for rows in ([('a', 1, 1), ('a', 2, 1), ('b', 1, 2)], [('a', 1, 3), ('b', 2, 1), ('a', 2, 1)]):
    t = ConditionalProbabilityTable(pd.DataFrame(rows, columns=['g', 'h', 'p']), ['g', 'h'], 'p').marginalise('h')
    w = {k: sum(p for g, _, p in rows if g == k) / sum(r[2] for r in rows) for k in 'ab'}
    c = [t()['g'] for _ in range(4000)]
    assert all(abs(c.count(k) / 4000 - w[k]) < .06 for k in w), w
''')
s('c29-lee-age', 'C29', [('data/timeseries.py', "        self.Alpha = {ent[i_age]: ent[i_al] for _, ent in mat_a.iterrows()}", "        self.Alpha = dict(zip(sorted(self.Ages), mat_a[i_al]))")],
  'an age table whose ages are not in order', 'the age pattern of the rates belongs to other ages',
  '''
import pandas as pd, numpy as np
from sims_pars.data import LeeCarter
for ages in ([5, 0, 60], [0, 5, 60]):
    al = {0: -3., 5: -5., 60: -1.}
    m = LeeCarter(pd.DataFrame({'Time': [0, 1], 'Kappa': [0., 1.]}), pd.DataFrame({'Age': ages, 'Alpha': [al[a] for a in ages], 'Beta': [.1] * 3}))
    assert all(abs(np.log(r) - al[a]) < 1e-9 for a, r in m(0).items())
''')
s('c30-level-reference', 'C30', [('data/reg/linear.py', "        return self.Coefficients[int(value)]", "        return self.Coefficients[int(value)] - self.Coefficients[0]")],
  'a categorical regressor whose reference is not its first level', 'the effects are shifted by the effect of the first level',
  '''
from sims_pars.data import LinearRegression
r = LinearRegression({'Intercept': 1, 'SE': 1, 'Regressors': [{'Name': 'g', 'Type': 'Categorical', 'Labels': ['a', 'b', 'c'], 'Values': [2, 0, 3], 'Ref': 'b'}]})
assert [r.expectation({'g': i}) for i in range(3)] == [3, 1, 4]
r = LinearRegression({'Intercept': 1, 'SE': 1, 'Regressors': [{'Name': 'g', 'Type': 'Categorical', 'Labels': ['a', 'b', 'c'], 'Values': [0, 2, 3], 'Ref': 'a'}]})
assert [r.expectation({'g': i}) for i in range(3)] == [1, 3, 4]
''')
s('c30-boolean-value', 'C30', [('data/reg/linear.py', "        return self.Coefficient if value else 0", "        return self.Coefficient if value is True else 0")],
  'a switch given as a number', 'switches which are not the constant True have no effect',
  '''
import numpy as np
from sims_pars.data import LogisticRegression
r = LogisticRegression({'Intercept': 0, 'Regressors': [{'Name': 'm', 'Type': 'Boolean', 'Value': 2}]})
ps = [r.expectation({'m': v}) for v in (True, 1, np.bool_(True))]
assert max(ps) - min(ps) < 1e-12 and ps[0] > .8, ps
''')
s('c30-zero-scalar', 'C30', [('data/reg/hazard.py', "            return ts if ps[0] < 1 else 0", "            return ts")],
  'a single draw from a zero-inflated waiting time', 'single draws are never zero',
  '''
from sims_pars.data import ExponentialHazard, ZeroInflatedHazardDistribution
z = ZeroInflatedHazardDistribution(.5, ExponentialHazard(1.), 1.)
assert sum(z.sample() == 0 for _ in range(400)) > 100 and (z.sample(400) == 0).sum() > 100
''')
s('c30-empirical-inverse', 'C30', [('data/reg/hazard.py', "        self.MaxTime = max(times)", "        self.MaxTime = times[cum_haz.index(max(cum_haz))] if list(times).count(max(times)) == 1 and len(times) < 3 else max(times[1:-1])")],
  'an empirical baseline of three and more rows, drawn beyond its last cumulative hazard', 'the longest waiting times are cut at the row before the last',
  '''
from sims_pars.data import EmpiricalHazard
h = EmpiricalHazard([0., 1., 2., 5.], [0., .5, 1., 2.])
assert h.inv_cum_hazard(9.) == 5. and h.inv_cum_hazard(.5) == 1. and h.cum_hazard(9.) == 2.
''')
FITTER_DEMO = '''
import numpy as np
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.abcom import ApproxBayesCom
from sims_pars.fit.abc_smc import ApproxBayesComSMC
from sims_pars.fit.targets import read_targets
class M(DataModel):
    def __init__(self, by):
        DataModel.__init__(self, read_targets({'A': 0.5}), """PCore T {
a ~ unif(0, 1)
}""")
        self.by = by
        self.n = 0
    def simulate(self, pars):
        self.n += 1
        return Particle(pars, {'A': self.by * pars['a']})
'''
s('c31-late-settings', 'C31', [('fit/base.py', '''        self.update_settings(**kwargs)
        self.initialise()
        self.update()
''', '''        self.initialise()
        self.update_settings(**kwargs)
        self.update()
''')],
  'a fit asked for with settings of its own which matter at the start', 'settings given to fit come too late for the first phase',
  FITTER_DEMO + '''
m = M(1)
alg = ApproxBayesCom(parallel=False, n_test=5)
alg.fit(m, n_test=11)
assert m.n == 11, m.n
''')
s('c31-shared-settings', 'C31', [('fit/base.py', 'self.Settings = dict(self.DefaultSettings)', 'self.Settings = self.DefaultSettings'),
  ('fit/abc_smc/alg.py', '''    @property
    def DefaultSettings(self) -> dict:
        return {
            'n_iter': 500,''', '''    DefaultSettings = {
            'n_iter': 500,''')],
  'two fitters of the same kind, one given settings after the other', 'fitters of one kind share their settings',
  FITTER_DEMO + '''
a = ApproxBayesComSMC(parallel=False, n_iter=20, max_round=2)
b = ApproxBayesComSMC(parallel=False)
assert a.Settings['n_iter'] == 20
b.update_settings(n_iter=33)
assert a.Settings['n_iter'] == 20, a.Settings
assert ApproxBayesComSMC().Settings['n_iter'] == 500
''')
s('c31-cached-threshold', 'C31', [('fit/abcom/alg.py', '''        eps = np.quantile(np.array(dis), self.Settings['p_test'])
        self.State''', '''        key = (n_sim, self.Settings['p_test'])
        tested = self.__dict__.setdefault('_tested', {})
        eps = tested.setdefault(key, np.quantile(np.array(dis), key[1]))
        self.State''')],
  'one fitter used for two models in turn', 'the threshold of an earlier model is used for a later one',
  FITTER_DEMO + '''
alg = ApproxBayesCom(parallel=False, n_test=30)
alg.fit(M(1))
e1 = alg.State.Eps
m = M(100)
alg.fit(m)
assert m.n >= 30 and alg.State.Eps != e1
''')
s('c05-long-paths', 'C05', [('bayesnet/dag.py', 'for pth in nx.all_simple_paths(g, nodes[i], nodes[j]):', 'for pth in nx.all_simple_paths(g, nodes[i], nodes[j], cutoff=6):')],
  'two wanted nodes joined only by a path of more than six arrows', 'nodes in the middle of long paths are left out of the minimal graph',
  '''
from sims_pars.bayesnet.dag import DAG, minimal_dag
g = DAG()
names = 'abcdefghi'
for x, y in zip(names, names[1:]):
    g.add_edge(x, y)
assert set(minimal_dag(g, ['a', 'i']).nodes) == set(names)
''')
s('c10-positive-logprob', 'C10', [('fn.py', '    if np.isnan(lps):\n', '    if np.isnan(lps) or lps > 0:\n')],
  'continuous variables with densities above one, so that the log probability is positive', 'a sharply distributed assignment is called impossible',
  '''
import math
from sims_pars import bayes_net_from_script
from sims_pars.fn import evaluate_nodes
bn = bayes_net_from_script("""PCore T {
a ~ unif(0, 0.001)
}""")
lp = evaluate_nodes(bn, {'a': 0.0005})
assert abs(float(lp) - math.log(1000)) < 1e-6, lp
''')
s('c18-zero-exogenous', 'C18', [('fit/base.py', 'if node not in self.ExoParameters]', 'if not self.ExoParameters.get(node)]')],
  'an exogenous value that is zero for a random variable', 'a variable that is given the value zero still counts as free',
  '''
from sims_pars.fit.base import DataModel
from sims_pars.fit.targets import read_targets
class M(DataModel):
    def simulate(self, pars): raise NotImplementedError
m = M(read_targets({'A': 1}), """PCore T {
a ~ unif(-1, 1)
b ~ unif(0, 1)
}""", {'a': 0.0})
assert list(m.FreeParameters) == ['b'], m.FreeParameters
''')
s('c19-small-threshold', 'C19', [('fit/abcom/alg.py', "self.State = StateABC(eps, self.Settings['p_test'])", "self.State = StateABC(max(eps, 1e-3), self.Settings['p_test'])")],
  'distances of a much smaller unit than one', 'particles farther away than the threshold are collected when the distances are small',
  '''
import numpy as np
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.targets.base import AbsData
from sims_pars.fit.abcom import ApproxBayesCom
class T(AbsData):
    def get_var_obs(self): return 1
    def calc_distance(self, sim): return sim['A'] * 1e-5
    def calc_likelihood(self, sim): return 0
class M(DataModel):
    def simulate(self, pars): return Particle(pars, {'A': pars['a']})
np.random.seed(1)
m = M({'A': T('A', 1)}, """PCore T {
a ~ unif(0, 1)
}""")
alg = ApproxBayesCom(parallel=False, n_test=40, p_test=0.1)
alg.fit(m)
po = alg.sample_posteriors(20)
assert po['Eps'] < 5e-6 and all(m.calc_distance(p) <= po['Eps'] for p in po.Particles)
''')
s('c20-short-trace', 'C20', [('fit/abc_smc/alg.py', "post.keep('Trace', self.Monitor.Trajectories)", "post.keep('Trace', self.Monitor.Trajectories.tail(10))")],
  'a run of more than ten rounds', 'the trace that comes with the posterior lacks the first rounds',
  '''
import numpy as np
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.abc_smc import ApproxBayesComSMC
from sims_pars.fit.targets import read_targets
class M(DataModel):
    def simulate(self, pars): return Particle(pars, {'A': 1.0})
np.random.seed(1)
m = M(read_targets({'A': 0.5}), """PCore T {
a ~ unif(0, 1)
}""")
alg = ApproxBayesComSMC(parallel=False, n_iter=10, max_round=12, max_stay=30, min_acc=0)
alg.fit(m)
po = alg.sample_posteriors(5)
assert len(po['Trace']) == 13, len(po['Trace'])
''')
s('c20-few-parents', 'C20', [('fit/abc_smc/alg.py', 'p0s = rd.choice(self.__pars0, n_sim)', 'p0s = rd.choice(self.__pars0[:n_sim], n_sim)')],
  'more given parents than particles', 'only the first of the given parents are ever used',
  '''
import numpy as np
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.abc_smc import ApproxBayesComSMC
from sims_pars.fit.targets import read_targets
class M(DataModel):
    def simulate(self, pars): return Particle(pars, {'A': pars['a']})
np.random.seed(1)
m = M(read_targets({'A': 0.5}), """PCore T {
a ~ unif(0, 1)
}""")
alg = ApproxBayesComSMC(parallel=False, n_iter=10)
alg.set_parents([{'a': i / 100} for i in range(100)])
alg.attach(m)
alg.initialise()
assert any(p.Pars['a'] > 0.3 for p in alg.State.Particles)
''')
s('c27-taken-twice', 'C27', [('util.py', '    assert fn_name not in DATA_FUNC\n    DATA_FUNC[fn_name] = fn', '    DATA_FUNC.setdefault(fn_name, fn)')],
  'a data function registered under a name that is taken', 'a second data function of the same name is accepted silently and never used',
  '''
from sims_pars.util import add_data_func
add_data_func('vpdemo', lambda x: x)
try:
    add_data_func('vpdemo', lambda x: -x)
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
''')
s('c15-other-groups-samplers', 'C15', [('simulation/simugroup.py', '        if parent.ChildrenActors is None:\n            parent.ChildrenActors = dict()\n        parent.ChildrenActors[self.Name] = actors', '        parent.ChildrenActors = {self.Name: actors}')],
  'shared samplers of two groups below one core, both handed out before an intervention', 'the shared samplers of the group asked first no longer follow interventions',
  '''
from sims_pars import bayes_net_from_script
from sims_pars.simulation import NodeSet, as_simulation_core
bn = bayes_net_from_script("""PCore T {
a ~ unif(0, 1)
b ~ norm(a, 0.001)
c ~ norm(a, 0.001)
}""")
ns = NodeSet('root', as_fixed=['a'])
ns.new_child('g1', as_floating=['b'])
ns.new_child('g2', as_floating=['c'])
p = as_simulation_core(bn, ns).generate('p')
b = p.breed('x', 'g1').get_sampler('b')
c = p.breed('y', 'g2').get_sampler('c')
p.impulse({'a': 50})
assert abs(b() - 50) < 1 and abs(c() - 50) < 1, (b(), c())
''')
s('c21-some-simulations', 'C21', [('fit/hme/alg.py', '            emu.train(xss, yss)\n', '            emu.train(xss[:50], yss[:50])\n')],
  'waves of more than fifty simulations', 'the emulators are trained on the first fifty simulations only',
  '''
import sys, types
import numpy as np
seen = []
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.targets import read_targets
from sims_pars.fit.hme.alg import BayesHistoryMatching, StateHME, Matchers
from sims_pars.fit.converter import get_converter
class M(DataModel):
    def simulate(self, pars): return Particle(pars, {'A': pars['a']})
class Emu:
    def train(self, xs, ys): seen.append(len(xs))
    def predict(self, xs): return np.zeros(len(xs)), np.ones(len(xs))
m = M(read_targets({'A': 0.5}), """PCore T {
a ~ unif(0, 1)
}""")
alg = BayesHistoryMatching(n_sims=60, n_ems=20)
alg.attach(m)
alg.Settings['n_pars'] = 1
st = StateHME({'A': Emu()}, [get_converter(d) for d in m.Domain], Matchers(1, m.Data), [], (np.zeros(1), np.ones(1)))
alg._emulate(alg._simulate(st), st)
assert seen == [60], seen
''')
