"""C05: graph queries.  Specification: Dag, DagMC, DagTrace."""
import itertools, random
import vp

NAMES = [list('abcdefghijkl'), list('zyxwvutsrqpo'), ['A', 'AB', 'B', 'a', 'b1', 'X', 'C', 'b', 'AC', 'x', 'BA', 'c']]
LETTERS = 'abcdefghijkl'


def subsets(xs):
    return [list(s) for k in range(len(xs) + 1) for s in itertools.combinations(xs, k)]


def case(args):
    from sims_pars.bayesnet.dag import DAG, minimal_dag, minimal_requirements, get_sufficient_nodes, \
        get_minimal_nodes, get_offsprings, merge_dag
    edges, n, seed, cap = args
    rng = random.Random(seed)
    nm = rng.choice(NAMES)[:n]
    m = dict(zip(LETTERS, nm))
    edges = [[m[a], m[b]] for a, b in edges]
    backbone = [edges[0][0]] + [b for _, b in edges[:n - 1]] if n > 7 else []        # the chain comes first

    def make():
        g = DAG()
        xs = list(nm)
        rng.shuffle(xs)
        es = list(edges)
        rng.shuffle(es)
        if rng.random() < .5:
            g.add_nodes_from(xs)
            g.add_edges_from(es)
        else:
            for a, b in es:
                g.add_edge(a, b)
            g.add_nodes_from(xs)
        return g

    g = make()
    state = (sorted(g.nodes), sorted(g.edges))
    qs, changed = [], []

    def put(f, a, b, ok, r, e=()):
        qs.append({'f': f, 'a': list(a), 'b': list(b), 'ok': ok, 'r': list(r) if ok else [], 'e': [list(x) for x in e],
                   'error': '' if ok else str(r)})

    def ask(f, fn, a=(), b=()):
        ok, r = vp.attempt(fn)
        put(f, a, b, ok, r)
        if (sorted(g.nodes), sorted(g.edges)) != state:
            changed.append(f)

    def kind(xs, allow_none=True):
        u = rng.random()
        if not xs and allow_none and u < .5:
            return None
        return list(xs) if u < .5 else set(xs) if u < .75 else {x: 1 for x in xs}

    for x in nm:
        ask('parents', lambda: g.parents(x), [x])
        ask('children', lambda: g.children(x), [x])
        ask('ancestors', lambda: g.ancestors(x), [x])
        ask('descendants', lambda: g.descendants(x), [x])
    ask('roots', g.roots)
    ask('leaves', g.leaves)
    ask('order', g.order)
    ask('acyclic', lambda: ['yes'] if g.check_acyclic() else ['no'])
    sets, far = subsets(nm), []
    if n > 7:
        rank = {y: i for i, y in enumerate(backbone)}
        far = sorted(map(list, itertools.combinations(nm, 2)), key=lambda p: -abs(rank[p[0]] - rank[p[1]]))[:4]
        sets = far + [[]] + rng.sample(sets, 40)
    pick = sets if len(sets) <= cap else far + rng.sample(sets, cap - len(far))
    for s in pick:
        rng.shuffle(s)
        ask('upstream', lambda: g.upstream(s), s)
        ask('downstream', lambda: g.downstream(s), s)
        ask('offsprings', lambda: get_offsprings(g, s), s)
        ask('sort', lambda: g.sort(s), s)
        def md():
            return minimal_dag(g, s)
        ok, r = vp.attempt(md)
        put('minimal_dag', s, [], ok, r.nodes if ok else r, r.edges if ok else ())
    pairs = [(s, t) for s in sets for t in sets]
    for s, t in (pairs if len(pairs) <= cap * 4 else rng.sample(pairs, cap * 4)):
        t = list(t)
        if rng.random() < .1:
            t.append('zz')
        if rng.random() < .1 and t:
            ask('sufficient', lambda: get_sufficient_nodes(g, included=kind(s, False), given=kind(t)), s, t)
        ask('sufficient', lambda: get_sufficient_nodes(g, kind(s, False), kind(t)), s, t)
        ask('minimal', lambda: get_minimal_nodes(g, kind(s, False), kind(t, False)), s, t)
        if s:
            ask('requirements', lambda: minimal_requirements(g, s[0], kind(t, False)), s[:1], t)
    # changes, each on a graph of its own
    def change(f, arg, a):
        h = make()
        ok, r = vp.attempt(lambda: getattr(h, f)(arg))
        put(f, a, [], ok, list(h.nodes) if ok else r, list(h.edges) if ok else ())
    for x in nm:
        change('remove_out_edges', x, [x])
        change('remove_in_edges', x, [x])
        change('remove_upstream', x, [x])
        change('remove_downstream', x, [x])
    for s in rng.sample(sets, min(len(sets), 4)):
        change('remove_upstream', list(s), s)
        change('remove_downstream', list(s), s)
    # a second graph over some of the same names: the union of both, which need not be acyclic
    for _ in range(6):
        xs = [x for x in nm + ['k1', 'k2'] if rng.random() < .6]
        rng.shuffle(xs)
        h = DAG()
        h.add_nodes_from(xs)
        es = [[x, y] for i, x in enumerate(xs) for y in xs[i + 1:] if rng.random() < .4]
        h.add_edges_from(es)
        ok, r = vp.attempt(lambda: merge_dag(g, h))
        if ok:
            other = {'nodes': xs, 'edges': es}
            put('merge', [], [], isinstance(r, DAG), r.nodes, r.edges)
            qs[-1]['h'] = other
            put('merge_acyclic', [], [], True, ['yes'] if r.check_acyclic() else ['no'])
            qs[-1]['h'] = other
            if (sorted(g.nodes), sorted(g.edges)) != state or (sorted(h.nodes), sorted(map(list, h.edges))) != (sorted(xs), sorted(es)):
                changed.append('merge')
        else:
            put('merge', [], [], False, r)
    return [{'nodes': list(nm), 'edges': edges, 'q': qs, 'changed': changed}]


def rnd_dag(rng, n):
    xs = list(LETTERS[:n])
    rng.shuffle(xs)
    if n > 7:       # a long chain with a few short cuts
        return [[a, b] for a, b in zip(xs, xs[1:])] + [[xs[i], xs[j]] for i in range(n) for j in range(i + 2, n) if rng.random() < .06]
    p = rng.choice([.2, .4, .6, .9])
    return [[xs[i], xs[j]] for i in range(n) for j in range(i + 1, n) if rng.random() < p]


def run(c, prop):
    big = vp.THOROUGH
    inv = ['SufficientIsLeast', 'MinimalNeeded', 'BetweenIsPaths', 'RequirementsRight', 'Dual', 'SidesAcyclic']
    c.count_model(vp.model_check('DagMC', {'V0': '{"a","b","c"}'}, inv))
    c.count_model(vp.model_check('DagMC', {'V0': '{"a","b","c","d"}'}, inv if big else inv[1:3], workers=8, timeout=3000))
    rng = random.Random(vp.SEED)
    jobs = []
    for n in (1, 2, 3, 4):
        r = vp.tlc('DagMC', 'InitG', 'Next', {'V0': '{%s}' % ','.join('"%s"' % x for x in 'abcd'[:n])}, ['Emit'])
        dags = r.prints_json('D')
        if len(dags) != {1: 1, 2: 3, 3: 25, 4: 543}[n]:
            raise vp.MachineryError('generation of graphs failed')
        for d in dags:
            for _ in range(3 if big and n < 4 else 1):
                jobs.append((d, n, rng.random(), 64 if big or n < 4 else 10))
    c.note(exhaustive_graphs=len(jobs))
    for _ in range(3000 if big else 150):
        n = rng.choice([5, 6, 7])
        jobs.append((rnd_dag(rng, n), n, rng.random(), 30 if big else 12))
    for i in range(200 if big else 24):
        n = rng.choice([8, 9, 9, 12] if i % 4 == 0 else [8, 9])
        jobs.append((rnd_dag(rng, n), n, rng.random(), 8))
    cases = vp.pmap(case, jobs)
    c.check('DagTrace', cases, {'C05'})
    c.note(answers=sum(len(r['q']) for case_ in cases for r in case_))
    c.cov['samples'] = [{'nodes': x[0]['nodes'], 'edges': x[0]['edges'], 'q': x[0]['q'][:5]} for x in cases[30:33]]
