"""C12: allocation of variables to groups. Specification: Alloc, AllocMC, AllocTrace."""
import itertools, random
import vp, tracker, groups
from chk_sampling import POOLS, small_nets

TREES = [[('r', '')], [('r', ''), ('a', 'r')], [('r', ''), ('a', 'r'), ('b', 'r')], [('r', ''), ('a', 'r'), ('b', 'a')],
         [('r', ''), ('a', 'r'), ('b', 'a'), ('c', 'r')], [('r', ''), ('a', 'r'), ('b', 'a'), ('c', 'b')]]


def whole(net, how):
    """One group for a whole network, as the ready-made ways of making a simulation core describe it"""
    inner = {y for x in net for y in net[x][1]}
    return {'Root': ('', list(net) if how == 'fixed' else [],
                     [] if how == 'fixed' else list(net) if how == 'floating' else [x for x in net if x not in inner])}


def allocate(rng, net, tree, how=''):
    from sims_pars.simulation.fn import as_simulation_core, get_all_float_sc, get_all_fixed_sc, find_free_parameters
    tracker.prepare()
    tracker.reset(net)
    bn = tracker.build(rng, net)
    if how:
        tree = whole(net, how)
    rec = {'net': tracker.net_record(net), 'tree': groups.tree_record(tree), 'got': [], 'root': '', 'free': [], 'how': how, 'error': ''}

    def go():
        if how in ('floating', 'fixed'):
            script = bn.to_script() if rng.random() < .5 else 'PCore N {\n%s\n}' % '\n'.join(
                tracker.definition(x, *net[x]) for x in sorted(net, key=lambda x: rng.random()))
            sc = (get_all_float_sc if how == 'floating' else get_all_fixed_sc)(script)
        elif how:
            sc = as_simulation_core(bn, None) if rng.random() < .3 else as_simulation_core(bn)
        else:
            sc = as_simulation_core(bn, groups.nodeset(rng, tree))
        if rng.random() < .3:
            sc = sc.clone()
        exo = {x: 5 for x in net if net[x][0] == 'ExoValue'}
        pc = {next(iter(tree)): sc.generate('top', exo)}
        got = []
        for g, (u, fx, fl) in tree.items():
            if u:
                pc[g] = pc[u].breed('c_' + g, g)
            js = sc[g].to_json()
            assert js['Name'] == g
            a, b = set(pc[g].list_actors(shared=True)), set(pc[g].list_actors(shared=False))
            c = set(pc[g].get_samplers())
            if u:
                d = set(pc[u].get_child_samplers(g))
                assert d == a, 'child samplers'
            assert a == b == c, 'shared and local samplers differ'
            got.append({'g': g, 'f': js['BeFixed'], 'l': js['BeFloating'], 'exo': js['Exogenous'], 'listen': js['Listening'],
                        'kids': js['Children'], 'samplers': sorted(a)})
        free = find_free_parameters(sc, exo) if exo or rng.random() < .5 else find_free_parameters(sc)
        return got, sc.to_json()['Root'], free
    ok, r = vp.attempt(go)
    rec['ok'] = ok
    if ok:
        rec['got'], rec['root'], rec['free'] = r
    else:
        rec['error'] = r
    return rec


def case(args):
    net, trees, seed = args
    rng = random.Random(seed)
    out = []
    if net is None:
        for _ in range(20):
            names = rng.choice(POOLS)[:rng.choice([2, 3, 4, 5])]
            if rng.random() < .2:
                names = names + ['u%d' % i for i in range(4)]
            net = tracker.random_net(rng, names)
            t = groups.random_tree(rng, list(net))
            if rng.random() < .7:
                t = groups.repair(rng, net, t)
            out.append(allocate(rng, net, t))
        for how in ('floating', 'fixed', 'leaves'):
            net = tracker.random_net(rng, rng.choice(POOLS)[:rng.choice([1, 2, 3, 4, 5])],
                                     kinds=['Value', 'Distribution'] if how != 'fixed' else None)
            out.append(allocate(rng, net, None, how))
    else:
        for t in trees:
            out.append(allocate(rng, net, t))
    return out


def declarations(names, shape):
    opts = [''.join(o) for o in itertools.product('-fl', repeat=len(names))]
    for ds in itertools.product(opts, repeat=len(shape)):
        yield {g: (u, [x for x, o in zip(names, d) if o == 'f'], [x for x, o in zip(names, d) if o == 'l'])
               for (g, u), d in zip(shape, ds)}


def run(c, prop):
    big = vp.THOROUGH
    rng = random.Random(vp.SEED)
    inv = ['Satisfiable', 'CoresComplete', 'Reachable']
    four = '{"Value","ExoValue","Distribution","Function"}'
    c.count_model(vp.model_check('AllocMC', {'V0': '{"a","b"}', 'KindsUsed': four, 'Shapes': '{1,2,3,4}'}, inv, workers=4))
    if big:
        c.count_model(vp.model_check('AllocMC', {'V0': '{"a","b","c"}', 'KindsUsed': four, 'Shapes': '{1,2}'}, inv,
                                     workers=8, timeout=3000, mem='8g'))
        c.count_model(vp.model_check('AllocMC', {'V0': '{"a","b","c"}', 'KindsUsed': '{"Distribution","Function"}', 'Shapes': '{4}'},
                                     inv, workers=8, timeout=3000, mem='8g'))
    jobs = []
    nets = list(small_nets(['a', 'b', 'c']))
    for net in (nets if big else rng.sample(nets, 60)):
        for shape in TREES[1:4] if big else TREES[1:2]:
            ts = list(declarations(list(net), shape)) if len(shape) == 2 else \
                [groups.random_tree(rng, list(net), p=.4) for _ in range(40)]
            if len(shape) == 2 and not big:
                ts = rng.sample(ts, 60)
            jobs.append((net, ts, rng.random()))
    jobs += [(None, None, rng.random()) for _ in range(3000 if big else 300)]
    cases = vp.pmap(case, jobs)
    c.check('AllocTrace', cases, {prop})
    c.note(allocations=sum(map(len, cases)), refused=sum(not r['ok'] for x in cases for r in x))
