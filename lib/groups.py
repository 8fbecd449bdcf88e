"""Random trees of groups and declarations for simulation cores"""


def random_tree(rng, names, maxg=4, p=None):
    """{group: (up, fx, fl)}, root first; declarations are drawn at random"""
    n = rng.choice([1, 2, 2, 3, 3, maxg, maxg, 5])
    chain = rng.random() < .4
    gs = rng.choice([['root', 'mid', 'leaf', 'side', 'tip'], ['A', 'B', 'C', 'D', 'E'], ['g1', 'g10', 'g2', 'g', 'h']])[:n]
    tree = {}
    p = p if p is not None else rng.choice([.1, .25, .4])
    for i, g in enumerate(gs):
        up = '' if i == 0 else gs[i - 1] if chain else rng.choice(gs[:i])
        fx = [x for x in names if rng.random() < p]
        fl = [x for x in names if x not in fx and rng.random() < p]
        tree[g] = (up, fx, fl)
    return tree


def consistent(net, tree):
    """The declarations which the specification calls consistent and not refused"""
    anc = {}

    def up(x):
        if x not in anc:
            anc[x] = set(net[x][1]).union(*[up(y) for y in net[x][1]])
        return anc[x]
    for x in net:
        up(x)

    def above(g):
        r = []
        while tree[g][0]:
            g = tree[g][0]
            r.append(g)
        return r
    sure = {x for x in net if net[x][0] in ('Value', 'ExoValue')}
    for g, (u, fx, fl) in tree.items():
        for f in fl:
            if any(f in anc[x] for x in fx):
                return False
        if u and (set(fl) & sure or any(net[x][0] == 'ExoValue' for x in fx)):
            return False
        if not u and any(net[x][0] == 'ExoValue' for x in fl):
            return False
        for h in above(g):
            for x in tree[h][1]:
                if x in fx or x in fl or anc[x] & (set(fx) | set(fl)):
                    return False
    return True


def repair(rng, net, tree):
    """Drop declarations until they are consistent"""
    tree = {g: (u, list(fx), list(fl)) for g, (u, fx, fl) in tree.items()}
    for _ in range(60):
        if consistent(net, tree):
            return tree
        g = rng.choice([g for g in tree if tree[g][1] or tree[g][2]])
        lst = rng.choice([l for l in tree[g][1:] if l])
        lst.pop(rng.randrange(len(lst)))
    return tree


def nodeset(rng, tree):
    """The real tree of node sets, built through one of the public ways"""
    from sims_pars.simulation import NodeSet
    made = {}
    late = []
    kind = rng.choice([list, set, tuple])
    for g, (u, fx, fl) in tree.items():
        a, b = (kind(fx) if fx or rng.random() < .5 else None), (kind(fl) if fl or rng.random() < .5 else None)
        if not u:
            made[g] = NodeSet(g, a, b)
        elif rng.random() < .6:
            made[g] = made[u].new_child(g, a, b)
        else:
            made[g] = NodeSet(g, as_fixed=a, as_floating=b)
            late.append((u, g))
    for u, g in late:
        made[u].add_child(made[g])
    return made[next(iter(tree))]


def tree_record(tree):
    return [{'g': g, 'up': u, 'fx': sorted(fx), 'fl': sorted(fl)} for g, (u, fx, fl) in tree.items()]
