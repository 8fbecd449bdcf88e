"""C13-C16: parameter cores. Specification: SimCore, SimCoreMC, SimCoreTrace."""
import random
import vp, tracker, groups
from chk_sampling import POOLS, small_nets, lp_of, pairs

OUT = ['out1', 'zz']


class World:
    """One simulation core, its parameter cores, and the records about them"""
    def __init__(self, rng, net, tree):
        from sims_pars.simulation import as_simulation_core
        self.rng, self.net, self.tree = rng, net, tree
        tracker.prepare()
        tracker.STATE.update(serial=1000000, strict=False, nan=False)
        tracker.reset(net)
        self.bn = tracker.build(rng, net)
        self.sc = as_simulation_core(self.bn, groups.nodeset(rng, tree))
        if rng.random() < .2:
            self.sc = self.sc.clone()
        self.root = next(iter(tree))
        self.cores, self.ids, self.handles, self.dead, self.shy = {}, {}, [], set(), set()
        self.got, self.fixed = [], {}
        for g in tree:
            js = self.sc[g].to_json()
            self.got.append({'g': g, 'f': js['BeFixed'], 'l': js['BeFloating'], 'samplers': sorted(self.offered(g))})
            self.fixed[g] = js['BeFixed']
        self.samplers = {r['g']: r['samplers'] for r in self.got}
        self.out = [{'op': 'start', 'net': tracker.net_record(net), 'tree': groups.tree_record(tree), 'got': self.got,
                     'cores': [], 'log': []}]
        tracker.take()
        self.serial = 0

    def offered(self, g):
        path = [g]
        while self.tree[path[0]][0]:
            path.insert(0, self.tree[path[0]][0])

        def go():
            pc = self.sc.generate('probe', self.exo())
            for h in path[1:]:
                pc = pc.breed('p', h)
            return list(pc.list_actors(shared=False))
        ok, r = vp.attempt(go)
        return r if ok else ['?']

    def exo(self):
        return {x: -self.rng.randint(1, 300) for x in self.net if self.net[x][0] == 'ExoValue'}

    # ---- state
    def idof(self, pc):
        if pc is None:
            return 0
        if id(pc) not in self.ids:
            self.ids[id(pc)] = len(self.ids) + 1
            self.cores[self.ids[id(pc)]] = pc
            for ch in pc.Children.values():
                self.idof(ch)
        return self.ids[id(pc)]

    def snap(self):
        for pc in list(self.cores.values()):
            self.idof(pc.Parent)
            for ch in pc.Children.values():
                self.idof(ch)
        res = []
        for i, pc in sorted(self.cores.items()):
            view = []
            for x in list(self.net) + OUT:
                try:
                    view.append([x, pc[x]])
                except KeyError:
                    pass
            res.append({'id': i, 'g': pc.Group, 'nick': pc.Nickname, 'up': self.idof(pc.Parent), 'own': pairs(pc.Locus),
                        'lp': lp_of(pc.LogProb), 'kids': [[k, self.idof(ch)] for k, ch in pc.Children.items()],
                        'view': pairs(dict(view)), 'pairs': pairs(dict(iter(pc)))})
        return res

    def emit(self, **rec):
        rec['log'] = tracker.take()
        rec['cores'] = self.snap()
        self.out.append(rec)

    def alive(self):
        return [i for i in self.cores if i not in self.dead]

    def view(self, i):
        return dict(iter(self.cores[i]))

    def given(self, g, up):
        """Supplied values: variables fixed in the group and not above, and unknown names"""
        rng = self.rng
        above = set(self.view(up)) if up else set()
        r = {x: -rng.randint(1, 300) for x in self.fixed[g] if x not in above and rng.random() < .15}
        if rng.random() < .15:
            r[rng.choice(OUT)] = -rng.randint(1, 50)
        if not up:
            r.update(self.exo())
        return r

    def new_nick(self):
        self.serial += 1
        return 'n%d' % self.serial

    # ---- operations
    def generate(self):
        if len(self.out) > 2 and sum(pc.Parent is None for pc in self.cores.values()) > 2:
            return
        g = self.given(self.root, 0)
        nick = self.new_nick()
        exo = dict(g)
        if self.rng.random() < .2:
            from sims_pars.bayesnet import Chromosome
            exo = Chromosome(exo)
        tracker.take()
        ok, pc = vp.attempt(self.sc.generate, nick, exo)
        i = self.idof(pc) if ok else 0
        self.emit(op='generate', up=0, g=self.root, nick=nick, given=pairs(g), ok=ok, id=i, error='' if ok else pc)

    def breed(self, how='breed'):
        rng = self.rng
        cs = self.alive()
        if how == 'sibling':
            cs = [i for i in cs if self.cores[i].Parent is not None]
        elif rng.random() < .93:
            cs = [i for i in cs if any(t[0] == self.cores[i].Group for t in self.tree.values())]
        if not cs:
            return self.generate()
        i = rng.choice(cs)
        pc = self.cores[i]
        kids = [g for g in self.tree if self.tree[g][0] == pc.Group]
        bad = rng.random()
        g = pc.Group if how == 'sibling' else rng.choice(list(self.tree) + ['nosuch']) if bad < .06 or not kids else rng.choice(kids)
        host = pc.Parent if how == 'sibling' else pc
        up = self.idof(host)
        nick = rng.choice(list(host.Children)) if host.Children and rng.random() < .06 else self.new_nick()
        gv = self.given(g, up) if g in self.tree else {}
        exo = (dict(gv) if gv or rng.random() < .5 else None)
        tracker.take()
        if how == 'breed':
            ok, new = vp.attempt(pc.breed, nick, g, exo) if rng.random() < .5 else vp.attempt(pc.breed, nick, g, exo=exo)
        elif how == 'sibling':
            ok, new = vp.attempt(pc.get_sibling, nick, exo)
        else:
            ok, new = vp.attempt(pc.get_prototype, g, exo)
        n = 0
        if ok:
            n = self.idof(new)
            if how == 'prototype':
                self.shy.add(n)
        self.emit(op=how, up=up, g=g, nick=nick, given=pairs(gv), ok=ok, id=n, error='' if ok else new)

    def grow(self):
        """A line of cores from the root group down to a last group"""
        rng = self.rng
        g = rng.choice([g for g in self.tree if g not in [t[0] for t in self.tree.values()]])
        path = [g]
        while self.tree[path[0]][0]:
            path.insert(0, self.tree[path[0]][0])
        roots = [i for i in self.alive() if self.cores[i].Parent is None and i not in self.shy]
        if not roots or len(path) < 2:
            return
        i = rng.choice(roots)
        for h in path[1:]:
            pc = self.cores[i]
            nick = self.new_nick()
            gv = self.given(h, i)
            tracker.take()
            ok, new = vp.attempt(pc.breed, nick, h, dict(gv))
            n = self.idof(new) if ok else 0
            self.emit(op='breed', up=i, g=h, nick=nick, given=pairs(gv), ok=ok, id=n, error='' if ok else new)
            if not ok:
                return
            i = n

    def find(self):
        rng = self.rng
        i = rng.choice([i for i in self.cores if self.cores[i].Children] or list(self.cores))
        path, pc = [], self.cores[i]
        while pc is not None and (not path or rng.random() < .6):
            ks = list(pc.Children)
            k = rng.choice(ks) if ks and rng.random() < .85 else 'nosuch'
            path.append(k)
            pc = pc.Children.get(k)
        src = self.cores[i]
        ok, r = vp.attempt(src.find_descendant, '@'.join(path)) if len(path) > 1 or rng.random() < .5 else \
            vp.attempt(src.get_child, path[0])
        self.emit(op='find', id=i, path=path, found=self.idof(r) if ok else 0, ok=ok)

    def deep(self):
        i = self.rng.choice(list(self.cores))
        pc = self.cores[i]
        ok, v = vp.attempt(lambda: (repr(pc), len(pc), pc.DeepLogPrior)[2])
        self.emit(op='deep', id=i, ok=ok, lp=lp_of(v) if ok else ['bad', 0])

    def handle(self, pc=None, shared=None):
        rng = self.rng
        cs = [i for i in self.alive()]
        if pc is not None:
            cs = [self.idof(pc)]
        elif rng.random() < .95:
            cs = [i for i in cs if self.samplers[self.cores[i].Group]]
        if not cs:
            return self.generate()
        i = rng.choice(cs)
        pc = self.cores[i]
        xs = self.samplers[pc.Group]
        x = rng.choice(xs) if xs and rng.random() < .93 else rng.choice(list(self.net) + ['nosuch'])
        shared = rng.random() < .5 if shared is None else shared
        how = rng.randrange(3)
        tracker.take()

        def get():
            if how == 0:
                return pc.get_sampler(x, shared=shared) if not shared or rng.random() < .5 else pc.get_sampler(x)
            if how == 1:
                return pc.get_samplers(shared)[x]
            if x not in pc.list_actors(shared):
                raise KeyError(x)
            if pc.Parent is not None and shared:
                pc.Parent.get_child_samplers(pc.Group)[x]
            return pc.get_sampler(x, shared)
        ok, h = vp.attempt(get)
        if ok:
            self.handles.append((i, x, h, shared))
        self.emit(op='handle', id=i, x=x, shared=shared, ok=ok, error='' if ok else h)

    def draw(self):
        rng = self.rng
        hs = [h for h in self.handles if h[0] not in self.dead]
        if not hs or rng.random() < .3:
            self.handle()
            hs = [h for h in self.handles if h[0] not in self.dead]
            if not hs:
                return
        i, x, h, shared = rng.choice(hs[-6:] if rng.random() < .5 else hs)
        n = rng.choice([1, 1, 1, 2, 3])
        tracker.take()

        def go():
            if n == 1:
                return [h() if rng.random() < .5 else h.sample()]
            return list(h.sample(n))
        ok, vs = vp.attempt(go)
        good = ok and all(type(v) is int for v in vs)
        self.emit(op='draw', id=i, x=x, n=n, shared=shared, ok=good, vs=vs if good else [], error='' if good else repr(vs))

    def impulse(self, pc=None):
        rng = self.rng
        cs = [i for i in self.alive() if i not in self.shy]
        if not cs:
            return self.generate()
        up = [i for i in cs if self.cores[i].Children]
        i = self.idof(pc) if pc is not None else rng.choice(up if up and rng.random() < .5 else cs)
        pc = self.cores[i]
        above = set(dict(iter(pc.Parent))) if pc.Parent is not None else set()
        free = [x for x in self.net if x not in above and (x not in pc.Locus or x in self.fixed[pc.Group])]
        if not free:
            return
        xs = rng.sample(free, rng.randint(1, min(len(free), rng.choice([1, 1, 2, 3]))))
        u = rng.random()
        R = [x for x in xs if rng.random() < .35] if u < .7 else list(xs)
        g = {x: -rng.randint(1, 300) for x in xs if x not in R}
        if u >= .7:
            imp = list(xs)
        else:
            items = [(x, g.get(x)) for x in xs]
            imp = dict(items)
        tracker.take()
        self.handles = [h for h in self.handles if h[0] not in self.shy]
        self.dead |= self.shy
        ok, e = vp.attempt(pc.impulse, imp)
        self.emit(op='impulse', id=i, given=pairs(g), redraw=sorted(R), ok=ok, error='' if ok else e)

    def clone(self):
        rng = self.rng
        cs = self.alive()
        roots = [i for i in cs if self.cores[i].Parent is None]
        if not roots:
            return self.generate()
        i = rng.choice(roots if rng.random() < .95 else cs)
        pc = self.cores[i]
        deep, cp = rng.random() < .7, rng.random() < .5
        tracker.take()
        ok, new = vp.attempt(pc.clone, copy_sc=cp, include_children=deep)
        m, same = [], True
        if ok:
            def walk(a, b):
                m.append([self.idof(a), self.idof(b)])
                nonlocal same
                same = same and b.SG.Name == a.SG.Name and (b.SG.SC is not a.SG.SC) == cp
                if deep:
                    for k in a.Children:
                        if k in b.Children:
                            walk(a.Children[k], b.Children[k])
            walk(pc, new)
            if any(j in self.dead for j, _ in m):
                self.dead |= {b for _, b in m}
        self.emit(op='clone', id=i, deep=deep, copy=cp, ok=ok, map=[[str(a), b] for a, b in m], sc=same, error='' if ok else new)
        self.out[-1]['map'] = m

    def duplicate(self):
        rng = self.rng
        cs = [i for i in self.alive() if i not in self.shy]
        kids = [i for i in cs if self.cores[i].Parent is not None]
        if not cs:
            return self.generate()
        i = rng.choice(kids if kids and rng.random() < .9 else cs)
        pc = self.cores[i]
        host = pc.Parent
        nick = rng.choice(list(host.Children)) if host is not None and host.Children and rng.random() < .1 else self.new_nick()
        tracker.take()
        ok, new = vp.attempt(pc.duplicate, nick)
        self.emit(op='duplicate', id=i, nick=nick, ok=ok, new=self.idof(new) if ok else 0, error='' if ok else new)

    def detach(self, pc=None):
        rng = self.rng
        cs = [i for i in self.alive() if i not in self.shy]
        kids = [i for i in cs if self.cores[i].Parent is not None]
        if not cs:
            return self.generate()
        i = self.idof(pc) if pc is not None else rng.choice(kids if kids and rng.random() < .92 else cs)
        pc = self.cores[i]
        collect = rng.random() < .7
        root = pc.Parent is None
        if not root:
            down = self.subtree(pc)
            self.handles = [h for h in self.handles if h[0] not in down]
            if not collect:
                self.dead |= down
        tracker.take()
        ok, e = vp.attempt(pc.detach_from_parent, collect_pars=collect) if collect or rng.random() < .5 else vp.attempt(pc.detach_from_parent)
        self.emit(op='detach', id=i, collect=collect, ok=ok, error='' if ok else e)

    def subtree(self, pc):
        r = {self.idof(pc)}
        for ch in pc.Children.values():
            r |= self.subtree(ch)
        return r

    def remove(self, pc=None, nick=None):
        rng = self.rng
        cs = self.alive()
        if not cs:
            return
        i = self.idof(pc) if pc is not None else rng.choice(cs)
        pc = self.cores[i]
        nick = nick or rng.choice(list(pc.Children)) if pc.Children and rng.random() < .85 else 'nosuch'
        if nick in pc.Children:
            down = self.subtree(pc.Children[nick])
            self.handles = [h for h in self.handles if h[0] not in down]
            self.dead |= down
        tracker.take()
        ok, r = vp.attempt(pc.remove_children, nick)
        self.emit(op='remove', id=i, nick=nick, ok=ok, found=self.idof(r) if ok else -1)

    def renew(self):
        """All the cores of a group leave, something changes above, and another one comes"""
        rng = self.rng
        cs = [i for i in self.alive() if i not in self.shy and self.cores[i].Children]
        if not cs:
            return self.breed()
        i = rng.choice(cs)
        pc = self.cores[i]
        g = rng.choice([ch.Group for ch in pc.Children.values()])
        kids = [ch for ch in pc.Children.values() if ch.Group == g]
        self.handle(rng.choice(kids))
        for ch in kids:
            if rng.random() < .5:
                self.detach(ch)
            else:
                self.remove(pc, ch.Nickname)
        self.impulse(pc)
        nick = self.new_nick()
        tracker.take()
        ok, new = vp.attempt(pc.breed, nick, g)
        n = self.idof(new) if ok else 0
        self.emit(op='breed', up=i, g=g, nick=nick, given=[], ok=ok, id=n, error='' if ok else new)
        if ok:
            self.handle(new, True)
            self.draw()

    def reset_sc(self):
        rng = self.rng
        roots = [i for i in self.alive() if self.cores[i].Parent is None]
        if not roots:
            return
        i = rng.choice(roots)
        tracker.take()
        ok, e = vp.attempt(lambda: self.cores[i].reset_sc(self.sc.clone()))
        self.emit(op='reset_sc', id=i, ok=ok, error='' if ok else e)


MIX = {'C13': dict(generate=2, breed=6, sibling=2, prototype=1, find=1, deep=1, impulse=1, draw=1, duplicate=.3, detach=.3),
       'C14': dict(generate=1, breed=3, sibling=.5, prototype=.5, handle=2, draw=7, impulse=2, detach=.3, clone=.3, reset_sc=.1),
       'C15': dict(generate=1, breed=4, impulse=6, draw=4, handle=1, deep=.5, sibling=.5, detach=.3, remove=.3, renew=1.5),
       'C16': dict(generate=1, breed=3, impulse=3, draw=3, handle=1, clone=2, duplicate=1, detach=1, reset_sc=.3, remove=.4, find=.3)}


def star(rng):
    """Many samplers, of two or three groups, which hang on the same fixed variables"""
    hub, kids = ['a', 'b'][:rng.randint(1, 2)], ['s%d' % i for i in range(rng.randint(4, 7))]
    net = {x: ('Distribution', [], 0) for x in hub}
    for x in kids:
        net[x] = ('Distribution', rng.sample(hub, rng.randint(1, len(hub))), 0)
    tree = {'root': ('', hub, [])}
    gs = ['g%d' % i for i in range(rng.randint(2, 3))]
    for g in gs:
        up = 'root' if g == 'g0' or rng.random() < .8 else 'g0'
        tree[g] = (up, [], [])
    for i, x in enumerate(kids):
        tree[gs[i % len(gs)] if rng.random() < .5 else rng.choice(gs)][2].append(x)
    return net, groups.repair(rng, net, tree)


def history(args):
    prop, net, tree, seed, n = args
    rng = random.Random(seed)
    if net is None:
        names = rng.choice(POOLS)[:rng.choice([2, 3, 4, 5, 5])]
        if rng.random() < .15:
            names = names + ['u%d' % i for i in range(3)]
        net = tracker.random_net(rng, names)
    if tree is None:
        for _ in range(6):
            tree = groups.repair(rng, net, groups.random_tree(rng, list(net), p=rng.choice([.25, .4, .6])))
            if len(tree) > 1 and sum(len(t[1]) + len(t[2]) for g, t in tree.items() if t[0]) > 0:
                break
    w = World(rng, net, tree)
    mix = MIX[prop]
    ops, wts = list(mix), list(mix.values())
    w.generate()
    if rng.random() < .5:
        w.grow()
    for _ in range(n):
        if len(w.cores) > 14:
            ops2 = [o for o in ops if o not in ('generate', 'breed', 'sibling', 'prototype', 'clone', 'duplicate')]
            op = rng.choices(ops2, [mix[o] for o in ops2])[0]
        else:
            op = rng.choices(ops, wts)[0]
        if op in ('breed', 'sibling', 'prototype'):
            w.breed(op)
        else:
            getattr(w, op)()
    return w.out


def run(c, prop):
    big = vp.THOROUGH
    rng = random.Random(vp.SEED)
    inv = ['AgreeAll', 'Complete', 'Links', 'StepRight']
    ab, abc = '{"a","b"}', '{"a","b","c"}'
    runs = [(ab, 'Chain2', 4, 4, 'all')]
    if big:
        runs += [(ab, 'Chain3', 4, 4, 'all'), (ab, 'Fork', 4, 4, 'all'), (abc, 'Chain2', 2, 3, 'all'), (abc, 'Chain3', 3, 4, 'some')]
    for names, ups, cores, acts, mode in runs:
        c.count_model(vp.model_check('SimCoreMC', {'V0': names, 'MaxCores': cores, 'MaxActs': acts, 'Mode': '"%s"' % mode},
                                     inv, extra=['CONSTANT Ups <- ' + ups], workers=8, timeout=3000, mem='8g'))
    jobs = []
    for _ in range(4000 if big else 320):
        jobs.append((prop, None, None, rng.random(), rng.choice([10, 20, 30])))
    for net in rng.sample(list(small_nets(['a', 'b', 'c'])), 200 if big else 40):
        jobs.append((prop, net, None, rng.random(), 25))
    for _ in range(400 if big else 40):
        jobs.append((prop, *star(rng), rng.random(), 30))
    cases = vp.pmap(history, jobs)
    c.check('SimCoreTrace', cases, {prop})
    ops = {}
    for x in cases:
        for r in x:
            k = r['op'] + ('' if r.get('ok', True) else '-refused')
            ops[k] = ops.get(k, 0) + 1
    c.note(calls=ops)
