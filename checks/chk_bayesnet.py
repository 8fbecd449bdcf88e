"""C01-C04: networks built by definitions.  Specification: BayesNet, BayesNetMC, BayesNetGen, BayesNetTrace."""
import itertools, json, random, re
import vp
from sims_pars import util


class Table:
    """A data function, so that definitions may draw from it"""
    def __call__(self):
        return self

    def get_sampler(self, loc=None):
        raise ValueError('nothing is drawn here')


if 'vptab' not in util.DATA_FUNC:
    util.add_data_func('vptab', Table())

POOLS = [['a', 'b', 'c', 'd', 'e', 'g'], ['gamma', 'norm', 'x', 'beta1', 'k2', 'unif'],
         ['B', 'A', 'AB', 'BA', '_u', 'b'], ['size', 'rate', 'mu', 'p', 'loc', 'n_1'],
         ['exp2', 'fa', 'f', 'cat', 'Xx', 'e1']]
DES = ['', '', 'D1', 'note;2', 'p#q', 'a=b~c', 'ü{}', 'rate of  decay', 'x if "y" # z']
FN = ['exp(%s)', '%s', '2*%s', 'sqrt(abs(%s))', 'ifelse(%s > 1, 2, 3)', '%s/7', '(2 if %s > 1 else 3)', '(%s and 2)',
      '(not %s)', '(5 if"#"else %s)']
NAMES = ['NetA', 'net_1', 'PCore', 'Net A', 'my-net', '2nd']
ILL = ['a ~~ b', '~ norm(0,1)', 'a + b', 'a ~ nosuch(1, 2)', 'a =', '= 5', 'a ~', '', '   ', '# only a remark',
       'a ~ norm(', 'a = (1 +', 'a = b +', '(a) = 3', 'a b ~', 'a.b = 3', 'a, b = 3', 'a ~ nosuch(b)',
       'a ~ unif(low=1', 'a = )', 'a ~ norm(b,)(', 'a: 5',
       'a.b', 'a.b.c', 'a-b', 'a;', 'a!', 'a:b', 'a,b', 'a(', 'a()', 'a[0]', '"a"', 'a/b', '{a}', '+a', 'a*', 'a?', '@a', 'a%',
       'a = b = 5', 'a = 1; b', 'a = x; y', 'a = b += 5', 'a == 5', 'a = b : c', 'a = *b', 'a.b ~ norm(0, 1)', 'a-b = 3',
       'a ~ norm(0, 1) + 5', 'a ~ 2*norm(0, 1)', 'a ~ -norm(0, 1)', 'a ~ [norm(0, 1)]', 'a ~ norm(0, 1).x',
       'a ~ norm(0, 1), gamma(1, 1)', 'a ~ norm(0, 1); b', 'a ~ x = norm(0, 1)', 'a ~ norm(0, 1) = 3', 'a ~ norm',
       'a ~ b', 'a ~ 5', 'a ~ norm(0, 1)(2)', 'a ~ norm(0, 1)[0]', 'a ~ norm(0, 1) if b else 2', 'a ~ (norm(0, 1)',
       'a ~ norm(0, 1) ~ b', 'a ~= 5', 'a = f(b) + 1', 'a = f(b) + g(c)', 'a = f(b)*f(c)', 'a = f(b', 'a = f(b))', 'a = f(b)(c)',
       'a = f(b).c', 'a = 2 +* b', 'a = b c = 2', 'a = exp(b', 'a = exp b)', 'a = 1 2 +', 'a = b $ c', 'a = b?', 'a = b!']


def line_of(rng, x, kind, par, tag):
    """One definition line of the given kind whose expression refers to exactly par"""
    par = list(par)
    rng.shuffle(par)
    terms = [rng.choice(FN) % p for p in par]
    sp = rng.choice(['', ' '])
    if kind == 'Value':
        return '%s%s=%s%s' % (x, sp, sp, value_text(rng, tag))
    if kind == 'ExoValue':
        return x
    if kind == 'Function':
        terms.append(str(tag))
        rng.shuffle(terms)
        return '%s%s=%s%s' % (x, sp, sp, rng.choice([' + ', '*', ' - ']).join(terms))
    if kind == 'Pseudo':
        return '%s%s=%sf(%s)' % (x, sp, sp, (',' + sp).join(par))
    k = rng.randint(0, len(terms))
    one, two = terms[:k], terms[k:]
    (one if rng.random() < .5 else two).append(str(tag))
    one, two = ' + '.join(one) or '1', ' + '.join(two) or '2'
    form = rng.choice(['norm({0},{1})', 'norm(mu={0}, sd={1})', 'norm(sd={0}, mu={1})', 'gamma({0}, rate={1})',
                       'unif({0}, upper={1})', 'lnorm({1}, sdlog={0})', 'beta({0}, {1})', 'k({0})', 'exp({0})', 'vptab({0}, {1})', 'vptab({1}, x={0})'])
    if form in ('k({0})', 'exp({0})'):
        return '%s ~ %s' % (x, form.format(one + ' + ' + two))
    return '%s%s~%s%s' % (x, sp, sp, form.format(one, two))


TEXT = 20000      # constants which are texts
HUGE = {'inf': 30001, '-inf': 30002, 'nan': 30003}
FALSY = {100001: '0', 100002: '0.0', 100003: 'False', 100004: "''", 100005: 'None'}
# constants with many digits: offset of the tag, text, value, and the number in a value
LONG = {40000: ('%d + 1/3', lambda t: t + 1 / 3, lambda v: int(v)),
        60000: ('%d*1e-13', lambda t: t * 1e-13, lambda v: round(v / 1e-13)),
        80000: ('%d*10**16 + 1', lambda t: t * 10 ** 16 + 1, lambda v: (int(v) - 1) // 10 ** 16)}


def value_text(rng, tag):
    if tag in FALSY:
        return FALSY[tag]
    if tag in HUGE.values():
        return {30001: rng.choice(['float("inf")', '1e999', "float('inf')"]), 30002: '-1e999', 30003: 'float("nan")'}[tag]
    if tag > min(LONG):
        return LONG[tag // 20000 * 20000][0] % (tag % 20000)
    if tag > TEXT:
        return rng.choice(['"%d"', "'a %d'", '"#%d"', '"it\'s %d"', "'%d = b ~ c'"]) % (tag - TEXT)
    return rng.choice(['%d', '%d', '%d.0', '(%d,)']) % tag


def tag_of(kind, d, loci):
    if kind in ('ExoValue', 'Pseudo'):
        return 0
    if kind == 'Value':
        v = loci.render()
        for k, text in FALSY.items():
            if repr(v) == text:
                return k
        if isinstance(v, str):
            return TEXT + tag_of('', v, None)
        if str(v) in HUGE:
            return HUGE[str(v)]
        for off, (_, fn, inv) in LONG.items():
            if type(v) in (int, float) and 1000 < inv(v) < 20000 and fn(inv(v)) == v and v not in range(20000):
                return off + inv(v)
        d = v
    m = re.findall(r'(?<!\w)(\d{4,})(?:\.0)?(?!\w)', str(d))
    return int(m[0]) if len(set(m)) == 1 else -1


def project(bn):
    """The observable state of a network, through its public interface only"""
    try:
        doc = bn.to_json()
        nodes = {}
        for nd in doc['Nodes']:
            x = nd['Name']
            if x in nodes or x not in bn:
                raise ValueError('document lists %s twice or without need' % x)
            loci = bn[x]
            if set(nd.get('Parents', [])) != set(loci.Parents):
                raise ValueError('parents in the document of %s differ' % x)
            kind = nd['Type']
            if kind in ('Function', 'Distribution', 'Value') and nd['Def'] != loci.Definition:
                raise ValueError('definition in the document of %s differs' % x)
            if loci.Name != x or bn.is_rv(x) != (kind == 'Distribution') or \
                    bn.is_exogenous(x) != (kind in ('ExoValue', 'Pseudo')):
                raise ValueError('kind of %s misreported' % x)
            nodes[x] = {'kind': kind, 'par': sorted(loci.Parents), 'tag': tag_of(kind, loci.Definition, loci),
                        'des': nd.get('Des', '')}
        order = list(bn.Order)
        given = random.Random(repr(order) + repr(nodes)).sample(sorted(nodes), min(len(nodes), len(repr(nodes)) % 4))
        return {'name': bn.Name, 'open': not bn.is_frozen(), 'nodes': nodes,
                'edges': sorted([a, b] for a, b in bn.DAG.edges), 'order': order, 'roots': list(bn.Roots),
                'leaves': list(bn.Leaves), 'exo': list(bn.Exo), 'rvroots': list(bn.RVRoots),
                'fns': sorted(bn.UserDefinedFunctions), 'given': given, 'sorted': list(bn.sort(given)),
                'chance': [x for x in nodes if bn.has_randomness(x)],
                'chance_given': [x for x in nodes if bn.has_randomness(x, (set if len(order) % 2 else list)(given))],
                'json': {'order': list(doc['Order']), 'roots': list(doc['Roots']), 'leaves': list(doc['Leaves']),
                         'exo': list(doc['Exo']), 'names': [n['Name'] for n in doc['Nodes']]}}
    except Exception as e:
        return {'name': '?', 'open': True, 'nodes': {}, 'edges': [], 'order': [], 'roots': [], 'leaves': [],
                'exo': [], 'rvroots': [], 'fns': [], 'given': [], 'sorted': [], 'chance': [], 'chance_given': [], 'err': '%s: %s' % (type(e).__name__, e),
                'json': {'order': [], 'roots': [], 'leaves': [], 'exo': [], 'names': []}}


class Session:
    def __init__(self, rng):
        self.rng, self.nets, self.log = rng, {}, []
        self.tags = itertools.count(1001 + rng.randrange(7000))
        self.emit({'op': 'reset'})

    def emit(self, rec):
        rec['nets'] = {k: project(b) for k, b in self.nets.items()}
        self.log.append(rec)
        return rec

    def new(self, i, name):
        from sims_pars.bayesnet import BayesianNetwork
        self.nets[i] = BayesianNetwork(name)
        self.emit({'op': 'new', 'id': i, 'name': name, 'ok': True})

    def define(self, i, x, kind, par, des=None):
        from sims_pars.bayesnet.loci import parse_loci
        rng, bn = self.rng, self.nets[i]
        tag = next(self.tags)
        if kind == 'Value' and rng.random() < .4:
            tag = rng.choice([TEXT + tag, TEXT + tag, rng.choice(list(HUGE.values())), rng.choice(list(FALSY)), rng.choice(list(FALSY)), tag + rng.choice(list(LONG)), tag + rng.choice(list(LONG))])
        des = rng.choice(DES) if des is None else des
        text = line_of(rng, x, kind, par, tag)
        how = rng.choice(['df', 'df', 'loci', 'js'])

        def go():
            if how == 'df':
                bn.append_from_definition(text + (rng.choice([' # ', '#']) + des if des else ''))
            else:
                loci, _ = parse_loci(text)
                if how == 'loci':
                    bn.append_loci(loci, **({'Des': des} if des else {}))
                else:
                    js = loci.to_json()
                    if des:
                        js['Des'] = des
                    bn.append_from_js(js)
        ok, err = vp.attempt(go)
        self.emit({'op': 'define', 'id': i, 'x': x, 'how': how, 'text': text, 'ok': ok, 'error': '' if ok else err,
                   'd': {'kind': kind, 'par': sorted(par), 'des': des,
                         'tag': 0 if kind in ('ExoValue', 'Pseudo') else tag}})

    def bad(self, i, text):
        if isinstance(text, dict):
            ok, err = vp.attempt(lambda: self.nets[i].append_from_js(text))
        else:
            ok, err = vp.attempt(lambda: self.nets[i].append_from_definition(text))
        self.emit({'op': 'bad', 'id': i, 'text': str(text), 'ok': ok, 'error': '' if ok else err})

    def call(self, op, fn, to=None, **info):
        ok, res = vp.attempt(fn)
        if ok and to:
            self.nets[to] = res
        rec = {'op': op, 'ok': ok, 'error': '' if ok else res}
        if to:
            rec['to'] = to
        rec.update(info)
        self.emit(rec)
        return ok

    def complete(self, i):
        self.call('complete', lambda: self.nets[i].complete(), id=i)

    def addfn(self, i, f):
        self.call('addfn', lambda: self.nets[i].add_user_defined_func(f, abs), id=i, f=f)

    def defrost(self, i):
        self.call('defrost', lambda: self.nets[i].defrost(), id=i)

    def copy(self, i, to, name=None):
        self.call('copy', (lambda: self.nets[i].copy(name)) if name else (lambda: self.nets[i].copy()), to, id=i,
                  name=name or self.nets[i].Name)

    def clone(self, i, to):
        self.call('clone', lambda: self.nets[i].clone(), to, id=i)

    def from_json(self, i, to):
        from sims_pars.bayesnet import bayes_net_from_json
        self.call('json', lambda: bayes_net_from_json(json.loads(json.dumps(self.nets[i].to_json()))), to, id=i)

    def from_script(self, i, to):
        from sims_pars.bayesnet import bayes_net_from_script
        self.call('script', lambda: bayes_net_from_script(
            self.rng.choice([self.nets[i].to_script, lambda: str(self.nets[i])])()), to, id=i)

    def from_text(self, i, to):
        """A script written by hand, in any order, with blanks, remarks and tabs"""
        from sims_pars.bayesnet import bayes_net_from_script
        rng, bn = self.rng, self.nets[i]
        doc = bn.to_json()
        lines = []
        for nd in doc['Nodes']:
            x, k = nd['Name'], nd['Type']
            s = {'Value': '{0} = {1}', 'Function': '{0}= {1}', 'Distribution': '{0} ~ {1}', 'ExoValue': '{0}',
                 'Pseudo': '{0} = {1}'}[k].format(x, nd.get('Def'))
            if nd.get('Des'):
                s += ' # ' + nd['Des']
            lines.append(rng.choice(['', '  ', '\t']) + s)
        rng.shuffle(lines)
        for _ in range(rng.randint(0, 2)):
            lines.insert(rng.randint(0, len(lines)), rng.choice(['', '  # a remark', '\t', '   ']))
        text = rng.choice(['\n', '']) + rng.choice(['PCore ', 'pcore ', '  PCore\t']) + bn.Name + rng.choice([' {', '{']) \
            + '\n' + '\n'.join(lines) + '\n}\n'
        self.call('fromtext', lambda: bayes_net_from_script(text), to, id=i, text=text)

    def merge(self, a, b, to, name):
        self.call('merge', lambda: self.nets[a].merge(name, self.nets[b]), to, id=a, **{'with': b, 'name': name})

    def extend(self, a, b, override):
        def go():
            r = self.nets[a].extend(self.nets[b], **({} if override is None else {'override': override}))
            if r is not self.nets[b]:
                self.nets[b] = r
        return self.call('extend', go, id=a, **{'with': b, 'override': override is not False})

    def extend_new(self, a, to):
        self.call('extendnew', lambda: self.nets[a].extend(), to, id=a)


def build(s, i, netspec, name):
    """Define a network of the specification in some order (forward references allowed)"""
    s.new(i, name)
    xs = list(netspec)
    s.rng.shuffle(xs)
    for x in xs:
        s.define(i, x, netspec[x]['kind'], netspec[x]['par'])
    if s.rng.random() < .6:
        s.complete(i)


def rename(netspec, pool):
    m = {k: pool[ord(k) - 97] for k in netspec}
    for nd in netspec.values():
        for p in nd['par']:
            m.setdefault(p, pool[ord(p) - 97])
    return {m[k]: {'kind': v['kind'], 'par': [m[p] for p in v['par']]} for k, v in netspec.items()}


# ---- cases
ILL += [{'Name': 'a', 'Type': 'Mystery', 'Def': '1', 'Parents': []}, {'Name': 'a', 'Type': 'Mystery', 'Def': 'f(b)', 'Parents': ['b']}, {'Name': 'a', 'Def': '1'},
        {'Type': 'Value', 'Def': 1}, {'Name': 'a', 'Type': 'Distribution', 'Def': 'nosuch(1)', 'Parents': []}, {'Name': 'a', 'Type': 'function', 'Def': 'b', 'Parents': ['b']},
        {'Name': 'a', 'Type': 'Function', 'Parents': ['b']}]


def case_history(args):
    h, seed = args
    rng = random.Random(seed)
    pool = rng.choice(POOLS)
    nm = lambda k: pool[ord(k) - 97]
    s = Session(rng)
    s.new('A', 'NetA')
    for m in h:
        s.define('A', nm(m['x']), m['kind'], [nm(p) for p in m['par']])
    s.complete('A')
    if rng.random() < .3:
        m = rng.choice(h)
        s.define('A', nm(m['x']), m['kind'], [nm(p) for p in m['par']])
    return s.log


def case_pair(args):
    na, nb, seed = args
    rng = random.Random(seed)
    pool = rng.choice(POOLS)
    s = Session(rng)
    build(s, 'A', rename(na, pool), rng.choice(NAMES))
    build(s, 'B', rename(nb, pool), 'NetB')
    s.merge('A', 'B', 'C', 'Net  C')
    s.nets.pop('C', None)
    s.emit({'op': 'reset'})
    if s.extend('A', 'B', rng.choice([True, None])):
        s.nets.pop('B')
        s.emit({'op': 'reset'})
        build(s, 'B', rename(nb, pool), 'NetB')
        s.extend('A', 'B', False)
    return s.log


def case_round(args):
    na, seed = args
    rng = random.Random(seed)
    pool = rng.choice(POOLS)
    s = Session(rng)
    spec = rename(na, pool)
    build(s, 'A', spec, rng.choice(NAMES))
    ops = [lambda: s.copy('A', 'C'), lambda: s.copy('A', 'C', 'Other'), lambda: s.clone('A', 'C'),
           lambda: s.from_json('A', 'C'), lambda: s.from_script('A', 'C'), lambda: s.from_text('A', 'C'),
           lambda: s.extend_new('A', 'C')]
    rng.shuffle(ops)
    for op in ops:
        if rng.random() < .4:
            s.addfn('A', 'u%d' % rng.randint(1, 3))
        op()
        # what was made can be written out and read again
        if 'C' in s.nets:
            rng.choice([s.from_json, s.from_script, s.from_text, s.copy, s.clone])('C', 'D')
            s.nets.pop('D', None)
            s.emit({'op': 'reset'})
        # change one of the two afterwards
        for i in rng.sample(['A', 'C'], 2)[:rng.choice([1, 2])]:
            if i in s.nets:
                if rng.random() < .4:
                    s.addfn(i, rng.choice('vw'))
                if s.nets[i].is_frozen():
                    s.defrost(i)
                x = rng.choice(pool[:4])
                s.define(i, x, rng.choice(KINDS), [])
                if rng.random() < .5:
                    s.complete(i)
        s.nets.pop('C', None)
        s.emit({'op': 'reset'})
    return s.log


KINDS = ['Value', 'ExoValue', 'Distribution', 'Function', 'Pseudo']


def rnd_def(s, i, pool, back=.25):
    """Mostly an acceptable definition, sometimes one that closes a cycle"""
    rng = s.rng
    x = rng.choice(pool)
    kind = rng.choice(['Value', 'ExoValue', 'Distribution', 'Distribution', 'Function', 'Function', 'Pseudo'])
    par = []
    if kind not in ('Value', 'ExoValue'):
        cand = list(pool) if rng.random() < back else [y for y in pool if y < x]
        if rng.random() < .9 and x in cand:
            cand.remove(x)
        par = rng.sample(cand, min(len(cand), rng.choice([0, 1, 1, 2, 2, 3])))
    if kind == 'Function' and not par:
        kind = 'Distribution'
    s.define(i, x, kind, par)


def case_random(args):
    seed, n, mix = args
    rng = random.Random(seed)
    pool = rng.sample(rng.choice(POOLS), rng.choice([3, 4, 5, 6]))
    s = Session(rng)
    s.new('A', 'NetA')
    if mix != 'C01':
        s.new('B', 'NetB')
    for _ in range(n):
        ids = sorted(s.nets)
        i = rng.choice(ids)
        u = rng.random()
        if s.nets[i].is_frozen() and u < .25:
            s.defrost(i)
        elif u < .6:
            if s.nets[i].is_frozen() and rng.random() < .7:
                s.defrost(i)
            rnd_def(s, i, pool)
        elif u < (.75 if mix == 'C02' else .64):
            s.bad(i, rng.choice(ILL))
        elif u < .76:
            s.complete(i)
        elif u < .78:
            s.addfn(i, rng.choice('uvw'))
        elif mix in ('C03', 'C04') or u > .9:
            to = rng.choice(['A', 'B', 'C'])
            op = rng.choice(['copy', 'clone', 'json', 'script', 'text', 'new', 'merge', 'extend'] if mix != 'C04'
                            else ['copy', 'merge', 'merge', 'extend', 'extend'])
            j = rng.choice(ids)
            if op == 'copy':
                s.copy(i, to, rng.choice([None, 'Copy']))
            elif op == 'clone':
                s.clone(i, to)
            elif op == 'json':
                s.from_json(i, to)
            elif op == 'script':
                s.from_script(i, to)
            elif op == 'text':
                s.from_text(i, to)
            elif op == 'new':
                s.extend_new(i, to)
            elif op == 'merge':
                s.merge(i, j, to, 'Merged%d' % len(s.log))
            elif op == 'extend' and i != j:
                if not s.extend(i, j, rng.choice([True, False, None])):
                    return s.log
    return s.log


def dense(rng, names, mine, allowed):
    """a network over some of the names, each depending on names before it which are allowed"""
    share = rng.choice([.25, .4, .6])
    out = []
    for k, x in enumerate(names):
        if x not in mine:
            continue
        par = [y for y in names[:k] if allowed(y, x) and rng.random() < share]
        kind = rng.choice(['Distribution', 'Function', 'Pseudo', 'Distribution', 'Function']) if par else rng.choice(['Value', 'Distribution', 'Value'])
        out.append({'x': x, 'kind': kind, 'par': par})
    return {d['x']: d for d in out}


def case_dense(seed):
    rng = random.Random(seed)
    pool = rng.choice(POOLS) + ['w%d' % k for k in range(3)]
    pool = rng.sample(pool, rng.choice([4, 6, 7, 8]))
    s = Session(rng)
    # the variables of the second network are redefined against the order of the first; for most pairs the outcome is acyclic
    first, last = rng.sample(pool, len(pool)), rng.sample(pool, len(pool))
    redone = set(rng.sample(pool, rng.randint(1, len(pool) - 1)))
    na = dense(rng, first, set(rng.sample(pool, rng.choice([len(pool), len(pool) - 1]))),
               lambda y, x: x in redone or rng.random() < .02 or last.index(y) < last.index(x))
    nb = dense(rng, last, redone, lambda y, x: True)
    if rng.random() < .4:
        # a chain is turned round: its head follows its end, and a link in between is redefined only after that
        k = rng.randint(3, 5)
        ch, ws = pool[:k], ['w7', 'w8', 'w9'][:rng.randint(1, 3)]
        kinds = ['Distribution', 'Function', 'Pseudo']
        na = {ch[0]: {'kind': 'Value', 'par': []}, **{y: {'kind': rng.choice(kinds), 'par': [x]} for x, y in zip(ch, ch[1:])}}
        nb = {ch[0]: {'kind': rng.choice(kinds), 'par': [ch[-1]]}, **{y: {'kind': rng.choice(kinds), 'par': [x]} for x, y in zip(ws, ws[1:])}}
        if rng.random() < .9:
            nb[rng.choice(ch[1:-1])] = {'kind': rng.choice(kinds), 'par': [ws[-1]]}
    build(s, 'A', na, 'NetA')
    build(s, 'B', nb, 'NetB')
    s.merge('A', 'B', 'C', 'NetC')
    s.nets.pop('C', None)
    s.emit({'op': 'reset'})
    if s.extend('A', 'B', rng.choice([True, None])):
        s.nets.pop('B')
        s.emit({'op': 'reset'})
        build(s, 'B', nb, 'NetB')
        s.extend('A', 'B', False)
    return s.log


def run(c, prop):
    big = vp.THOROUGH
    inv = ['WellFormed', 'Reported', 'MergeRight', 'ExtendRight']
    props = ['PROPERTY Atomic', 'PROPERTY Frozen']
    c.count_model(vp.model_check('BayesNetMC', {'Names': '{"a","b"}', 'Steps': 6 if big else 4, 'Gen': 0}, inv, extra=props))
    c.count_model(vp.model_check('BayesNetMC', {'Names': '{"a","b","c"}', 'Steps': 4 if big else 2, 'Gen': 0}, inv,
                                 extra=props, workers=8, timeout=3000))
    rng = random.Random(vp.SEED)
    K5 = '{"Value","ExoValue","Distribution","Function","Pseudo"}'
    K3 = '{"Value","ExoValue","Distribution"}'
    jobs = []
    if prop in ('C01', 'C02'):
        h2 = vp.tlc('BayesNetGen', constants={'Names': '{"a","b"}', 'Steps': 3, 'KindsUsed': K5},
                    invariants=['Emit'], workers=1).prints_json('H')
        h3 = vp.tlc('BayesNetGen', constants={'Names': '{"a","b","c"}', 'Steps': 3 if big else 2, 'KindsUsed': K3},
                    invariants=['Emit'], workers=1).prints_json('H')
        if len(h2) < 10000 or len(h3) < 900:
            raise vp.MachineryError('generation of histories failed')
        if not big:
            h2 = rng.sample(h2, 900)
        c.note(generated_histories=len(h2) + len(h3))
        jobs += [(case_history, (h, rng.random())) for h in h2 + h3]
    else:
        n2 = vp.tlc('BayesNetGen', 'InitN', 'NextN', {'Names': '{"a","b"}', 'Steps': 0, 'KindsUsed': K5},
                    ['EmitN']).prints_json('N')
        n3 = vp.tlc('BayesNetGen', 'InitN', 'NextN', {'Names': '{"a","b","c"}', 'Steps': 0, 'KindsUsed': K5},
                    ['EmitN'], timeout=1500).prints_json('N')
        if len(n2) < 40 or len(n3) < 300:
            raise vp.MachineryError('generation of networks failed')
        c.note(generated_networks=len(n2) + len(n3))
        if prop == 'C03':
            jobs += [(case_round, (n, rng.random())) for n in n2 + (n3 if big else rng.sample(n3, 150))]
        else:
            pairs = [(a, b) for a in n2 for b in n2]
            if not big:
                pairs = rng.sample(pairs, 500)
            pairs += [(rng.choice(n3), rng.choice(n3)) for _ in range(20000 if big else 700)]
            jobs += [(case_pair, (a, b, rng.random())) for a, b in pairs]
            jobs += [(case_dense, rng.random()) for _ in range(6000 if big else 500)]
    jobs += [(case_random, (rng.random(), rng.choice([6, 12, 25]), prop)) for _ in range(4000 if big else 250)]
    cases = vp.pmap(_job, jobs)
    mine = {'C01': {'C01'}, 'C02': {'C02'}, 'C03': {'C03'}, 'C04': {'C04'}}[prop]
    c.check('BayesNetTrace', cases, mine)
    ops = {}
    for case in cases:
        for r in case:
            k = r['op'] + ('' if r.get('ok', True) else '-refused')
            ops[k] = ops.get(k, 0) + 1
    c.note(calls=ops)


def _job(j):
    return j[0](j[1])
