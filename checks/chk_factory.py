"""C06, C07, C27: completing calls, definition lines, registries.
Specification: Expr, ExprMC, Factory, FactoryMC, FactoryTrace."""
import ast, itertools, random
from fractions import Fraction
import vp, expr

VARS = [['x', 'y', 'z'], ['gamma', 'norm', 'k'], ['rate', 'mean', 'a'], ['id', 'sum', 'b'], ['beta', 'x1', 'pi'],
        ['shape', 'sd', 'n_1']]
VALS = [(0, 1), (1, 1), (2, 1), (3, 1), (5, 2), (-1, 1), (-3, 2), (1, 4), (7, 1), (1, 2)]


def tw(x):
    return 2 * x + 1


def lin(x, y):
    return 2 * x + 3 * y


def prepare():
    """Register the harness functions and creators through the public registries"""
    from sims_pars.util import add_math_func
    from sims_pars.prob import DistributionCentre, CategoricalRV
    from sims_pars.factory import AbsCreator
    if 'hthree' in DistributionCentre:
        return
    add_math_func('tw', tw)
    add_math_func('lin', lin)

    class Three(AbsCreator):
        a: float = 1
        b: float = 2
        c: float = 3

        def create(self):
            return Product(self)

    class Mix(AbsCreator):
        rate: float = 5
        a: float = 3.5
        x: float = 0
        k: float = 9

        def create(self):
            return Product(self)

    class Nothing(AbsCreator):
        def create(self):
            return Product(self)

    for n, cr in (('hthree', Three), ('hmix', Mix), ('hnone', Nothing)):
        DistributionCentre.register(n, cr)


class Product:
    def __init__(self, cr):
        self.json = None
        self.fields = {k: getattr(cr, k) for k in type(cr).model_fields}

    def mean(self):
        return sorted(self.fields.items())

    std = mean
    Interval = None


def env_list(env):
    return [{'n': k, 'v': list(v)} for k, v in env.items()]


def env_vals(env, rng):
    r = {}
    for k, (n, d) in env.items():
        r[k] = n if d == 1 and rng.random() < .7 else n / d
    return r


# ------------------------------------------------------------------ C06
def read_call(s):
    """Structure of a printed call"""
    t = ast.parse(s, mode='eval').body
    if not isinstance(t, ast.Call):
        raise ValueError('no call')
    return {'ok': True, 'f': t.func.id, 'npos': len(t.args),
            'pos': [expr._conv(a) for a in t.args], 'named': [[k.arg, expr._conv(k.value)] for k in t.keywords]}


def case_call(args):
    f, named, pos, seed, exprs = args
    exprs = [e for e in exprs if not expr._folded(e)]
    prepare()
    from sims_pars.prob import complete_function, parse_distribution
    from sims_pars.bayesnet.loci import DistributionLoci
    rng = random.Random(seed)
    names = list(rng.choice(VARS))
    mk = lambda: rename(exprs.pop(), names) if exprs and rng.random() < .7 else \
        expr.make(rng, names, rng.choice([0, 0, 1, 2]), plain=True, pnum=.6)
    posE = [mk() for _ in range(pos)]
    nmE = [[n, mk()] for n in named]
    sp = rng.random() < .3
    posT = [expr.text(e, rng, sp) for e in posE]
    nmT = [[n, expr.text(e, rng, sp)] for n, e in nmE]
    src = f + '(' + (', ' if sp else ',').join(posT + ['%s=%s' % (n, t) for n, t in nmT]) + ')'
    rec = {'k': 'call', 'text': src, 'f': f, 'pos': posE, 'named': nmE, 'posS': [expr.read(t) for t in posT],
           'namedS': [[n, expr.read(t)] for n, t in nmT]}
    no = {'ok': False, 'f': '', 'npos': 0, 'named': []}

    def completed(s):
        r = complete_function(s)
        d = read_call(r)
        d['text'] = r
        return d
    ok, one = vp.attempt(completed, src)
    rec['once'] = one if ok else dict(no, error=one)
    ok2, two = vp.attempt(completed, one['text']) if ok else (False, '')
    rec['twice'] = two if ok2 else dict(no, error=two)
    okp, par = vp.attempt(lambda: sorted(DistributionLoci('v0', src).Parents))
    rec['parok'] = okp
    rec['parents'] = par if okp else []
    rec['builds'] = []
    if ok:
        used = sorted(set().union(set(), *[expr.vars_of(e) for e in posE + [e for _, e in nmE]]))
        for _ in range(3):
            env = {n: rng.choice(VALS) for n in used}
            if not all(expr.guard(e, env, exact=True) for e in posE + [e for _, e in nmE]):
                continue
            loc = env_vals(dict(env, unrelated=(99, 1)), rng)
            if rng.random() < .3:
                loc['exp1'] = 5

            def build(s):
                d = parse_distribution(s, loc=dict(loc))
                args = d.json['Args']
                return sorted(args.items()), repr((d.mean(), d.std(), d.Interval))
            okb, b = vp.attempt(build, src)
            okc, c2 = vp.attempt(build, one['text'])
            vals = []
            if okb:
                for n, v in b[0]:
                    vals.append([n, expr.frac(v) or [0, 0]])
            rec['builds'].append({'env': env_list(env), 'ok': okb, 'vals': vals,
                                  'same': okb == okc and (not okb or repr(b) == repr(c2)),
                                  'error': '' if okb else b})
    return [rec]


def rename(e, names):
    m = dict(zip('xyz', names))
    return {'op': e['op'], 'v': e['v'], 'n': m.get(e['n'], e['n']), 'a': [rename(a, names) for a in e['a']]}


# ------------------------------------------------------------------ C07
KIND = {'Value': 'Value', 'ExoValue': 'ExoValue', 'Distribution': 'Distribution', 'Function': 'Function', 'Pseudo': 'Pseudo'}


def case_line(args):
    form, e, seed = args
    prepare()
    from sims_pars.bayesnet.loci import parse_loci
    from sims_pars.bayesnet import Chromosome, BayesianNetwork
    rng = random.Random(seed)
    names = list(rng.choice(VARS))
    name = rng.choice(['v0', 'out', 'gamma2', 'A_b', 'exp1', 'w', 'Y'])
    des = rng.choice(['', '', 'note', 'a=b', 'p~q', 'x#y', 'f(x)', 'rate of decay', 'if x', 'a note,  with "marks"'])
    sp = rng.random() < .4
    s = ' ' if sp else ''
    args_ = []
    if e is None and form in ('assign', 'dist'):
        e = expr.make(rng, names, rng.choice([0, 1, 2, 2, 3]), pnum=.4)
    elif e is not None:
        e = rename(e, names)
    if e is not None and not expr.vars_of(e) and not expr.guard(e, {}):
        return []               # a constant without a value
    mean_of = False
    if form == 'assign':
        text = name + s + '=' + s + expr.text(e, rng, sp)
        if text.replace(' ', '').startswith(name + '=f('):
            text = name + '=(' + expr.text(e, rng, sp) + ')'
    elif form == 'dist':
        t = expr.text(e, rng, sp)
        call, mean_of = rng.choice([('k({0})', False), ('k(k={0})', False), ('norm({0}, 1)', True),
                                    ('norm(sd=2, mean={0})', True), ('norm(sd=1,{0})', True) if False else ('norm({0})', True)])
        text = name + s + '~' + s + call.format(t)
    elif form == 'pseudo':
        args_ = rng.sample(names, rng.randint(0, 3))
        text = name + s + '=' + s + 'f(' + (',' + s).join(args_) + ')'
    else:
        text = name
    full = text + (s + '#' + s + des if des else '')
    if rng.random() < .2:
        full = rng.choice(['  ', '\t', ' \t ']) + full + rng.choice(['  ', '\t', ''])
    rec = {'k': 'line', 'text': full, 'form': form, 'name': name, 'des': des, 'args': args_,
           'e': e or expr.num(0)}
    route = rng.choice(['parse', 'bn', 'script'])

    def read():
        if route == 'parse':
            loci, d = parse_loci(full)
        else:
            if route == 'bn':
                bn = BayesianNetwork('N')
                bn.append_from_definition(full)
            else:
                from sims_pars.bayesnet import bayes_net_from_script
                bn = bayes_net_from_script('PCore N {\n' + full + '\n}')
            loci = bn[name]
            nd = [x for x in bn.to_json()['Nodes'] if x['Name'] == name][0]
            d = nd.get('Des', '')
        return loci, d or ''
    ok, r = vp.attempt(read)
    rec['evals'] = []
    if not ok:
        rec['got'] = {'ok': False, 'kind': '', 'name': '', 'des': '', 'par': [], 'error': r}
        return [rec]
    loci, d = r
    rec['got'] = {'ok': True, 'kind': loci.to_json()['Type'], 'name': loci.Name, 'des': d, 'par': sorted(loci.Parents)}
    used = sorted(expr.vars_of(e)) if e else args_ if form == 'pseudo' else [name] if form == 'exo' else []
    for i in range(4):
        env = {n: rng.choice(VALS) for n in used}
        missing = used and (i == 3 or rng.random() < .1)
        if missing:
            env.pop(rng.choice(used))
        if e and not missing and not expr.guard(e, env):
            continue
        loc = env_vals(env, rng)
        for n in ['unrelated'] + [n for n in names if n not in used]:
            loc[n] = 12345
        if form != 'exo' and rng.random() < .5:
            loc[name] = 777
        pas = rng.choice([lambda: dict(loc), lambda: Chromosome(dict(loc))])()
        before = sorted((k, repr(v)) for k, v in dict(pas).items())

        def value():
            if form == 'dist' and mean_of:
                return loci.get_distribution(pas).mean()
            if not env and not used and rng.random() < .3:
                return loci.render()
            return rng.choice([loci.render, loci])(pas)
        okv, v = vp.attempt(value)
        after = sorted((k, repr(v_)) for k, v_ in dict(pas).items())
        rec['evals'].append({'env': env_list(env), 'ok': okv, 'r': (expr.frac(v, True) or [0, 0]) if okv else [0, 0],
                             'changed': before != after, 'shown': repr(v)[:80]})
        if okv and form in ('assign', 'dist') and not missing and not mean_of and rng.random() < .3:
            gene = dict(loc)

            def fill():
                loci.fill(gene)
                return gene[name]
            okv, v = vp.attempt(fill)
            other = {k: v_ for k, v_ in gene.items() if k != name} != {k: v_ for k, v_ in loc.items() if k != name}
            rec['evals'].append({'env': env_list(env), 'ok': okv, 'r': (expr.frac(v, True) or [0, 0]) if okv else [0, 0],
                                 'changed': other, 'shown': repr(v)[:80]})
    return [rec]


def divides(e):
    return e['op'] in ('div', 'fdiv', 'mod') or any(map(divides, e['a']))


def case_parsed(args):
    """A call or an expression read on its own, through the functions of util"""
    seed, = args
    prepare()
    from sims_pars.util import parse_function, evaluate_function, parse_math_expression, parse_parents
    rng = random.Random(seed)
    names = [n for n in rng.choice(VARS) if n not in ('id', 'sum')]      # names of Python itself
    f = rng.choice(['myfn', 'norm', 'f', 'tw', 'if_', 'g2'])
    posE = [expr.make(rng, names, rng.choice([0, 1, 2]), plain=True) for _ in range(rng.randint(0, 3))]
    nmE = [[k, expr.make(rng, names, rng.choice([0, 1, 2]), plain=True)] for k in
           rng.sample(['a', 'x', 'mean', 'k_2', 'myfn'], rng.randint(0, 3))]
    sp = rng.random() < .4
    posT = [expr.text(e, rng, sp, False) for e in posE]
    nmT = [[k, expr.text(e, rng, sp, False)] for k, e in nmE]
    src = rng.choice(['%s(', '%s (', ' %s( ']) % f + rng.choice([', ', ',', ' , ']).join(
        posT + [k + rng.choice(['=', ' = ']) + t for k, t in nmT]) + rng.choice([')', ' )', ') '])
    es = posE + [e for _, e in nmE]
    rec = {'k': 'parsed', 'text': src, 'f': f, 'keys': [''] * len(posE) + [k for k, _ in nmE], 'e': es,
           'tree': [expr.read(t) for t in posT] + [expr.read(t) for _, t in nmT]}

    def read():
        pf = parse_function(src)
        return {'f': pf.Function, 'keys': [a.get('key', '') for a in pf.Arguments],
                'tree': [expr.read(str(a['value'])) for a in pf.Arguments],
                'vars': [sorted(a['value'].Parents) for a in pf.Arguments], 'par': sorted(pf.Parents)}, pf
    ok, r = vp.attempt(read)
    rec['ok'] = ok
    rec['got'], pf = r if ok else ({'f': '', 'keys': [], 'tree': [], 'vars': [], 'par': [], 'error': r}, None)
    rec['evals'] = []
    for _ in range(3 if ok else 0):
        used = sorted(pf.Parents)
        env = {n: rng.choice(VALS) for n in used}
        if env and rng.random() < .4:
            env.pop(rng.choice(used))
        state = []
        for e in es:
            try:
                v = expr._val(e, env, 3000)
                state.append('none' if v is None else 'value')
            except KeyError:
                # which of two errors comes first depends on the order of the arguments
                state.append('none' if divides(e) else 'missing')
            except (ZeroDivisionError, OverflowError):
                state.append('none')
        if 'none' in state:
            continue
        loc = env_vals(env, rng)
        num = lambda vs: [expr.frac(v, True) or [0, 0] for v in vs]
        how = rng.choice(['arguments', 'blueprint', 'evaluate', 'evaluate-blueprint'])

        def go():
            if how == 'arguments':
                a = pf.get_arguments(dict(loc))
                return [x.get('key', '') for x in a], num(x['value'] for x in a)
            if how == 'blueprint':
                d = pf.to_blueprint('Nm', dict(loc))
                assert d['Name'] == 'Nm' and d['Type'] == f, 'blueprint'
                return [x.get('key', '') for x in d['Args']], num(x['value'] for x in d['Args'])
            ef = evaluate_function(pf, dict(loc))
            if how == 'evaluate':
                js = ef.to_json()
                assert js['Type'] == f, 'type'
                return rec['keys'], num(js['Args'])
            d = ef.to_blueprint('Nm')
            assert d['Name'] == 'Nm' and d['Type'] == f, 'blueprint'
            return [x.get('key', '') for x in d['Args']], num(x['value'] for x in d['Args'])
        okv, v = vp.attempt(go)
        okj, js = vp.attempt(lambda: pf.to_json(dict(loc)))
        # what cannot be evaluated yet is written down as it stands
        part = []
        for x in (js['Args'] if okj else []):
            if isinstance(x, str):
                okt, t = vp.attempt(expr.read, x)
                part.append({'text': True, 'tree': t if okt else expr.num(0), 'r': [0, 0]})
            else:
                part.append({'text': False, 'tree': expr.num(0), 'r': expr.frac(x, True) or [0, 0]})
        one = rng.choice(es) if es else None
        okm, m = vp.attempt(lambda: parse_math_expression(expr.text(one, rng, sp, False)).execute(dict(loc))) if one else (True, 0)
        rec['evals'].append({'env': env_list(env), 'how': how, 'ok': okv, 'keys': v[0] if okv else [], 'vals': v[1] if okv else [],
                             'okj': okj, 'part': part, 'one': one or expr.num(0), 'okm': okm,
                             'm': (expr.frac(m, True) or [0, 0]) if okm else [0, 0], 'error': '' if okv else v})
    # parents and functions of a single expression
    if es:
        one = rng.choice(es)
        text = expr.text(one, rng, sp, False)
        okp, p = vp.attempt(lambda: parse_parents(text))
        fns = sorted({x.func.id for x in ast.walk(ast.parse(text, mode='eval')) if isinstance(x, ast.Call)})
        rec['single'] = {'ok': okp, 'e': one, 'par': sorted(p[0]) if okp else [], 'fns': sorted(p[1]) if okp else [], 'wrote': fns}
    else:
        rec['single'] = {'ok': True, 'e': expr.num(0), 'par': [], 'fns': [], 'wrote': []}
    return [rec]


# ------------------------------------------------------------------ C27
_serial = itertools.count()


def case_registry(args):
    seed, n = args
    prepare()
    from sims_pars.factory import get_atelier, AbsCreator
    from sims_pars.util import add_math_func, add_data_func
    from sims_pars.bayesnet.loci import parse_loci
    rng = random.Random(seed)
    pre = 'w%d_%d_' % (next(_serial), rng.randrange(10 ** 9))
    wnames = [pre + x for x in rng.sample(['A', 'a', 'AB', 'B', ''], 3)] + ['Distributions']
    cnames = ['c1', 'C1', 'gammax', 'k2', 'norm3']
    held, ids, owner, log = {}, itertools.count(1), {}, []
    titles = {}
    log.append({'k': 'wreset', 'ws': []})

    def tid(t):
        return titles.setdefault(t, -len(titles) - 1) if not t.startswith('Cr__') else int(t[4:])

    def contents(ws):
        return [[c, tid(ws.get_schema(c)['title'])] for c in ws.list()]

    def emit(rec):
        ws = []
        for w, obj in held.items():
            def look():
                return {'w': w, 'same': get_atelier(w) is obj,
                        'others': all(o is not obj for v, o in held.items() if v != w),
                        'creators': contents(obj), 'yes': [c for c in cnames + ['nosuch'] if c in obj],
                        'no': [c for c in cnames + ['nosuch'] if c not in obj]}
            ok, r = vp.attempt(look)
            ws.append(r if ok else {'w': w, 'same': False, 'others': False, 'creators': [['?', 0]], 'yes': ['?'], 'no': [],
                                    'error': r})
        rec['ws'] = ws
        log.append(rec)

    def plain(depth, names):
        if depth == 0:
            return expr.var(rng.choice(names)) if rng.random() < .5 else expr.num(rng.randint(0, 9))
        op = rng.choice(['add', 'sub', 'mul', 'neg', 'abs', 'max'])
        return expr.node(op, *[plain(depth - 1, names) for _ in range(expr.NARGS[op])])

    fields = {'hthree': [('a', 1.0), ('b', 2.0), ('c', 3.0)], 'hmix': [('rate', 5.0), ('a', 3.5), ('x', 0.0), ('k', 9.0)],
              'hnone': []}
    fnames, defs = [], {}
    for _ in range(n):
        u = rng.random()
        w = rng.choice(wnames)
        if u < .25 or w not in held:
            ok, o = vp.attempt(get_atelier, w)
            first = w not in held
            if ok and first:
                held[w] = o
            if w == 'Distributions' and first:
                log.append({'k': 'adopt', 'w': w, 'has': contents(o), 'ws': []})
                log[-1]['ws'] = []
                emit(dict(log.pop()))
            else:
                emit({'k': 'get', 'w': w, 'ok': ok})
        elif u < .5:
            i = next(ids)
            sch = rng.choice(list(fields))
            c = (rng.choice(cnames) if w != 'Distributions' else pre + rng.choice(cnames))

            def create(self, i=i, sch=sch):
                class P(dict):
                    pass
                p = P({k: getattr(self, k) for k, _ in fields[sch]})
                p.id = i
                return p
            cr = type('Cr__%d' % i, (AbsCreator,), {'__annotations__': {k: float for k, _ in fields[sch]},
                                                    **{k: v for k, v in fields[sch]}, 'create': create,
                                                    '__module__': __name__})
            ok, e = vp.attempt(held[w].register, c, cr)
            owner[(w, c)] = sch
            emit({'k': 'register', 'w': w, 'c': c, 'id': i, 'ok': ok, 'error': '' if ok else e})
        elif u < .8:
            cs = [c for (v, c) in owner if v == w] or cnames
            c = rng.choice(cs if rng.random() < .9 else ['nosuch'])
            sch = owner.get((w, c), 'hthree')
            ps = [k for k, _ in fields[sch]]
            named = rng.sample(ps, rng.randint(0, len(ps)))
            pos = rng.randint(0, len(ps) - len(named))
            env = {x: rng.choice([(0, 1), (2, 1), (-3, 1), (7, 1)]) for x in ['x', 'c1', 'y']}
            nmE = [[k, plain(rng.randint(0, 2), list(env))] for k in named]
            posE = [plain(rng.randint(0, 2), list(env)) for _ in range(pos)]
            src = c + '(' + ', '.join([expr.text(e, rng) for e in posE] + [k + '=' + expr.text(e, rng) for k, e in nmE]) + ')'
            ok, p = vp.attempt(lambda: held[w].create(src, loc=env_vals(env, rng), append_src=rng.random() < .5))
            emit({'k': 'create', 'w': w, 'c': c, 'text': src, 'schema': sch, 'pos': posE, 'named': nmE, 'env': env_list(env),
                  'ok': ok, 'product': p.id if ok else 0,
                  'vals': [[k, expr.frac(v) or [0, 0]] for k, v in p.items()] if ok else [], 'error': '' if ok else p})
        elif u < .88 or not fnames:
            i = next(ids)
            kind = rng.choice(['#math', '#data'])
            if kind == '#math':
                f = 'fn%s' % pre + rng.choice(['p', 'q'])
                x = rng.randint(-5, 5)
                early = (kind, f) not in fnames and rng.random() < .5 and vp.attempt(lambda: parse_loci('v = %s(%d)' % (f, x))[0])
                ok, e = vp.attempt(add_math_func, f, lambda x, i=i: i * x + i)
                again = [k for k in defs if k[:2] == (kind, f)]
            else:
                f = 'df%s%d' % (pre, i)
                if rng.random() < .25 and any(k == '#data' for k, _ in fnames):       # a name which is taken
                    f = rng.choice([g for k, g in fnames if k == '#data'])

                class Sam:
                    def __init__(self, i, loc):
                        self.i, self.loc = i, loc

                    def sample(self, n=1, **kw):
                        return self.i * self.loc['x'] + self.i

                    def logpdf(self, v):
                        return 0

                class DF:
                    def __init__(self, i):
                        self.i = i

                    def __call__(self):
                        return None

                    def get_sampler(self, loc=None):
                        return Sam(self.i, loc)
                ok, e = vp.attempt(add_data_func, f, DF(i))
            if (kind, f) not in fnames:
                fnames.append((kind, f))
            emit({'k': 'function', 'w': kind, 'c': f, 'id': i, 'ok': ok, 'error': '' if ok else e})
            if kind == '#math' and again:
                # a definition used while another function had the name
                _, _, x0 = k0 = rng.choice(again)
                ok, v = vp.attempt(lambda: defs[k0].render({'x': x0 * 1.0}))
                emit({'k': 'use', 'w': kind, 'c': f, 'x': x0, 'ok': ok, 'r': (expr.frac(v) or [0, 0]) if ok else [0, 0], 'error': '' if ok else v})
            if kind == '#math' and early and early[0]:
                # a definition read before the function was there
                ok, v = vp.attempt(lambda: early[1].render({}))
                emit({'k': 'use', 'w': kind, 'c': f, 'x': x, 'ok': ok, 'r': (expr.frac(v) or [0, 0]) if ok else [0, 0], 'error': '' if ok else v})
        else:
            kind, f = rng.choice(fnames)
            x = rng.randint(-2, 2)

            def use():
                how = rng.random()
                if (kind, f, x) in defs and rng.random() < .7:
                    # a definition read and used before
                    return defs[kind, f, x].render({'x': x * 1.0 if rng.random() < .5 else x})
                if kind == '#data':
                    loci, _ = parse_loci('v ~ %s(x)' % f)
                    assert set(loci.Parents) == {'x'}, 'parents'
                elif how < .4:
                    loci, _ = parse_loci('v = %s(x)' % f)
                    assert set(loci.Parents) == {'x'}, 'parents'
                elif how < .6:
                    loci, _ = parse_loci('v = %s(%d)' % (f, x))
                else:
                    loci, _ = parse_loci('v ~ k(%s(x))' % f)
                if loci.Parents:       # constants are worked out when they are read
                    defs[kind, f, x] = loci
                loci.render({'x': x * 1.0})
                return loci.render({'x': x})
            ok, v = vp.attempt(use)
            emit({'k': 'use', 'w': kind, 'c': f, 'x': x, 'ok': ok, 'r': (expr.frac(v) or [0, 0]) if ok else [0, 0],
                  'error': '' if ok else v})
    return log


def _job(j):
    return j[0](j[1])


def run(c, prop):
    big = vp.THOROUGH
    rng = random.Random(vp.SEED)
    exprs = []
    if prop != 'C27':
        wide = 'TRUE' if big else 'FALSE'
        laws = vp.model_check('ExprMC', {'Wide': wide, 'Deep': wide}, ['MissingIsUndef', 'OnlyParents', 'Words', 'Reduced'],
                              workers=1, timeout=1500)
        c.count_model(laws)
        exprs = vp.model_check('ExprMC', {'Wide': wide, 'Deep': 'TRUE'}, ['Emit'], workers=1, timeout=1500).prints_json('E')
    r = vp.model_check('FactoryMC', None, ['EachOnce', 'InOrder', 'DefaultsLast', 'Idempotent', 'Emit'], workers=1)
    c.count_model(r)
    ways = r.prints_json('A')
    if prop != 'C27' and len(exprs) < 15000 or len(ways) != 267:
        raise vp.MachineryError('generation failed')
    c.note(generated_expressions=len(exprs), generated_calls=len(ways))
    jobs = []
    if prop == 'C06':
        for _ in range(20 if big else 4):
            for w in ways:
                jobs.append((case_call, (w['f'], w['named'], w['pos'], rng.random(), rng.sample(exprs, 5))))
        for f in ['nosuch', 'Norm', 'gam', 'f']:
            for i in range(3):
                jobs.append((case_call, (f, ['a'] * (i % 2), i, rng.random(), [])))
    elif prop == 'C07':
        es = rng.sample(exprs, min(len(exprs), 40000) if big else 1500)
        jobs += [(case_line, ('assign', e, rng.random())) for e in es]
        jobs += [(case_line, ('dist', e, rng.random())) for e in (es if big else es[:500])]
        jobs += [(case_line, (rng.choice(['assign', 'assign', 'dist', 'pseudo', 'exo']), None, rng.random()))
                 for _ in range(15000 if big else 1500)]
        jobs += [(case_parsed, (rng.random(),)) for _ in range(8000 if big else 600)]
    else:
        jobs += [(case_registry, (rng.random(), rng.choice([8, 20, 40]))) for _ in range(1500 if big else 120)]
    cases = [x for x in vp.pmap(_job, jobs) if x]
    c.check('FactoryTrace', cases, {prop})
    if prop == 'C06':
        c.note(builds=sum(len(r['builds']) for x in cases for r in x),
               built=sum(b['ok'] for x in cases for r in x for b in r['builds']))
    elif prop == 'C07':
        c.note(evaluations=sum(len(r['evals']) for x in cases for r in x))
    else:
        ops = {}
        for x in cases:
            for r in x:
                k = r['k'] + ('' if r.get('ok', True) else '-refused')
                ops[k] = ops.get(k, 0) + 1
        c.note(calls=ops)
