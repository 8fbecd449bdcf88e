"""C17: monitors. Specification: Monitor, MonitorMC, MonitorTrace."""
import csv, os, random, shutil, tempfile
import vp

NAMES = ['a', 'b', 'Eps', 'ESS', 'n_1', 'Acc', 'time', 'Last', 'x']
VALUES = [0, 1, 2, -3, 7, 2.5, 'text', 'A b', True, 1e6, -0.25, False, None, None, float('nan')]


def show(v):
    """One spelling for equal values"""
    if v is None or v != v:
        return 'none'
    if hasattr(v, 'item'):
        v = v.item()
    if isinstance(v, bool) or isinstance(v, str):
        return str(v)
    return repr(float(v))


def quarters(t):
    q = float(t) * 4
    assert q == int(q), 'time %r' % t
    return int(q)


def pairs(d):
    return sorted([str(k), show(v)] for k, v in d.items())


def observe(mon, rec, keys, tmp):
    rec['obs'], rec['tabs'], rec['time'], rec['last'], rec['recs'] = '', [], 0, [], []
    ok, r = vp.attempt(lambda: [quarters(mon.Time), pairs({k: mon[k] for k in keys if has(mon, k)}),
                                [{'t': quarters(x['Time']), 'kv': pairs({k: v for k, v in x.items() if k != 'Time'})}
                                 for x in mon.Records]])
    if not ok:
        rec['obs'] = r
        return
    rec['time'], rec['last'], rec['recs'] = r
    if not rec['recs']:
        return

    def table():
        df = mon.Trajectories
        assert df.index.name == 'Time'
        return {'cols': [str(c) for c in df.columns],
                'rows': [{'t': quarters(t), 'kv': pairs({k: v for k, v in row.items() if v == v and v is not None})} for t, row in df.iterrows()]}

    def saved():
        p = os.path.join(tmp, 'trace.csv')
        mon.save_trajectories(p)
        with open(p, newline='') as fh:
            rows = list(csv.reader(fh))
        assert rows[0][0] == 'Time'

        def val(s):
            try:
                return float(s)
            except ValueError:
                return {'True': True, 'False': False}.get(s, s)
        return {'cols': rows[0][1:],
                'rows': [{'t': quarters(float(r[0])), 'kv': pairs({k: val(v) for k, v in zip(rows[0][1:], r[1:]) if v != ''})}
                         for r in rows[1:]]}
    for what, f in (('trajectories', table), ('saved', saved)):
        if what == 'saved' and tmp is None:
            continue
        ok, r = vp.attempt(f)
        rec['tabs'].append({'what': what, 'ok': ok, 'rows': r['rows'] if ok else [], 'cols': r['cols'] if ok else [],
                            'error': '' if ok else r})


def has(mon, k):
    try:
        mon[k]
        return True
    except KeyError:
        return False


def play(ops, tag, tmp=None):
    """ops: (monitor, op, argument); one record after every operation"""
    from sims_pars.monitor import Monitor
    mons, out = {}, [{'op': 'case'}]
    keys = sorted({k for m, op, a in ops if op == 'keep' for k in a} | {'Time', 'a', 'zz'})
    held = {}
    for m, op, a in ops:
        if m not in mons:
            mons[m] = Monitor('vp-%s-%s' % (tag, m), stream_handler=False)
        mon = mons[m]
        rec = {'m': m, 'op': op, 'kv': [], 't': 0}
        if op == 'keep':
            rec['kv'] = pairs(a)
            ok, r = vp.attempt(lambda: mon.keep(**a))
        elif op == 'step':
            ok, r = vp.attempt(mon.step)
        elif op == 'by':
            t = mon.Time + a
            rec['op'], rec['t'] = 'to', quarters(t)
            ok, r = vp.attempt(mon.step, t)
        elif op == 'to':
            rec['t'] = quarters(a)
            ok, r = vp.attempt(mon.step, a)
        elif op == 'reset':
            rec['t'] = quarters(a)
            ok, r = vp.attempt(mon.reset, a)
        rec['ok'] = ok
        observe(mon, rec, keys, tmp)
        out.append(rec)
        # look at the others as well
        for m2 in mons:
            if m2 != m:
                rec = {'m': m2, 'op': 'look', 'kv': [], 't': 0, 'ok': True}
                observe(mons[m2], rec, keys, None)
                out.append(rec)
    return out


def replay(hs):
    res = []
    for i, h in enumerate(hs):
        ops = [(v['m'], {'to': 'by'}.get(v['op'], v['op']), v.get('kv', v.get('by', v.get('t')))) for v in h]
        res.append(play(ops, 'r%d' % i))
    return res


def rand(seed):
    rng = random.Random(seed)
    tmp = tempfile.mkdtemp(prefix='vp-mon-')
    out = []
    try:
        for c in range(6):
            names = rng.sample(NAMES, rng.randint(1, 4))
            ops = []
            for _ in range(rng.randint(1, 30)):
                m = rng.randint(1, 3)
                w = rng.random()
                if w < .5:
                    ops.append((m, 'keep', {k: rng.choice(VALUES) for k in rng.sample(names, rng.randint(0, len(names)))}))
                elif w < .65:
                    ops.append((m, 'step', None))
                elif w < .8:
                    ops.append((m, 'by', rng.choice([0, 0.25, 0.5, 1, 3, -1, -0.25])))
                elif w < .95:
                    ops.append((m, 'to', rng.choice([0, 1, 2, 3.5, 5, 8, 13.25, -2, 100])))
                elif w < .97:
                    ops.append((m, 'keep', {'Time': 99}))
                else:
                    ops.append((m, 'reset', rng.choice([0, 0, 2, -3, 1.5])))
            out.append(play(ops, '%s-%d' % (seed, c), tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def run(c, prop):
    big = vp.THOROUGH
    rng = random.Random(vp.SEED)
    inv = ['Stamped', 'GrowsByOne', 'OthersKept', 'ClosedIsOpen']
    c.count_model(vp.model_check('MonitorMC', {'Steps': '5' if big else '3', 'Mons': '2', 'Emitting': 'FALSE'}, inv, workers=8 if big else 4,
                                 timeout=3000, mem='8g' if big else '2g'))
    r = vp.model_check('MonitorMC', {'Steps': '5' if big else '4', 'Mons': '1', 'Emitting': 'TRUE'}, inv + ['Emit'], workers=1, timeout=3000, mem='4g')
    c.count_model(r)
    hs = r.prints_json('H')
    if not hs:
        raise vp.MachineryError('no history printed')
    c.note(histories_generated=len(hs))
    if not big and len(hs) > 4000:
        hs = rng.sample(hs, 4000)
    parts = [hs[i::64] for i in range(64)]
    cases = [x for p in vp.pmap(replay, parts) for x in p]
    cases += [x for p in vp.pmap(rand, ['%s.%d' % (vp.SEED, i) for i in range(400 if big else 60)]) for x in p]
    c.check('MonitorTrace', cases, {prop})
