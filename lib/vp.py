"""Common machinery: running TLC, recording executions, verdicts, evidence."""
import json, multiprocessing, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO_SRC = os.environ.get('VP_REPO_SRC', '/repo/src')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.dont_write_bytecode = True
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ TLC
def _cfg(init, nxt, constants, invariants, extra):
    out = []
    if init:
        out += ['INIT ' + init, 'NEXT ' + nxt]
    for k, v in (constants or {}).items():
        out.append('CONSTANT %s = %s' % (k, v))
    for i in invariants or ():
        out.append('INVARIANT ' + i)
    out.append('CHECK_DEADLOCK FALSE')
    out += extra or []
    return '\n'.join(out) + '\n'


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = None
        for m in re.finditer(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states', out):
            pass
        self.generated = int(m.group(1).replace(',', '')) if m else 0
        self.distinct = int(m.group(2).replace(',', '')) if m else 0
        self.ok = 'Model checking completed. No error has been found.' in out or \
                  ('Finished in' in out and 'Error:' not in out)
        self.inv = re.findall(r'Invariant (\w+) is violated', out) + \
            re.findall(r'property (\w+) is violated', out)

    def prints(self, tag):
        """Tuples printed by PrintT(<<tag, ...>>) as raw strings after the tag"""
        pat = re.compile(r'^<<\s*"%s",\s*(.*?)\s*>>$' % re.escape(tag), re.M | re.S)
        return pat.findall(self.out)

    def prints_json(self, tag):
        """PrintT(<<tag, ToJson(x)>>)"""
        res = []
        for line in self.out.split('\n'):
            pre = '<<"%s", "' % tag
            if line.startswith(pre) and line.endswith('">>'):
                s = line[len(pre) - 1:-2]
                res.append(json.loads(json.loads(s)))
        return res


def tlc(module, init='Init', next='Next', constants=None, invariants=None, extra=None, env=None,
        workers=1, timeout=600, mem='2g', args=(), workdir=None):
    """Run TLC on spec/<module>.tla in a scratch directory"""
    d = workdir or tempfile.mkdtemp(prefix='vp-tlc-')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        cfg = os.path.join(d, module + '_run.cfg')
        with open(cfg, 'w') as fh:
            fh.write(_cfg(init, next, constants, invariants, extra))
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xmx' + mem, '-Xss16m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
               '-XX:TieredStopAtLevel=4', '-cp', JAR, 'tlc2.TLC', '-metadir', os.path.join(d, 'meta'),
               '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg] + list(args) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC on %s exceeded %d s' % (module, timeout))
        return TlcResult(p.stdout, p.returncode)
    finally:
        if not workdir:
            shutil.rmtree(d, ignore_errors=True)


def model_check(module, constants=None, invariants=None, timeout=600, workers=4, **kw):
    """Stage M: the specification itself must satisfy its invariants"""
    r = tlc(module, constants=constants, invariants=invariants, timeout=timeout, workers=workers, **kw)
    if not r.ok:
        raise MachineryError('model checking of %s failed:\n%s' % (module, r.out[-4000:]))
    return r


def validate(module, cases, chunks=8, timeout=800, constants=None, min_chunk=60):
    """Stages G/T: validate recorded cases (each a list of records) with the trace module.

    The trace module reads the ndjson file named by the environment variable TRACE and prints
    <<"BAD", line, clause>> for every failing clause, and <<"DONE", lines>> at the end.
    Returns (bad, states) with bad = [(case index, record, clause, detail)].
    """
    flat = [(ci, rec) for ci, case in enumerate(cases) for rec in case]
    if not flat:
        return [], 0
    n = max(1, min(chunks, len(flat) // min_chunk + 1))
    # balanced split by size, cases are not split
    size = [sum(len(json.dumps(r)) for r in case) for case in cases]
    groups = [[] for _ in range(n)]
    load = [0] * n
    for ci in sorted(range(len(cases)), key=lambda i: -size[i]):
        j = load.index(min(load))
        groups[j].append(ci)
        load[j] += size[ci] + 1
    root = tempfile.mkdtemp(prefix='vp-trace-')
    bad, states = [], 0

    def one(j):
        d = os.path.join(root, str(j))
        os.mkdir(d)
        lines = [(ci, rec) for ci in sorted(groups[j]) for rec in cases[ci]]
        if not lines:
            return [], 0
        path = os.path.join(d, 'trace.ndjson')
        with open(path, 'w') as fh:
            for _, rec in lines:
                fh.write(json.dumps(rec) + '\n')
        r = tlc(module, constants=constants, env={'TRACE': path}, timeout=timeout, workdir=d)
        done = r.prints('DONE')
        if not r.ok or not done or int(done[-1]) != len(lines):
            keep = os.path.join(VERIF, 'evidence', 'failed-trace.ndjson')
            try:
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                shutil.copy(path, keep)
            except OSError:
                pass
            raise MachineryError('trace validation with %s stopped:\n%s' % (module, r.out[max(0, r.out.find("Error:")):][:3000]))
        res = []
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*"([^"]*)"(?:,\s*(.*?))?\s*>>\s*$', r.out, re.M):
            ci, rec = lines[int(m.group(1)) - 1]
            res.append((ci, rec, m.group(2), m.group(3)))
        return res, r.distinct

    try:
        with ThreadPoolExecutor(n) as ex:
            for b, s in ex.map(one, range(n)):
                bad += b
                states += s
    finally:
        shutil.rmtree(root, ignore_errors=True)
    bad.sort(key=lambda t: t[0])
    return bad, states


# ------------------------------------------------------------------ drivers
class Hang(BaseException):
    pass


class limit:
    """Limit the time of one call of the code under test"""
    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def onalarm(sig, frm):
            raise Hang('no answer within %s s' % self.s)
        self.old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


HANGS = multiprocessing.Value('i', 0)        # shared with the worker processes


def attempt(fn, *args, seconds=20, **kw):
    """(True, value) or (False, 'ErrorType: text'); a hang is a failure as well.
    Where calls keep hanging the verdict is settled, and the limit shrinks so that the check still finishes."""
    n = HANGS.value
    seconds = seconds if n < 4 else min(seconds, 10) if n < 12 else min(seconds, 3)
    try:
        with limit(seconds):
            return True, fn(*args, **kw)
    except Hang as e:
        with HANGS.get_lock():
            HANGS.value += 1
        return False, 'Hang: %s' % e
    except Exception as e:
        return False, '%s: %s' % (type(e).__name__, str(e)[:200])


# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.viol = []
        self.known_hits = {}
        self.known = load_known(prop)

    def count_model(self, r):
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated

    def count_traces(self, cases, states):
        self.cov['traces_validated_against_impl'] += len(cases)
        self.cov['states'] += states
        self.cov['transitions'] += sum(len(c) for c in cases)
        self.cov['records_validated'] = self.cov.get('records_validated', 0) + sum(len(c) for c in cases)
        if cases and len(self.cov['samples']) < 3:
            c = cases[len(cases) // 2]
            self.cov['samples'].append(json.loads(json.dumps(c[:4])))

    def note(self, **kw):
        self.cov.update(kw)

    def violation(self, clause, data):
        sig = signature(clause, data)
        for k in self.known:
            if k.get('match') and re.search(k['match'], sig):
                self.known_hits[k['what']] = self.known_hits.get(k['what'], 0) + 1
                return
        self.viol.append((clause, data))

    def check(self, module, cases, mine, **kw):
        """Validate recorded cases; keep the clauses that are mine (set of ids or predicate)"""
        bad, states = validate(module, cases, **kw)
        self.count_traces(cases, states)
        for ci, rec, clause, detail in bad:
            if (mine(clause) if callable(mine) else clause.split('.')[0] in mine):
                self.violation(clause, {'clause': clause, 'detail': detail, 'record': rec, 'case': cases[ci]})
        return bad

    def finish(self):
        n = len(self.viol)
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        for what, cnt in self.known_hits.items():
            print('KNOWN-FINDING: property=%s %s (%d times)' % (self.prop, what, cnt))
        seen = {}
        for clause, data in self.viol:
            seen.setdefault(clause, []).append(data)
        path = None
        for i, (clause, ds) in enumerate(list(seen.items())[:8]):
            path = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (self.prop, i))
            with open(path, 'w') as fh:
                json.dump({'property': self.prop, 'clause': clause, 'count': len(ds), 'seed': SEED, 'tier': TIER,
                           'first': ds[0]}, fh, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('   clause %s failed %d times; first: %s' % (clause, len(ds), json.dumps(ds[0], default=str)[:700]))
        ev = {'property': self.prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': n}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        print('%s: %d states, %d transitions, %d recorded cases, %d violations, %.1f s' % (
            self.prop, self.cov['states'], self.cov['transitions'],
            self.cov['traces_validated_against_impl'], n, time.time() - self.t0))
        sys.stdout.flush()
        return 1 if n else 0


def signature(clause, data):
    return clause + ' ' + json.dumps(data.get('record', data) if isinstance(data, dict) else data,
                                     sort_keys=True, default=str)


def load_known(prop):
    """known-findings.txt: lines 'finding: property=<id> match=/<regex>/ <what fails>'"""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append({'match': m.group(2), 'what': m.group(3)})
    return out


def pmap(fn, items, procs=8, chunk=None):
    """Run fn over items in forked worker processes (drivers of the code under test)"""
    import multiprocessing as mp
    items = list(items)
    if len(items) <= 1 or procs == 1:
        return [fn(i) for i in items]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(items))) as pool:
        return pool.map(fn, items, chunksize=chunk or max(1, len(items) // (procs * 4)))


def main(prop, body, level='model_checking'):
    c = Check(prop, level)
    try:
        body(c)
    except MachineryError as e:
        print('MACHINERY ERROR', e)
        c.note(error=str(e)[-500:])
        c.finish()
        return 2
    except BaseException as e:
        text = traceback.format_exc() + str(getattr(e, '__cause__', ''))
        odd = isinstance(e, (AttributeError, TypeError, LookupError, ValueError, ArithmeticError)) and re.search(r'File "[^"]*/checks/chk_', text)
        if isinstance(e, (Exception, Hang)) and (REPO_SRC + '/' in text or odd):
            # the code under test failed, or showed a driver what it never shows, where the specification has no failure
            c.violation('driver.exception', {'error': '%s: %s' % (type(e).__name__, e), 'trace': text[-3000:]})
            return c.finish()
        print('MACHINERY ERROR', text)
        c.finish()
        return 2
    return c.finish()
