"""Runs one check: python3-vt -m symx.driver C12 quick"""
import importlib
import json
import multiprocessing as mp
import os
import queue
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

open = open  # the real one, before models are installed
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def _to(*a):
    from . import core
    raise core.PathTimeout()


class Concrete:
    """The plain interpreter running the real code."""

    def __init__(self, modname, root):
        self.modname, self.root = modname, root
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED='0')
        self.p = subprocess.Popen(
            [sys.executable, '-m', 'symx.server', REPO, VERIF, self.modname, self.root],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=VERIF, env=env)

    def run(self, case, inputs, limit=20):
        for attempt in (0, 1):
            if self.p is None:
                self.start()
            try:
                self.p.stdin.write(json.dumps({'case': case, 'inputs': inputs, 'limit': limit}) + '\n')
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (BrokenPipeError, OSError):
                pass
            self.stop()
        return {'fails': [], 'obs': None, 'exc': ['server', None, '']}

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None


def explore(mod, modname, case, root, conc, deadline, path_limit, out):
    from . import core as S, hooks as H, state, world as W
    e = S.Engine()
    S.set_engine(e)
    t0 = time.time()
    stats = dict(case=case, paths=0, aborted=0, degraded=[], mismatches=[], validated=0, checks=0,
                 violations=[], reached=set(), unconfirmed=[], sample=None)
    exhausted = False
    maxpaths = getattr(mod, 'MAX_PATHS', 100000)
    while True:
        e.reset_path()
        state.restore()
        w = W.SymWorld(root)
        status, exc, conc_r = 'ok', None, None
        so, se = sys.stdout, sys.stderr
        left = deadline - time.time()
        if left <= 0:
            break
        signal.signal(signal.SIGALRM, _to)
        try:
            try:
                signal.setitimer(signal.ITIMER_REAL, max(1.0, min(path_limit, left + 5)))
                w.start()
                mod.run(w, case)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except S.PathAbort:
            status = 'abort'
        except S.PathDegraded as x:
            status, exc = 'degraded', f'{x} @ {_frame(x)}'
        except S.PathTimeout:
            status, exc = 'timeout', ''
        except RecursionError as x:
            status, exc = 'exception', 'RecursionError ' + _frame(x)
        except Exception as x:
            try:
                msg = f'{type(x).__name__}: {S.concretize(S.tostr(x)) if S.is_sym(S.tostr(x)) else x}'
            except BaseException:
                msg = type(x).__name__
            status, exc = 'exception', msg[:300] + ' @ ' + _frame(x)
            if os.environ.get('SYMX_TB'):
                traceback.print_exc(file=sys.__stderr__)
        sys.stdout, sys.stderr = so, se
        os.chdir('/')
        if status == 'abort':
            stats['aborted'] += 1
        else:
            stats['paths'] += 1
            stats['checks'] += w.nchecks
            stats['reached'] |= w.reached
            for label, inputs in e.violations:
                r = conc.run(case, inputs)
                hit = [f for f in r['fails'] if f[0] == label]
                if hit:
                    stats['violations'].append([label, inputs, hit[0][1]])
                elif r['exc'] and r['exc'][0] not in ('assumption', 'server'):
                    stats['violations'].append([crash_label(r['exc']), inputs, r['exc'][2]])
                elif r['fails']:
                    stats['violations'].append([r['fails'][0][0], inputs, r['fails'][0][1]])
                else:
                    stats['unconfirmed'].append([label, inputs])
            # the path replayed on the real code, at the point the solver picks
            m = None
            try:
                signal.signal(signal.SIGALRM, _to)
                signal.setitimer(signal.ITIMER_REAL, 20)
                try:
                    m = e._ensure_model()
                    inputs = [S.eval_sym(x, m) for x in w.log]
                    sobs = [[n, S.eval_sym(v, m)] for n, v in e.obs]
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except S.SxBase:
                m = None
            if m is not None:
                if status != 'ok':
                    inputs = pad(mod, inputs)
                r = conc.run(case, inputs)
                for f in r['fails']:
                    if not any(v[0] == f[0] for v in stats['violations']):
                        stats['violations'].append([f[0], inputs, f[1]])
                if r['exc'] and r['exc'][0] not in ('assumption', 'server', 'IndexError@inputs'):
                    if r['exc'][0] == 'IndexError' and 'inputs' in r['exc'][2] and status != 'ok':
                        pass
                    else:
                        stats['violations'].append([crash_label(r['exc']), inputs, r['exc'][2]])
                elif status == 'ok':
                    from .server import jsonable
                    sj = json.loads(json.dumps(jsonable(sobs)))
                    if r['exc'] is None and sj == r['obs']:
                        stats['validated'] += 1
                    else:
                        stats['mismatches'].append([inputs, sj, r['obs'], r['exc']])
                if stats['sample'] is None and status == 'ok':
                    stats['sample'] = {'case': case, 'inputs': inputs}
            if status != 'ok':
                stats['degraded'].append([status, exc])
            elif e.path_inexact:
                stats['degraded'].append(['inexact', '; '.join(sorted(set(e.path_inexact)))])
        if len(stats['violations']) >= 25 or stats['paths'] >= maxpaths:
            break
        if not e.backtrack():
            exhausted = True
            break
    stats.update(exhausted=exhausted, queries=e.queries, asserts=e.asserts, solver_time=e.solver_time,
                 forks=e.forks, unknowns=e.unknowns, wall=time.time() - t0,
                 functions=sorted(H._functions), reached=sorted(stats['reached']))
    stats['mismatches'] = [len(stats['mismatches'])] + stats['mismatches'][:3]
    stats['degraded'] = [len(stats['degraded'])] + stats['degraded'][:4]
    stats['unconfirmed'] = [len(stats['unconfirmed'])] + stats['unconfirmed'][:3]
    out.put(stats)


def pad(mod, inputs):
    return inputs


def crash_label(exc):
    if exc[0] == 'timeout':
        return 'no-termination'
    return f'crash:{exc[0]}@{exc[1]}'


def _frame(x):
    tb = traceback.extract_tb(x.__traceback__)
    for f in reversed(tb):
        if '/symx/' not in f.filename:
            return f'{f.filename}:{f.lineno}'
    return str(tb[-1].lineno) if tb else ''


def worker(modname, root, todo, out, deadline, path_limit):
    sys.setrecursionlimit(5000)
    os.makedirs(root, exist_ok=True)
    mod = importlib.import_module('harness.' + modname)
    conc = Concrete(modname, root)
    null = open(os.devnull, 'w')
    sys.stdout = null
    from .hooks import _functions
    while True:
        try:
            case = todo.get(timeout=2)
        except queue.Empty:
            break
        if case is None:
            break
        _functions.clear()
        try:
            explore(mod, modname, case, root, conc, deadline, path_limit, out)
        except BaseException as x:
            out.put(dict(case=case, error=traceback.format_exc()[-1500:]))
    conc.stop()


def load_known():
    known = []
    if os.path.isfile(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                known.append(m.groups())
    return known


def main(argv):
    prop, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    only = argv[2] if len(argv) > 2 else None
    modname = prop.lower()
    t0 = time.time()
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    from . import instr, models, core
    instr.install(REPO, os.path.join(VERIF, 'harness'))
    models.install()
    models.install_foreign()
    core.set_engine(core.Engine())
    try:
        mod = importlib.import_module('harness.' + modname)
    except Exception:
        # the code under test cannot be imported (or not under instrumentation)
        return import_failure(prop, tier, modname, t0)
    cases = list(mod.cases(tier))
    if only:
        cases = [c for c in cases if only in json.dumps(c)]
    budget = getattr(mod, 'BUDGET', {}).get(tier) or {'quick': 75, 'thorough': 780}[tier]
    if os.environ.get('SYMX_BUDGET'):
        budget = float(os.environ['SYMX_BUDGET'])
    deadline = t0 + budget
    path_limit = getattr(mod, 'PATH_LIMIT', 30)
    nproc = min(int(os.environ.get('SYMX_PROCS', '8')), max(1, len(cases)))
    ctx = mp.get_context('fork')
    todo, out = ctx.Queue(), ctx.Queue()
    for c in cases:
        todo.put(c)
    for _ in range(nproc):
        todo.put(None)
    base = tempfile.mkdtemp(prefix='symx-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    ps = []
    try:
        for i in range(nproc):
            p = ctx.Process(target=worker, args=(modname, f'{base}/w{i}', todo, out, deadline, path_limit), daemon=True)
            p.start()
            ps.append(p)
        results = []
        hard = deadline + 60
        while len(results) < len(cases):
            try:
                r = out.get(timeout=1)
                results.append(r)
                if os.environ.get('SYMX_V'):
                    print(json.dumps({k: v for k, v in r.items() if k not in ('functions',)}, default=str)[:int(os.environ.get('SYMX_V'))])
            except queue.Empty:
                if time.time() > hard or not any(p.is_alive() for p in ps):
                    try:
                        while True:
                            results.append(out.get(timeout=0.2))
                    except queue.Empty:
                        break
        for p in ps:
            p.join(timeout=3)
            if p.is_alive():
                p.terminate()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return report(prop, tier, modname, mod, cases, results, t0)


def report(prop, tier, modname, mod, cases, results, t0):
    known = {k: d for p, k, d in load_known() if p == prop}
    viol, seen = {}, {}
    tot = dict(paths=0, aborted=0, checks=0, validated=0, queries=0, asserts=0, solver_time=0.0, forks=0, unknowns=0)
    funcs, reached = set(), set()
    degraded, mism, unconf, errors, notex = [], [], [], [], []
    ndeg = nmis = nunc = 0
    samples = []
    for r in results:
        if 'error' in r:
            errors.append([r['case'], r['error']])
            continue
        for k in tot:
            tot[k] += r[k]
        funcs |= set(r['functions'])
        reached |= set(r['reached'])
        ndeg += r['degraded'][0]
        degraded += [[r['case']] + x for x in r['degraded'][1:]]
        nmis += r['mismatches'][0]
        mism += [[r['case']] + x for x in r['mismatches'][1:]]
        nunc += r['unconfirmed'][0]
        unconf += [[r['case']] + x for x in r['unconfirmed'][1:]]
        if not r['exhausted']:
            notex.append(r['case'])
        if r['sample'] and len(samples) < 5:
            samples.append(r['sample'])
        for label, inputs, info in r['violations']:
            if label in known:
                seen.setdefault(label, (r['case'], inputs, info))
            else:
                viol.setdefault(label, (r['case'], inputs, info))
    missing = len(cases) - len(results)
    funcs = sorted(f for f in funcs if f.startswith(('mdpo', 'polib')))
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if re.fullmatch(re.escape(prop) + r'-\d+\.json', f):
            os.unlink(os.path.join(rdir, f))
    vlist = []
    for i, (label, (case, inputs, info)) in enumerate(sorted(viol.items())):
        path = os.path.join(rdir, f'{prop}-{i}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'harness': modname, 'label': label, 'case': case, 'inputs': inputs,
                       'info': info, 'run': f'cd {VERIF} && python3-vt -m symx.replay {path}'}, f, indent=1)
        vlist.append({'label': label, 'replay': path})
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  {label} case={json.dumps(case)[:300]} inputs={json.dumps(inputs)[:400]}')
        if info:
            print('  ' + str(info).strip().replace('\n', '\n  ')[-900:])
    for label in seen:
        print(f'KNOWN-FINDING: property={prop} {known[label]} [{label}]')
    exhaustive = not (notex or ndeg or nmis or nunc or errors or missing)
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking', 'wall_s': round(wall, 2),
        'coverage': {
            'states': tot['paths'] + tot['forks'], 'transitions': tot['forks'] + tot['paths'],
            'traces_validated_against_impl': tot['validated'],
            'samples': samples or [{'note': 'no path completed'}],
            'exhaustive_within_bounds': exhaustive,
            'method': 'symbolic execution of the real source; every assertion and branch decided by z3 '
                      'over all values of the symbolic inputs',
            'cases': len(cases), 'paths': tot['paths'], 'infeasible_paths': tot['aborted'],
            'assertions_decided': tot['asserts'], 'queries': tot['queries'],
            'solver_unknown': tot['unknowns'], 'solver_time_s': round(tot['solver_time'], 2),
            'functions_encoded': funcs, 'bounds': getattr(mod, 'BOUNDS', ''),
            'reached': sorted(reached),
            'not_reached': sorted(set(getattr(mod, 'REACH', ())) - reached),
            'cases_not_exhausted': notex[:20], 'degraded_paths': ndeg, 'degraded_samples': degraded[:8],
            'model_mismatches': nmis, 'mismatch_samples': mism[:3],
            'unconfirmed_counterexamples': nunc, 'unconfirmed_samples': unconf[:5],
            'engine_errors': errors[:3],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + GENERAL,
        'violations': vlist,
    }
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    c = ev['coverage']
    print(f'{prop} {tier}: {len(cases)} cases, {tot["paths"]} paths (+{tot["aborted"]} infeasible), '
          f'{tot["asserts"]} assertions, {tot["queries"]} queries, solver {tot["solver_time"]:.1f}s, '
          f'{tot["validated"]} paths replayed equal, {ndeg} degraded, {nmis} mismatches, {nunc} unconfirmed, '
          f'{len(notex)} cases not exhausted, {missing} missing, {len(errors)} errors; wall {wall:.1f}s')
    if c['not_reached']:
        print('  not reached:', c['not_reached'])
    if os.environ.get('SYMX_D'):
        for d in degraded[:12]:
            print('  DEG', json.dumps(d, default=str)[:700])
        for d in mism[:6]:
            print('  MIS', json.dumps(d, default=str)[:3000])
        for d in unconf[:6]:
            print('  UNC', json.dumps(d, default=str)[:900])
        for d in errors[:6]:
            print('  ERR', json.dumps(d[0]), d[1])
        if notex:
            print('  NOTEX', notex[:10])
    return 1 if vlist else 0


GENERAL = [
    'C and stdlib functions (md4c parser and renderer, html.parser, html.unescape, md_ulb_pwrap, textwrap) are executed '
    'for real with symbolic letters and digits replaced by unique letters: their behaviour is taken not to depend on '
    'which letter it is; every explored path is replayed on the uninstrumented code at a solver chosen point',
    'CPython string, dict and set operations and the re module are modelled by symx',
    'document text is not the name of an existing file',
]


def import_failure(prop, tier, modname, t0):
    print(traceback.format_exc()[-2000:])
    r = subprocess.run([sys.executable, '-c', f'''
import sys
sys.path.insert(0, {VERIF!r})
from symx import server
server.setup({REPO!r})
import importlib
importlib.import_module('harness.{modname}')
'''], capture_output=True, text=True, cwd=VERIF)
    print(r.stderr[-1500:])
    if r.returncode == 0:
        print('engine failure: the code imports without instrumentation')
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
