"""Drives one property check: symbolic exploration on all cores, replay of every counterexample and
of sampled paths on the untouched package, evidence file, exit code."""
import argparse
import ast
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import zlib

os.environ.setdefault('PYTHONHASHSEED', '0')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def reexec():
    if os.environ.get('PYTHONHASHSEED') != '0' or os.path.realpath(sys.executable) != os.path.realpath(PY) or \
            not os.environ.get('SYMEX_RUN'):
        env = dict(os.environ, PYTHONHASHSEED='0', SYMEX_RUN='1', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONWARNINGS='ignore')
        os.execve(PY, [PY, '-m', 'symex.runner'] + sys.argv[1:], env)


def prepare(prop):
    sys.path.insert(0, VERIF)
    sys.path.insert(1, REPO)
    import warnings
    import logging
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    from symex import rewrite, libs, env, core
    state = env.State()
    rewrite.install(REPO, VERIF)
    libs.setup()
    import MyCapytain
    assert os.path.realpath(MyCapytain.__file__).startswith(os.path.realpath(REPO)), MyCapytain.__file__
    mod = importlib.import_module('props.' + prop.lower())
    state.snapshot()
    return mod, state


class Worker:
    def __init__(self, mod, state, tier, opts):
        from symex import core, sx
        self.core, self.sx = core, sx
        self.E = core.E
        self.mod, self.state, self.tier, self.opts = mod, state, tier, opts
        self.E.path_timeout = opts['path_timeout']
        self.E.max_decisions = opts['max_decisions']

    def path(self, name, prefix):
        E, core = self.E, self.core
        fn, params = self.mod.get(name, self.tier)
        self.state.restore()
        E.begin(prefix)
        s = self.sx.SymSX()
        r = {'status': 'ok', 'label': None}
        try:
            fn(s, **params)
        except core.Violated as e:
            r = {'status': 'violation', 'label': e.label, 'info': {k: self._show(v) for k, v in e.info.items()}}
        except core.Infeasible as e:
            r = {'status': 'infeasible', 'label': str(e)}
        except core.Unmodelled as e:
            r = {'status': 'unmodelled', 'label': str(e)}
        except core.PathLimit as e:
            r = {'status': 'limit', 'label': str(e)}
        except core.EngineError as e:
            r = {'status': 'engine', 'label': str(e)}
        except RecursionError:
            r = {'status': 'violation', 'label': 'exception:RecursionError'}
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            r = {'status': 'violation', 'label': 'exception:' + type(e).__name__,
                 'info': {'message': self._show(str(e))[:300],
                          'where': ['%s:%d' % (f.filename, f.lineno) for f in tb[-4:]]}}
        finally:
            s.cleanup()
        r['pending'] = E.pending
        r['trail'] = len(E.trail)
        r['checks'] = s.checks
        r['notes'] = sorted(E.notes)
        try:
            if r['status'] in ('violation', 'limit', 'unmodelled') or (
                    r['status'] == 'ok' and self.sample(E.trail)):
                m = E.get_model()
                r['inputs'] = [[l, k, E.concrete(v, m)] for l, k, v in E.inputs]
                if r['status'] == 'ok':
                    r['observations'] = [[l, E.concrete(v, m)] for l, v in E.observations]
        except core.Infeasible:
            r = {'status': 'infeasible', 'label': 'model', 'pending': E.pending, 'trail': len(E.trail),
                 'checks': {}, 'notes': []}
        except core.Abort as e:
            r['status'] = 'unmodelled'
            r['label'] = 'model: %s' % e
        E.end()
        return r

    def _show(self, v):
        try:
            return repr(self.E.concrete(v))[:300]
        except BaseException:
            return '?'

    def sample(self, trail):
        h = zlib.crc32(repr(trail).encode())
        return len(trail) == 0 or h % self.opts['sample'] == 0

    def chunk(self, name, prefix, max_paths, max_s):
        t0 = time.time()
        stack = [prefix]
        out = {'name': name, 'paths': 0, 'by': {}, 'viol': [], 'samples': [], 'checks': {}, 'notes': set(),
               'unmodelled': {}, 'hard': []}
        st0 = dict(self.E.stats)
        while stack and out['paths'] < max_paths and time.time() - t0 < max_s:
            p = stack.pop()
            r = self.path(name, p)
            stack.extend(r['pending'])
            out['paths'] += 1
            out['by'][r['status']] = out['by'].get(r['status'], 0) + 1
            for k, v in r['checks'].items():
                out['checks'][k] = out['checks'].get(k, 0) + v
            out['notes'].update(r['notes'])
            if r['status'] == 'violation':
                out['viol'].append({k: r.get(k) for k in ('label', 'info', 'inputs')})
                if len(out['viol']) >= 3:
                    break
            elif r['status'] in ('unmodelled', 'limit', 'engine'):
                key = r['status'] + ': ' + str(r['label'])
                out['unmodelled'][key] = out['unmodelled'].get(key, 0) + 1
                if r.get('inputs') is not None and len(out['hard']) < 4:
                    out['hard'].append({'inputs': r['inputs'], 'label': key})
            elif 'inputs' in r and len(out['samples']) < 6:
                out['samples'].append({'inputs': r['inputs'], 'observations': r['observations']})
        out['left'] = stack
        out['stats'] = {k: self.E.stats[k] - st0[k] for k in st0}
        out['functions'] = sorted(self.E.functions)
        out['native'] = dict(self.E.native_calls)
        out['notes'] = sorted(out['notes'])
        out['incomplete'] = self.E.incomplete
        return out


def worker_main(conn, mod, state, tier, opts):
    import gc
    import resource
    gc.freeze()
    lim = opts['mem_mb'] * 1024 * 1024
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    w = Worker(mod, state, tier, opts)
    while True:
        msg = conn.recv()
        if msg is None:
            return
        try:
            conn.send(w.chunk(*msg))
        except MemoryError:
            os._exit(3)


class Concrete:
    """Persistent concrete executor."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen([PY, '-m', 'symex.concrete'], cwd=VERIF, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def run(self, case):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(case) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ''
        if not line:
            self.stop()
            return {'status': 'error', 'label': 'concrete process died', 'observations': []}
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


def load_known():
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('open: '):
                out.append(dict(json.loads(line[6:]), status='open'))
    return out


def known_match(known, prop, harness, label, inputs):
    """A listed finding covers a violation only when harness, label and the listed inputs agree."""
    for k in known:
        if k.get('status') != 'open' or k['property'] != prop or k['harness'] != harness:
            continue
        if k['label'] != label:
            continue
        want = k.get('inputs', {})
        have = {l: v for l, _, v in inputs}
        if all(have.get(a) in (b if isinstance(b, list) else [b]) for a, b in want.items()):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--jobs', type=int, default=None)
    ap.add_argument('--harness', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--dev', action='store_true')
    ap.add_argument('--all', action='store_true', help='keep going after the first confirmed violation')
    a = ap.parse_args()
    reexec()
    t0 = time.time()
    prop = a.prop
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        mod, state = prepare(prop)
    except BaseException:
        traceback.print_exc()
        print('ERROR: cannot load the code under test', file=sys.stderr)
        sys.exit(2)
    budget = a.budget or getattr(mod, 'BUDGET', {}).get(tier, 100.0 if tier == 'quick' else 840.0)
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    opts = {'path_timeout': 20.0 if tier == 'quick' else 60.0, 'max_decisions': 20000, 'sample': 17 if tier == 'quick' else 97,
            'mem_mb': 6000}
    names = [n for n in mod.names(tier) if a.harness in (None, n)]
    queues = {n: [[]] for n in names}
    agg = {n: {'paths': 0, 'by': {}, 'checks': {}, 'unmodelled': {}, 'samples': [], 'exhausted': False,
               'viol': 0} for n in names}
    stats, functions, native, notes = {}, set(), {}, set()
    viol, unconfirmed, confirmed, known_hit = [], [], [], {}
    mismatches, validated = [], 0
    hard_ok = 0
    conc = Concrete()
    conc.start()
    known = load_known()
    ctx = mp.get_context('fork')
    conns = []

    def spawn():
        p, c = ctx.Pipe()
        pr = ctx.Process(target=worker_main, args=(c, mod, state, tier, opts), daemon=True)
        pr.start()
        c.close()
        return [p, pr, None]
    for _ in range(jobs):
        conns.append(spawn())
    rr = 0
    inflight = {n: 0 for n in names}
    seen_labels = {}
    stop = False
    crashed = 0
    first_confirm = None

    def process(out):
        nonlocal validated, stop, hard_ok, first_confirm
        n = out['name']
        g = agg[n]
        g['paths'] += out['paths']
        for d in ('by', 'checks', 'unmodelled'):
            for k, v in out[d].items():
                g[d][k] = g[d].get(k, 0) + v
        for k, v in out['stats'].items():
            stats[k] = stats.get(k, 0) + v
        functions.update(out['functions'])
        for k, v in out['native'].items():
            native[k] = max(native.get(k, 0), v)
        notes.update(out['notes'])
        if out['incomplete']:
            notes.add('solver returned unknown for some queries')
        queues[n].extend(out['left'])
        for v in out['viol']:
            g['viol'] += 1
            key = (n, v['label'], (known_match(known, prop, n, v['label'], v['inputs']) or {}).get('what'))
            seen_labels[key] = seen_labels.get(key, 0) + 1
            if seen_labels[key] > 12:
                continue
            case = {'property': prop, 'harness': n, 'tier': tier, 'inputs': v['inputs']}
            r = conc.run(case)
            if r['status'] == 'violation':
                k = known_match(known, prop, n, r['label'], v['inputs'])
                if k is not None:
                    known_hit[k['what']] = known_hit.get(k['what'], 0) + 1
                else:
                    confirmed.append((case, r))
                    if first_confirm is None:
                        first_confirm = time.time()
                    if not a.all:
                        stop = True
            else:
                unconfirmed.append((case, v, r))
        for s in out['samples']:
            if len(g['samples']) < (25 if tier == 'quick' else 60):
                case = {'property': prop, 'harness': n, 'tier': tier, 'inputs': s['inputs']}
                r = conc.run(case)
                s['result'] = r
                g['samples'].append(s)
                if r['status'] == 'violation':
                    # the engine accepted this path and the real code does not: the model is wrong there
                    mismatches.append((n, s['inputs'], 'violation ' + str(r.get('label'))))
                    k = known_match(known, prop, n, r['label'], s['inputs'])
                    if k is None:
                        confirmed.append((case, r))
                        if not a.all:
                            stop = True
                elif r['status'] != 'ok':
                    mismatches.append((n, s['inputs'], r['status'] + ' ' + str(r.get('label'))))
                elif json.dumps(r['observations']) != json.dumps(json.loads(json.dumps(s['observations']))):
                    mismatches.append((n, s['inputs'], [s['observations'], r['observations']]))
                else:
                    validated += 1
        for hd in out['hard']:
            # a path the engine gave up on: at least its own witness is run for real
            g.setdefault('hard', 0)
            if g['hard'] < 10:
                g['hard'] += 1
                case = {'property': prop, 'harness': n, 'tier': tier, 'inputs': hd['inputs'], 'timeout': 10}
                r = conc.run(case)
                if r['status'] == 'violation':
                    k = known_match(known, prop, n, r['label'], hd['inputs'])
                    if k is None:
                        confirmed.append((case, r))
                        if not a.all:
                            stop = True
                else:
                    hard_ok += 1

    deadline = t0 + budget
    active = list(names)
    while True:
        now = time.time()
        timeup = now > deadline
        for w in conns:
            if w[2] is None and not stop and not timeup:
                # next harness with work, round robin
                for _ in range(len(names)):
                    n = names[rr % len(names)]
                    rr += 1
                    if queues[n]:
                        q = queues[n]
                        if len(q) > 64 or inflight[n] >= jobs // 2:
                            p = q.pop()
                        else:
                            p = q.pop(0)
                        w[2] = n
                        few = len(q) + inflight[n] < jobs
                        w[0].send((n, p, 6 if few else 60, 0.15 if few else 1.0))
                        inflight[n] += 1
                        break
        busy = [w for w in conns if w[2] is not None]
        if not busy:
            break
        ready = mp.connection.wait([w[0] for w in busy], timeout=5)
        for w in busy:
            if w[0] in ready:
                n = w[2]
                w[2] = None
                inflight[n] -= 1
                try:
                    out = w[0].recv()
                except (EOFError, ConnectionResetError):
                    crashed += 1
                    agg[n]['unmodelled']['worker died'] = agg[n]['unmodelled'].get('worker died', 0) + 1
                    k = conns.index(w)
                    if crashed < 20:
                        conns[k] = spawn()
                    else:
                        conns[k][2] = None
                        stop = True
                    continue
                process(out)
        if time.time() > deadline + opts['path_timeout'] + 5:
            break
        if (stop and first_confirm and time.time() > first_confirm + 3):
            break
    for w in conns:
        try:
            w[1].terminate()
        except Exception:
            pass
    conc.stop()

    exhaustive = not crashed and not stop
    for n in names:
        agg[n]['exhausted'] = not queues[n] and not inflight[n]
        if not agg[n]['exhausted'] or agg[n]['unmodelled']:
            exhaustive = False
    wall = time.time() - t0
    total = sum(g['paths'] for g in agg.values())
    nchecks = sum(sum(g['checks'].values()) for g in agg.values())
    okpaths = sum(g['by'].get('ok', 0) for g in agg.values())
    # ---- report
    code = 0
    replay_path = None
    if confirmed:
        case, r = confirmed[0]
        blob = dict(case, result=r['status'], label=r.get('label'), info=r.get('info'),
                    how_to_replay='cd /verif && %s -m symex.concrete <this file>' % PY)
        rd = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
        replay_path = os.path.join(rd, '%s-%s.json' % (prop, h))
        with open(replay_path, 'w') as f:
            json.dump(blob, f, indent=1, ensure_ascii=True)
        for case, r in confirmed[:5] if a.v else confirmed[:1]:
            print('harness %s: %s %s' % (case['harness'], r.get('label'), json.dumps(r.get('info'), ensure_ascii=True)))
            print('  inputs: ' + json.dumps({l: v for l, _, v in case['inputs']}, ensure_ascii=True)[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
        code = 1
    for k in known:
        if k.get('status') == 'open' and k['property'] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if unconfirmed:
        print('note: %d solver counterexample(s) did not reproduce on the real code (model imprecision)'
              % len(unconfirmed), file=sys.stderr)
        if a.v or a.dev:
            for case, v, r in unconfirmed[:5]:
                print('UNCONFIRMED', case['harness'], v['label'], v.get('info'),
                      json.dumps(case['inputs']), '->', r['status'], r.get('label'), file=sys.stderr)
    if mismatches and (a.v or a.dev):
        for m in mismatches[:5]:
            print('MISMATCH', m[0], json.dumps(m[1]), m[2], file=sys.stderr)
    if code == 0 and (okpaths == 0 or nchecks == 0):
        print('ERROR: nothing was checked', file=sys.stderr)
        code = 2
    samples = []
    for n in names:
        for s in agg[n]['samples'][:2]:
            samples.append({'harness': n, 'inputs': {l: v for l, _, v in s['inputs']},
                            'observed': s['observations'][:6], 'real_code': s['result']['status']})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total,
            'transitions': stats.get('decisions', 0),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'note': 'no sampled path'}],
            'exhaustive': bool(exhaustive),
            'assertions_checked': nchecks,
            'forks': stats.get('forks', 0),
            'solver_queries': stats.get('queries', 0),
            'solver_seconds': round(stats.get('solver_s', 0.0), 3),
            'functions_encoded': sorted(x for x in functions if x.startswith('MyCapytain')),
            'library_functions_encoded': sorted(x[4:] for x in functions if x.startswith('lib:')),
            'harnesses': {n: {'paths': agg[n]['paths'], 'outcomes': agg[n]['by'], 'assertions': agg[n]['checks'],
                              'exhausted': agg[n]['exhausted'], 'not_modelled': agg[n]['unmodelled'],
                              'bounds': mod.bounds(n, tier)} for n in names},
            'native_calls_on_symbolic_values': native,
            'notes': sorted(notes),
            'model_mismatches': len(mismatches),
            'unconfirmed_counterexamples': len(unconfirmed),
            'abandoned_paths_run_concretely': hard_ok,
            'known_findings_hit': known_hit,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
        'wall_s': round(wall, 2),
        'violations': len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print('%s %s: %d paths, %d assertions, %d queries, %.1f s solver, %d traces validated, %s, %.1f s' % (
        prop, tier, total, nchecks, stats.get('queries', 0), stats.get('solver_s', 0), validated,
        'exhaustive within bounds' if exhaustive else 'not exhaustive', wall))
    if a.v:
        for n in names:
            g = agg[n]
            print('  %-28s paths=%d %s %s left=%d unmodelled=%s checks=%s' % (
                n, g['paths'], g['by'], 'done' if g['exhausted'] else 'CUT', len(queues[n]), g['unmodelled'], g['checks']))
        print('  native:', native)
        print('  notes:', sorted(notes), 'mismatches', len(mismatches))
    if a.dev and (unconfirmed or mismatches):
        code = code or 3
    sys.stdout.flush()
    os._exit(code)


COMMON = [
    'Executed: the source of MyCapytain in the working tree, rewritten so that operations on symbolic values go to '
    'the engine; Python built-ins, regular expressions, XPath and the rdflib store are modelled and the models are '
    'cross-checked on sampled paths against the untouched package.',
    'A symbolic character inside compiled library code (lxml, json) behaves as an ordinary character of its '
    'domain; markup-significant values are split off first.',
]

if __name__ == '__main__':
    main()
