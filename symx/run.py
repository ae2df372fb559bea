"""Check driver: explores the harnesses of one property in parallel."""
import argparse
import base64
import collections
import importlib.util
import json
import os
import signal
import subprocess
import sys
import warnings
import time
import traceback
import types

from .rp import ROOT, REPO, enc, dec, load_plain, run_concrete

REAL_PY = '/opt/venv/bin/python'


def load_inst(prop):
    from . import instrument, models
    path = os.path.join(ROOT, 'props', prop.lower() + '.py')
    with open(path) as f:
        src = f.read()
    mod = types.ModuleType('propsx_' + prop)
    mod.__file__ = path
    mod.__dict__['__symx__'] = True
    mod.__dict__['__builtins__'] = instrument.make_builtins(
        instrument.importer)
    code = instrument.transform_source(src, path)
    models.install()
    exec(code, mod.__dict__)
    models.install()
    instrument.snapshot()
    return mod


# ------------------------------------------------------------------ worker

class Worker(object):
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier

    def setup(self):
        sys.setrecursionlimit(20000)
        sys.path.insert(0, REPO)
        warnings.simplefilter('ignore', SyntaxWarning)
        self.inst = load_inst(self.prop)
        self.plain = load_plain(self.prop)
        self.coverage = set()
        self.profiled = {}
        # what this process has run on the real code so far
        self.first = []
        self.recent = collections.deque(maxlen=300)

    def concrete(self, hname, pfn, model, nearby=False):
        r = run_concrete(pfn, model, self.tier, nearby=nearby)
        history = None
        if r[0] == 'violated':
            history = self.first + list(self.recent)
        if len(self.first) < 50:
            self.first.append((hname, model))
        else:
            self.recent.append((hname, model))
        return r, history

    def run_task(self, hname, prefix, slice_s, max_pending):
        """explore depth-first from prefix for up to slice_s seconds"""
        from . import core, hooks, instrument
        from .core import E, EngineExc, PathAbort, Gap, BudgetExceeded
        from .sx import SymSx, Violated
        fn = getattr(self.inst, hname)
        pfn = getattr(self.plain, hname)
        stack = [prefix]
        res = {'cands': [], 'gaps': {}, 'labels': {}, 'samples': [],
               'divergences': [], 'validated': 0, 'paths': 0, 'aborted': 0,
               'gap_paths': 0, 'maxdepth': 0}
        t_end = time.monotonic() + slice_s
        E.stats = dict.fromkeys(
            ('paths', 'aborted', 'gaps', 'decisions', 'forks', 'queries',
             'unary_queries', 'unknown', 'concretisations', 'checks',
             'assert_queries'), 0)
        E.stats['solver_s'] = 0.0
        while stack:
            if time.monotonic() > t_end:
                break
            if len(stack) > max_pending and res['paths'] > 2:
                break
            pre = stack.pop()
            instrument.restore()
            hooks.reset_path_state()
            E.reset(pre)
            E.active = True
            sx = SymSx(self.tier)
            outcome = 'ok'
            label = None
            signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT)
            nth = self.profiled[hname] = self.profiled.get(hname, 0) + 1
            if nth < 5 or nth % PROF_EVERY == 0:
                sys.setprofile(self._prof)
            try:
                fn(sx)
            except Violated as e:
                outcome, label = 'violated', e.label
            except PathAbort:
                outcome = 'abort'
            except PathTimeout:
                outcome = 'timeout'
            except EngineExc as e:
                outcome = 'gap'
                label = '%s: %s' % (type(e).__name__, e)
            except RecursionError as e:
                outcome, label = 'exc', 'unexpected RecursionError'
            except Exception as e:
                outcome, label = 'exc', 'unexpected %s' % type(e).__name__
                self.last_tb = traceback.format_exc(limit=-6)
            finally:
                sys.setprofile(None)
                signal.setitimer(signal.ITIMER_REAL, 0)
            stack.extend(E.pending)
            res['paths'] += 1
            res['maxdepth'] = max(res['maxdepth'], len(E.log))
            for l in sx.labels:
                res['labels'][l] = res['labels'].get(l, 0) + 1
            if outcome == 'abort':
                E.active = False
                res['aborted'] += 1
                continue
            cands = list(sx.candidates)
            model = None
            try:
                m = E.model()
                model = sx.model_of(m) if m is not None else None
            except EngineExc:
                model = None
            E.active = False
            if outcome in ('exc', 'gap', 'timeout') and model is not None:
                cands.append((label or outcome, model))
            conf = []
            for lab, cm in cands:
                r, history = self.concrete(hname, pfn, cm, True)
                if r[0] == 'violated':
                    conf.append({'label': r[1], 'detail': r[2],
                                 'model': cm, 'harness': hname,
                                 'history': history})
            res['cands'].extend(conf)
            if outcome == 'gap' or outcome == 'timeout':
                res['gap_paths'] += 1
                k = label or 'path time limit'
                res['gaps'][k] = res['gaps'].get(k, 0) + 1
            elif outcome == 'exc' and not conf:
                res['gap_paths'] += 1
                k = 'engine: ' + label + ' | ' + (
                    self.last_tb.strip().splitlines()[-1][:200]
                    if self.last_tb else '')
                res['gaps'][k] = res['gaps'].get(k, 0) + 1
                res.setdefault('gap_tb', self.last_tb)
            elif outcome == 'violated' and not conf:
                res['gap_paths'] += 1
                k = 'not reproduced: ' + label
                res['gaps'][k] = res['gaps'].get(k, 0) + 1
                res.setdefault('gap_model', repr(cands[:1])[:500])
            elif outcome == 'ok' and model is not None and not conf:
                r, history = self.concrete(hname, pfn, model)
                res['validated'] += 1
                if r[0] == 'violated':
                    res['cands'].append({
                        'label': r[1], 'detail': r[2], 'model': model,
                        'harness': hname, 'history': history})
                    res['divergences'].append(
                        'real code fails %s where the encoding passes: %r'
                        % (r[1], model))
                elif r[0] != 'ok' or r[3] != sx.labels:
                    if len(res['divergences']) < 3:
                        res['divergences'].append('%s %r: %r vs %r' % (
                            r[0], model, r[3][-3:], sx.labels[-3:]))
                    else:
                        res['divergences'].append('')
            if model is not None and len(res['samples']) < 2:
                res['samples'].append({
                    'harness': hname, 'decisions': len(E.log),
                    'model': {k: (ascii(v) if not isinstance(v, int) else v)
                              for k, v in model.items()},
                    'outcome': outcome})
            if res['cands']:
                break
        res['pending'] = stack
        res['stats'] = E.stats
        res['functions'] = sorted(self.coverage)
        return res

    def _prof(self, frame, event, arg):
        if event == 'call':
            c = frame.f_code
            if not c.co_flags & 2:
                return      # module and class bodies
            if c.co_filename.startswith(REPO + '/') or (
                    '/lib/python3' in c.co_filename and
                    '__symx__' in frame.f_globals):
                self.coverage.add('%s:%s' % (
                    c.co_filename.replace(REPO + '/', '').split(
                        '/lib/python3.12/')[-1], c.co_qualname))


EVIDENCE = os.environ.get('SYMX_EVIDENCE') or os.path.join(ROOT, 'evidence')

from .core import EngineExc as _EE     # noqa: E402

PROF_EVERY = int(os.environ.get('SYMX_PROF_EVERY', 40))
PATH_LIMIT = 20


class PathTimeout(_EE):
    pass


def _onalarm(*a):
    raise PathTimeout()


def worker_main(conn, prop, tier):
    try:
        signal.signal(signal.SIGALRM, _onalarm)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        w = Worker(prop, tier)
        w.setup()
    except BaseException:
        conn.send(('fail', traceback.format_exc()))
        return
    conn.send(('ready', [n for n in dir(w.plain) if n.startswith('h_')]))
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            from . import instrument
            conn.send(('bye', dict(instrument.ENCODED)))
            return
        try:
            r = w.run_task(*task)
            conn.send(('done', r))
        except BaseException:
            conn.send(('err', traceback.format_exc()))


def main(argv=None):
    import multiprocessing as mp
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=int(
        os.environ.get('SYMX_JOBS', os.cpu_count() or 4)))
    ap.add_argument('--only')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args(argv)
    prop = args.prop.upper()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    t0 = time.monotonic()
    budget = args.budget or (
        float(os.environ.get('SYMX_BUDGET', 0)) or
        (150.0 if tier == 'quick' else 1500.0))
    ctx = mp.get_context('fork')
    workers = []
    for i in range(args.jobs):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker_main, args=(b, prop, tier),
                        daemon=True)
        p.start()
        b.close()
        workers.append([p, a, None, None])
    hnames = None
    setup_err = None
    for w in workers:
        kind, v = w[1].recv()
        if kind == 'fail':
            setup_err = v
        else:
            hnames = v
    agg = Agg(prop, tier)
    if setup_err is not None:
        return report_setup_failure(agg, setup_err, t0)
    if args.only:
        hnames = [h for h in hnames if args.only in h]
    queues = {h: [[]] for h in hnames}
    used = dict.fromkeys(hnames, 0.0)
    active = dict.fromkeys(hnames, 0)
    stop = False
    deadline = t0 + budget
    from multiprocessing.connection import wait
    while True:
        now = time.monotonic()
        if now > deadline:
            stop = True
        if not stop:
            for w in workers:
                if w[2] is not None or w[0] is None:
                    continue
                cand = [h for h in hnames if queues[h]]
                if not cand:
                    break
                h = min(cand, key=lambda x: used[x] + active[x] * 0.5)
                pre = queues[h].pop()
                idle = sum(1 for x in workers if x[2] is None)
                total_q = sum(map(len, queues.values()))
                # split early while others are idle
                sl, mpnd = (0.05, 3) if total_q < 2 * len(workers) else (
                    0.7, 400)
                w[2] = h
                w[3] = now
                active[h] += 1
                w[1].send((h, pre, sl, mpnd))
        busy = [w for w in workers if w[2] is not None]
        if not busy:
            break
        ready = wait([w[1] for w in busy], timeout=1.0)
        for w in busy:
            if w[1] in ready:
                h = w[2]
                used[h] += time.monotonic() - w[3]
                active[h] -= 1
                w[2] = None
                try:
                    kind, r = w[1].recv()
                except (EOFError, OSError):
                    agg.worker_died(h)
                    w[0] = None
                    workers.remove(w)
                    continue
                if kind == 'err':
                    agg.error(h, r)
                    continue
                agg.add(h, r)
                queues[h].extend(r['pending'])
                if r['cands'] and not args.keep_going:
                    if agg.confirm(r['cands'], only_new=True):
                        stop = True
                elif r['cands']:
                    agg.confirm(r['cands'], only_new=True)
        if stop and now > deadline + 30:
            break
    left = {h: len(q) for h, q in queues.items() if q}
    if agg.violations:
        left = {}
    for w in workers:
        try:
            w[1].send(None)
            kind, enc_ = w[1].recv() if w[1].poll(2) else (None, None)
            if kind == 'bye':
                agg.encoded.update(enc_)
        except (OSError, EOFError, BrokenPipeError):
            pass
    for w in workers:
        if w[0] is not None:
            w[0].terminate()
    return agg.finish(t0, left, hnames, used, args.v, budget)


def report_setup_failure(agg, err, t0):
    """the code under test cannot even be imported: no answer"""
    print(err, file=sys.stderr)
    agg.errors.append('setup: ' + err[-1500:])
    agg.finish(t0, {'setup': 1}, [], {}, False, 0)
    return 2


class Agg(object):
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.violations = []
        self.known = []
        self.stats = {}
        self.paths = {}
        self.gaps = {}
        self.labels = {}
        self.samples = []
        self.divergences = []
        self.ndiv = 0
        self.validated = 0
        self.aborted = 0
        self.gap_paths = 0
        self.functions = set()
        self.errors = []
        self.encoded = {}
        self.seen = set()
        self.tries = {}
        self.written = 0
        self.details = []
        self.maxdepth = 0

    def error(self, h, tb):
        self.errors.append('%s: %s' % (h, tb[-1500:]))

    def worker_died(self, h):
        self.errors.append('%s: worker died' % h)

    def add(self, h, r):
        self.paths[h] = self.paths.get(h, 0) + r['paths']
        self.aborted += r['aborted']
        self.gap_paths += r['gap_paths']
        self.validated += r['validated']
        self.maxdepth = max(self.maxdepth, r['maxdepth'])
        for k, v in r['stats'].items():
            if isinstance(v, dict):
                d = self.stats.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            else:
                self.stats[k] = self.stats.get(k, 0) + v
        for k, v in r['gaps'].items():
            self.gaps[h + ' ' + k] = self.gaps.get(h + ' ' + k, 0) + v
        if 'gap_tb' in r and len(self.details) < 5:
            self.details.append(r['gap_tb'])
        if 'gap_model' in r and len(self.details) < 5:
            self.details.append(r['gap_model'])
        for k, v in r['labels'].items():
            k = h + ':' + k
            self.labels[k] = self.labels.get(k, 0) + v
        n = sum(1 for s in self.samples if s['harness'] == h)
        self.samples.extend(r['samples'][:max(0, 2 - n)])
        self.ndiv += len(r['divergences'])
        if len(self.divergences) < 5:
            self.divergences.extend(x for x in r['divergences'] if x)
        self.functions.update(r['functions'])

    def write_replay(self, c):
        d = os.path.join(EVIDENCE, 'replays')
        os.makedirs(d, exist_ok=True)
        n = len(os.listdir(d))
        path = os.path.join(d, '%s-%d-%d.json' % (
            self.prop, os.getpid(), self.written))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'tier': self.tier,
                       'harness': c['harness'], 'label': c['label'],
                       'detail': c['detail'],
                       'history': [
                           [h, {k: enc(v) for k, v in m.items()}]
                           for h, m in c.get('history') or ()],
                       'model': {k: enc(v) for k, v in c['model'].items()}},
                      f, indent=1)
        return path

    def confirm(self, cands, only_new=True):
        """replay in a fresh interpreter against the unmodified code"""
        hit = False
        for c in cands:
            key = (c['harness'], c['label'])
            if key in self.seen:
                continue
            history = c.pop('history', None)
            self.written += 1
            path = self.write_replay(c)
            rc = replay_subprocess(path)
            if rc != 1 and history and self.tries.get(key, 0) < 5:
                # it may need the state that earlier calls have left behind
                c['history'] = self.shortest(c, history)
                path = self.write_replay(c)
                rc = replay_subprocess(path, late=0)
            if rc == 1:
                self.seen.add(key)
                kf = known_finding(self.prop, c)
                if kf:
                    self.known.append(kf)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, kf))
                    continue
                self.violations.append(path)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  harness %s: %s' % (c['harness'], c['label']))
                for h, m in c.get('history') or ():
                    print('  after %s with %s' % (h, {
                        k: v for k, v in m.items()
                        if not k.endswith('.len')}))
                print('  input %s' % {k: v for k, v in c['model'].items()
                                      if not k.endswith('.len')})
                if c['detail']:
                    print('  ' + c['detail'].strip().replace('\n', '\n  '))
                sys.stdout.flush()
                hit = True
            else:
                self.tries[key] = self.tries.get(key, 0) + 1
                if self.tries[key] >= 40:
                    self.seen.add(key)
                self.gaps['unreproduced ' + c['label']] = self.tries[key]
        return hit

    def shortest(self, c, history):
        """a short part of the runs before a failure with which it fails in a
        fresh interpreter, too"""
        def fails(part):
            path = self.write_replay(dict(c, history=part))
            rc = replay_subprocess(path, late=0)
            os.unlink(path)
            return rc == 1
        if not fails(history):
            return []
        end = time.monotonic() + 40
        step = (len(history) + 1) // 2
        while time.monotonic() < end and len(history) > 1:
            for i in range(0, len(history), step):
                part = history[:i] + history[i + step:]
                if time.monotonic() < end and fails(part):
                    history = part
                    break
            else:
                if step == 1:
                    break
                step = (step + 1) // 2
                continue
            step = max(1, min(step, (len(history) + 1) // 2))
        return history

    def finish(self, t0, left, hnames, used, verbose, budget):
        wall = time.monotonic() - t0
        paths = sum(self.paths.values())
        exhaustive = (not left and not self.gaps and not self.errors and
                      not self.violations)
        unreached = []
        try:
            sys.path.insert(0, REPO)
            doc = {}
            with open(os.path.join(ROOT, 'props',
                                   self.prop.lower() + '.py')) as f:
                import ast
                tree = ast.parse(f.read())
            moddoc = ast.get_docstring(tree) or ''
            for n in tree.body:
                if isinstance(n, ast.FunctionDef) and n.name.startswith(
                        'h_'):
                    doc[n.name] = ' '.join(
                        (ast.get_docstring(n) or '').split())
        except Exception:
            doc, moddoc = {}, ''
        for h in hnames:
            if not any(k.startswith(h + ':') for k in self.labels):
                unreached.append(h)
        st = self.stats
        ev = {
            'property': self.prop, 'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'model_checking',
            'coverage': {
                'states': st.get('decisions', 0),
                'transitions': st.get('forks', 0),
                'traces_validated_against_impl': self.validated,
                'exhaustive': exhaustive,
                'paths': paths,
                'paths_per_harness': self.paths,
                'paths_assumption_false': self.aborted,
                'paths_inconclusive': self.gap_paths,
                'inconclusive': dict(list(self.gaps.items())[:20]),
                'unexplored_frontier': left,
                'deepest_path_decisions': self.maxdepth,
                'solver': 'z3',
                'solver_queries': st.get('queries', 0),
                'solver_queries_single_variable': st.get(
                    'unary_queries', 0),
                'assertion_queries': st.get('assert_queries', 0),
                'assertions_evaluated': st.get('checks', 0),
                'solver_unknown': st.get('unknown', 0),
                'solver_s': round(st.get('solver_s', 0.0), 3),
                'forced_concretisations': st.get('concretisations', 0),
                'c_functions_concretised': st.get('c_calls', {}),
                'assertions_reached': dict(sorted(self.labels.items())),
                'harnesses_without_reached_assertion': unreached,
                'bounds': doc,
                'functions_encoded': sorted(self.functions),
                'modules_encoded_from_source': self.encoded,
                'encoding_vs_real_divergences': self.ndiv,
                'divergence_samples': self.divergences[:5],
                'samples': self.samples[:12],
                'errors': self.errors[:5],
                'known_findings': self.known,
                'explanation': 'states = branch decisions put to the solver '
                'over all paths; transitions = decisions with both outcomes '
                'feasible (forks); every completed path is a set of inputs '
                'for which z3 decided all assertions, and one model of each '
                'path was also executed on the unmodified code.',
            },
            'assumptions': [
                'bounds per harness are given under coverage.bounds; nothing'
                ' is claimed outside them',
                'CPython, the instrumentation and the built-in type models '
                'of symx are trusted; each path is cross-checked by running '
                'one of its models on the real code',
            ] + ([moddoc] if moddoc else []),
            'wall_s': round(wall, 2),
            'violations': len(self.violations),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d paths in %.1fs, %d queries (%.1fs solver), %d '
              'assertions, validated %d, %s' % (
                  self.prop, self.tier, paths, wall, st.get('queries', 0),
                  st.get('solver_s', 0), st.get('checks', 0),
                  self.validated,
                  'exhaustive within bounds' if exhaustive else
                  'VIOLATED' if self.violations else
                  'NOT exhaustive: left=%s gaps=%s errors=%d' % (
                      left, dict(list(self.gaps.items())[:8]),
                      len(self.errors))))
        if self.ndiv:
            print('divergences: %d %s' % (self.ndiv, self.divergences[:3]))
        if unreached:
            print('harnesses with no reached assertion: %s' % unreached)
        if verbose or self.errors:
            for h in hnames:
                print('   %-40s %7d paths %6.1fs' % (
                    h, self.paths.get(h, 0), used.get(h, 0)))
            print(json.dumps(self.labels, indent=1) if verbose else '')
            print('concretised: %s %s' % (st.get('concretisations'),
                                          st.get('c_calls')))
            for k, n in sorted(st.get('profile', {}).items(),
                               key=lambda x: -x[1])[:25]:
                print('   fork %8d %s' % (n, k))
            for d in self.details + self.errors[:2]:
                print(d)
        sys.stdout.flush()
        if self.violations:
            return 1
        if not paths:
            print('nothing could be explored')
            return 2
        return 0


def known_finding(prop, c):
    path = os.path.join(ROOT, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except OSError:
        return None
    for k in data.get('known', []):
        if k['property'] == prop and k['harness'] == c['harness'] and (
                k['label'] == c['label']):
            want = k.get('model')
            if want is None or all(
                    c['model'].get(n) == dec(v) for n, v in want.items()):
                return k['what']
    return None


def replay_subprocess(path, timeout=60, late=1):
    try:
        p = subprocess.run(
            [REAL_PY, os.path.join(ROOT, 'replay.py'), path],
            capture_output=True, text=True, timeout=timeout,
            cwd=REPO)
        return p.returncode
    except subprocess.TimeoutExpired:
        return late


if __name__ == '__main__':
    sys.exit(main())
