"""Concrete execution of harnesses (no solver needed)."""
import base64
import importlib.util
import os
import signal
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')


def enc(v):
    if isinstance(v, bytes):
        return {'b': base64.b64encode(v).decode()}
    if isinstance(v, str):
        return {'s': v.encode('utf-16-le', 'surrogatepass').hex(),
                'repr': ascii(v)}
    return v


def dec(v):
    if isinstance(v, dict):
        if 'b' in v:
            return base64.b64decode(v['b'])
        return bytes.fromhex(v['s']).decode('utf-16-le', 'surrogatepass')
    return v


def load_plain(prop):
    path = os.path.join(ROOT, 'props', prop.lower() + '.py')
    spec = importlib.util.spec_from_file_location('props_' + prop, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


class Timeout(Exception):
    pass


def run_concrete(fn, model, tier, limit=10, nearby=False):
    """-> (outcome, label, detail, labels)"""
    from .sx import ConcSx, Violated, Skip, Diverged
    sx = ConcSx(model, tier)
    sx.nearby = nearby

    def onalarm(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            fn(sx)
            return 'ok', None, '', sx.labels
        except Violated as e:
            return 'violated', e.label, str(e.detail), sx.labels
        except Skip:
            return 'skip', None, '', sx.labels
        except Diverged as e:
            return 'diverged', str(e), '', sx.labels
        except Timeout:
            return 'violated', 'does not terminate', '', sx.labels
        except Exception as e:
            tb = traceback.format_exc(limit=-4)
            return ('violated', 'unexpected %s' % type(e).__name__, tb,
                    sx.labels)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def replay(c):
    if c['harness'] is None:
        try:
            load_plain(c['property'])
        except Exception:
            traceback.print_exc()
            return 1
        return 0
    mod = load_plain(c['property'])
    for h, model in c.get('history') or ():
        model = {k: dec(v) for k, v in model.items()}
        print('after %s with %r' % (h, model))
        run_concrete(getattr(mod, h), model, c['tier'], 20)
    model = {k: dec(v) for k, v in c['model'].items()}
    r = run_concrete(getattr(mod, c['harness']), model, c['tier'], 20,
                     nearby=True)
    print('harness %s with %r' % (c['harness'], model))
    print('-> %s %s' % (r[0], r[1] or ''))
    if r[2]:
        print(r[2])
    return 1 if r[0] == 'violated' else 0
