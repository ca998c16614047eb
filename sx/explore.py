"""Exploration of one harness by re-execution; runs in a worker process."""
import importlib
import signal
import sys
import time
from . import api, models, loader
from .core import CTX, Abort, Unsupported, PathTimeout, EngineError, Violation
from .symback import Sym, values, evaluate

PATH_LIMIT = 30


def _alarm(*_):
    raise PathTimeout('alarm')


class Result:
    def __init__(self):
        self.pending = []          # (harness index, prefix)
        self.candidates = []       # dicts
        self.samples = []
        self.inconclusive = {}
        self.labels = {}
        self.done = {}


def run_path(func, params, prefix):
    """Execute one path. Returns (kind, info)."""
    CTX.reset(prefix)
    api.B = Sym()
    CTX.deadline = time.time() + PATH_LIMIT
    signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT + 5)
    old = sys.stdout
    out = models.SymOut()
    sys.stdout = out
    try:
        func(**params)
        return 'ok', None
    except Abort:
        CTX.stats['aborted'] += 1
        return 'abort', None
    except Violation as e:
        return 'violation', {'msg': e.args[0], 'values': e.args[1]}
    except Unsupported as e:
        CTX.stats['unsupported'] += 1
        return 'unsupported', str(e)
    except PathTimeout as e:
        return 'timeout', None
    except RecursionError as e:
        return 'exception', {'type': 'RecursionError', 'msg': str(e)}
    except (Exception, SystemExit) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d:%s' % (f.filename.split('/')[-1], f.lineno, f.name) for f in reversed(tb[-5:]))
        return 'exception', {'type': type(e).__name__, 'msg': '%s (%s)' % (str(e)[:300], where)}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = old


def run_task(harnesses, hidx, prefixes, seconds, want_samples, known=()):
    """Explore from the given prefixes for some time (DFS); return a Result."""
    mod, name, params, func = harnesses[hidx]
    res = Result()
    stack = list(prefixes)
    end = time.time() + seconds
    signal.signal(signal.SIGALRM, _alarm)
    n = 0
    before = dict(CTX.stats)
    while stack:
        prefix = stack.pop()
        kind, info = run_path(func, params, prefix)
        CTX.stats['paths'] += 1
        n += 1
        for l in api.B.labels:
            res.labels[l] = res.labels.get(l, 0) + 1
        for note in CTX.notes:
            res.inconclusive[note] = res.inconclusive.get(note, 0) + 1
        tags = [t for t in CTX.tags if t in known]
        base = {'module': mod, 'func': name, 'params': params, 'hidx': hidx, 'tags': list(CTX.tags)}
        if kind == 'abort':
            pass
        elif kind == 'unsupported':
            k = 'unsupported: ' + info
            res.inconclusive[k] = res.inconclusive.get(k, 0) + 1
        elif kind == 'violation':
            res.candidates.append(dict(base, kind='check', msg=info['msg'], values=info['values']))
        elif kind in ('exception', 'timeout'):
            try:
                CTX.model = None
                m = CTX.get_model()
                v = values(m)
                if kind == 'timeout':
                    res.candidates.append(dict(base, kind='hang', msg='no end of this path', values=v))
                else:
                    res.candidates.append(dict(base, kind='exception', msg='%s: %s' % (info['type'], info['msg']),
                                               etype=info['type'], values=v))
            except (Abort, Unsupported):
                pass
        elif kind == 'ok' and len(res.samples) < want_samples:
            try:
                m = CTX.get_model()
                v = values(m)
                res.samples.append(dict(base, values=v, observed=[evaluate(m, o) for o in CTX.observed],
                                        notes=sorted(CTX.notes)))
            except (Abort, Unsupported):
                pass
        stack.extend(CTX.pending)
        if any(c for c in res.candidates if not (set(c['tags']) & set(known))):
            break
        if len(res.candidates) > 20:
            break
        if time.time() > end:
            break
    res.pending = stack
    res.stats = {k: CTX.stats[k] - before.get(k, 0) for k in CTX.stats}
    res.entered = sorted(loader.ENTERED)
    return res


def load(module):
    """Import the harness module (instrumented) and return its harness functions."""
    m = importlib.import_module(module)
    return [f for f in m.__dict__.values() if callable(f) and getattr(f, '__module__', '') == module
            and hasattr(f, 'quick')]
