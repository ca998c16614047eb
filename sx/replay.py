"""Run a harness on given values with the plain code of /repo.

    /opt/venv/bin/python -B -m sx.replay FILE.json

FILE.json: {"module": "harness.c03", "func": ..., "params": {...}, "values": {...}} or a list of such.
Prints one JSON line per entry; exits 1 if the (single) entry violates the property.
"""
import json
import logging
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('UDAPI_REPO', '/repo')


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def run_one(entry, limit=60):
    from sx import api
    import importlib
    import io
    logging.disable(logging.CRITICAL)
    api.B = api.Plain(entry['values'])
    res = {'outcome': 'ok', 'msg': ''}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        mod = importlib.import_module(entry['module'])
        getattr(mod, entry['func'])(**entry['params'])
    except api.Violated as e:
        res = {'outcome': 'violated', 'msg': str(e)}
    except api.Assumed:
        res = {'outcome': 'assumed', 'msg': ''}
    except Hang:
        res = {'outcome': 'hang', 'msg': 'no end after %d s' % limit}
    except RecursionError as e:
        res = {'outcome': 'exception', 'type': 'RecursionError', 'msg': str(e)}
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        res = {'outcome': 'exception', 'type': type(e).__name__, 'msg': '%s (%s)' % (str(e)[:300], where)}
    finally:
        signal.alarm(0)
    res['observed'] = api.B.observed
    res['tags'] = api.B.tags
    return res


def main():
    for p in (VERIF, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    sys.dont_write_bytecode = True
    with open(sys.argv[1], encoding='utf-8', errors='surrogatepass') as fh:
        data = json.load(fh)
    single = isinstance(data, dict)
    real = sys.stdout
    sys.stdout = sys.stderr
    bad = False
    for entry in ([data] if single else data):
        res = run_one(entry, 30 if single else 20)
        bad = bad or res['outcome'] in ('violated', 'exception', 'hang')
        print(json.dumps(res), file=real, flush=True)
    sys.stdout = real
    sys.exit(1 if single and bad else 0)


if __name__ == '__main__':
    main()
