"""Runs analysis tasks over the processors, each within a time limit."""
import os, signal, time, traceback
from multiprocessing import Value, get_context

FUNCS = {}


def task(f):
    FUNCS[f.__name__] = f
    return f


class TimeUp(BaseException):
    pass


CTX = None
DEADLINE = None


def left():
    """Seconds left for optional work."""
    return 1e9 if DEADLINE is None else DEADLINE.value - time.time()


def _alarm(*a):
    raise TimeUp()


def _one(t):
    name, args, limit = t
    t0 = time.time()
    if left() < -300:
        return {'notes': {'not run: a violation was found before': 1}, 'unfinished': True, 'task': (name,) + tuple(args), 'wall': 0}
    limit = min(limit, max(30, left() + 60))
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        r = FUNCS[name](CTX, *args)
    except TimeUp:
        r = {'notes': {'time limit of %d s' % limit: 1}, 'unfinished': True}
    except Exception as e:
        r = {'notes': {'internal: ' + traceback.format_exc()[-600:]: 1}, 'unfinished': True}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    r['task'] = (name,) + tuple(args)
    r['wall'] = time.time() - t0
    return r


def run_all(ctx, tasks, limit=240, procs=None, total=None, found=None):
    """Once `found` holds of the results, what has begun is brought to an end and nothing else is begun."""
    global CTX, DEADLINE
    CTX = ctx
    DEADLINE = None if total is None else Value('d', time.time() + total)
    n = procs or os.cpu_count() or 1
    out = []
    mp = get_context('fork')
    with mp.Pool(n) as pool:
        for r in pool.imap_unordered(_one, [(t[0], t[1:], limit) for t in tasks], chunksize=1):
            out.append(r)
            if found is not None and r.get('violations') and found(out):
                found = None
                DEADLINE.value = time.time() - 1000
    return out
