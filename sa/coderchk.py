"""Tasks for the coding interface (encoder, decoder, coder state)."""
import tasks
from tasks import task
import time
import api, world, interp
from core import *
from interp import Job
import natives as NV


def all_tasks(w):
    slow = ('i128', 'begin_enum', 'u128', 'char', 'i64', 'i32', '_str', '_bytes', 'u64', 'u32')
    out = []
    for which, names in (('Encoder', api.ENC), ('Decoder', api.DEC)):
        for n in names:
            for c in world.PRES:
                out.append(('coder', which, n, c))
    for n in api.LIFE:
        for c in world.PRES if n not in ('new',) else ('new',):
            out.append(('life', n, c))
    out.sort(key=lambda t: ([i for i, s in enumerate(slow) if s in t[2]] + [99])[0] if t[-1] == 'need' else 99)
    return out


# how often exact paths go round a loop, and for how long they are followed
ROUNDS = ((6, 40), (18, 40), (70, 50), (270, 60), (1100, 150), (4200, 300))


def confirm(make, r):
    """Keeps of the violations found over widened loops those that a path shows which goes round
    each loop a bounded number of times, exactly; the others are set aside as undecided."""
    stuck = any(n.startswith('cannot widen') for n in r.notes)
    if not stuck and (not r.violations or not r.stats['widen']):
        return
    def key(v):
        return v[0], v[1].split(' at ')[0] if v[0] == 'C07' else v[1]
    have = set()
    for n, seconds in ROUNDS:
        # the last rounds are for loops that change their ways after many turns
        seconds = min(seconds, tasks.left())
        if seconds < 2:
            break
        interp.UNROLL[:] = [n, time.time() + seconds]
        try:
            x = make()
            x.go()
        finally:
            interp.UNROLL[:] = [None, None]
        have |= {key(v) for v in x.violations}
        if stuck:
            # what no widened loop shows may be shown by exact paths alone
            r.violations += [v for v in x.violations if v not in r.violations]
            if not have:
                continue
        if all(key(v) in have for v in r.violations):
            break
    keep = []
    for v in r.violations:
        if key(v) in have:
            keep.append(v)
        else:
            r.note('undecided: %s (not on any path that was followed exactly)' % v[1])
    r.violations = keep


@task
def coder(ctx, which, name, cls):
    w = ctx['w']
    root = ctx['methods'][which].get(name)
    if root is None:
        return {'notes': {'no method %s of %s' % (name, which): 1}, 'unfinished': True}
    r = api.Run(w, which, name, root, cls)
    try:
        r.go()
        confirm(lambda: api.Run(w, which, name, root, cls), r)
    except world.Anchor as e:
        return {'notes': {'anchor: %s' % e: 1}, 'unfinished': True}
    v = set(r.violations)
    for what, where, nm in r.allocs:
        if which == 'Decoder' and set(nm) & {'rd', 'sch', 'len', 'f'}:
            v.add(('C08', 'allocates (%s) by a length that comes from the %s%s' % (
                what, 'message' if 'rd' in nm else 'schema', where), 'any'))
    p = w.prog
    return {'violations': sorted(v, key=str), 'notes': r.notes, 'outcomes': r.outcomes, 'cases': r.cases,
            'subject': '%s::%s' % (which, name), 'cls': cls,
            'functions': sorted(set(p.bodies[b].path for b in r.visited if p.bodies[b].krate == 'binschema')),
            'steps': r.stats['steps']}


@task
def life(ctx, name, cls):
    w = ctx['w']
    try:
        r = api.Life(w, name, cls)
        r.go()
        confirm(lambda: api.Life(w, name, cls), r)
    except world.Anchor as e:
        return {'notes': {'anchor: %s' % e: 1}, 'unfinished': True}
    p = w.prog
    return {'violations': sorted(set(r.violations), key=str), 'notes': r.notes, 'outcomes': r.outcomes, 'cases': r.cases,
            'subject': 'CoderState::' + name, 'cls': cls,
            'functions': sorted(set(p.bodies[b].path for b in r.visited if p.bodies[b].krate == 'binschema')),
            'steps': r.stats['steps']}
