"""Calls whose work is bounded by a number that is merely stated, or by nothing.

Every coding method is followed exactly, from states with a few frames, round each loop up to forty times between two calls
of reader or writer. What a loop may go by is data: frames, parts of a schema node, elements of an argument, bytes. Goes it on while
all these are few and some number known from a schema, an argument or the message grows with every turn, that number drives it."""
import time
import api, coderchk, interp, tasks, world
from core import *

LAPS = 40
STRAIGHT = 2000
FRAMES = 2


def grown(st, snap, n):
    """Unknowns that are known to be n at least, and more than one turn before: sizes, and other numbers."""
    sizes, numbers = [], []
    for x in st.zone.syms:
        if x is None:
            continue
        lo = -st.zone.ub(None, x)
        if lo >= n and lo > -snap.zone.ub(None, x):
            nm = x[3] if x[0] == 'n' else None
            if x[0] == 'n' and isinstance(nm, tuple) and nm[:1] == ('dif',):
                continue
            if x[0] == 'n' and isinstance(nm, tuple) and nm[:1] in (('len',), ('anc',)):
                sizes.append(x)
            else:
                numbers.append(x)
    return sizes, numbers


class Spin(api.Run):
    def go(self):
        self.found = []
        self.cut = 0
        self.w.job_hook = self.attach
        interp.UNROLL[:] = [2 * STRAIGHT, time.time() + min(100, max(20, tasks.left()))]
        try:
            ok = api.Run.go(self)
        finally:
            interp.UNROLL[:] = [None, None]
            self.w.job_hook = None
        if time.time() > self.j.deadline:
            self.note('not all paths followed')
        return ok

    def prepare(self, st):
        st.zone.assume_le(lin(world.DEPTH), I(FRAMES))

    def attach(self, j):
        j.laps = self.lap

    def lap(self, j, st, fr, snap, n, forked, total):
        if n and st.forks == snap.forks:
            j.clean(snap)
            j.clean(st)
            a, b = j.canon(snap), j.canon(st)
            if a[0] == b[0] and j.implies(b[1], a[1]) and snap.ios == st.ios:
                self.spins(j, st, fr, 'never ends')
                return False
        if st.ghost.get('iofails', 0) > 2:
            # the stream's own doing
            return False
        if snap.zeros and st.zeros > snap.zeros:
            self.spins(j, st, fr, 'goes on when reader or writer has come to its end')
            return False
        if n - forked >= STRAIGHT:
            self.spins(j, st, fr, 'goes round %d times whatever there is to code' % STRAIGHT)
            return False
        if total > n and total >= 3 * LAPS and forked < LAPS:
            # with I/O
            sizes, numbers = grown(st, snap, LAPS)
            if not sizes and not numbers and self.which == 'Encoder':
                self.spins(j, st, fr, 'writes on and on')
            else:
                self.cut += 1
            return False
        if forked >= LAPS:
            sizes, numbers = grown(st, snap, LAPS - 8)
            if numbers and not sizes:
                self.spins(j, st, fr, 'goes round as often as a number says')
            else:
                self.cut += 1
            return False
        return True

    def spins(self, j, st, fr, how):
        b = [f.body for f in st.frames if f.body.krate == 'binschema']
        self.found.append(('C25', 'a loop in %s %s' % (b[-1].path if b else fr.body.path, how), 'any'))

    def outcome(self, o):
        self.outcomes += 1
        self.cases += 1
        if o[0] == 'imprecise':
            self.note(o[2])


@tasks.task
def spin(ctx, which, name, cls):
    w = ctx['w']
    root = ctx['methods'][which].get(name)
    if root is None:
        return {'notes': {'no method %s of %s' % (name, which): 1}, 'unfinished': True}
    r = Spin(w, which, name, root, cls, FRAMES)
    try:
        r.go()
    except world.Anchor as e:
        return {'notes': {'anchor: %s' % e: 1}, 'unfinished': True}
    p = w.prog
    return {'violations': sorted(set(r.found)), 'notes': r.notes, 'outcomes': r.outcomes, 'cases': r.cases,
            'subject': '%s::%s' % (which, name), 'cls': cls,
            'functions': sorted(set(p.bodies[b].path for b in r.visited if p.bodies[b].krate == 'binschema')),
            'steps': r.stats['steps']}


def all_tasks(w):
    return [('spin',) + t[1:] for t in coderchk.all_tasks(w) if t[0] == 'coder']
