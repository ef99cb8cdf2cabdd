"""Functions that call themselves once per level of what is coded."""
import natives as NV
import tasks
import world
from core import State
from interp import Job

CODER = ('CoderState', 'Encoder', 'Decoder', 'StackFrame', 'DbgLog')
# these follow a schema
SHOWS = ('core::fmt::', 'core::cmp::', 'core::clone::', 'core::hash::', 'core::ops::drop::')


class Graph:
    def __init__(self, p):
        self.p = p
        self.closures = {}
        for k, b in enumerate(p.bodies):
            i = b.path.find('::{closure')
            if i > 0:
                self.closures.setdefault(b.path[:i], []).append(k)
        self.memo = {}

    def of_type(self, i):
        t = self.p.types[i]
        out = set()
        if t.body is not None:
            out.add(t.body)
        if isinstance(t.callee, dict) and t.callee.get('body') is not None:
            out.add(t.callee['body'])
        return out

    def calls(self, b):
        r = self.memo.get(b)
        if r is None:
            r = set()
            for bl in self.p.bodies[b].blocks:
                c = bl['t'].get('call')
                if c is None or c.get('callee') is None:
                    continue
                c = c['callee']
                if c.get('body') is not None:
                    r.add(c['body'])
                for a in list(c.get('args') or ()) + list(c.get('rargs') or ()):
                    if isinstance(a, int):
                        r |= self.of_type(a)
            if self.p.bodies[b].krate == 'binschema':
                r |= set(self.closures.get(self.p.bodies[b].path, ()))
            self.memo[b] = r
        return r

    def reach(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            b = todo.pop()
            if b not in seen:
                seen.add(b)
                todo += self.calls(b)
        return seen

    def cycles(self, nodes):
        """Strongly connected components that are cycles."""
        index, low, on, stack, out = {}, {}, set(), [], []
        for s in sorted(nodes):
            if s in index:
                continue
            work = [(s, iter(sorted(self.calls(s) & nodes)))]
            index[s] = low[s] = len(index)
            stack.append(s)
            on.add(s)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in index:
                        index[w] = low[w] = len(index)
                        stack.append(w)
                        on.add(w)
                        work.append((w, iter(sorted(self.calls(w) & nodes))))
                        break
                    if w in on:
                        low[v] = min(low[v], index[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == index[v]:
                        c = []
                        while True:
                            w = stack.pop()
                            on.discard(w)
                            c.append(w)
                            if w == v:
                                break
                        if len(c) > 1 or v in self.calls(v):
                            out.append(c)
        return out


def parts(p, i, seen):
    if i in seen or i is None:
        return
    seen.add(i)
    t = p.types[i]
    for k in (t.to, t.elem):
        if isinstance(k, int):
            parts(p, k, seen)
    for a in list(t.args or ()) + list(t.elems or ()) + list(t.upvars or ()):
        if isinstance(a, int):
            parts(p, a, seen)


def mentions(p, b, names, ret=True):
    seen = set()
    for k in range(0 if ret else 1, b.argc + 1):
        parts(p, b.locals[k], seen)
    return any(p.types[i].path and p.types[i].path.split('::')[-1] in names for i in seen)


def holds(p, b, name):
    """Does a function take or give one value, rather than several of them?"""
    for k in range(0, b.argc + 1):
        todo = [b.locals[k]]
        for _ in range(20):
            if not todo:
                break
            t = p.types[todo.pop()]
            n = t.path.split('::')[-1] if t.path else None
            if n == name:
                return True
            if t.k in ('ref', 'ptr'):
                todo.append(t.to)
            elif n in ('Option', 'Result', 'Box', 'Rc', 'Arc', 'Cow'):
                todo += [a for a in t.args or () if isinstance(a, int)]
    return False


def shows(b):
    if not b.path.startswith('<') or ' as ' not in b.path:
        return False
    return any(b.path.split(' as ', 1)[1].startswith(s) for s in SHOWS)


def numbers(p, b):
    """Does it take numbers, beside a stream?"""
    n = 0
    for k in range(1, b.argc + 1):
        t = p.types[b.locals[k]]
        if t.k in ('int', 'uint', 'bool'):
            n += 1
        elif t.k != 'ref' or p.types[t.to].k not in ('param', 'dyn', 'adt', 'dynamic'):
            return False
    return n > 0


def unbounded(p, b):
    """A function of numbers that still calls itself after 200 calls, for some numbers."""
    h = world.io_hooks()
    j = Job(p, NV.N, h)
    j.reccap = 200
    j.depthcap = 1000
    body = p.bodies[b]
    args = [j.sym(body.locals[k], ('arg', k)) for k in range(1, body.argc + 1)]
    return any(o[0] == 'imprecise' and o[2].startswith('recursion of') for o in j.run(b, args, State()))


@tasks.task
def stack(ctx, what):
    if what == 'coder':
        p = ctx['prog']
        roots = [r['body'] for n in ctx['methods'].values() for r in n.values()]
        roots += [r['body'] for r in p.roots if r.get('pub') and r['path'].startswith('coder::')]
    else:
        p = ctx['gw'].prog
        roots = [r['body'] for r in p.roots]
    if not roots:
        return {'notes': {'anchor: no entry points': 1}, 'unfinished': True}
    g = Graph(p)
    all = g.reach(roots)
    mine = set()
    for k in all:
        b = p.bodies[k]
        if shows(b) or b.krate not in ('binschema', 'core', 'alloc', 'std'):
            continue
        if what == 'glue' and b.krate == 'binschema' and holds(p, b, 'Value'):
            # once per level of the value itself
            continue
        mine.add(k)
    viol, n = [], 0
    for c in g.cycles(mine):
        n += 1
        fs = [p.bodies[k] for k in c if p.bodies[k].krate == 'binschema']
        hit = [b for b in fs if mentions(p, b, CODER + ('Schema',))]
        if hit:
            names = sorted(set(b.path for b in hit))
        elif what == 'coder':
            names = [p.bodies[k].path for k in c if p.bodies[k].krate == 'binschema' and numbers(p, p.bodies[k]) and unbounded(p, k)]
        else:
            names = []
        if names:
            viol.append(('C24', '%s calls itself while coding%s' % (names[0], ''.join(', through ' + x for x in names[1:2])), 'any'))
    fs = sorted(set(p.bodies[k].path for k in all if p.bodies[k].krate == 'binschema'))
    return {'violations': viol, 'notes': {}, 'subject': what, 'cls': '', 'functions': fs, 'outcomes': n, 'cases': sum(len(g.calls(k)) for k in all)}


def all_tasks(ctx):
    return [('stack', 'coder')] + ([('stack', 'glue')] if ctx.get('gw') is not None else [])
