"""What users see of errors: client code (errs/src/lib.rs) is run abstractly against the crate's own code, with any kind, any
inner error and any coder state; what the client is told has to be what went in."""
import json, re
from core import *
from interp import Job
import natives as NV
import api, shapes, tasks, text, world
from world import Anchor


class Errs(shapes.Shape):
    def __init__(self, w, name):
        shapes.Shape.__init__(self, w, name)
        self.texts = {}

    def say(self, m):
        if m not in self.violations:
            self.violations.append(m)

    def name_of(self, j, st, c):
        self.cases += 1
        return shapes.text(j, st, c.args[0])

    def h_any(self, j, st, c):
        return j.sym(c.dty, st.fresh())

    def h_twin(self, j, st, c):
        return j.deref(st, c.args[0])

    def h_same(self, j, st, c):
        w = self.name_of(j, st, c)
        r = api.Cmp(j, st).val(text.peel(j, st, c.args[1]), text.peel(j, st, c.args[2]))
        if r is False:
            self.say('%s is not what the error was made with' % w)
        elif r is None:
            self.note('%s cannot be compared' % w)
        return UNIT

    def h_refers(self, j, st, c):
        w = self.name_of(j, st, c)
        a = text.peel(j, st, c.args[1])
        if a is not None and a[0] == 'a' and j.types[a[1]].path.endswith('error::Error') and j.types[a[1]].path.startswith(('error::', 'binschema::')):
            self.say('%s is another error' % w)
            return UNIT
        r = api.Cmp(j, st).val(a, c.args[2])
        if a is not None and a[0] == 'op' and a[1] == 'strerr':
            # only its text is left
            r = False
        if r is False:
            self.say('%s is not the error it was made with' % w)
        elif r is None:
            self.note('%s cannot be compared' % w)
        return UNIT

    def pieces(self, j, st, v):
        """The text in pieces: constants, and tokens."""
        out = []
        for s in j.segs(st, v if v[0] != 'p' else j.deref(st, v)):
            if s[0] == 'C' and out and isinstance(out[-1], bytes):
                out[-1] += s[1]
            elif s[0] == 'C':
                out.append(s[1])
            elif s[0] == 'S':
                n = j.to_const(st, s[1])
                if n is None:
                    raise Imprecise('unknown character of a text')
                b = bytes([n])
                if out and isinstance(out[-1], bytes):
                    out[-1] += b
                else:
                    out.append(b)
            else:
                out.append(s)
        return out

    def h_shows(self, j, st, c):
        w = self.name_of(j, st, c)
        t = self.pieces(j, st, c.args[1])
        for k, p in enumerate(shapes.items(j, st, NV_slice(j, st, c.args[2]))):
            ps = self.pieces(j, st, p)
            n = len(ps)
            if not ps:
                continue
            ok = False
            if n == 1 and isinstance(ps[0], bytes):
                ok = any(isinstance(x, bytes) and ps[0] in x for x in t)
            else:
                for i in range(len(t) - n + 1):
                    ok = ok or all(same_piece(a, b, q == 0, q == n - 1) for q, (a, b) in enumerate(zip(ps, t[i:i + n])))
            if not ok:
                self.say('%s lacks %s' % (w, repr(ps[0].decode('utf8', 'replace')) if isinstance(ps[0], bytes) else ('the text of the error', 'the text of the inner error',
                                                                                                                     'the coder state')[min(k, 2)]))
        return UNIT

    def h_kind_text(self, j, st, c):
        self.cases += 1
        k = text.peel(j, st, c.args[0])
        v = j.variant(st, k)
        t = self.pieces(j, st, c.args[1])
        if len(t) != 1 or not isinstance(t[0], bytes):
            if not t:
                self.say('a kind displays as nothing')
            else:
                self.note('a kind displays as something unknown')
            return UNIT
        ty = j.types[k[1]]
        n = ty.variants[v]['name']
        for m, x in self.texts.items():
            if m != n and x == t[0]:
                self.say('%s and %s display as the same' % tuple(sorted((m, n))))
            if m == n and x != t[0]:
                self.say('%s displays differently at times' % n)
        self.texts[n] = t[0]
        return UNIT

    def h_wrong(self, j, st, c):
        self.say(shapes.text(j, st, c.args[0]))
        raise Infeasible()

    def h_source(self, j, st, c):
        if 'body' in c.cal and c.cal['body'] is not None:
            return NotImplemented
        v = text.peel(j, st, c.args[0])
        t = j.types[c.dty]
        if v is not None and v[0] == 's':
            if not world.choose(j, st, ('source', v), 2):
                return ('a', c.dty, 0, ())
            return ('a', c.dty, 1, (j.sym(t.variants[1]['fields'][0][1], ('source', v[2])),))
        return ('a', c.dty, 0, ())

    def h_boxerr(self, j, st, c):
        if 'From<E>' in c.name:
            return ('box', c.args[0])
        return ('box', ('op', 'strerr', c.args[0]))

    def job(self):
        h = world.io_hooks()
        for k in ('vec_pop', 'vec_push', 'drop'):
            h.pop(k, None)
        h.update(text.hooks())
        j = Job(self.prog, NV.N, h)
        j.world = self.w
        for n in ('any', 'twin', 'same', 'refers', 'shows', 'kind_text', 'wrong'):
            h[n] = getattr(self, 'h_' + n)
        h['core::error::Error', 'source'] = self.h_source
        j.router = lambda n: self.h_boxerr if n.startswith('alloc::boxed::convert::<impl core::convert::From<') and 'core::error::Error' in n else None
        return j

    def go(self):
        r = self.prog.root(self.name)
        if r is None:
            raise Anchor('root ' + self.name)
        self.run(self.name, r['body'], lambda j: [])


def NV_slice(j, st, p):
    return ('seq', tuple(NV.segs_of(j, st, p)))


def same_piece(a, b, first, last):
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a == b or first and b.endswith(a) or last and b.startswith(a)
    return a == b


@tasks.task
def errs(ctx, name):
    s = Errs(ctx['errs'], name)
    try:
        s.go()
    except Anchor as e:
        return {'notes': {'anchor: %s' % e: 1}, 'unfinished': True}
    p = s.prog
    fs = sorted(set(p.bodies[b].path for b in s.visited if p.bodies[b].krate == 'binschema'))
    return {'violations': [('C20', m, 'any') for m in s.violations], 'notes': s.notes, 'outcomes': s.outcomes, 'cases': s.cases,
            'subject': name, 'cls': '', 'functions': fs, 'steps': s.stats['steps']}


def all_tasks(ctx):
    w = ctx.get('errs')
    return [] if w is None else [('errs', n) for n in shapes.roots(w.prog, '') if n not in ('any', 'kind_text', 'pretty')]
