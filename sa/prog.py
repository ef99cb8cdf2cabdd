"""Loads a MIR dump written by mirdump and answers questions about it."""
import json

class Ty:
    __slots__ = ('i', 's', 'k', 'bits', 'path', 'adt', 'box', 'args', 'variants',
                 'elem', 'len', 'to', 'callee', 'trait', 'body', 'upvars', 'elems',
                 'drop_body', 'local', 'raw', 'discr_ix')

class Body:
    __slots__ = ('i', 'path', 'krate', 'args', 'argc', 'local', 'spread', 'locals',
                 'blocks', 'span', 'raw', 'names', '_live', '_borrowed', '_joins', 'nlocals', '_rpo', '_loops')

class Prog:
    def __init__(self, path, strip=None):
        text = open(path).read()
        for x in (strip,) if isinstance(strip, str) else strip or ():
            # names as the crate itself has them
            text = text.replace(x + '::', '')
        d = json.loads(text)
        self.krate = d['crate']
        self.types = []
        for i, t in enumerate(d['types']):
            x = Ty()
            x.i = i
            x.raw = t
            x.s = t['s']
            x.k = t['k']
            x.bits = t.get('bits')
            x.path = t.get('path')
            x.adt = t.get('adt')
            x.box = bool(t.get('box'))
            x.args = t.get('args')
            x.variants = t.get('variants')
            x.elem = t.get('elem')
            x.len = t.get('len')
            x.to = t.get('to')
            x.callee = t.get('callee')
            x.trait = t.get('trait')
            x.body = t.get('body')
            x.upvars = t.get('upvars')
            x.elems = t.get('elems')
            x.drop_body = t.get('drop_body')
            x.local = t.get('local')
            x.discr_ix = None
            if x.variants is not None:
                x.discr_ix = {int(v['discr']): n for n, v in enumerate(x.variants)} if x.adt == 'enum' else {}
            self.types.append(x)
        self.bodies = []
        for i, b in enumerate(d['bodies']):
            x = Body()
            x.i = i
            x.path = b['path']
            x.krate = b['krate']
            x.args = b['args']
            x.argc = b['argc']
            x.local = b.get('local')
            x.spread = b.get('spread')
            x.locals = b['locals']
            x.nlocals = len(b['locals'])
            x.blocks = b['blocks']
            x.span = b.get('span')
            x.names = b.get('names')
            x._live = x._borrowed = x._joins = None
            x.raw = b
            self.bodies.append(x)
        self.roots = d['roots']
        self.adts = d.get('adts', [])
        self.impls = d.get('impls', [])
        self.by_path = {}
        for r in self.roots:
            self.by_path.setdefault(r['path'], []).append(r)

    def root(self, path):
        r = self.by_path.get(path)
        return r[0] if r else None

    def variant(self, ty, name):
        t = self.types[ty]
        for i, v in enumerate(t.variants or ()):
            if v['name'] == name:
                return i
        return None

    def find_type(self, pred):
        return [t for t in self.types if pred(t)]

# ---------------------------------------------------------------- liveness

def _place_uses(pl, use, deff, is_def):
    proj = pl[1:]
    for e in proj:
        if isinstance(e, list) and e[0] == 'i':
            use.add(e[1])
    if is_def and not proj:
        deff.add(pl[0])
    else:
        use.add(pl[0])

def _op_uses(op, use):
    if 'copy' in op:
        _place_uses(op['copy'], use, None, False)
    elif 'move' in op:
        _place_uses(op['move'], use, None, False)

def rv_operands(rv):
    for k in ('use', 'repeat', 'op', 'a', 'b'):
        v = rv.get(k)
        if isinstance(v, dict):
            yield v
    if 'agg' in rv:
        for f in rv['fields']:
            yield f

def liveness(body):
    """Locals live at the entry of each block (borrowed ones are always live
    until StorageDead or the end)."""
    if body._live is not None:
        return body._live
    borrowed = set()
    n = len(body.blocks)
    uses = [None] * n
    defs = [None] * n
    succ = [None] * n
    for bi, bl in enumerate(body.blocks):
        if bl.get('cleanup'):
            uses[bi] = set(); defs[bi] = set(); succ[bi] = ()
            continue
        use, deff = set(), set()
        def u(op):
            s = set()
            _op_uses(op, s)
            use.update(s - deff)
        def up(pl, is_def):
            s, d = set(), set()
            _place_uses(pl, s, d, is_def)
            use.update(s - deff)
            deff.update(d)
        for st in bl['s']:
            if st[0] == '=':
                rv = st[2]
                for o in rv_operands(rv):
                    u(o)
                for k in ('ref', 'discr'):
                    if k in rv and isinstance(rv[k], list):
                        up(rv[k], False)
                        if k == 'ref' and '*' not in rv[k][1:]:
                            borrowed.add(rv[k][0])
                up(st[1], True)
            elif st[0] == 'setdiscr':
                up(st[1], False)
            elif st[0] == 'assume':
                u(st[1])
        t = bl['t']
        sc = []
        if 'call' in t:
            c = t['call']
            for a in c['args']:
                u(a)
            if 'fptr' in c:
                f = c['fptr']
                if isinstance(f, dict):
                    u(f)
            up(c['dest'], True)
            if c.get('target') is not None:
                sc.append(c['target'])
        elif 'switch' in t:
            u(t['switch'])
            sc += [x[1] for x in t['targets']]
            if t.get('otherwise') is not None:
                sc.append(t['otherwise'])
        elif 'goto' in t:
            sc.append(t['goto'])
        elif 'drop' in t:
            up(t['drop'], False)
            sc.append(t['target'])
        elif 'assert' in t:
            u(t['assert'])
            sc.append(t['target'])
        elif 'return' in t:
            use.add(0) if 0 not in deff else None
        uses[bi] = use; defs[bi] = deff; succ[bi] = sc
    live = [set(x) for x in uses]
    ch = True
    while ch:
        ch = False
        for bi in range(n - 1, -1, -1):
            out = set()
            for s in succ[bi]:
                out |= live[s]
            new = uses[bi] | (out - defs[bi])
            if new != live[bi]:
                live[bi] = new
                ch = True
    preds = [0] * n
    for bi in range(n):
        for s in set(succ[bi]):
            preds[s] += 1
    # loop heads: targets of back edges in a depth first search
    heads = set()
    color = [0] * n
    stack = [(0, iter(succ[0]))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color[s] == 0:
                color[s] = 1
                stack.append((s, iter(succ[s])))
                break
            elif color[s] == 1:
                heads.add(s)
        else:
            color[b] = 2
            stack.pop()
    # natural loops, blocks that leave them, reverse postorder
    post = []
    seen = [False] * n
    seen[0] = True
    stack = [(0, iter(succ[0]))]
    back = []
    while stack:
        b, it = stack[-1]
        for s in it:
            if s in heads and any(x[0] == s for x in stack):
                back.append((b, s))
            if not seen[s]:
                seen[s] = True
                stack.append((s, iter(succ[s])))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = {b: i for i, b in enumerate(reversed(post))}
    pred = [[] for _ in range(n)]
    for b in range(n):
        for s in succ[b] or ():
            pred[s].append(b)
    loops = {}
    for b, h in back:
        l = loops.setdefault(h, {h})
        todo = [b]
        while todo:
            x = todo.pop()
            if x in l:
                continue
            l.add(x)
            todo += pred[x]
    exits = set()
    for h, l in loops.items():
        for b in l:
            for s in succ[b]:
                if s not in l:
                    exits.add(s)
    body._live = live
    body._borrowed = borrowed
    body._joins = (heads, {b for b in range(n) if preds[b] > 1} | exits)
    body._rpo = rpo
    body._loops = loops
    return live
