"""Which analyses decide which property, and how their results are put together."""
import os, re
import api, world, tasks
import coderchk, alloc15, glue, gluechk, shapes, errchk, pretty, misuse, stack, spin, effects, alike
from prog import Prog

CODER = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C16', 'C17')

GLUE = ('C07', 'C08', 'C13', 'C14', 'C17')
GRAPH = ('C24', 'C26')

SHAPES = {'C10': ('shapes',), 'C11': ('shapes', 'derived'), 'C12': ('shapes',), 'C19': ('forms',), 'C20': ('errs',), 'C21': ('errs',), 'C26': ('shapes', 'errs'), 'C27': ('same',)}


def witnesses(props):
    """The witness crates that are needed."""
    out = []
    if any(p in GLUE or p in CODER or p in GRAPH or p in ('C15', 'C25') for p in props):
        out.append('witness')
    for p in props:
        out += [x for x in SHAPES.get(p, ()) if x not in out]
    if 'C18' in props or 'C28' in props:
        out.append('misuse')
    return tuple(out)

DECODES = {'encode_none': 'begin_option', 'begin_some': 'begin_option'}


def coder_tasks(w, prop):
    out = []
    for t in coderchk.all_tasks(w):
        if t[0] == 'coder':
            if prop == 'C04' and t[1] != 'Encoder':
                continue
            if prop in ('C06', 'C08') and t[1] != 'Decoder':
                continue
            if prop in ('C04', 'C05', 'C06', 'C08') and t[3] != 'need' and not t[2].startswith('begin'):
                # no other class of states lets these methods do I/O: C01 to C03 look at them
                if t[3] not in ('broken', 'need'):
                    continue
        elif prop not in ('C01', 'C03', 'C07', 'C09', 'C16'):
            continue
        out.append(t)
    return out


def attribute(results):
    """All violations by property; those that need a log are the log's too."""
    out = []
    bad_dec = set()
    for r in results:
        for p, m, lg in r.get('violations', ()):
            if r['task'][0] == 'coder' and r['task'][1] == 'Decoder' and p in ('C05', 'C06'):
                bad_dec.add(r['task'][2])
    for r in results:
        seen = {}
        for p, m, lg in r.get('violations', ()):
            seen.setdefault((p, m), set()).add(lg)
        for (p, m), lgs in sorted(seen.items()):
            ps = [p]
            if lgs == {'log'} and p != 'C16':
                ps.append('C16')
            if p == 'C04' and 'more bytes than it needs' not in m and r['task'][0] == 'coder':
                n = r['task'][2]
                if DECODES.get(n, n.replace('encode_', 'decode_')) not in bad_dec:
                    ps.append('C05')
            if p == 'C06' and 'well formed' in m:
                # a message some encoder writes is refused
                ps = ['C05', 'C01'] + ps[1:]
            for q in ps:
                out.append((q, r.get('subject', '?'), r.get('cls', ''), m))
    return out


def context(dumps, want):
    ctx = {'log': dumps['log'], 'rmeta': dumps.get('rmeta')}
    if want & set(CODER) or want & {'C15', 'C18', 'C24', 'C25', 'C26'}:
        p = Prog(dumps['binschema'])
        ctx['prog'] = p
        ctx['w'] = world.World(p)
        ctx['methods'] = {x: api.methods(p, x) for x in ('Encoder', 'Decoder')}
    if 'witness' in dumps and want & set(GLUE + GRAPH):
        p = Prog(dumps['witness'], 'binschema')
        ctx['gw'] = world.World(p)
        glue.setup(ctx['gw'])
    for n in ('shapes', 'derived', 'forms', 'errs', 'same'):
        if n in dumps and any(n in SHAPES.get(p, ()) for p in want):
            ctx[n] = shapes.W(Prog(dumps[n], ('binschema', 'shapes')))
    return ctx


def glue_tasks(ctx, prop):
    out = []
    for t in gluechk.all_tasks(ctx):
        if prop == 'C13' and not t[1].startswith('value'):
            continue
        if prop == 'C14' and t[1].startswith('value'):
            continue
        if prop == 'C08' and not t[1].startswith('de_') and t[1] != 'value_decode':
            continue
        out.append(t)
    return out


def tasks_of(ctx, prop):
    w = ctx.get('w')
    todo = []
    if prop == 'C24':
        todo += stack.all_tasks(ctx)
    elif prop == 'C26':
        todo += effects.all_tasks(ctx)
    elif prop == 'C18':
        todo += misuse.all_tasks(ctx)
    elif prop == 'C28':
        todo += misuse.open_tasks(ctx)
    elif prop == 'C21':
        todo += pretty.all_tasks(ctx)
    elif prop == 'C20':
        todo += errchk.all_tasks(ctx)
    elif prop == 'C27':
        todo += alike.all_tasks(ctx)
    elif prop in SHAPES:
        todo += shapes.all_tasks(ctx, prop)
    if prop in CODER:
        todo += coder_tasks(w, prop)
    if prop in GLUE:
        todo += glue_tasks(ctx, prop)
    if prop == 'C25':
        todo += spin.all_tasks(w)
    if prop == 'C15':
        todo += [('own', r['path']) for r in alloc15.subjects(w)] + [('life', 'new', 'new')]
    return todo


def broken(dumps, props):
    """Derived code, or uses of the macro, that do not compile though the crate itself does."""
    out = []
    for prop, n, dep, what, subj in (('C11', 'derived', 'shapes', 'what is derived', 'derive(KnownSchema)'), ('C19', 'forms', 'binschema', 'a use of the macro', 'schema!')):
        if prop in props and n not in dumps and dep in dumps and n in dumps['log']:
            m = re.search(r'^error(\[E\d+\])?: .*', dumps['log'][n], re.M)
            out.append({'violations': [(prop, what + ' does not compile: ' + (m.group(0) if m else '?'), 'any')],
                        'subject': subj, 'cls': '', 'task': ('compile', n), 'wall': 0})
    return out


def decide_all(dumps, props):
    ctx = context(dumps, set(props))
    todo = []
    for p in props:
        for t in tasks_of(ctx, p):
            if t not in todo:
                todo.append(t)
    res = tasks.run_all(ctx, todo, limit=700, total=500) + broken(dumps, props)
    return todo, attribute(res), res


def decide(prop, dumps, tier, stop=True):
    ctx = context(dumps, {prop})
    todo = tasks_of(ctx, prop)
    res = tasks.run_all(ctx, todo, limit=700 if tier == 'quick' else 2400, total=450 if tier == 'quick' else 3000,
                        found=lambda rs: stop and prop != 'C05' and tier == 'quick' and any(q == prop for q, _, _, _ in attribute(rs)))
    res += broken(dumps, {prop})
    viol = []
    keys = set()
    for q, subj, cls, m in attribute(res):
        if q != prop:
            continue
        key = '%s|%s|%s' % (subj, cls, m.split(' at ')[0] if m.startswith('can panic') else m)
        if key in keys:
            continue
        keys.add(key)
        viol.append({'key': key, 'where': subj, 'what': m, 'in': cls})
    notes = {}
    for r in res:
        for n, k in r.get('notes', {}).items():
            notes.setdefault(n, []).append('%s/%s' % (r.get('subject', r['task'][1]), r.get('cls', r['task'][-1])))
    funcs = set()
    for r in res:
        funcs.update(r.get('functions', ()))
    done = [r for r in res if not r.get('unfinished')]
    cov = {
        'explanation': EXPLAIN.get(prop, ''),
        'analyses': len(res),
        'analyses_completed': len(done),
        'subjects': sorted(set(r['subject'] for r in done if 'subject' in r)),
        'paths': sum(r.get('outcomes', 0) for r in res),
        'cases_compared': sum(r.get('cases', 0) for r in res),
        'functions_analysed': sorted(funcs),
        'abstract_steps': sum(r.get('steps', 0) for r in res),
        'undecided': [{'what': n[:300], 'in': sorted(set(l))[:10], 'count': len(l)} for n, l in sorted(notes.items())],
        'samples': [{'subject': r.get('subject'), 'state': r.get('cls'), 'paths': r.get('outcomes'), 'cases': r.get('cases')}
                    for r in sorted(done, key=lambda r: -r.get('cases', 0))[:5]],
    }
    summary = '%d analyses, %d paths, %d cases, %d functions, %d undecided' % (
        len(res), cov['paths'], cov['cases_compared'], len(funcs), len(notes))
    return {'violations': viol, 'coverage': cov, 'summary': summary}


EXPLAIN = {}
_C = ('Abstract interpretation of the optimised-away-free MIR of every public coding method from every class of abstract '
      'coder states (failed, finished, needing a schema, inside a seq, tuple, struct or enum, at any depth), over all '
      'schemas, arguments, input bytes, reader and writer failures. ')
EXPLAIN['C01'] = _C + 'Rule: success and the coder state after it are exactly those of the legal next step; a legal step is not refused.'
EXPLAIN['C02'] = _C + 'Rule: on a path that ends with SchemaNonConformance or ApiUsage no I/O has happened and every field of the coder state is as before.'
EXPLAIN['C03'] = _C + 'Rule: a path that ends with a fatal error leaves the failed mark set; from a failed state every path ends with ApiUsage without I/O.'
EXPLAIN['C04'] = _C + 'Rule: the bits handed to the writer are, path by path, those FORMAT.txt gives for the argument.'
EXPLAIN['C05'] = _C + 'Rule: the result and the bytes consumed are those of the documented format; the encoder writes that format.'
EXPLAIN['C06'] = _C + 'Rule: on paths whose input bits are out of range the outcome is MalformedData (with bits, not samples).'
EXPLAIN['C07'] = _C + 'Rule: no feasible path reaches a panic, failed assertion, unreachable branch, index or arithmetic failure.'
EXPLAIN['C08'] = _C + 'Rule: every allocation size on every path is bounded by a constant or by the bytes read so far.'
EXPLAIN['C09'] = _C + 'Rule: the frame pushed for a recurse is that of the schema so many levels up the tree, with its parent; levels outside are IllegalSchema.'
EXPLAIN['C16'] = _C + 'Rule: indentation, open log lines and open containers agree after every call; nothing else differs between paths with and without a log.'
EXPLAIN['C17'] = _C + 'Rule: the path on which a reader or writer call fails ends at once with kind Io carrying that very error; no other path ends with Io but end of input.'
EXPLAIN['C15'] = ('Ownership analysis over all paths of every function that takes or returns a buffer of frames. Rule: every buffer '
                  'ends with at most one owner or freed once; it is rebuilt with its own capacity, element type and no elements.')
_S = ('Abstract evaluation of the schema function of each type to the schema it builds, then abstract interpretation of the real '
      'Serialize and Deserialize code of the type, over all values, by a format each call of which has to go with its place in that schema; '
      'values inside are obligations for their type at their place, discharged once per type and place. ')
EXPLAIN['C10'] = _S + 'Types: every standard library type with a known schema, alone, nested, and as part of types that contain themselves or each other.'
EXPLAIN['C11'] = _S + 'Types: derived structs and enums of every shape, with directly, mutually and deeply nested recursive ones.'
EXPLAIN['C19'] = ('Abstract evaluation of the expansion of every form of the macro, in every place of every container, with opaque interpolated '
                  'schemas, many names, numbers and expressions. Rule: the schema built is the one written, node by node; every form compiles, whatever names are in scope.')
EXPLAIN['C20'] = ('Abstract interpretation of client code (errs/) over every way to make an error, for every kind, inner error, message and coder state. '
                  'Rule: what the accessors and the text of the displays give is what went in.')
EXPLAIN['C18'] = ('Type checking of client code (misuse/cases.rs): of each case a program that must be accepted and the same program with one misuse, which must be '
                  'refused. And a query over the type-checked crate: no field of a coder type, no part of a coder state, no function that hands out what a '
                  'coder borrows or that changes a coder state without a coder can be reached from outside.')
EXPLAIN['C21'] = ('Abstract interpretation of the rendering of one node, for every node, indentation and chain of parents, under the contract that the nodes '
                  'inside it are rendered by the same function; and of the whole with one node. Rule: every kind, length, name and level is in the text, '
                  'the parts are rendered in order and all of them, two kinds have two texts, nothing panics.')
EXPLAIN['C24'] = ('Call graph of everything the coding methods, the serde glue and the dynamic values call (monomorphised, closures and functions passed on '
                  'included). Rule: without the functions of dynamic values and of clients, and the derived impls that follow a schema, no function on coder '
                  'states, coders or schemas is part of a cycle.')
EXPLAIN['C26'] = ('Effect analysis of every function of the crate that coding, the serde glue, dynamic values, errors and schemas reach (call graph after monomorphisation). Rule: '
                  'no reference to a static that can change or to a thread local, no call into the environment, clock, randomness, files, threads or standard '
                  'output, no order of hash tables, no address as a number.')
EXPLAIN['C28'] = ('Type checking of client code (misuse/open.rs) that is generic in writers, readers, types with serde impls or known schemas, lifetimes and errors, or hands things '
                  'to other threads: of each case the program that makes the claim, and one that claims less. Rule: where the second is accepted, so is the first; '
                  'an unmet bound or lifetime is a violation.')
EXPLAIN['C27'] = ('Abstract interpretation of the comparison, order and clone impls (same/) of schemas, dynamic values, scalar types and error kinds on pairs of symbolic nodes of every kind, under the contract that the comparison of their parts is right. '
                  'Rule: the result is equal on exactly those paths on which kind, names, numbers and all parts have been found equal; a clone consists of the parts of the original.')
EXPLAIN['C25'] = ('Exact abstract interpretation of every coding method from states with a few frames, round each loop up to %d times between two '
                  'calls of reader or writer. Rule: no path comes back to the state it was in, and none goes round a loop because of a number that is merely '
                  'stated, with few parts of data about.' % spin.LAPS)
EXPLAIN['C12'] = _S + 'Types: Schema itself, and types that contain it; comparison of its schema with the listing of FORMAT.txt; and of the parts of a schema value with what its serde impls give out and take in, so that nothing is changed on the way.'
_G = ('Abstract interpretation of the glue between serde or Value and the coder, with a model of the coder (a stack of what is being '
      'coded; any call may fail) in place of its methods, over all schemas, values, arguments, lengths, visitors and failures. ')
EXPLAIN['C13'] = _G + ('Rule: success means exactly the value was coded under a schema of its own kind, part by part, in place; a value that fits is '
                       'not refused; decoding returns the value that was coded.')
EXPLAIN['C14'] = _G + ('Rule: success means the whole needed schema is coded, every part from its own place, with names and ordinals as given; the '
                       'visitor gets what was decoded; a refusal is justified by a schema that does not fit the call.')
