"""Tasks for the serde glue and for dynamic values."""
from tasks import task
import glue, world
import coderchk

# the slow ones first
FIRST = ('de_enum_struct', 'ser_struct_variant', 'de_enum_tuple', 'de_any', 'de_struct', 'ser_struct')


def all_tasks(ctx):
    w = ctx.get('gw')
    if w is None:
        return []
    names = glue.drivers(w.prog)
    return [('glueful', n) for n in sorted(names, key=lambda n: (FIRST.index(n) if n in FIRST else 99, n))]


@task
def glueful(ctx, name):
    w = ctx['gw']
    try:
        r = glue.Glue(w, name)
        r.go()
        coderchk.confirm(lambda: glue.Glue(w, name), r)
    except world.Anchor as e:
        return {'notes': {'anchor: %s' % e: 1}, 'unfinished': True}
    v = set(r.violations)
    for what, where, nm in r.allocs:
        v.add(('C08', 'allocates (%s) by a length that comes from the %s%s' % (what, nm, where), 'any'))
    p = w.prog
    fs = sorted(set(p.bodies[b].path for b in r.visited if p.bodies[b].krate == 'binschema'))
    return {'violations': sorted(v, key=str), 'notes': r.notes, 'outcomes': r.outcomes, 'cases': r.cases,
            'subject': name, 'cls': '', 'functions': fs, 'steps': r.stats['steps']}
