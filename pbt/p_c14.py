"""Inheritance: chains and trees of templates against a model of resolution."""
from core import Scenario, Violation, ok
from inherit import Family, TooBig, Undef, context, family, name_of, sources


def gen(d):
    fam = family(d)
    n = len(fam['tpls'])
    ctxs = [context(d) for _ in range(d.int(1, 2))]
    plan = [[d.int(0, n - 1), d.int(0, len(ctxs) - 1)] for _ in range(d.count(1, 6))]
    if d.bool(90):
        plan.append([n - 1, 0])
    files = d.bool(25)
    if files:
        # the loader's option holds for all its templates
        for t in fam['tpls']:
            t['auto'] = fam['tpls'][0]['auto']
    return {'fam': fam, 'ctxs': ctxs, 'plan': plan, 'files': files}


def expect(fam, ctx, i):
    try:
        return Family(fam, ctx).render(i)
    except (Undef, TooBig):
        return None


def check(case, w, lab):
    fam = case['fam']
    srcs = sources(fam)
    steps = []
    for i, s in enumerate(srcs):
        name = name_of(i, fam['kind'])
        if case['files']:
            steps.append({'op': 'write', 'path': 'd/' + name, 'text': s, 'mtime': 1000})
        else:
            opts = {'autoblocks': fam['tpls'][i]['auto']} if fam['kind'] == 'xml' else {}
            steps.append({'op': fam['kind'] if fam['kind'] == 'xml' else 'text', 'id': name,
                          'source': s, 'opts': opts})
    if case['files']:
        auto = fam['tpls'][0]['auto']
        steps.append({'op': 'fileloader', 'id': 'L', 'path': 'd',
                      'opts': {'xml_autoblocks': auto}})
    else:
        steps.append({'op': 'mock', 'id': 'L', 'modules': dict(
            (name_of(i, fam['kind']), name_of(i, fam['kind'])) for i in range(len(srcs)))})
    base = len(steps)
    wants = []
    for i, c in case['plan']:
        steps += [{'op': 'load', 'loader': 'L', 'name': name_of(i, fam['kind']), 'id': 't%d' % i},
                  {'op': 'render', 'tpl': 't%d' % i, 'ctx': case['ctxs'][c]}]
        wants.append(expect(fam, case['ctxs'][c], i))
    r = w.call(steps)
    for x in r[:base]:
        ok(x, 'compiling', sources=srcs)
    good = False
    for k, (i, c) in enumerate(case['plan']):
        ok(r[base + 2 * k], 'loading', sources=srcs)
        if wants[k] is None:
            lab('undefined name')
            continue
        got = ok(r[base + 2 * k + 1], 'rendering %s' % name_of(i, fam['kind']), sources=srcs,
                 context=case['ctxs'][c], expected=wants[k])
        if got != wants[k]:
            raise Violation('%s renders other blocks or functions' % name_of(i, fam['kind']),
                            sources=srcs, context=case['ctxs'][c], expected=wants[k], got=got)
        depth = len(Family(fam, case['ctxs'][c]).chain(i))
        lab('depth %d' % depth)
        good = good or depth > 1
    return good


ASSUMPTIONS = ['children define blocks and functions and nothing else',
               'blocks nested in a block of a child are not generated (they are definitions only)',
               'a template uses only names that its chain defines']
SCENARIOS = [
    Scenario('families', check, gen, n=5000,
             rule='trees of up to 6 templates, chains to depth 6, rendered in random order; '
                  'non-trivial: a child was rendered and compared'),
]
