"""Includes and imports against a model in which templates share nothing."""
from core import Scenario, Violation, ok
from parts import TooBig, World, ref, source, world


def gen(d):
    loader = d.choice(('file', 'mock', 'pkg'))
    tpls = world(d, loader)
    ctx = dict((v, d.fresh('V')) for v in ('v1', 'v2', 'v3', 'v4'))
    ctx.update(c1=d.bool(), c2=d.bool(70))
    tops = [i for i, t in enumerate(tpls) if t['top']]
    return {'loader': loader, 'tpls': tpls, 'ctx': ctx,
            'plan': [d.choice(tops) for _ in range(d.count(1, 3))]}


def names(nodes):
    for n in nodes:
        yield n
        if isinstance(n[-1], list):
            for x in names(n[-1]):
                yield x


def bad_locals(t):
    """A local variable hides an alias or a variable used in that function."""
    for body in [t['main'], t['block'] or []] + [b for _, b in t['funcs']]:
        loc = set(n[1] for n in names(body) if n[0] == 'loc')
        loc |= set(n[2] for n in names(body) if n[0] == 'clob')
        used = set()
        for n in names(body):
            if n[0] in ('v', 'use', 'if'):
                used.add(n[1])
            elif n[0] == 'own' and not n[1]:
                used.add(n[2])
            elif n[0] == 'imp':
                used.add(n[2] or '')
        if loc & used:
            return True
    return False


def check(case, w, lab):
    tpls, loader = case['tpls'], case['loader']
    for t in tpls:
        used = set()
        for body in [t['main'], t['block'] or []] + [b for _, b in t['funcs']]:
            for n in names(body):
                if n[0] == 'imp':
                    used.add(n[2] or tpls[n[1]]['base'])
        # an alias takes the place of a variable or function of that name
        if used & {'v1', 'f1', 'a', 'c1', 'c2'} or bad_locals(t):
            return False
        for body in [t['main'], t['block'] or []] + [b for _, b in t['funcs']]:
            if used & set(n[1] for n in names(body) if n[0] == 'loc'):
                return False
    wants = []
    for i in case['plan']:
        try:
            wants.append(World(tpls, case['ctx']).render(i))
        except (TooBig, KeyError):
            return False
    steps = []
    srcs = []
    for i, t in enumerate(tpls):
        s = source(tpls, i, loader)
        srcs.append([ref(t, loader), s])
        if loader == 'mock':
            steps.append({'op': t['kind'], 'id': 'T%d' % i, 'source': s, 'opts': {}})
        else:
            p = ref(t, 'file')
            steps.append({'op': 'write', 'path': 'pk/kjp/' + p, 'text': s})
    if loader == 'mock':
        steps.append({'op': 'mock', 'id': 'L', 'modules': dict(
            (ref(t, loader), 'T%d' % i) for i, t in enumerate(tpls))})
    elif loader == 'file':
        steps.append({'op': 'fileloader', 'id': 'L', 'path': 'pk/kjp', 'opts': {}})
    else:
        for p in ('pk/kjp', 'pk/kjp/sub', 'pk/kjp/inc'):
            steps.append({'op': 'write', 'path': p + '/__init__.py', 'text': ''})
        steps += [{'op': 'package', 'base': 'pk'}, {'op': 'pkgloader', 'id': 'L', 'opts': {}}]
    base = len(steps)
    for i in case['plan']:
        steps += [{'op': 'load', 'loader': 'L', 'name': ref(tpls[i], loader), 'id': 't'},
                  {'op': 'render', 'tpl': 't', 'ctx': case['ctx']}]
    r = w.call(steps)
    for x in r[:base]:
        ok(x, 'compiling', sources=srcs)
    for k, i in enumerate(case['plan']):
        ok(r[base + 2 * k], 'loading %s' % ref(tpls[i], loader), sources=srcs)
        got = ok(r[base + 2 * k + 1], 'rendering %s' % ref(tpls[i], loader), sources=srcs,
                 expected=wants[k])
        if got != wants[k]:
            raise Violation('%s is not what its parts make' % ref(tpls[i], loader),
                            sources=srcs, expected=wants[k], got=got)
    kinds = set(n[0] for i in case['plan'] for n in names(tpls[i]['main']))
    for k in kinds & {'inc', 'imp', 'use'}:
        lab(k)
    lab(loader)
    return bool(kinds & {'inc', 'use'})


ASSUMPTIONS = ['templates that are included or imported are not also rendered on their own',
               'a template does not import under the name of a variable or function it uses',
               'layouts of included templates have no doctype (recorded finding)']
SCENARIOS = [
    Scenario('graphs', check, gen, n=5000,
             rule='graphs of up to 6 XML and text templates with clashing names, through each '
                  'loader; non-trivial: the rendered template includes or uses another'),
]
