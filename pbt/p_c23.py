"""The TurboGears 1 plugin against the loader and the template class it stands for."""
from core import Scenario, Violation, ok
from gen import hostile, plain

NAMES = ('page', 'row', 'sub.page', 'mail')
EXTS = ('xml', 'html', 'html5', 'txt')
BITS = ('<br/>', '<b>$x</b>', '${y}', ' z ', '<p title="$y" py:if="x">${x}</p>', '<script>1 &lt; 2</script>',
        "${defined('y')}", '<input checked="${x}"/>')
TEXTS = ('$x', '${y}', ' z\n', "${defined('y')}", '\n%if x\nyes\n%end\n', '<br/>')


def gen_source(d, text, name):
    out = [d.choice(TEXTS if text else BITS) for _ in range(d.count(1, 3))]
    later = NAMES[NAMES.index(name) + 1:]
    if later and d.bool(30):
        out.append(('{%%include "kjt.%s"%%}' if text else '<py:include href="kjt.%s"/>')
                   % d.choice(later))
    s = d.fresh('V') + ''.join(out)
    return s if text else '<div>%s</div>' % s


def gen_vars(d):
    return dict((k, d.choice((hostile(d), d.int(0, 3), None))) for k in d.subset(('x', 'y', 'w'), 75))


def gen(d):
    opts = {}
    if d.bool(40):
        opts['kajiki.reload'] = d.bool()
    if d.bool(50):
        opts['kajiki.force_mode'] = d.choice((None, 'txt', 'xml', 'html', 'html5'))
    if d.bool(40):
        opts['kajiki.loader_class'] = d.choice((
            None, 'kajiki.loader.PackageLoader', 'kajiki.PackageLoader', 'nope.Loader', 'Loader',
            'kajiki.loader.Nope', 'kjt.own.Mine', 'kjt.own.Mine'))
    if d.bool(20):
        opts['other.option'] = 1
    force = opts.get('kajiki.force_mode')
    hist, held = [], 0
    for n in NAMES:
        e = d.choice(EXTS)
        hist.append(['write', n, e, gen_source(d, (force or e) == 'txt', n)])
    for _ in range(d.int(2, 9)):
        k = d.weighted((('name', 5), ('load', 3), ('held', 3), ('string', 2), ('write', 3),
                        ('missing', 1)))
        n = d.choice(NAMES)
        how = d.choice(('', 'kw', 'transform'))
        if k == 'write':
            e = d.choice(EXTS)
            hist.append(['write', n, e, gen_source(d, (force or e) == 'txt', n)])
        elif k == 'name':
            hist.append(['name', n, gen_vars(d), how])
        elif k == 'load':
            hist.append(['load', n, held])
            held += 1
        elif k == 'string':
            hist.append(['string', '<div>%s</div>' % ''.join(
                d.choice(BITS) for _ in range(d.count(1, 4))), held])
            held += 1
        elif k == 'held' and held:
            hist.append(['held', d.int(0, held - 1), gen_vars(d), how])
        elif k == 'missing':
            hist.append(['missing', d.choice(('kjt.nope', 'kjt.sub.nope'))])
    return {'opts': opts if opts or d.bool() else None, 'noopts': d.bool(30),
            'extra': d.weighted(((gen_vars(d), 6), ({}, 1), (None, 2))), 'hist': hist}


OWN = """
from kajiki import XMLTemplate

class Mine(object):
    def __init__(self, reload='?', force_mode='?'):
        self.how = '%s %s' % (reload, force_mode)
    def load(self, name):
        return XMLTemplate('<q>%s %s ${x}</q>' % (self.how, name))
"""


def own_loader(case, w, lab, steps, plugin):
    """Templates come from the loader class that the options name."""
    opts, extra = case['opts'], case['extra'] or {}
    how = '%s %s' % (opts.get('kajiki.reload', True), opts.get('kajiki.force_mode'))
    steps = steps + [{'op': 'write', 'path': 'pk/kjt/own.py', 'text': OWN}, plugin]
    names = ['a.b', 'q', 'kjt.row']
    xs = [extra.get('x', i) for i in range(len(names))]
    n = len(steps)
    for i, name in enumerate(names):
        steps.append({'op': 'plugin_render', 'plugin': 'P', 'name': name, 'info': {'x': i},
                      'how': ('', 'kw', 'transform')[i]})
    res = w.call(steps)
    for i, name in enumerate(names):
        steps = [{'op': 'xml', 'id': 'e', 'source': '<q>%s %s ${x}</q>' % (how, name), 'opts': {}},
                 {'op': 'render', 'tpl': 'e', 'ctx': {'x': xs[i]}}]
        want = outcome(w.call(steps)[-1])
        if outcome(res[n + i]) != want:
            raise Violation('the plugin does not use the loader class it is told to', options=opts,
                            name=name, expected=want, got=res[n + i])
    lab('own loader')
    return True


def outcome(r):
    return ['ok', r['v']] if 'v' in r else ['exc', r['exc']['type']]


def check(case, w, lab):
    opts, extra = case['opts'], case['extra']
    plugin = {'op': 'plugin', 'id': 'P', 'extra': extra}
    if opts or not case['noopts']:
        plugin['options'] = opts
    opts = opts or {}
    steps = [{'op': 'write', 'path': 'pk/%s/__init__.py' % p, 'text': ''} for p in
             ('kjt', 'kjt/sub')] + [{'op': 'package', 'base': 'pk'}]
    first = len(steps)
    cls = opts.get('kajiki.loader_class')
    if cls in ('nope.Loader', 'Loader', 'kajiki.loader.Nope'):
        r = w.call(steps + [plugin])[-1]
        if 'exc' not in r or r['exc']['type'] != 'ConfigurationError':
            raise Violation('a loader class that does not exist is not reported', options=opts,
                            got=outcome(r))
        lab('bad loader')
        return True
    if cls == 'kjt.own.Mine':
        return own_loader(case, w, lab, steps, plugin)
    force = opts.get('kajiki.force_mode')
    steps += [plugin, {'op': 'pkgloader', 'id': 'L', 'opts': {
        'reload': opts.get('kajiki.reload', True),
        'force_mode': 'text' if force == 'txt' else force}}]
    pairs = []            # (step of the plugin, step of the loader)
    loads = {}            # step of the loader -> step that loads its template
    now = 1000000000

    def both(a, b):
        pairs.append((len(steps), len(steps) + 1))
        steps.extend((a, b))

    def full(info):
        c = dict(info)
        c.update(extra or {})
        return c
    n = 0
    gone = set()
    current = {}
    for h in case['hist']:
        now += 0.25
        if h[0] == 'write':
            # one file per name, as the loader looks for extensions in its own order
            if current.get(h[1], h[2]) != h[2]:
                steps.append({'op': 'remove', 'path': 'pk/kjt/%s.%s' % (
                    h[1].replace('.', '/'), current[h[1]])})
            current[h[1]] = h[2]
            steps.append({'op': 'write', 'path': 'pk/kjt/%s.%s' % (h[1].replace('.', '/'), h[2]),
                          'text': h[3], 'mtime': now})
        elif h[0] == 'name':
            n += 1
            steps.append({'op': 'load', 'loader': 'L', 'name': 'kjt.' + h[1], 'id': 't'})
            loads[len(steps) + 1] = len(steps) - 1
            both({'op': 'plugin_render', 'plugin': 'P', 'name': 'kjt.' + h[1], 'info': h[2],
                  'how': h[3]}, {'op': 'render', 'tpl': 't', 'ctx': full(h[2])})
        elif h[0] == 'load':
            both({'op': 'plugin_load', 'plugin': 'P', 'name': 'kjt.' + h[1], 'id': 'p%d' % h[2]},
                 {'op': 'load', 'loader': 'L', 'name': 'kjt.' + h[1], 'id': 'l%d' % h[2]})
        elif h[0] == 'string':
            both({'op': 'plugin_load', 'plugin': 'P', 'source': h[1], 'id': 'p%d' % h[2]},
                 {'op': 'xml', 'id': 'l%d' % h[2], 'source': h[1], 'opts': {}})
        elif h[0] == 'held':
            n += 1
            both({'op': 'plugin_render', 'plugin': 'P', 'tpl': 'p%d' % h[1], 'info': h[2],
                  'how': h[3]}, {'op': 'render', 'tpl': 'l%d' % h[1], 'ctx': full(h[2])})
        else:
            both({'op': 'plugin_load', 'plugin': 'P', 'name': h[1], 'id': 'x'},
                 {'op': 'load', 'loader': 'L', 'name': h[1], 'id': 'x'})
    res = w.call(steps)
    for r in res[:first + 2]:
        ok(r, 'setting up', options=opts)
    good = 0
    for a, b in pairs:
        x, y = outcome(res[a]), outcome(res[b])
        if b in loads and 'exc' in res[loads[b]]:
            y = outcome(res[loads[b]])
        if steps[a]['op'] == 'plugin_load' and y[0] == 'ok':
            y[1] = True
        if x != y:
            raise Violation('the plugin does not render what the templates say', options=opts,
                            extra=extra, step=steps[a], history=[s for s in steps[:a]
                                                                 if s['op'] == 'write'],
                            expected=y, got=x)
        good += x[0] == 'ok' and steps[a]['op'] == 'plugin_render'
    for k in opts:
        lab(k)
    lab('extra' if extra else 'no extra')
    return good > 0


ASSUMPTIONS = ['the package loader and XMLTemplate are right (C17 and the others)',
               'what the plugin does with the info dictionary itself is not looked at']
SCENARIOS = [
    Scenario('plugin', check, gen, n=1200,
             rule='options x templates of a package and strings x variables, with edits, against '
                  'the package loader; non-trivial: something is rendered'),
]
