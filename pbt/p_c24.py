"""The Pyramid renderer against the templates it is asked to render."""
from core import Scenario, Violation, ok
from gen import hostile
from p_c23 import outcome

PAGES = ('a.kajiki', 'b.genshi', 'sub/c.kajiki')
FRAGS = ('f.kajiki', 'sub/g.genshi')
LAYS = ('lay.kajiki',)
PARTS = ('p.kajiki', 'sub/q.kajiki')
ALL = PAGES + FRAGS + LAYS + PARTS
BITS = ('<br/>', '<b>$x</b>', '${y}', ' z ', '<p title="$y" py:if="x">${x}</p>', '$request',
        "${defined('y')}", '<input checked="checked"/>', '<script>1 &lt; 2</script>')
DTD = '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" ' \
      '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">'


def spec(name):
    return 'kjp:' + name


def gen_source(d, name):
    out = [d.choice(BITS) for _ in range(d.count(1, 3))]
    if name not in PARTS and d.bool(35):
        out.append('<py:include href="%s"/>' % spec(d.choice(PARTS)))
    if name == 'p.kajiki' and d.bool(30):
        out.append('<py:include href="%s"/>' % spec('sub/q.kajiki'))
    body = d.fresh('V') + ''.join(out)
    if name in LAYS:
        return '<html>%s<py:block name="k">old</py:block></html>' % body
    if name in PAGES and d.bool(30):
        return '<py:extends href="%s"><py:block name="k">%s</py:block></py:extends>' % (
            spec(LAYS[0]), body)
    return (DTD + '\n' if name not in PARTS and d.bool(15) else '') + '<div>%s</div>' % body


def gen(d):
    st = {}
    if d.bool(70):
        st['pyramid.reload_templates'] = d.choice(('true', 'false', 'yes', 'no', True, False, '1'))
    if d.bool(60):
        st['kajiki.mode'] = d.choice(('xml', 'html', 'html5'))
    exts = d.choice((None, '.kajiki .genshi', '.genshi  .kajiki', '.kajiki', '.kajiki\n.genshi\n'))
    if exts:
        st['kajiki.extensions'] = exts
    hist = [['write', n, gen_source(d, n)] for n in ALL]
    for _ in range(d.int(2, 9)):
        k = d.weighted((('render', 6), ('frag', 3), ('write', 4), ('remove', 1), ('same', 2),
                        ('bad', 1)))
        value = dict((v, d.choice((hostile(d), d.int(0, 3)))) for v in ('x', 'y') if d.bool(90))
        value.setdefault('x', 0)
        if k == 'write':
            n = d.choice(ALL)
            hist.append(['write', n, gen_source(d, n)])
        elif k == 'remove':
            hist.append(['remove', d.choice(ALL)])
        elif k == 'same':
            hist.append(['same', d.choice(PAGES)])
        elif k == 'bad':
            hist.append(['bad', d.choice(PAGES), d.choice((None, 3, 'text', {'!': 'tuple', 'v': [1]}))])
        else:
            n = d.choice(PAGES if k == 'render' else FRAGS)
            hist.append([k, n, value, {'request': hostile(d), 'x': 'system', 'y': 'system'},
                         d.choice(('name', 'info', 'none', 'abs')), d.bool()])
    return {'settings': st, 'times': d.choice((1, 1, 2)), 'hist': hist}


def refs(src):
    return [n for n in ALL if '"%s"' % spec(n) in src]


class Files(object):
    """What the loader has to serve."""

    def __init__(self, reload):
        self.reload, self.disk, self.loaded = reload, {}, {}

    def use(self, name):
        """The sources of a template and all it refers to; None if one is missing."""
        if self.reload or name not in self.loaded:
            if name not in self.disk:
                return None
            self.loaded[name] = self.disk[name]
        src = self.loaded[name]
        out = {name: src}
        for n in refs(src):
            more = self.use(n)
            if more is None:
                return None
            out.update(more)
        return out


def check(case, w, lab):
    st = case['settings']
    mode = st.get('kajiki.mode', 'html5')
    exts = st.get('kajiki.extensions', '.kajiki').split()
    files = Files(st.get('pyramid.reload_templates') in ('true', 'yes', True, '1'))
    steps = [{'op': 'write', 'path': 'pk/kjp/__init__.py', 'text': ''},
             {'op': 'package', 'base': 'pk'},
             {'op': 'pyramid', 'id': 'A', 'settings': st, 'times': case['times']}]
    first = len(steps)
    now, want, k = 1000000000, {}, 0
    for h in case['hist']:
        now += 0.25
        if h[0] == 'write':
            files.disk[h[1]] = h[2]
            steps.append({'op': 'write', 'path': 'pk/kjp/' + h[1], 'text': h[2], 'mtime': now})
            continue
        if h[0] == 'remove':
            if h[1] in files.disk:
                steps.append({'op': 'remove', 'path': 'pk/kjp/' + h[1]})
                del files.disk[h[1]]
            continue
        if '.' + h[1].rsplit('.', 1)[1] not in exts:
            continue
        if h[0] == 'same':
            known = h[1] in files.loaded and not files.reload
            if known or h[1] in files.disk:
                want[len(steps)] = ('same', None)
                steps += [{'op': 'pyr_load', 'app': 'A', 'name': spec(h[1])}] * 2
                if not known:
                    files.loaded[h[1]] = files.disk[h[1]]
            continue
        if h[0] == 'bad':
            known = h[1] in files.loaded and not files.reload
            if known or h[1] in files.disk:
                want[len(steps)] = ('exc', ['ValueError'])
                steps.append({'op': 'pyr_render', 'app': 'A', 'name': spec(h[1]), 'value': h[2],
                              'system': {'request': 'r'}})
                if not known:
                    files.loaded[h[1]] = files.disk[h[1]]
            continue
        _, name, value, system, how, flag = h
        use = files.use(name)
        step = {'op': 'pyr_render', 'app': 'A', 'name': spec(name), 'value': value,
                'system': system, 'how': 'fragment' if h[0] == 'frag' else
                'info' if how in ('info', 'none') else 'name', 'none': how == 'none',
                'abs': how == 'abs', 'view': flag}
        if use is None:
            want[len(steps)] = ('exc', ['FileNotFoundError', 'OSError', 'IOError'])
            steps.append(step)
            continue
        want[len(steps)] = ('step', len(steps) + 2 + len(use), name, use)
        steps.append(step)
        ids = {}
        for n, src in sorted(use.items()):
            k += 1
            ids[spec(n)] = 'e%d' % k
            steps.append({'op': 'xml', 'id': 'e%d' % k, 'source': src, 'opts': {
                'mode': mode, 'is_fragment': n in FRAGS or n in PARTS}})
        steps.append({'op': 'mock', 'id': 'M', 'modules': ids})
        ctx = {'request': system['request']} if h[0] == 'frag' else dict(system)
        if h[0] == 'frag' and not flag:
            ctx['request'] = ctx['request'] or 'rq'
        ctx.update(value)
        steps.append({'op': 'render', 'tpl': ids[spec(name)], 'ctx': ctx})
    res = w.call(steps)
    for r in res[:first]:
        ok(r, 'setting up', settings=st)
    if res[first - 1]['v'] != exts:
        raise Violation('the renderer is registered for other extensions', settings=st,
                        expected=exts, got=res[first - 1]['v'])
    n = 0
    for i, x in sorted(want.items()):
        got = outcome(res[i])
        if x[0] == 'exc':
            if got[0] != 'exc' or got[1] not in x[1]:
                raise Violation('this should raise %s' % x[1][0], step=steps[i], got=got)
            lab(x[1][0])
        elif x[0] == 'same':
            if got[0] != 'ok' or res[i] != res[i + 1]:
                raise Violation('an unchanged template is compiled again', step=steps[i],
                                got=[res[i], res[i + 1]])
        else:
            if got != outcome(res[x[1]]):
                raise Violation('the renderer does not render what the template says',
                                settings=st, step=steps[i], sources=x[3],
                                expected=outcome(res[x[1]]), got=got)
            lab(steps[i]['how'])
            n += got[0] == 'ok'
    return n > 0


ASSUMPTIONS = ['Pyramid, paste.deploy and zope.interface are not installed: stand-ins for asbool, '
               'asset specifications, interfaces and the configurator take their place (pyrstub.py)',
               'a template is used either as a page or as a fragment, as the documentation says',
               'XMLTemplate is right (the other properties)']
SCENARIOS = [
    Scenario('renderer', check, gen, n=1200,
             rule='settings x histories of edits, removals and renderings of pages and fragments '
                  'with layouts and includes; non-trivial: something is rendered'),
]
