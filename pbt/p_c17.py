"""Loaders: histories of files and loads against a model, and compile options."""
from core import Scenario, Violation, ok, exc_text
from gen import plain

DIRS = ('d0', 'd1', 'd2')
TOPS = ('page.html', 'main.xml', 'sub/p.html5', 'mail.txt', 'old.txt.html', 'v1.2.xml', 'sub.d/p.xml.txt')
LAYOUTS = ('lay.xml', 'lay.html5', 'base.txt')
PARTS = ('part.xml', 'row.html', 'sub/menu.html5', 'note.txt', 'sub/part.xml')
ORDER = PARTS          # a part refers to later parts only


def kind(name, force):
    if force:
        return force
    ext = name.rsplit('.', 1)[1]
    return 'text' if ext == 'txt' else ext


# --- contents ------------------------------------------------------------------

def gen_content(d, name, force, v):
    if d.bool(2):
        return {'broken': d.choice((0, 1))}
    c = {'v': v, 'extends': None, 'items': []}
    text = kind(name, force) == 'text'
    if text and d.bool(5):
        return {'v': None, 'extends': None, 'items': [], 'none': 1}
    if name in TOPS and d.bool(40):
        lays = [n for n in LAYOUTS if (kind(n, force) == 'text') == text]
        if lays:
            c['extends'] = d.choice(lays)
    parts = PARTS if name in TOPS else PARTS[PARTS.index(name) + 1:] if name in PARTS else PARTS
    for _ in range(d.count(0, 3)):
        k = d.weighted((('br', 1), ('ws', 1), ('glob', 1), ('inc', 4), ('imp', 3)))
        if k in ('br', 'ws', 'glob'):
            c['items'].append([k])
        elif parts:
            c['items'].append([k, d.choice(parts)])
    if name in LAYOUTS:
        c['items'].append(['blk'])
    return c


BROKEN = {True: ('${1 +', '{%for x%}{%end%}'), False: ('<p>', '<p>${1 +}</p>')}


def source(c, name, force):
    text = kind(name, force) == 'text'
    if 'broken' in c:
        return BROKEN[text][c['broken']]
    if 'none' in c:
        return ''
    body = 'V%s.' % c['v']
    for n, x in enumerate(c['items']):
        if x[0] == 'br':
            body += '+' if text else '<br/>'
        elif x[0] == 'ws':
            body += ' w ' if text else '<i> w </i>'
        elif x[0] == 'glob':
            body += '(${G})'
        elif x[0] == 'inc':
            body += ('{%%include "%s"%%}' if text else '<py:include href="%s"/>') % x[1]
        elif x[0] == 'imp':
            body += ('{%%import "%s" as a%d%%}' if text else
                     '<py:import href="%s" alias="a%d"/>') % (x[1], n)
            body += '${a%d.f()}' % n
        else:
            body += '{%block b%}own{%end%}' if text else '<py:block name="b">own</py:block>'
    fun = '{%%def f()%%}F%s{%%end%%}' if text else '<py:def function="f()">F%s</py:def>'
    fun %= c['v']
    if c['extends']:
        return ('{%%extends "%s"%%}%s{%%block b%%}%s{%%end%%}' if text else
                '<py:extends href="%s">%s<py:block name="b">%s</py:block></py:extends>') % (
                    c['extends'], fun, body)
    return fun + body if text else '<div>%s%s</div>' % (fun, body)


# --- model -----------------------------------------------------------------------

class Unknown(Exception):
    pass


class Broken(Exception):
    pass


class Model(object):
    def __init__(self, dirs, force, reload, opts):
        self.dirs, self.force, self.reload = dirs, force, reload
        self.opts = opts
        self.files = {}        # (dir, name) -> (content, mtime)
        self.cache = {}        # reload off: name -> content

    def place(self, name):
        for d in self.dirs:
            if (d, name) in self.files:
                return d
        return None

    def serve(self, name):
        if not self.reload and name in self.cache:
            return self.cache[name]
        d = self.place(name)
        if d is None:
            raise Unknown(name)
        c = self.files[d, name][0]
        if 'broken' in c:
            raise Broken(name)
        self.cache[name] = c
        return c

    def render(self, name, c, top=True):
        k = kind(name, self.force)
        if c['extends']:
            lay = c['extends']
            return self.render_body(lay, self.serve(lay), top, lambda: self.items(name, c, None))
        return self.render_body(name, c, top, lambda: 'own')

    def render_body(self, name, c, top, blk):
        k = kind(name, self.force)
        body = self.items(name, c, blk)
        if k == 'text':
            return body
        dtd = '<!DOCTYPE html>\n' if k == 'html5' and top else ''
        return dtd + '<div>' + body + '</div>'

    def items(self, name, c, blk):
        k = kind(name, self.force)
        if 'none' in c:
            return ''
        out = ['V%s.' % c['v']]
        for x in c['items']:
            if x[0] == 'br':
                out.append({'text': '+', 'xml': '<br/>'}.get(k, '<br>'))
            elif x[0] == 'ws':
                out.append(' w ' if k == 'text' else '<i>w</i>' if self.opts.get('strip_text')
                           else '<i> w </i>')
            elif x[0] == 'glob':
                g = self.opts['base_globals']['G']
                out.append('(%s)' % (g if k == 'text' and not self.opts.get('autoescape_text')
                                     else g.replace('&', '&amp;').replace('<', '&lt;')
                                     .replace('>', '&gt;')))
            elif x[0] == 'inc':
                out.append(self.render(x[1], self.serve(x[1]), top=False))
            elif x[0] == 'imp':
                v = self.serve(x[1])['v']
                if v is None:
                    raise Broken(name)        # it has no such function
                out.append('F%s' % v)
            else:
                out.append(blk())
        return ''.join(out)


# --- histories -----------------------------------------------------------------------

def gen(d):
    dirs = list(DIRS[:d.int(1, 3)])
    force = d.weighted(((None, 6), ('xml', 1), ('html', 1), ('html5', 1), ('text', 1)))
    names = d.subset(TOPS, 60) or [TOPS[0]]
    every = names + list(LAYOUTS) + list(PARTS)
    hist = []
    v = [0]

    def content(n):
        v[0] += 1
        return gen_content(d, n, force, v[0])
    for n in every:
        for p in (dirs if d.bool(20) else [d.choice(dirs)] if d.bool(96) else []):
            hist.append(['write', p, n, content(n), d.choice((0.01, 1))])
    held = 0
    last = d.choice(names)
    for _ in range(d.int(2, 16)):
        k = d.weighted((('load', 3), ('render', 6), ('write', 5), ('remove', 3), ('touch', 1),
                        ('held', 2), ('part', 2), ('unknown', 1)))
        if k in ('load', 'render'):
            last = d.choice((last, d.choice(names)))
            hist.append([k, last, held, d.bool(30)])
            held += 1
        elif k == 'held':
            if held:
                hist.append(['held', d.int(0, held - 1)])
        elif k in ('write', 'remove', 'touch'):
            n = d.choice((last, d.choice(every)))
            x = [k, d.choice(dirs), n]
            if k == 'write':
                x.append(content(n))
            hist.append(x + [d.choice((0.01, 0.3, 1, 3600))])
        elif k == 'part':
            hist.append(['part', d.choice(PARTS + LAYOUTS)])
        else:
            hist.append(['unknown', d.choice(('nope.xml', 'sub/nope.html', 'nope.txt'))])
    opts = {'base_globals': {'G': d.choice(('g', 'g&', '<g/>'))}}
    if d.bool(40):
        opts['autoescape_text'] = d.bool(70)
    if force in ('xml', 'html', 'html5') and d.bool(50):
        opts['strip_text'] = d.bool(80)
    return {'opts': opts, 'dirs': dirs, 'joined': d.bool(30), 'missing': d.bool(20), 'force': force,
            'dot': d.subset(names, 15),
            'reload': not d.bool(25), 'default': d.bool(50), 'hist': hist}


def outcome(r):
    if 'v' in r:
        return ['ok', r['v']]
    return ['IOError' if 'OSError' in r['exc']['mro'] else 'error', exc_text(r)]


def check(case, w, lab):
    force, reload = case['force'], case['reload']
    m = Model(case['dirs'], force, reload, case['opts'])
    path = list(case['dirs'])
    if case['missing']:
        path.insert(0, 'absent')
    opts = dict(case['opts'])
    if force:
        opts['force_mode'] = force
    if not reload or not case['default']:
        opts['reload'] = reload
    steps = [{'op': 'write', 'path': x + '/.keep', 'text': ''} for x in case['dirs']]
    steps.append({'op': 'fileloader', 'id': 'L', 'path': path, 'joined': case['joined'],
                  'opts': opts})
    wants = [None] * len(steps)
    now = 1000000000.0
    held = {}
    stamps = {}
    last = {}               # name -> (state at the last load, its step)
    changed = False

    def add(step, want=None):
        steps.append(step)
        wants.append(want)

    def state(n):
        p = m.place(n)
        return None if p is None else (p, m.files[p, n][1])

    def guard(f):
        try:
            return ['ok', f()]
        except Unknown:
            return ['IOError']
        except Broken:
            return ['error']

    def load(name, rid, kw=None, alias=False):
        """The load, and whether it must give the object of an earlier one."""
        r = guard(lambda: m.serve(name))
        same = None
        if r[0] == 'ok':
            s = state(name) if reload else 'served'
            if name in last and last[name][0] == (s, stamps.get(name, 0) if reload else 0):
                same = last[name][1]
            else:
                last[name] = ((s, stamps.get(name, 0) if reload else 0), len(steps))
        add({'op': 'load', 'loader': 'L', 'name': './' * (name in case['dot']) + name, 'id': rid, 'kw': kw or {},
             'alias': alias}, ['load', r[0], same, name])
        return r
    for h in case['hist']:
        k = h[0]
        if k == 'write' or k == 'touch' or k == 'remove':
            now += h[-1]
            key = (h[1], h[2])
            stamps[h[2]] = stamps.get(h[2], 0) + 1
            if k == 'remove':
                if key in m.files:
                    del m.files[key]
                    add({'op': 'remove', 'path': h[1] + '/' + h[2]})
                    changed = True
                continue
            if k == 'touch':
                if key not in m.files:
                    continue
                c = m.files[key][0]
            else:
                c = h[3]
            changed = changed or key in m.files
            m.files[key] = (c, now)
            add({'op': 'write', 'path': h[1] + '/' + h[2], 'text': source(c, h[2], force),
                 'mtime': now})
        elif k == 'part':
            load(h[1], '', {'is_fragment': True} if h[1] in PARTS else {})
        elif k == 'unknown':
            load(h[1], '')
        elif k in ('load', 'render'):
            held[h[2]] = None
            r = load(h[1], 'h%d' % h[2], alias=h[3])
            if r[0] != 'ok':
                continue
            held[h[2]] = (h[1], r[1])
            if k == 'render':
                add({'op': 'render', 'tpl': 'h%d' % h[2]},
                    ['render', guard(lambda: m.render(h[1], r[1]))])
        elif k == 'held' and held.get(h[1]):
            name, c = held[h[1]]
            add({'op': 'render', 'tpl': 'h%d' % h[1]}, ['render', guard(lambda: m.render(name, c))])
    res = w.call(steps)
    renders = 0
    for n, (s, want, r) in enumerate(zip(steps, wants, res)):
        if want is None:
            ok(r, 'step %d %s' % (n, s['op']))
            continue
        got = outcome(r)
        log = steps[:n + 1]
        if want[0] == 'load':
            if got[0] != want[1]:
                raise Violation('loading %s gave %s, expected %s' % (want[3], got, want[1]),
                                history=log)
            if want[2] is not None and got[0] == 'ok' and got[1] != res[want[2]]['v']:
                raise Violation('the unchanged template %s was compiled again' % want[3],
                                history=log)
        else:
            renders += got[0] == 'ok'
            if got[0] != want[1][0] or got[0] == 'ok' and got[1] != want[1][1]:
                raise Violation('a rendering does not show the current templates',
                                history=log, expected=want[1], got=got)
    lab('reload' if reload else 'no reload')
    if force:
        lab('forced')
    return renders > 0 and changed


# --- how files are compiled ------------------------------------------------------------

XMLS = ('<div><title>T$x</title><br/> <p>  a  ${x} </p> <script>i &lt; 1 $x</script>${G}'
        '<input checked="${b}" value="$x"/>\xe9 <a py:strip="b">s</a></div>')
TEXTS = 'a ${x} \xe9 <br> ${G}\n %if b\n  yes\n%end\n$x'


def gen_modes(d):
    opts = {}
    force = d.weighted(((None, 5), ('xml', 1), ('html', 1), ('html5', 1), ('text', 2)))
    ext = d.choice(('xml', 'html', 'html5', 'txt'))
    pkg = d.bool(20)
    text = (force or ext) in ('text', 'txt')
    if force:
        opts['force_mode'] = force
    if not pkg:
        if d.bool():
            opts['autoescape_text'] = d.bool()
        if d.bool():
            opts['xml_autoblocks'] = d.choice((['title'], ['p', 'title'], []))
        if d.bool():
            opts['base_globals'] = {'G': plain(d) + '<g>'}
        if not text:
            # the options of XMLTemplate
            if d.bool():
                opts['strip_text'] = d.bool()
            if d.bool():
                opts['cdata_scripts'] = d.bool()
        if d.bool(30):
            opts['encoding'] = d.choice(('utf-8', 'latin-1', 'utf-16'))
    kw = {}
    if not pkg and d.bool(25):
        kw['encoding'] = d.choice(('utf-8', 'latin-1', 'utf-16'))
    if not text and d.bool(25):
        kw['is_fragment'] = True
    if not text and not pkg and d.bool(20):
        kw['strip_text'] = True
    others = [e for e in ('xml', 'html', 'html5', 'txt') if e != ext and d.bool(40)] if pkg else []
    return {'ext': ext, 'pkg': pkg, 'opts': opts, 'kw': kw, 'x': plain(d, 1) + '<&', 'b': d.bool(),
            'pre': d.choice(('', '<!DOCTYPE html>\n', '<!DOCTYPE r SYSTEM "r">\n')),
            'others': others}


def check_modes(case, w, lab):
    opts, kw = dict(case['opts']), case['kw']
    ext = case['ext']
    if case['pkg']:
        # a package's template is named without extension
        ext = [e for e in ('xml', 'html', 'html5', 'txt') if e == ext or e in case['others']][0]
    mode = opts.get('force_mode') or ext
    text = mode in ('txt', 'text')
    enc = kw.get('encoding') or opts.get('encoding') or 'utf-8'
    src = TEXTS if text else case['pre'] + XMLS
    direct = dict((k, v) for k, v in opts.items() if k in (
        'base_globals', 'strip_text', 'cdata_scripts'))
    direct.update((k, v) for k, v in kw.items() if k != 'encoding')
    if text:
        direct['autoescape'] = opts.get('autoescape_text', False)
    else:
        direct['autoblocks'] = opts.get('xml_autoblocks')
        if mode != 'xml' or 'force_mode' in opts:
            direct['mode'] = mode
    ctx = {'x': case['x'], 'b': case['b']}
    if 'base_globals' not in opts:
        ctx['G'] = 'g&'
    steps = [{'op': 'text' if text else 'xml', 'id': 'd', 'source': src, 'opts': direct},
             {'op': 'render', 'tpl': 'd', 'ctx': ctx}]
    if case['pkg']:
        steps += [{'op': 'write', 'path': 'pk/kjm/__init__.py', 'text': ''},
                  {'op': 'write', 'path': 'pk/kjm/t.' + case['ext'], 'text': src}]
        steps += [{'op': 'write', 'path': 'pk/kjm/t.' + e, 'text': src} for e in case['others']]
        steps += [{'op': 'package', 'base': 'pk'}, {'op': 'pkgloader', 'id': 'L', 'opts': opts},
                  {'op': 'load', 'loader': 'L', 'name': 'kjm.t', 'kw': kw, 'id': 't'}]
    else:
        steps += [{'op': 'write', 'path': 'd/t.' + ext, 'text': src, 'encoding': enc},
                  {'op': 'fileloader', 'id': 'L', 'path': ['d'], 'opts': opts},
                  {'op': 'load', 'loader': 'L', 'name': 't.' + ext, 'kw': kw, 'id': 't'}]
    steps.append({'op': 'render', 'tpl': 't', 'ctx': ctx})
    r = w.call(steps)
    for x, s in zip(r, steps):
        ok(x, s['op'], source=src, options=opts, arguments=kw)
    if r[-1]['v'] != r[1]['v']:
        raise Violation('a loaded template is not compiled as the loader was told', source=src,
                        file='t.' + ext, options=opts, arguments=kw, expected=r[1]['v'],
                        got=r[-1]['v'])
    lab(mode)
    return bool(opts or kw)


# --- packages ------------------------------------------------------------------------------

def gen_pkg(d):
    hist = []
    v = 0
    for _ in range(d.int(2, 12)):
        k = d.weighted((('write', 5), ('remove', 2), ('render', 6)))
        n = d.choice(('a', 'b', 'sub.a'))
        e = d.choice(('xml', 'html', 'txt') + (('html5',) if n == 'a' else ()))
        if k == 'write':
            v += 1
            hist.append([k, n, e, v, d.choice((None, 'b', 'sub.a'))])
        else:
            hist.append([k, n, e])
    return {'reload': not d.bool(30), 'hist': hist}


def check_pkg(case, w, lab):
    files, cache, steps, wants = {}, {}, [], []
    for p in ('pk/kjq', 'pk/kjq/sub'):
        steps.append({'op': 'write', 'path': p + '/__init__.py', 'text': ''})
    steps += [{'op': 'package', 'base': 'pk'},
              {'op': 'pkgloader', 'id': 'L', 'opts': {'reload': case['reload']}}]
    wants = [None] * len(steps)
    now = 1000000000

    def current(n):
        if not case['reload'] and n in cache:
            return cache[n]
        for e in ('xml', 'html', 'html5', 'txt'):
            if (n, e) in files:
                cache[n] = (e,) + files[n, e]
                return cache[n]
        raise Unknown(n)

    def render(n):
        e, v, inc = current(n)
        s = 'V%d' % v + ('' if e == 'txt' else '<br/>' if e == 'xml' else '<br>')
        if inc:
            s += render(inc)
        return s if e == 'txt' else '%s<p>%s</p>' % (
            '<!DOCTYPE html>\n' if e == 'html5' else '', s)
    for h in case['hist']:
        p = 'pk/kjq/%s.%s' % (h[1].replace('.', '/'), h[2])
        if h[0] == 'write':
            now += 0.25
            inc = h[4] if h[4] and ('a', 'b', 'sub.a').index(h[4]) > (
                'a', 'b', 'sub.a').index(h[1]) else None
            files[h[1], h[2]] = (h[3], inc)
            t = 'V%d' % h[3] + ('' if h[2] == 'txt' else '<br/>')
            if inc:
                t += ('{%%include "kjq.%s"%%}' if h[2] == 'txt' else
                      '<py:include href="kjq.%s"/>') % inc
            steps.append({'op': 'write', 'path': p, 'mtime': now,
                          'text': t if h[2] == 'txt' else '<p>%s</p>' % t})
            wants.append(None)
        elif h[0] == 'remove':
            if (h[1], h[2]) in files:
                del files[h[1], h[2]]
                steps.append({'op': 'remove', 'path': p})
                wants.append(None)
        else:
            try:
                x = current(h[1])
            except Unknown:
                x = None
            steps.append({'op': 'load', 'loader': 'L', 'name': 'kjq.' + h[1], 'id': 't'})
            wants.append('ok' if x else 'IOError')
            if x:
                try:
                    want = ['ok', render(h[1])]
                except Unknown:
                    want = ['IOError']
                steps.append({'op': 'render', 'tpl': 't'})
                wants.append(want)
    n_ok = 0
    for n, (s, want, r) in enumerate(zip(steps, wants, w.call(steps))):
        got = outcome(r)
        if want is None:
            ok(r, s['op'])
        elif isinstance(want, str):
            if got[0] != want:
                raise Violation('loading %s gave %s, expected %s' % (s['name'], got, want),
                                history=steps[:n + 1])
        else:
            n_ok += got[0] == 'ok'
            if got[0] != want[0] or got[0] == 'ok' and got[1] != want[1]:
                raise Violation('a rendering does not show the current templates',
                                history=steps[:n + 1], expected=want, got=got)
    return n_ok > 1


ASSUMPTIONS = ['modification times advance with every edit',
               'templates that are included or imported are not also rendered on their own']
SCENARIOS = [
    Scenario('histories', check, gen, n=5000,
             rule='histories of writing, touching, removing, loading and rendering up to 12 '
                  'templates on up to 3 directories; non-trivial: something rendered and a file '
                  'was edited or removed'),
    Scenario('modes', check_modes, gen_modes, n=1500,
             rule='extension x forced mode x options against direct compilation; non-trivial: '
                  'some option is given'),
    Scenario('packages', check_pkg, gen_pkg, n=1500,
             rule='histories over a package; non-trivial: two renderings succeed'),
]
