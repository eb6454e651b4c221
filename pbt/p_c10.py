"""Doctypes: recognised, emitted once and verbatim, and nothing else."""
import re

from core import Scenario, Violation, ok
from gen import plain
from xmlgen import Scope, XGen, fix_doc, merge_text
from exprs import gen_ctx
from xmlmodel import write

REGISTERED = [
    ('html5', ['html'], 'html5'),
    ('xhtml1transitional', ['html', 'PUBLIC', '"-//W3C//DTD XHTML 1.0 Transitional//EN"',
                            '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd"'], 'xml'),
    ('xhtml1strict', ['html', 'PUBLIC', '"-//W3C//DTD XHTML 1.0 Strict//EN"',
                      '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd"'], 'xml'),
    ('xhtml1rdfa', ['html', 'PUBLIC', '"-//W3C//DTD XHTML+RDFa 1.0//EN"',
                    '"http://www.w3.org/MarkUp/DTD/xhtml-rdfa-1.dtd"'], 'xml'),
    ('xhtml11', ['html', 'PUBLIC', '"-//W3C//DTD XHTML 1.1//EN"',
                 '"http://www.w3.org/TR/xhtml11/DTD/xhtml11.dtd"'], 'xml'),
    ('xhtml1frameset', ['html', 'PUBLIC', '"-//W3C//DTD XHTML 1.0 Frameset//EN"',
                        '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-frameset.dtd"'], 'xml'),
    ('xhtmlbasic11', ['html', 'PUBLIC', '"-//W3C//DTD XHTML Basic 1.1//EN"',
                      '"http://www.w3.org/TR/xhtml-basic/xhtml-basic11.dtd"'], 'xml'),
    ('xhtmlmobile12', ['html', 'PUBLIC', '"-//WAPFORUM//DTD XHTML Mobile 1.2//EN"',
                       '"http://www.openmobilealliance.org/tech/DTD/xhtml-mobile12.dtd"'], 'xml'),
    ('html4transitional', ['html', 'PUBLIC', '"-//W3C//DTD HTML 4.01 Transitional//EN"',
                           '"http://www.w3.org/TR/html4/loose.dtd"'], 'html'),
    ('html4strict', ['html', 'PUBLIC', '"-//W3C//DTD HTML 4.01//EN"',
                     '"http://www.w3.org/TR/html4/strict.dtd"'], 'html'),
    ('html4frameset', ['html', 'PUBLIC', '"-//W3C//DTD HTML 4.01 Frameset//EN"',
                       '"http://www.w3.org/TR/html4/frameset.dtd"'], 'html'),
]
UNKNOWN = ['<!DOCTYPE note SYSTEM "note.dtd">', '<!DOCTYPE kajiki>', '<!DOCTYPE svg PUBLIC '
           '"-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">',
           '<!DOCTYPE html5>', '<!DOCTYPE%shtmlx>' % (' ' * 300), '<!DOCTYPE htm>', '<!DOCTYPE  x  >',
           '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 9.0//EN" "http://example.org/x.dtd">',
           "<!DOCTYPE math SYSTEM 'http://www.w3.org/Math/DTD/mathml1/mathml.dtd'>"]
SPACES = (' ', '  ', '\n', '\t', '\n    ', ' \n\n ', '\r\n', ' ' * 90, '\n' * 12 + ' ' * 70)


def any_case(d, s):
    return ''.join(c.upper() if d.bool(40) else c.lower() if d.bool(30) else c for c in s)


def registered(d):
    name, parts, mode = d.choice(REGISTERED)
    v = d.choice(('asis', 'space', 'case', 'both'))
    head = '<!DOCTYPE'
    if v in ('case', 'both'):
        parts = [any_case(d, p) for p in parts]
    out = head
    for p in parts:
        out += (d.choice(SPACES) if v in ('space', 'both') else ' ') + p
    return out + '>', mode, name


# --- recognition ------------------------------------------------------------

def gen_match(d):
    if d.bool(25):
        return {'dtd': d.choice(UNKNOWN), 'mode': None, 'name': None}
    s, mode, name = registered(d)
    if d.bool(30):
        s = any_case(d, s[:9]) + s[9:]
    return {'dtd': s, 'mode': mode, 'name': name}


def check_match(case, w, lab):
    r = w.call([{'op': 'dtd_match', 'dtd': case['dtd']}])
    got = ok(r[0], 'matching', dtd=case['dtd'])
    if case['name'] is None:
        if got is not None and got[1] != 'xml':
            raise Violation('an unknown doctype was recognised', dtd=case['dtd'], got=got)
        return False
    if got is None:
        raise Violation('a registered doctype was not recognised', dtd=case['dtd'])
    if got[1] != case['mode']:
        raise Violation('a doctype selects the wrong mode', dtd=case['dtd'], got=got,
                        expected=case['mode'])
    lab(case['name'])
    return True


# --- emission -----------------------------------------------------------------

W = {'text': 5, 'el': 5, 'if': 1, 'for': 1, 'block': 1, 'replace': 1}
PROF = {'w': W, 'depth': 2, 'attrs': 30, 'sizes': (3, 8)}
DECOYS = ('<!--<!DOCTYPE html>-->', '<![CDATA[<!DOCTYPE html>]]>', '&lt;!DOCTYPE html>',
          "${'&lt;!DOCTYPE html>'}", '<b title="&lt;!DOCTYPE note>"/>',
          '<!--!<!DOCTYPE gone>-->', '<script>"&lt;!DOCTYPE html>"</script>')


def content(d, env, decoys=True):
    g = XGen(d, PROF)
    g.ctx_env, g.ctxtypes = env, {}
    kids = merge_text(g.kids(Scope(env), 2, 1, 3))
    out = ''.join(write(fix_doc(k)) for k in kids) + '<br/>'
    if decoys and d.bool(40):
        out += d.choice(DECOYS)
    return out


def prolog(d):
    return (d.choice(('', '', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n')) +
            d.choice(('', '', '<!-- one -->', '<!--! two -->\n', '<!-- a > b -->')))


def pick(d):
    k = d.weighted((('reg', 6), ('none', 3), ('unknown', 3)))
    if k == 'reg':
        s, mode, _ = registered(d)
        return s, mode
    if k == 'none':
        return None, 'xml'
    return d.choice(UNKNOWN), 'xml'


def gen(d):
    env, ctx = gen_ctx(d, plain)
    for n in ('child', 'parent'):        # are templates here
        env.pop(n, None), ctx.pop(n, None)
    dtd, implied = pick(d)
    pro = prolog(d)
    if pro.startswith('<?xml'):
        pre = pro
    else:
        pre = d.choice(('', '', '\n', ' \n')) + pro
    return {'pre': pre, 'dtd': dtd, 'implied': implied, 'mid': d.choice(('', '\n', '\n\n', '  ')) +
            d.choice(('', '', '<!-- x -->\n')),
            'body': '<html>%s</html>' % content(d, env), 'post': d.choice(('', '\n', '<!-- z -->')),
            'ctx': ctx, 'mode': d.choice((None, None, 'xml', 'html', 'html5')),
            'fragment': d.bool(25)}


def lines(s):
    return s.replace('\r\n', '\n')


def check(case, w, lab):
    src = case['pre'] + (case['dtd'] or '') + case['mid'] + case['body'] + case['post']
    mode = case['mode'] or case['implied']
    opts = {'is_fragment': case['fragment']}
    if case['mode']:
        opts['mode'] = case['mode']
    r = w.call([{'op': 'xml', 'id': 'a', 'source': src, 'opts': opts},
                {'op': 'render', 'tpl': 'a', 'ctx': case['ctx']},
                {'op': 'xml', 'id': 'b', 'source': case['body'],
                 'opts': {'mode': mode, 'is_fragment': True}},
                {'op': 'render', 'tpl': 'b', 'ctx': case['ctx']}])
    for x in r:
        ok(x, 'compiling or rendering', source=src)
    out, body = r[1]['v'], r[3]['v']
    if body.startswith('<!DOCTYPE'):
        raise Violation('a fragment has a doctype', source=case['body'], output=body)
    if case['fragment']:
        want = ''
    elif case['dtd']:
        want = case['dtd']
    elif mode == 'html5':
        want = '<!DOCTYPE html>'
    else:
        want = ''
    verify(out, want, body, source=src, mode=mode, fragment=case['fragment'])
    lab('%s %s' % ('fragment' if case['fragment'] else 'page', mode))
    return bool(want)


def verify(out, want, body, **det):
    if want:
        if not (out.startswith(want) or lines(out).startswith(lines(want))):
            raise Violation('the doctype is not emitted as it was written', expected=want,
                            output=out, **det)
        rest = lines(out)[len(lines(want)):].lstrip('\n')
    else:
        rest = lines(out)
    if rest != lines(body):
        raise Violation('the output is not the doctype followed by the document',
                        doctype=want, expected=body, output=out, **det)


# --- several templates --------------------------------------------------------

def gen_assembled(d):
    env, ctx = gen_ctx(d, plain)
    for n in ('child', 'parent'):        # are templates here
        env.pop(n, None), ctx.pop(n, None)
    force = d.choice(('xml', 'html', 'html5'))
    names = ['b1', 'b2']
    files = {}

    def dtd():
        return (pick(d)[0] or '') if d.bool(70) else ''
    layout_dtd = dtd()
    layout = '<html>' + content(d, env)
    for n in names:
        layout += '<py:block name="%s">%s</py:block>' % (n, content(d, env))
        if d.bool(40):
            layout += '<py:include href="inc.xml"/>'
    files['layout.xml'] = [layout_dtd, layout + '</html>']
    files['inc.xml'] = [dtd(), '<p>%s%s</p>' % (content(d, env), d.choice(
        ('', '<py:include href="inc2.xml"/>')))]
    files['inc2.xml'] = [dtd(), '<q>%s</q>' % content(d, env)]
    files['lib.xml'] = [dtd(), '<r><py:def function="mk(v)"><u>${v}</u></py:def></r>']
    main = 'layout.xml'
    for lev in range(d.int(0, 2)):
        t = '<py:extends href="%s">\n' % main
        for n in d.subset(names, 60):
            t += '<py:block name="%s">%s%s</py:block>\n' % (n, content(d, env), ''.join(d.subset(
                ('${parent_block()}', '<py:include href="inc.xml"/>',
                 '<py:import href="lib.xml" alias="lb"/>${lb.mk(s1)}'), 40)))
        main = 'c%d.xml' % lev
        files[main] = [dtd(), t + '</py:extends>']
    return {'files': files, 'main': main, 'ctx': ctx, 'force': force, 'dtd': layout_dtd}


def check_assembled(case, w, lab):
    steps = []
    for k in (0, 1):
        for n, (dtd, body) in sorted(case['files'].items()):
            text = body if k or not dtd else dtd + '\n' + body
            steps.append({'op': 'write', 'path': 't%d/%s' % (k, n), 'text': text})
        steps += [{'op': 'fileloader', 'id': 'l%d' % k, 'path': 't%d' % k,
                   'opts': {'force_mode': case['force']}},
                  {'op': 'load', 'loader': 'l%d' % k, 'name': case['main'], 'id': 'm%d' % k}]
    steps += [{'op': 'render', 'tpl': 'm0', 'ctx': case['ctx']},
              {'op': 'render', 'tpl': 'm1', 'ctx': case['ctx']}]
    r = w.call(steps)
    for x in r:
        ok(x, 'loading or rendering', files=case['files'], main=case['main'])
    out, bare = r[-2]['v'], r[-1]['v']
    default = '<!DOCTYPE html>' if case['force'] == 'html5' else ''
    if default:
        if not bare.startswith(default):
            raise Violation('a page without doctype got none in html5 mode', output=bare,
                            files=case['files'])
        bare = bare[len(default):].lstrip('\n')
    body = re.sub(r'<!--.*?-->|<!\[CDATA\[.*?\]\]>|<script>.*?</script>', '', bare, flags=re.S)
    if '<!DOCTYPE' in body:
        raise Violation('a doctype appears inside the document', output=bare, files=case['files'],
                        main=case['main'])
    verify(out, case['dtd'] or default, bare, files=case['files'], main=case['main'],
           mode=case['force'])
    lab('levels %d' % sum(n.startswith('c') for n in case['files']))
    return bool(case['dtd']) and any(x[0] for n, x in case['files'].items() if n != 'layout.xml')


ASSUMPTIONS = ['the keyword DOCTYPE of a template is in capitals, as XML wants',
               'doctypes have no internal subset',
               'an included template does not itself extend a layout (known finding)']
SCENARIOS = [
    Scenario('recognition', check_match, gen_match, n=1500,
             rule='doctypes in any letter case and spacing; non-trivial: a registered one'),
    Scenario('emission', check, gen, n=3000,
             rule='documents with and without doctype, prolog, explicit mode, as page and as '
                  'fragment; non-trivial: a doctype is to be emitted'),
    Scenario('assembled', check_assembled, gen_assembled, n=800,
             rule='layouts, children, includes and imports, each with a doctype or without; '
                  'non-trivial: the layout and another template have one'),
]
