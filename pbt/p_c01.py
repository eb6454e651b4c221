import re
from xml.parsers import expat

from core import Scenario, Violation, ok
from exprs import gen_ctx
from gen import hostile
from xmlgen import Scope, XGen, count, fix_doc, gen_doc, merge_text
from xmlmodel import small, write, write_doc

W = {'text': 6, 'el': 5, 'if': 2, 'ifelse': 2, 'for': 2, 'switch': 2, 'with': 2, 'call': 2,
     'innerdef': 1, 'replace': 2, 'block': 2, 'comment': 2, 'cdata': 3, 'script': 3, 'py': 1,
     'nop': 1}
ALL_TAGS = ('p', 'div', 'br', 'img', 'input', 'a', 'ns:x', 'X-y', 'svg', 'textarea', 'option', '_a', 'b.c', '\xe9', 'table', 'li')
PROF = {'w': W, 'depth': 4, 'combo': 10, 'attrs': 45, 'pattrs': 20, 'strip': 12, 'content': 8,
        'funcs': 2, 'static': 'hostile', 'ctext': hostile, 'etext': hostile, 'pr': 2, 'pd': 1,
        'tags': ALL_TAGS, 'attr_names': ('title', 'class', 'href', 'data-x', 'ns:q', '_u', 'alt',
                                         'checked', 'Z', 'style', 'onclick', 'src', 'content')}

DTDS = (None, None, None,
        '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" '
        '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">',
        '<!DOCTYPE kajiki SYSTEM "unknown.dtd">', '<!DOCTYPE html>',
        '<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01//EN" "http://www.w3.org/TR/html4/strict.dtd">')


class HGen(XGen):
    """Does not produce what known-findings.txt lists for this property."""


def safe_raw(n):
    """A value that ends a CDATA section together with the text after it is a
    known finding: keep "]]>" apart there."""
    if n['t'] == 'cdata' or n['t'] == 'el' and n['tag'] in ('script', 'style'):
        for p in ([n['p']] if n['t'] == 'cdata' else [k['p'] for k in n['kids']]):
            for a, b in zip(p, p[1:]):
                if a[0] in 'en$' and b[0] == 's' and re.match(r'\]?>', b[1]):
                    b[1] = ' ' + b[1]
    for k in n.get('kids', ()):
        safe_raw(k)
    return n


def no_duplicates(n):
    """py:attrs repeating a static attribute is a known finding."""
    return n


def gen(d):
    case = gen_doc(d, PROF)
    root = safe_raw(case['doc']['root'])
    if d.bool(15):
        root['strip'] = d.choice(('', 'True', 'b0'))
    if d.bool(10):
        root['dirs']['if'] = 'True'
    if d.bool(8):
        root['dirs']['for'] = 'rr in range(2)'
    case['doc']['dtd'] = d.choice(DTDS)
    if d.bool(20):
        case['doc']['pre'] = [{'t': 'comment', 's': ' top '}]
    opts = {'mode': 'xml'}
    if d.bool(25):
        opts['cdata_scripts'] = False
    if d.bool(25):
        opts['strip_text'] = True
    if d.bool(15):
        opts['autoblocks'] = d.subset(('div', 'a', 'p'), 40)
    if d.bool(15):
        opts['is_fragment'] = True
    case['opts'] = opts
    if opts.get('cdata_scripts') is False:
        close_scripts(root)
    if opts.get('autoblocks'):
        # a tag that is a block sees only the context
        if uses_blocks_unsafely(root, opts['autoblocks']):
            opts.pop('autoblocks')
    return case


def uses_blocks_unsafely(root, tags):
    """An autoblock is a function: only where no local variable is visible."""
    seen = [False]

    def walk(n, local):
        if n['t'] == 'el' and n['tag'] in tags and local:
            seen[0] = True
        if n['t'] == 'el' and n['tag'] in tags and (n.get('dirs') or n.get('strip') is not None
                                                   or n.get('attrs') or n.get('pattrs')
                                                   or n.get('content')):
            seen[0] = True
        dirs = set(n.get('dirs') or ())
        if n['t'] == 'dir':
            dirs.add(n['d'])
        local = local or bool(dirs & set(('for', 'with', 'def', 'call', 'else', 'case', 'block')))
        if n['t'] == 'py':
            local = True
        for k in n.get('kids', ()):
            if k['t'] == 'py':
                local = True
            walk(k, local)
    walk(root, False)
    names = []

    def tags_of(n):
        if n['t'] == 'el' and n['tag'] in tags:
            names.append(n['tag'])
        for k in n.get('kids', ()):
            tags_of(k)
    tags_of(root)
    return seen[0] or len(names) != len(set(names))


def close_scripts(n):
    pass


def parse(text):
    p = expat.ParserCreate('utf-8')
    p.Parse(text.encode('utf-8'), True)


def well_formed(out, wrapped, src):
    body = out
    m = re.match(r'\s*<!DOCTYPE[^>]*>', out)
    if m:
        body = out[m.end():]
        if not wrapped:
            try:
                parse(out)
            except expat.ExpatError as e:
                raise Violation('the output is not well-formed: %s' % e, source=src, output=out)
    if wrapped:
        body = '<wrap>%s</wrap>' % body
    try:
        parse(body)
    except expat.ExpatError as e:
        raise Violation('the output is not well-formed: %s' % e, source=src, output=out)


def check(case, w, lab):
    src = write_doc(case['doc'])
    root = case['doc']['root']
    small(case['doc'], case['ctx'])
    r = w.call([{'op': 'xml', 'id': 't', 'source': src, 'opts': case['opts']},
                {'op': 'render', 'tpl': 't', 'ctx': case['ctx']}])
    ok(r[0], 'compiling', source=src)
    out = ok(r[1], 'rendering', source=src)
    wrapped = bool(root.get('dirs')) or root.get('strip') is not None
    well_formed(out, wrapped, src)
    c = count(root)
    for k in c:
        lab(k)
    return len(c) >= 3 and any(x in out for x in ('&lt;', '&amp;', '&quot;', '&gt;'))


# --- templates put together -------------------------------------------------

APROF = dict(PROF, w=dict(W, block=0, call=0, innerdef=0), depth=3, funcs=0, sizes=(5, 10, 20))


def body(d, env, depth=3):
    g = HGen(d, APROF)
    g.ctx_env, g.ctxtypes = env, {}
    kids = merge_text(g.kids(Scope(env), depth, 1, 4))
    return [safe_raw(fix_doc(k)) for k in kids]


def gen_assembled(d):
    env, ctx = gen_ctx(d, hostile)
    for n in ('child', 'parent'):        # are templates here
        env.pop(n, None), ctx.pop(n, None)
    dtd = d.choice(DTDS) or ''
    names = ['b1', 'b2', 'b3'][:d.int(1, 3)]

    def write_kids(kids):
        return ''.join(write(k) for k in kids)
    layout = dtd + '<html>' + write_kids(body(d, env))
    for n in names:
        layout += '<div><py:block name="%s">%s</py:block></div>' % (n, write_kids(body(d, env)))
        if d.bool(50):
            layout += '<py:include href="inc.xml"/>'
    layout += '<py:def function="lf(z)"><i title="${z}">${z}</i></py:def></html>'
    inc = (d.choice(DTDS) or '') + '<p class="$s0">%s</p>' % write_kids(body(d, env))
    lib = '<r><py:def function="mk(v, k=1)"><u x="${v}${k}">${v}%s</u></py:def></r>' % \
        write_kids(body(d, env, 2))
    mids = ''
    chain = ['layout.xml']
    files = {'layout.xml': layout, 'inc.xml': inc, 'lib.xml': lib}
    for lev in range(d.int(1, 2)):
        t = '<py:extends href="%s">\n' % chain[-1]
        for n in d.subset(names, 60):
            kids = write_kids(body(d, env))
            extra = d.subset(('${parent_block()}', '<py:include href="inc.xml"/>',
                              '<py:import href="lib.xml" alias="lb"/>${lb.mk(s1)}',
                              '<b z="${lf(s0)}">${lf(s0)}</b>'), 40)
            t += '<py:block name="%s">%s%s</py:block>\n' % (n, kids, ''.join(extra))
        t += '</py:extends>'
        chain.append('c%d.xml' % lev)
        files[chain[-1]] = t
    return {'files': files, 'main': chain[-1], 'ctx': ctx,
            'opts': {'cdata_scripts': d.bool(70), 'strip_text': d.bool(20), 'force_mode': 'xml'}}


def check_assembled(case, w, lab):
    steps = [{'op': 'write', 'path': 't/' + n, 'text': t} for n, t in sorted(case['files'].items())]
    steps += [{'op': 'fileloader', 'id': 'l', 'path': 't', 'opts': case['opts']},
              {'op': 'load', 'loader': 'l', 'name': case['main'], 'id': 't'},
              {'op': 'render', 'tpl': 't', 'ctx': case['ctx']}]
    r = w.call(steps)
    ok(r[-2], 'loading', files=case['files'])
    out = ok(r[-1], 'rendering', files=case['files'])
    well_formed(out, False, case['files'])
    for x in ('parent_block', 'py:include', 'py:import', '<![CDATA[', '<script'):
        if any(x in t for t in case['files'].values()):
            lab(x)
    return any(x in out for x in ('&lt;', '&amp;', '&quot;', '&gt;'))


ASSUMPTIONS = ['values contain only characters XML allows',
               'py:attrs does not repeat a static attribute, and no expression value ends in "]]" '
               'right before ">" inside CDATA (known findings)']
SCENARIOS = [
    Scenario('single', check, gen, n=4500,
             rule='templates of every construct and option with hostile static text and values; '
                  'non-trivial: three or more kinds of nodes and something escaped in the output'),
    Scenario('assembled', check_assembled, gen_assembled, n=900,
             rule='layouts with blocks, children, includes and imports through a file loader; '
                  'non-trivial: something escaped in the output'),
]
