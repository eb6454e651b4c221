"""Whitespace: preserved by default, stripped from runs of text when asked."""
import re

from core import Scenario, Violation, ok
from xmlgen import TAGS, fix_doc, gen_doc
from xmlmodel import RAW, run_model, write_doc

PROF = {'w': {'text': 9, 'el': 6, 'if': 2, 'ifelse': 1, 'for': 2, 'switch': 2, 'with': 1, 'call': 1,
              'innerdef': 1, 'replace': 1, 'block': 1, 'comment': 2, 'cdata': 2, 'py': 1,
              'script': 2, 'nop': 1}, 'depth': 3, 'funcs': 2, 'attrs': 30, 'pattrs': 8,
        'content': 8, 'strip': 10, 'no_attr_calls': True, 'pe': 3, 'pr': 1, 'combo': 8, 'calls': 30, 'sizes': (6, 12, 25),
        'tags': TAGS + ('pre', 'textarea', 'code', 'title', 'option', 'button', 'svg:text', 'PRE')}
WS = ('', '', ' ', '  ', '\n', '\n   ', '\t', ' \n\n ', '\n\t ')
WORDS = ('a', 'b  c', 'two\nlines', 'x\t\ty', 'p \n q', '5 > 3', '\xe9', 'a\xa0b', '1 & 2',
         'z\u2003z', '-', 'tab\t.', 'a\xa0\xa0b')


def norm(s):
    """Elements without content have two spellings."""
    s = re.sub(r'<([\w:.-]+)((?:\s[^<>]*)?)></\1>', r'<\1\2/>', s)
    # what a function rendered, shown in an attribute
    return re.sub(r'&((?:amp;)*)lt;([\w:.-]+)((?:(?!lt;).)*?)&\1gt;&\1lt;/\2&\1gt;',
                  r'&\1lt;\2\3/&\1gt;', s, flags=re.S)


def runs(n, out=None):
    out = [] if out is None else out
    if n['t'] in ('text', 'cdata'):
        out.append(n)
    for k in n.get('kids', ()):
        # only whitespace may stand between the cases of a switch
        if n['t'] != 'switch' or k['t'] != 'text':
            runs(k, out)
    return out


def layout(d, root):
    """Fill the text with whitespace; only plain blanks stand at the edges."""
    for n in runs(root):
        for p in n['p']:
            if p[0] == 's':
                p[1] = d.choice(WS) + d.choice(WORDS) * d.bool(75) + d.choice(WS)
                if d.bool(1):
                    p[1] = p[1].strip() * d.bool(50) + d.choice((' ', '\n', ' \n')) * d.choice((40, 150, 700))
                if d.bool(1):
                    p[1] += 'long' * d.choice((300, 1100, 2500)) + d.choice(WS + WORDS)
            elif p[0] == 'r' and not p[2].strip():
                p[:] = ['s', 'a' + p[2] + 'b']
        n['p'] = [p for p in n['p'] if p[0] != 's' or p[1]]


def spread(d, n):
    """Put whitespace between the children of elements."""
    kids = n.get('kids')
    if not kids:
        return
    for k in kids:
        spread(d, k)
    if n['t'] == 'switch' or n.get('tag') in RAW:
        return
    for i in range(len(kids), -1, -1):
        if i < len(kids) and (kids[i].get('d') == 'else' or 'else' in (
                kids[i].get('dirs') or {})):
            continue
        if d.bool(30):
            kids.insert(i, {'t': 'text', 'p': [['s', d.choice(WS[2:])]]})


def gen(d):
    case = gen_doc(d, PROF)
    root = case['doc']['root']
    layout(d, root)
    spread(d, root)
    fix_doc(root)
    fix_names(root)
    case['mode'] = d.choice(('xml', 'xml', 'html'))
    case['strip'] = d.bool(60)
    case['cdata_scripts'] = d.bool(80)
    case['via'] = d.choice(('xml', 'xml', 'file', 'load'))
    case['explicit'] = d.bool(50)
    return case


def fix_names(root):
    from xmlgen import fix_parts
    for n in runs(root):
        n['p'] = fix_parts(n['p'])


def check(case, w, lab):
    doc, mode = case['doc'], case['mode']
    src = write_doc(doc)
    want = run_model(doc, case['ctx'], mode=mode, strip_text=case['strip'],
                     cdata_scripts=case['cdata_scripts'])
    opts = {'cdata_scripts': case['cdata_scripts']}
    st = {}
    if case['strip'] or case['explicit']:
        st['strip_text'] = case['strip']
    if case['via'] == 'xml':
        steps = [{'op': 'xml', 'id': 't', 'source': src, 'opts': dict(opts, mode=mode, **st)}]
    else:
        name = 't.' + mode
        steps = [{'op': 'write', 'path': 'd/' + name, 'text': src}]
        kw = {}
        if case['via'] == 'file':
            opts.update(st)
        else:
            kw = st
        steps += [{'op': 'fileloader', 'id': 'L', 'path': 'd', 'opts': opts},
                  {'op': 'load', 'loader': 'L', 'name': name, 'id': 't', 'kw': kw}]
    steps.append({'op': 'render', 'tpl': 't', 'ctx': case['ctx']})
    r = w.call(steps)
    for x in r:
        got = ok(x, 'a step', source=src)
    a, b = (norm(got), norm(want)) if case['strip'] else (got, want)
    if a != b:
        raise Violation('whitespace is not as it should be (strip_text %s)' % case['strip'],
                        source=src, expected=want, got=got)
    lab('strip' if case['strip'] else 'keep')
    return any(p[0] == 's' and p[1].strip() != p[1] for n in runs(doc['root']) for p in n['p'])


# --- the statement itself: stripping the source gives the same -----------------------------

def gen_meta(d):
    case = gen(d)
    return {'doc': case['doc'], 'ctx': case['ctx'], 'mode': case['mode']}


def stripped(n):
    """The document with each run of text stripped."""
    n = dict(n)
    if n['t'] in ('text', 'cdata'):
        ps = [list(p) for p in n['p']]
        while ps and ps[0][0] == 's':
            ps[0][1] = ps[0][1].lstrip()
            if ps[0][1]:
                break
            ps.pop(0)
        while ps and ps[-1][0] == 's':
            ps[-1][1] = ps[-1][1].rstrip()
            if ps[-1][1]:
                break
            ps.pop()
        n['p'] = ps
    if 'kids' in n:
        kids = []
        for k in n['kids']:
            k = stripped(k)
            if k['t'] != 'text' or k['p'] or n.get('tag') in RAW:
                kids.append(k)
        n['kids'] = kids
    return n


def has_empty_raw(n):
    return n.get('tag') in RAW and not any(k['p'] for k in n['kids']) or any(
        has_empty_raw(k) for k in n.get('kids', ()))


def check_meta(case, w, lab):
    src = write_doc(case['doc'])
    other = stripped(case['doc']['root'])
    if has_empty_raw(other):
        return False
    alt = write_doc(dict(case['doc'], root=other))
    r = w.call([{'op': 'xml', 'id': 't', 'source': src,
                 'opts': {'strip_text': True, 'mode': case['mode']}},
                {'op': 'render', 'tpl': 't', 'ctx': case['ctx']},
                {'op': 'xml', 'id': 'u', 'source': alt, 'opts': {'mode': case['mode']}},
                {'op': 'render', 'tpl': 'u', 'ctx': case['ctx']}])
    for x in r:
        ok(x, 'a step', source=src, stripped=alt)
    if norm(r[1]['v']) != norm(r[3]['v']):
        raise Violation('strip_text differs from stripping the text of the template', source=src,
                        stripped=alt, expected=r[3]['v'], got=r[1]['v'])
    return src != alt


ASSUMPTIONS = ['<a></a> and <a/> are the same',
               'only blanks, tabs and newlines stand at the edges of text']
SCENARIOS = [
    Scenario('model', check, gen, n=3500,
             rule='templates full of whitespace against the model; non-trivial: some text begins '
                  'or ends with whitespace'),
    Scenario('source', check_meta, gen_meta, n=1500,
             rule='stripping by option against stripping the source; non-trivial: the two sources '
                  'differ'),
]
