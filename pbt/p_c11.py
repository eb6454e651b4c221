"""Expressions: where they end and what they evaluate to."""
import re
import warnings

from core import Scenario, Violation, ok
from exprs import gen_ctx
from gen import HOSTILE, plain
from richexpr import expression
from values import decode
from xmlgen import fix_parts, merge_text
from xmlmodel import Flat, compiled, run_model, show, write_doc

warnings.simplefilter('ignore')
AROUND = ('}', '{', '}}', '{{', '"', "'", '#', '(', ')', '[', ']', 'a', ' ', '\n', '<', '&', '>', ':',
          '$ ', '${', '$$', '.', ',', '%', '=', ';', '!', '{x}', '()', '[0]', '.name', '0', 'x',
          '\xe9', '\\')


def surround(d):
    s = ''.join(d.choice(AROUND) for _ in range(d.int(0, 3)))
    return re.sub(r'\$(?! )', '', s)


def long(d, e, multi):
    """The same value from a long expression."""
    pad = d.choice(('i0', "'}'", "{'{': '}'}", 'i0 < 3'))
    sep = d.choice((', ', ',\n  ')) if multi else ', '
    many = sep.join([pad] * d.int(50, 900))
    return d.choice(('[%s, (%s)][-1]', '({\'x\': [%s], \'y\': (%s)}[\'y\'])')) % (many, e)


def parts(d, multi, hi=4):
    out = []
    for _ in range(d.int(1, hi)):
        k = d.weighted((('e', 6), ('s', 4), ('n', 3), ('$', 1), ('$b', 1)))
        if k == 'e':
            e = expression(d, multi)
            if d.bool(2):
                e = long(d, e, multi)
            out.append(['e', e])
        elif k == 's':
            out.append(['s', surround(d)])
        elif k == 'n':
            out.append(['n', d.choice(('i0', 's0', 'o0.name', 'o0.n', 'o0', 'o0.sub.name',
                                       'o0.sub.sub.n', 'I_9', 'l0', 'd0', 'a0', '_u', 'a1b',
                                       'n2_x3Y', '_9_', 'Zz0z', 'a1b.n2_x3Y', 'O1.Zz0z.a1b',
                                       'O1._u', 'x', 'O1.n2'))])
            if d.bool(25):
                out.append(['s', d.choice(('.', '. ', '...', '.5', '.\n', '.)', '..a', '.-', '.<'))])
        elif k == '$':
            out.append(['$'])
        else:
            out += [['$'], ['s', '{i0}']]
    return fix_parts([p for p in out if p[-1]])


def context(d):
    env, ctx = gen_ctx(d, plain)
    ctx['I_9'] = 'upper'
    ctx['_u'] = 'under'
    ctx.update(n2_x3Y='N2', _9_=9, Zz0z='zz', x='X')
    ctx['a1b'] = {'!': 'obj', 'v': 'A', 'attrs': {'n2_x3Y': d.int(0, 9)}}
    ctx['O1'] = {'!': 'obj', 'v': 'O', 'attrs': {'_u': 'u', 'n2': 2, 'Zz0z': {
        '!': 'obj', 'v': 'Z', 'attrs': {'a1b': 'deep'}}}}
    ctx['o0']['attrs']['sub'] = {'!': 'obj', 'v': 'S', 'attrs': {
        'name': plain(d), 'sub': {'!': 'obj', 'v': 'SS', 'attrs': {'n': d.int(0, 9)}}}}
    return ctx


def raw_ok(ps):
    from xmlmodel import write_parts
    return ']]>' not in write_parts(ps, raw=True)


def gen_xml(d):
    kids = []
    for _ in range(d.count(1, 3)):
        k = d.weighted((('text', 5), ('attr', 4), ('cdata', 1), ('script', 2), ('both', 1)))
        if k == 'text':
            kids.append({'t': 'text', 'p': parts(d, True)})
        elif k == 'attr':
            kids.append({'t': 'el', 'tag': 'i', 'attrs': [[a, parts(d, False, 3)] for a in (
                'alt', 'title')[:d.int(1, 2)]], 'kids': [], 'sty': {'q': d.choice('"\'')}})
        elif k == 'both':
            kids.append({'t': 'el', 'tag': 'i', 'attrs': [['id', parts(d, False, 2)]],
                         'kids': [{'t': 'text', 'p': parts(d, True, 3)}]})
        else:
            p = parts(d, True)
            for q in p:
                if q[0] == 's':
                    q[1] = q[1].replace(']', ')')
            if not raw_ok(p):
                continue
            if k == 'cdata':
                kids.append({'t': 'cdata', 'p': p})
            else:
                kids.append({'t': 'el', 'tag': 'script', 'attrs': [],
                             'kids': [{'t': 'text', 'p': p}]})
    if not kids:
        kids = [{'t': 'text', 'p': [['e', 'i0']]}]
    return {'doc': {'root': {'t': 'el', 'tag': 'r', 'attrs': [], 'kids': merge_text(kids)}},
            'ctx': context(d)}


def expressions(n):
    out = []
    for p in list(n.get('p', ())) + [q for _, ps in n.get('attrs', ()) for q in ps]:
        if p[0] in 'en':
            out.append(p[1])
    for k in n.get('kids', ()):
        out += expressions(k)
    return out


def hard(e):
    return bool(re.search(r'[{}#\'"<>\n$]', e))


def check_xml(case, w, lab):
    src = write_doc(case['doc'])
    want = run_model(case['doc'], case['ctx'])
    r = w.call([{'op': 'xml', 'id': 't', 'source': src, 'opts': {}},
                {'op': 'render', 'tpl': 't', 'ctx': case['ctx']}])
    ok(r[0], 'compiling', source=src)
    got = ok(r[1], 'rendering', source=src)
    if got != want:
        raise Violation('an expression was not delimited or evaluated as Python does',
                        source=src, expected=want, got=got)
    es = expressions(case['doc']['root'])
    lab('%d expressions' % min(len(es), 5))
    return any(hard(e) for e in es)


# --- text templates -----------------------------------------------------------

def gen_text(d):
    ps = []
    for p in parts(d, True, 6):
        if p[0] == 's':
            # directives and escapes are another property
            s = p[1].replace('\\', '').replace('%', '')
            s = re.sub(r'\$(?=\s)', '', s)
            if s:
                ps.append(['s', s])
        else:
            ps.append(p)
    ps = fix_parts(ps)
    for i, p in enumerate(ps):
        if p[0] == 's':
            p[1] = p[1].replace('$', '')
    ps = fix_parts([p for p in ps if p[-1]])
    return {'p': ps, 'ctx': context(d), 'auto': d.bool(30)}


def check_text(case, w, lab):
    src = ''
    vals = decode(case['ctx'], Flat)
    vals['defined'] = lambda n: n in vals
    want = ''
    es = []
    for p in case['p']:
        if p[0] == 's':
            src += p[1]
            want += p[1]
        elif p[0] == '$':
            src += '$$'
            want += '$'
        else:
            src += '${%s}' % p[1] if p[0] == 'e' else '$' + p[1]
            v = eval(compiled(p[1]), dict(vals))
            want += show(v, case['auto'])
            es.append(p[1])
    r = w.call([{'op': 'text', 'id': 't', 'source': src, 'opts': {'autoescape': case['auto']}},
                {'op': 'render', 'tpl': 't', 'ctx': case['ctx']}])
    ok(r[0], 'compiling', source=src)
    got = ok(r[1], 'rendering', source=src)
    if got != want:
        raise Violation('an expression was not delimited or evaluated as Python does',
                        source=src, expected=want, got=got)
    return any(hard(e) for e in es)


ASSUMPTIONS = ['expressions that span lines do so inside brackets or strings, as Python wants',
               'in attributes, line breaks are not used inside expressions (XML turns them into '
               'blanks)']
SCENARIOS = [
    Scenario('xml', check_xml, gen_xml, n=4000,
             rule='expressions full of braces, quotes, comments and comparisons in text, '
                  'attributes, CDATA and scripts; non-trivial: an expression with such a '
                  'character'),
    Scenario('text', check_text, gen_text, n=3000, rule='the same in text templates'),
]
