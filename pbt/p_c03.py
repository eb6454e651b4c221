"""Static templates read back as the document they are."""
import html.entities
import re
from xml.parsers import expat

from core import Scenario, Violation, ok
from gen import HOSTILE, HOSTILE_WORDS
from xmlgen import HTML_TAGS, fix_parts, merge_text
from xmlmodel import write_doc

TAGS = ('p', 'b', 'div', 'a', 'td', 'h1', 'ns:x', 'X-y', 'br', 'img', 'option', 'svg', 'pre',
        'textarea', 'title', 'caf\xe9', '_', '_a', '__b', 'a.b', 'b_', 'pyx', 'py-z', 'A', 'Table', 'table')
MORE_TAGS = HTML_TAGS + ('area base col hr input link meta param iframe noscript embed source track wbr '
                         'xmp plaintext noframes noembed template math code listing').split()
ATTRS = ('title', 'class', 'id', 'href', 'data-x', 'lang', 'Z', 'ns:q', '_u', 'xmlns', 'xml:lang',
         'q', 'checked', 'selected', 'style', 'onclick', 'na\xefve', 'py', 'python', 'a.b', 'Class')
NAMED = sorted(n for n in html.entities.html5 if n.endswith(';') and n not in ('dollar;', 'Tab;', 'NewLine;'))


def reference(d):
    k = d.choice(('named', 'dec', 'hex', 'xml'))
    if k == 'xml':
        n = d.choice(('amp;', 'lt;', 'gt;', 'quot;', 'apos;'))
        return ['r', '&' + n, html.entities.html5[n]]
    if k == 'named':
        n = d.choice(NAMED)
        return ['r', '&' + n, html.entities.html5[n]]
    c = d.choice(HOSTILE + ('\u20ac', '\ufb01', '\U0001d504')).replace('$', 'S')
    if c in '\n\t\r':
        c = '<'
    return ['r', '&#%d;' % ord(c) if k == 'dec' else '&#x%x;' % ord(c), c]


def parts(d, where, hi=4):
    """where: text, attr, cdata or raw (script)."""
    out = []
    for _ in range(d.count(1, hi)):
        k = d.weighted((('s', 6), ('ws', 2), ('r', 0 if where == 'cdata' else 3), ('$', 1),
                        ('uni', 1)))
        if k == '$':
            out.append(['$'])
        elif k == 'r':
            out.append(reference(d))
        elif k == 'uni':
            out.append(['s', d.unitext(1, 6)])
        elif k == 'ws':
            if where == 'attr':
                # white space in attribute values reads as blanks
                w = d.choice((' ', '  ', '\n', '\t', '\n  '))
                out.append(['r', w, re.sub('[\n\t]', ' ', w)])
            else:
                w = d.choice((' ', '  ', '\n', '\t', '\n\n   ', '\r\n', '\n \t', '\xa0', '\u2003'))
                out.append(['r', w, w.replace('\r\n', '\n')])
        elif d.bool(75):
            s = d.text(HOSTILE, 1, 6)
            out.append(['s', s if where != 'attr' else re.sub('[\n\t]', ' ', s)])
        else:
            out.append(['s', d.choice(HOSTILE_WORDS).replace('\r', '')])
    if d.bool(2):
        # many characters, then some more of the above
        out.insert(d.int(0, len(out)), ['s', 'l.ng' * d.choice((300, 1100, 2500))])
        if where != 'attr':
            out.append(['r', '\n  \n', '\n  \n'])
    out = fix_parts([p for p in out if p[-1]])
    if d.bool(10) and where != 'cdata':
        out.append(['r', '$', '$'])     # a dollar at the very end
    if where in ('cdata', 'raw'):
        for p in out:
            if p[0] == 's':
                p[1] = (p[1].replace(']]', ')') if where == 'cdata' else p[1]).replace('\r', '')
        out = fix_parts([p for p in out if p[-1]])
        if where == 'cdata':
            from xmlmodel import write_parts
            if ']]>' in write_parts(out, raw=True):
                out = [['s', 'x']]
    return out


class S(object):
    def __init__(self, d):
        self.d = d
        self.left = d.choice((6, 15, 40, 90))

    def kids(self, depth, lo=0, hi=4):
        d = self.d
        out = []
        for _ in range(d.count(lo, hi)):
            if self.left <= 0:
                break
            self.left -= 1
            k = d.weighted((('text', 6), ('el', 6 if depth else 0), ('comment', 2), ('cdata', 2),
                            ('script', 1)))
            if k == 'text':
                out.append({'t': 'text', 'p': parts(d, 'text')})
            elif k == 'el':
                out.append(self.el(depth - 1))
            elif k == 'comment':
                s = d.choice(('', '!')) + d.text(('a', ' ', '<', '&', '>', '$', '{', '\n', '-', '!',
                                                  '"', '%', '\xe9', '}', ']'), 0, 6)
                while '--' in s:
                    s = s.replace('--', '-')
                out.append({'t': 'comment', 's': s.rstrip('-')})
            elif k == 'cdata':
                p = parts(d, 'cdata')
                out.append({'t': 'cdata', 'p': p})
            else:
                out.append({'t': 'el', 'tag': d.choice(('script', 'style')), 'attrs': self.attrs(),
                            'kids': [{'t': 'text', 'p': parts(d, 'raw')}] if d.bool(80) else []})
        out = merge_text(out)
        for n in out:
            if n['t'] == 'text':
                n['p'] = [['$'] if p[:2] == ['r', '$'] and p is not n['p'][-1] else p
                          for p in n['p']]
        return out

    def attrs(self):
        d = self.d
        return [[a, parts(d, 'attr', 3) if d.bool(85) else []]
                for a in d.shuffle(ATTRS)[:d.count(0, 4)]]

    def el(self, depth, tag=None, lo=0, hi=4):
        d = self.d
        n = {'t': 'el', 'tag': tag or d.choice(MORE_TAGS if d.bool(12) else TAGS), 'attrs': self.attrs(), 'kids': []}
        n['kids'] = self.kids(depth, lo, hi)
        sty = {}
        if d.bool(30):
            sty['q'] = "'"
        if d.bool(20):
            sty['sp'] = d.choice(('  ', '\n', '\t', '\r\n'))
        if d.bool(10):
            sty['end'] = d.choice((' ', '\n'))
        if d.bool(40):
            sty['self'] = False
        n['sty'] = sty
        return n


def gen(d):
    s = S(d)
    root = s.el(5, d.choice(('root', 'html', 'p')), 2, 7)
    for _ in range(d.choice((0, 0, 0, 0, 30, 120))):
        root = {'t': 'el', 'tag': 'div', 'attrs': [], 'kids': [root]}
    dtd = d.choice((None, None, '<!DOCTYPE html>', '<!DOCTYPE root SYSTEM "x.dtd">'))
    return {'doc': {'root': root, 'dtd': dtd}, 'opts': {'mode': 'xml', 'cdata_scripts': d.bool(60)},
            'decl': d.choice(('', '', '', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n')),
            'loader': d.bool(15)}


def plain(ps):
    return ''.join('$' if p[0] == '$' else p[-1] for p in ps)


def events(n, out, wrap):
    t = n['t']
    if t == 'text':
        out.append(['text', plain(n['p'])])
    elif t == 'cdata':
        out.append(['cdata', plain(n['p'])])
    elif t == 'comment':
        if not n['s'].startswith('!'):
            out.append(['comment', n['s']])
    else:
        out.append(['start', n['tag'], sorted([a, plain(p)] for a, p in n.get('attrs', ()))])
        if n['tag'] in ('script', 'style'):
            text = ''.join(plain(k['p']) for k in n['kids'])
            if text:
                out.append(['code', text])
        else:
            for k in n['kids']:
                events(k, out, wrap)
        out.append(['end', n['tag']])
    return out


def merge(evs):
    """Adjacent character data is one piece of text."""
    out = []
    for e in evs:
        if e[0] == 'text' and out and out[-1][0] == 'text':
            out[-1] = ['text', out[-1][1] + e[1]]
        elif e[0] != 'text' or e[1]:
            out.append(e)
    return [e for e in out if e[0] != 'text' or e[1]]


def read(text):
    p = expat.ParserCreate('utf-8')
    p.buffer_text = False
    out, cdata, raw, code = [], [0], [0], []

    def start(tag, attrs):
        out.append(['start', tag, sorted([k, v] for k, v in attrs.items())])
        if tag in ('script', 'style'):
            raw[0] = 1
            del code[:]

    def end(tag):
        if tag in ('script', 'style'):
            raw[0] = 0
            t = ''.join(code)
            # the wrapping "/*<![CDATA[*/" leaves empty comments
            if t.startswith('/**/') and t.endswith('/**/') and len(t) >= 8:
                t = t[4:-4]
            if t:
                out.append(['code', t])
        out.append(['end', tag])

    def chars(s):
        if raw[0]:
            code.append(s)
        elif cdata[0]:
            out[-1][1] += s
        else:
            out.append(['text', s])

    def scd():
        cdata[0] = 1
        if not raw[0]:
            out.append(['cdata', ''])

    def ecd():
        cdata[0] = 0
    p.StartElementHandler, p.EndElementHandler = start, end
    p.CharacterDataHandler = chars
    p.CommentHandler = lambda s: out.append(['comment', s])
    p.StartCdataSectionHandler, p.EndCdataSectionHandler = scd, ecd
    try:
        p.Parse(text.encode('utf-8'), True)
    except expat.ExpatError as e:
        raise Violation('the output is not well-formed: %s' % e, output=text)
    return merge(out)


def same(a, b):
    """a: wanted event; comments may gain a blank on each side."""
    if a[0] == 'comment' == b[0]:
        return b[1] in (a[1], ' %s ' % a[1])
    return a == b


def load(case, src):
    if case.get('loader'):
        return [{'op': 'write', 'path': 't/a.xml', 'text': src},
                {'op': 'fileloader', 'id': 'l', 'path': 't',
                 'opts': {'cdata_scripts': case['opts'].get('cdata_scripts', True)}},
                {'op': 'load', 'loader': 'l', 'name': 'a.xml', 'id': 't',
                 'kw': {'mode': 'xml'}}]
    return [{'op': 'xml', 'id': 't', 'source': src, 'opts': case['opts']}]


def check(case, w, lab):
    src = case['decl'] + write_doc(case['doc'])
    r = w.call(load(case, src) + [{'op': 'render', 'tpl': 't', 'ctx': None}])
    for x in r[:-1]:
        ok(x, 'compiling', source=src)
    out = ok(r[-1], 'rendering', source=src)
    want = merge(events(case['doc']['root'], [], case['opts']['cdata_scripts']))
    body = re.sub(r'^\s*<!DOCTYPE[^>]*>', '', out)
    try:
        got = read(body)
    except Violation as v:
        v.details['source'] = src
        raise
    for i in range(max(len(want), len(got))):
        a = want[i] if i < len(want) else ['nothing']
        b = got[i] if i < len(got) else ['nothing']
        if not same(a, b):
            raise Violation('the output is not the document of the template', wanted=a, got=b,
                            source=src, output=out)
    for e in want:
        lab(e[0])
    return len(want) >= 5 and bool(re.search('[&$]', src))


# --- entities ---------------------------------------------------------------

def entity_cases():
    names = NAMED + ['Tab;', 'NewLine;']
    for i in range(0, len(names), 40):
        chunk = names[i:i + 40]
        for where in ('text', 'attr', 'attr1'):
            yield {'names': chunk, 'where': where}


def check_entities(case, w, lab):
    body = []
    for n in case['names']:
        if case['where'] == 'text':
            body.append('<i>[&%s]</i>' % n)
        elif case['where'] == 'attr':
            body.append('<i title="[&%s]"/>' % n)
        else:
            body.append("<i title='[&%s]'/>" % n)
    src = '<r>%s</r>' % ''.join(body)
    r = w.call([{'op': 'xml', 'id': 't', 'source': src, 'opts': {'mode': 'xml'}},
                {'op': 'render', 'tpl': 't', 'ctx': None}])
    ok(r[0], 'compiling', source=src)
    out = ok(r[1], 'rendering', source=src)
    # new lines and tabs in attributes would be normalised by the parser
    norm = re.sub(r'title="([^"]*)"', lambda m: m.group().replace('\n', '&#10;').replace(
        '\t', '&#9;'), out)
    got = []
    for e in read(norm):
        if e[0] == 'start' and e[1] == 'i':
            got.append('')
            if e[2]:
                got[-1] = e[2][0][1]
        elif e[0] == 'text' and got:
            got[-1] += e[1]
    want = ['[%s]' % html.entities.html5[n] for n in case['names']]
    for n, a, b in zip(case['names'], want, got + [None] * len(want)):
        if a != b:
            raise Violation('entity &%s does not denote the character it names' % n, wanted=a,
                            got=b, where=case['where'], output=out)
    lab(case['where'])
    return True


ASSUMPTIONS = ['line breaks and tabs written as character references in attributes, and carriage '
               'returns, are not generated: XML readers normalise them in the output',
               'comments outside the root element are not claimed', 'the entity &dollar; is not '
               'claimed (it may start an expression)']
SCENARIOS = [
    Scenario('tree', check, gen, n=7000,
             rule='static documents with hostile text, references, CDATA, comments and scripts, '
                  'compared node by node; non-trivial: five or more nodes and a reference or '
                  'dollar'),
    Scenario('entities', check_entities, cases=entity_cases, n=0,
             rule='every named entity of HTML 5 in text and in attributes, exhaustively'),
]
