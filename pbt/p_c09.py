"""HTML and HTML5 output describe the same tree as XML output."""
import re
from html.parser import HTMLParser
from xml.parsers import expat

from core import Scenario, Violation, ok
from gen import hostile
from xmlgen import HTML_TAGS, count, gen_doc
from xmlmodel import BOOLEAN, VOID, small, write_doc

# HTML 5 knows a few more void elements; kajiki writes them with an end tag,
# which HTML parsers ignore.
MORE_VOID = set('embed source track wbr'.split())


def calm(d):
    return re.sub('[\r\n\t]', ' ', hostile(d))


W = {'text': 6, 'el': 7, 'if': 2, 'ifelse': 2, 'for': 2, 'switch': 1, 'with': 2, 'call': 1,
     'innerdef': 1, 'replace': 1, 'block': 2, 'comment': 1, 'script': 3, 'nop': 1}
TAGS = ('p', 'div', 'span', 'a', 'ul', 'li', 'ns:x', 'X-y', 'table', 'td', 'tr', 'option', 'b',
        'html', 'body', 'head', 'dt', 'thead', 'svg', 'video', 'canvas', 'button', 'h1')
ATTRS = ('title', 'class', 'href', 'data-x', 'ns:q', 'alt', 'checked', 'disabled', 'readonly',
         'multiple', 'selected', 'nohref', 'ismap', 'declare', 'defer', 'value', 'type')
PROF = {'w': W, 'depth': 4, 'combo': 8, 'attrs': 50, 'pattrs': 25, 'strip': 10, 'content': 8,
        'funcs': 2, 'static': 'hostile', 'ctext': calm, 'etext': calm, 'pr': 2, 'pd': 1,
        'tags': TAGS, 'attr_names': ATTRS, 'no_attr_calls': True, 'fold': True}


def adapt(d, n, scripts):
    """Void elements have no content; comments and scripts stay readable."""
    if n['t'] == 'el':
        if n['tag'] in ('script', 'style'):
            for k in n['kids']:
                for p in k['p']:
                    if p[0] == 's':
                        p[1] = p[1].replace('</', '< /').replace('<!--', '<! --').replace(
                            '<', '<' if scripts else '(').replace('&', '&' if scripts else '+')
                        p[1] = p[1].replace('>', '>' if scripts else ')')
                        if scripts and d.bool(15):
                            p[1] += d.choice((']]>', ' a[b[1]]>2', ']]>]]>'))
            if not scripts:
                for k in n['kids']:
                    k['p'] = [p for p in k['p'] if p[0] == 's' and not re.search('[&<>$]', p[1])] \
                        or [['s', 'x']]
        elif not n['kids'] and n.get('content') is None and d.bool(60):
            n['tag'] = d.choice(sorted(VOID))
        elif n['kids'] and n.get('content') is None and d.bool(5) and \
                'def' not in count(n) and n['tag'] not in ('html', 'root') and \
                all(k['t'] == 'comment' for k in n['kids']):
            n['tag'] = 'br'
            n['kids'] = []
    if n['t'] == 'comment':
        n['s'] = re.sub('[^a-z !]', '', n['s'])
    for k in n.get('kids', ()):
        adapt(d, k, scripts)
    return n


def gen(d):
    case = gen_doc(d, PROF)
    scripts = d.bool(80)
    case['opts'] = {'cdata_scripts': scripts}
    if d.bool(15):
        case['opts']['strip_text'] = True
    adapt(d, case['doc']['root'], scripts)
    return case


def norm(s):
    return s.replace('\r\n', '\n').replace('\r', '\n')


class Reader(HTMLParser):
    """Reads HTML as written; complains about tags that do not belong."""

    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.out, self.stack, self.bad = [], [], None

    def fail(self, msg):
        self.bad = self.bad or msg

    def handle_starttag(self, tag, attrs):
        self.out.append(['start', tag, self.attributes(attrs)])
        if tag in VOID:
            self.out.append(['end', tag])
        else:
            self.stack.append(tag)

    def handle_startendtag(self, tag, attrs):
        self.fail('<%s/> is not how HTML is written' % tag)

    def handle_endtag(self, tag):
        if tag in VOID:
            self.fail('</%s>: a void element has no end tag' % tag)
        elif not self.stack or self.stack[-1] != tag:
            self.fail('</%s> does not match <%s>' % (tag, self.stack[-1:] or ''))
        else:
            self.stack.pop()
            self.out.append(['end', tag])

    def attributes(self, attrs):
        out = []
        for k, v in attrs:
            if k in BOOLEAN:
                if v is not None:
                    self.fail('boolean attribute %s is not minimised' % k)
                out.append([k, None])
            else:
                out.append([k, re.sub('[\r\n\t]', ' ', v) if v is not None else None])
        if len(out) != len(set(k for k, _ in out)):
            self.fail('an attribute is repeated')
        return sorted(out, key=lambda x: x[0])

    def handle_data(self, data):
        self.out.append(['text', norm(data)])

    def handle_comment(self, data):
        self.out.append(['comment', data])

    def handle_decl(self, decl):
        pass

    def unknown_decl(self, data):
        self.fail('<![%s' % data)

    def handle_pi(self, data):
        self.fail('<?%s' % data)


def merge(evs):
    out = []
    for e in evs:
        if e[0] == 'text' and out and out[-1][0] == 'text':
            out[-1] = ['text', out[-1][1] + e[1]]
        elif e[0] != 'text' or e[1]:
            out.append(e)
    return out


def read_html(text):
    r = Reader()
    r.feed(text)
    r.close()
    if r.stack:
        r.fail('<%s> has no end tag' % r.stack[-1])
    return merge(r.out), r.bad


def read_xml(text, wrapped):
    out = []
    raw = []

    def start(tag, attrs):
        a = []
        for k, v in attrs.items():
            k = k.lower()
            a.append([k, None if k in BOOLEAN else re.sub('[\r\n\t]', ' ', v)])
        out.append(['start', tag.lower(), sorted(a, key=lambda x: x[0])])
        if tag in ('script', 'style') and wrapped:
            raw.append(len(out))

    def end(tag):
        if tag in ('script', 'style') and raw:
            i = raw.pop()
            t = ''.join(e[1] for e in out[i:])
            if t.startswith('/**/') and t.endswith('/**/') and len(t) >= 8:
                out[i:] = [['text', t[4:-4]]] if t[4:-4] else []
        out.append(['end', tag.lower()])
    p = expat.ParserCreate('utf-8')
    p.StartElementHandler, p.EndElementHandler = start, end
    p.CharacterDataHandler = lambda s: out.append(['text', s])
    p.CommentHandler = lambda s: out.append(['comment', s])
    p.Parse(text.encode('utf-8'), True)
    # functions and stripped roots may leave text around the root
    return merge(out)


def drop_doctype(s):
    return re.sub(r'^\s*<!DOCTYPE[^>]*>\n?', '', s)


def check(case, w, lab):
    small(case['doc'], case['ctx'])
    src = write_doc(case['doc'])
    steps = []
    for m in ('xml', 'html', 'html5'):
        steps += [{'op': 'xml', 'id': m, 'source': src, 'opts': dict(case['opts'], mode=m)},
                  {'op': 'render', 'tpl': m, 'ctx': case['ctx']}]
    r = w.call(steps)
    for x in r:
        ok(x, 'compiling or rendering', source=src)
    x, h, h5 = r[1]['v'], r[3]['v'], r[5]['v']
    try:
        tree = read_xml(x, case['opts']['cdata_scripts'])
    except expat.ExpatError as e:
        raise Violation('the XML output is not well-formed: %s' % e, source=src, output=x)
    for m, text in (('html', h), ('html5', h5)):
        got, bad = read_html(drop_doctype(text))
        if bad:
            raise Violation('%s output: %s' % (m, bad), source=src, output=text)
        compare(tree, got, m, src, text, x)
    c = count(case['doc']['root'])
    for k in c:
        lab(k)
    return len(tree) > 5 and x != drop_doctype(h)


def compare(tree, got, m, src, text, xml):
    for i in range(max(len(tree), len(got))):
        a = tree[i] if i < len(tree) else ['nothing']
        b = got[i] if i < len(got) else ['nothing']
        if a != b:
            raise Violation('%s and XML output describe different documents' % m, xml_has=a,
                            html_has=b, source=src, output=text, xml=xml)


# --- every element, empty or not ----------------------------------------------

SPECIAL = ('iframe', 'noscript', 'textarea', 'title', 'script', 'style')


def tag_cases():
    for tag in HTML_TAGS + sorted(VOID) + sorted(MORE_VOID) + list(SPECIAL):
        for form in ('<%s/>', '<%s></%s>', '<%s a="b"/>', '<%s>x</%s>', '<%s> </%s>',
                     '<%s py:if="True"/>', '<%s py:attrs="{}"/>', '<%s py:strip="False"/>',
                     '<%s py:content="\'x\'"/>', '<%s py:content="None"/>',
                     '<%s><py:if test="False">x</py:if></%s>', '<%s><!-- c --></%s>',
                     '<%s>\n<py:for each="i in ()"/></%s>', '<%s>${None}</%s>', '<%s>$$</%s>',
                     '<%s py:strip="False">\n</%s>', '<%s a="${1}"><py:nop/></%s>'):
            if tag in VOID | MORE_VOID and 'content' in form or \
                    tag in MORE_VOID and re.search('[^>%s]<|/></%s', form):
                continue
            if tag in SPECIAL and re.search(
                    '><(py|!)|<py:', form):
                continue    # only text belongs there
            yield {'tag': tag, 'form': form}


def check_tag(case, w, lab):
    tag, form = case['tag'], case['form']
    el = form.replace('%s', tag)
    src = '<div>1%s2</div>' % el
    steps = []
    for m in ('xml', 'html', 'html5'):
        steps += [{'op': 'xml', 'id': m, 'source': src, 'opts': {'mode': m}},
                  {'op': 'render', 'tpl': m, 'ctx': {}}]
    r = w.call(steps)
    for x in r:
        ok(x, 'compiling or rendering', source=src)
    tree = read_xml(r[1]['v'], True)
    if tag == 'script' and '/>' in r[1]['v']:
        raise Violation('a script element is self-closed', source=src, output=r[1]['v'])
    for i, m in ((3, 'html'), (5, 'html5')):
        out = drop_doctype(r[i]['v'])
        ends = out.count('</%s>' % tag)
        starts = len(re.findall('<%s[ >]' % tag, out))
        want = 0 if tag in VOID else starts
        if ends != want or '/>' in out or starts != 1 + (tag == 'div'):
            raise Violation('<%s> is not written as HTML wants it' % tag, source=src, mode=m,
                            output=out)
        got, bad = read_html(out)
        if bad:
            raise Violation('%s output: %s' % (m, bad), source=src, output=out)
        if tag in VOID and form.endswith('</%s>'):
            continue        # what is inside a void element comes to stand behind it
        compare(tree, got, m, src, out, r[1]['v'])
    lab('void' if tag in VOID else 'other')
    return True


# --- boolean attributes ---------------------------------------------------------

def attr_cases():
    for a in sorted(BOOLEAN):
        for src, there in (
                ('<i %s="%s"/>' % (a, a), True), ('<i %s=""/>' % a, True),
                ('<i %s="${True}"/>' % a, True), ('<i %s="${None}"/>' % a, False),
                ('<i py:attrs="{\'%s\': True}"/>' % a, True),
                ('<i py:attrs="{\'%s\': False}"/>' % a, False),
                ('<i py:attrs="{\'%s\': None}"/>' % a, False),
                ('<i py:attrs="[(\'%s\', \'%s\')]"/>' % (a, a), True),
                ('<input %s="x" id="y" py:attrs="None"/>' % a, True)):
            for m in ('html', 'html5', 'xml'):
                yield {'src': src, 'attr': a, 'there': there, 'mode': m}


def check_attr(case, w, lab):
    r = w.call([{'op': 'xml', 'id': 't', 'source': case['src'], 'opts': {'mode': case['mode']}},
                {'op': 'render', 'tpl': 't', 'ctx': {}}])
    ok(r[0], 'compiling', source=case['src'])
    out = drop_doctype(ok(r[1], 'rendering', source=case['src']))
    a = case['attr']
    if case['mode'] == 'xml':
        there = bool(re.search(' %s="' % a, out))
    else:
        there = bool(re.search(' %s[ >]' % a, out))
        if a + '=' in out:
            raise Violation('a boolean attribute is not minimised', source=case['src'],
                            output=out)
    if there != case['there']:
        raise Violation('boolean attribute %s %s' % (a, 'appears' if there else 'is missing'),
                        source=case['src'], mode=case['mode'], output=out)
    return True


# --- the mode decides, then the doctype -----------------------------------------

DTDS = (
    ('<!DOCTYPE html>', 'html5'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" '
     '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Transitional//EN" '
     '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01//EN" "http://www.w3.org/TR/html4/strict.dtd">',
     'html'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN" '
     '"http://www.w3.org/TR/html4/loose.dtd">', 'html'),
    ('<!DOCTYPE note SYSTEM "note.dtd">', 'xml'))


def gen_modes(d):
    case = gen(d)
    case['dtd'], case['implied'] = d.choice(DTDS)
    case['mode'] = d.choice((None, 'xml', 'html', 'html5'))
    return case


def check_modes(case, w, lab):
    plain = write_doc(case['doc'])
    src = case['dtd'] + '\n' + plain
    opts = dict(case['opts'])
    if case['mode']:
        opts['mode'] = case['mode']
    mode = case['mode'] or case['implied']
    r = w.call([{'op': 'xml', 'id': 'a', 'source': src, 'opts': opts},
                {'op': 'render', 'tpl': 'a', 'ctx': case['ctx']},
                {'op': 'xml', 'id': 'b', 'source': plain, 'opts': dict(case['opts'], mode=mode)},
                {'op': 'render', 'tpl': 'b', 'ctx': case['ctx']}])
    for x in r:
        ok(x, 'compiling or rendering', source=src)
    a, b = drop_doctype(r[1]['v']), drop_doctype(r[3]['v'])
    if a != b:
        raise Violation('the mode does not decide how the document is written', source=src,
                        mode=case['mode'], implied=case['implied'], output=a, expected=b)
    lab(mode)
    return case['mode'] not in (None, case['implied'])


ASSUMPTIONS = ['void elements have no content; CDATA sections are not generated (HTML has none)',
               'elements HTML parsers treat as raw text are script and style only']
SCENARIOS = [
    Scenario('trees', check, gen, n=3000,
             rule='the XML and both HTML renderings, each read by its own parser, give the same '
                  'tree; non-trivial: more than five nodes and the texts differ'),
    Scenario('tags', check_tag, cases=tag_cases, n=0,
             rule='every HTML element in every empty and non-empty form'),
    Scenario('booleans', check_attr, cases=attr_cases, n=0,
             rule='every boolean attribute in every form and mode'),
    Scenario('modes', check_modes, gen_modes, n=900,
             rule='with a doctype and maybe an explicit mode; non-trivial: the explicit mode '
                  'differs from the implied one'),
]
