"""Escaping: every substituted value stands between markers; what is between
them in the output must be the value, escaped once (or not at all if trusted)."""
import html
import re

from core import Scenario, Violation, ok
from exprs import gen_any
from gen import hostile
from values import decode, Html, HtmlStr
from xmlmodel import Flat, esc_src

ENTITY = re.compile(r'&(?:amp|lt|gt|quot|apos|#[0-9]+|#[xX][0-9a-fA-F]+);')


def gen_val(d, objs=True):
    k = d.weighted((('str', 8), ('any', 4), ('literal', 2), ('htmlstr', 2),
                    ('html' if objs else 'htmlstr', 2), ('none', 1), ('strform', 1)))
    if k == 'str':
        return hostile(d)
    if k == 'any':
        return gen_any(d)
    if k == 'none':
        return None
    if k == 'html':
        return {'!': 'html', 'html': hostile(d), 'text': 'no' + hostile(d)}
    if k == 'strform':
        return {'!': k, 'v': d.choice(('', 'plain')) or hostile(d), 'text': hostile(d)}
    return {'!': k, 'v': hostile(d)}


class G(object):
    """Builds a template and, in output order, what stands at each marker."""

    def __init__(self, d, text=False, objs=True):
        self.d, self.text, self.objs = d, text, objs
        self.ctx = {}
        self.defs, self.incs = [], []
        self.slots = 0
        self.left = d.choice((4, 8, 14))

    def slot(self):
        self.slots += 1
        return self.slots

    def var(self):
        """A context variable; returns (expression, value)."""
        d = self.d
        n = 'v%d' % len(self.ctx)
        v = gen_val(d, self.objs)
        k = d.weighted((('plain', 8), ('item', 1), ('attr', 1), ('key', 1)))
        if k == 'item':
            self.ctx[n] = [v]
            return n + '[0]', v
        if k == 'attr':
            self.ctx[n] = {'!': 'obj', 'v': '?', 'attrs': {'x': v}}
            return n + '.x', v
        if k == 'key':
            self.ctx[n] = {'k': v}
            return n + "['k']", v
        self.ctx[n] = v
        return n, v

    def expr(self):
        """(expression, trusted or None, text) of something shown."""
        d = self.d
        e, v = self.var()
        val = decode(v, Flat)
        k = d.weighted((('as is', 8), ('literal', 1), ('Markup', 1), ('str', 1), ('list', 1),
                        ('concat', 1), ('cond', 1)))
        if k == 'list' and type(val) is Html:
            return '[%s]' % e, 'u', str([val])
        plain = not isinstance(val, (Flat, Html, HtmlStr)) and val is not None
        if k in ('literal', 'Markup') and type(val) is str:
            return '%s(%s)' % (k, e), 't', val
        if k == 'str' and plain:
            return 'str(%s)' % e, 'u', str(val)
        if k == 'list' and plain:
            return '[%s]' % e, 'u', str([val])
        if k == 'concat' and type(val) is str:
            return "%s + '<&>'" % e, 'u', val + '<&>'
        if k == 'cond':
            e = '(%s if 1 else 0)' % e
        return (e,) + self.kind(val)

    @staticmethod
    def kind(val):
        if val is None:
            return 'n', ''
        if isinstance(val, Flat):
            return 't', val.s
        if isinstance(val, (Html, HtmlStr)):
            return 't', val.__html__()
        return 'u', str(val)

    # A piece is (source, [[slot, where, kind, text], ...]).
    def piece(self, depth):
        d = self.d
        self.left -= 1
        kinds = [('text', 6), ('name', 2)]
        if not self.text:
            kinds += [('attr', 4), ('attrs', 3), ('mixed', 3), ('content', 3), ('replace', 3),
                      ('script', 2), ('cdata', 1), ('stripped', 1)]
        kinds += [('func', 4), ('pass', 2)]
        if depth > 0:
            kinds += [('loop', 3), ('if', 1), ('defbody', 2)]
            if not self.text:
                kinds += [('with', 2), ('block', 2), ('include', 2), ('call', 2), ('switch', 1),
                          ('el', 2)]
        return getattr(self, 'p_' + d.weighted(kinds))(depth - 1)

    def pieces(self, depth, lo=1, hi=3):
        src, want = '', []
        for i in range(self.d.count(lo, hi)):
            if i and self.left <= 0:
                break
            s, x = self.piece(depth)
            src += s
            want += x
        return src, want

    def mark(self, k, inner):
        return 'QS%d-%s-QE%d' % (k, inner, k)

    def ex(self, e):
        s = '${%s}' % e
        return s if self.text else esc_src(s)

    def p_text(self, depth):
        k = self.slot()
        e, t, s = self.expr()
        return self.mark(k, self.ex(e)), [[k, 'mark', t, s]]

    def p_name(self, depth):
        k = self.slot()
        e, v = self.var()
        src = '$' + e if re.match(r'[\w.]+$', e) else self.ex(e)
        t, s = self.kind(decode(v, Flat))
        return self.mark(k, src), [[k, 'mark', t, s]]

    def untrusted(self):
        """For attributes, where only ordinary values are claimed."""
        while True:
            e, t, s = self.expr()
            if t != 't':
                return e, t, s
            self.ctx.popitem()
            if self.d.bool(70):
                n = 'v%d' % len(self.ctx)
                self.ctx[n] = '"<&>' + hostile(self.d)
                return n, 'u', self.ctx[n]

    def p_attr(self, depth):
        k = self.slot()
        e, t, s = self.untrusted()
        q = self.d.choice('"\'')
        return '<i data-q%d=%s%s%s/>' % (k, q, esc_src('${%s}' % e, q), q), [[k, 'attr', t, s]]

    def p_mixed(self, depth):
        k = self.slot()
        e, t, s = self.untrusted()
        return ('<i a="x" %s="%s" z="y">t</i>' % (self.d.choice((
                    'title', 'style', 'onclick', 'href', 'class', 'src', 'content', 'value')),
                    self.mark(k, esc_src('${%s}' % e, '"'))),
                [[k, 'amark', t, s]])

    def p_attrs(self, depth):
        k = self.slot()
        e, t, s = self.untrusted()
        if self.d.bool():
            v = "{'data-q%d': %s}" % (k, e)
        else:
            v = "[('data-q%d', %s)]" % (k, e)
        return '<i py:attrs="%s">t</i>' % esc_src(v, '"'), [[k, 'attr', t, s]]

    def p_content(self, depth):
        k = self.slot()
        e, t, s = self.expr()
        return self.mark(k, '<i py:content="%s">x</i>' % esc_src(e, '"')), [[k, 'in i', t, s]]

    def p_stripped(self, depth):
        k = self.slot()
        e, t, s = self.expr()
        return (self.mark(k, '<i py:strip="True" py:content="%s">x</i>' % esc_src(e, '"')),
                [[k, 'mark', t, s]])

    def p_replace(self, depth):
        k = self.slot()
        e, t, s = self.expr()
        if self.d.bool():
            src = '<i py:replace="%s">x</i>' % esc_src(e, '"')
        else:
            src = '<py:replace value="%s"/>' % esc_src(e, '"')
        return self.mark(k, src), [[k, 'mark', t, s]]

    def p_script(self, depth):
        k = self.slot()
        e, t, s = self.expr()
        tag = self.d.choice(('script', 'style'))
        return '<%s>%s</%s>' % (tag, self.mark(k, self.ex(e)), tag), [[k, 'mark', t, s]]

    def p_cdata(self, depth):
        k = self.slot()
        e, t, s = self.expr()
        return '<![CDATA[%s]]>' % self.mark(k, '${%s}' % e.replace(']]', '] ]')), \
            [[k, 'mark', t, s]]

    def fn(self, params, body):
        n = 'f%d' % (len(self.defs) + 1)
        if self.text:
            self.defs.append('%%def %s(%s)\n%s\n%%end\n' % (n, params, body))
        elif self.d.bool(70):
            self.defs.append('<py:def function="%s(%s)">%s</py:def>' % (n, params, body))
        else:
            self.defs.append('<b py:def="%s(%s)">%s</b>' % (n, params, body))
        return n

    def p_func(self, depth):
        """The value is an argument; the body shows it."""
        k = self.slot()
        e, t, s = self.expr()
        n = self.fn('z', self.mark(k, '${z}'))
        return self.ex('%s(%s)' % (n, e)), [[k, 'mark', t, s]]

    def p_pass(self, depth):
        """The result of a function is shown by another: escaped once in all."""
        k = self.slot()
        e, t, s = self.expr()
        n = self.fn('z', self.mark(k, '${z}'))
        m = self.fn('y', 'x${y}')
        if self.text or self.d.bool():
            return self.ex('%s(%s(%s))' % (m, n, e)), [[k, 'mark', t, s]]
        return '<py:replace value="%s"/>' % esc_src('%s(%s(%s))' % (m, n, e), '"'), \
            [[k, 'mark', t, s]]

    def p_defbody(self, depth):
        src, want = self.pieces(depth)
        n = self.fn('', src)
        r = self.d.int(1, 2)
        return self.ex(n + '()') * r, want * r

    def p_loop(self, depth):
        d = self.d
        n = d.int(0, 3)
        if d.bool(50):
            vals = [gen_val(d, self.objs) for _ in range(n)]
            k = self.slot()
            name = 'v%d' % len(self.ctx)
            self.ctx[name] = vals
            x = d.fresh('x')
            body = self.mark(k, self.ex(x))
            want = [[k, 'mark'] + list(self.kind(decode(v, Flat))) for v in vals]
            head = '%s in %s' % (x, name)
        else:
            body, want = self.pieces(depth)
            want = want * n
            head = '%s in range(%d)' % (d.fresh('x'), n)
        if self.text:
            return '\n%%for %s\n%s\n%%end\n' % (head, body), want
        if d.bool():
            return '<py:for each="%s">%s</py:for>' % (head, body), want
        return '<u py:for="%s">%s</u>' % (head, body), want

    def p_if(self, depth):
        src, want = self.pieces(depth)
        t = self.d.bool(70)
        if self.text:
            return '\n%%if %s\n%s\n%%end\n' % (t, src), want if t else []
        return '<py:if test="%s">%s</py:if>' % (t, src), want if t else []

    def p_el(self, depth):
        src, want = self.pieces(depth)
        return '<div class="c">%s</div>' % src, want

    def p_switch(self, depth):
        a, wa = self.pieces(depth)
        b, wb = self.pieces(depth)
        t = self.d.bool()
        return ('<py:switch test="%d"><py:case value="1">%s</py:case><py:else>%s</py:else>'
                '</py:switch>' % (t, a, b), wa if t else wb)

    def p_with(self, depth):
        k = self.slot()
        e, t, s = self.expr()
        x = self.d.fresh('w')
        src, want = self.pieces(depth)
        return ('<py:with vars="%s=%s">%s%s</py:with>'
                % (x, esc_src(e, '"'), self.mark(k, '${%s}' % x), src), [[k, 'mark', t, s]] + want)

    def p_block(self, depth):
        src, want = self.pieces(depth)
        return '<py:block name="%s">%s</py:block>' % (self.d.fresh('bl'), src), want

    def p_include(self, depth):
        src, want = self.pieces(depth)
        n = 'inc%d.xml' % (len(self.incs) + 1)
        self.incs.append([n, '<s>%s</s>' % src])
        return '<py:include href="%s"/>' % n, want

    def p_call(self, depth):
        k = self.slot()
        e, t, s = self.expr()
        n = self.fn('cb, y', 'x${cb(y)}')
        x = self.d.fresh('c')
        return ('<py:call args="%s" function="%s(%%caller, %s)">%s</py:call>'
                % (x, n, esc_src(e, '"'), self.mark(k, '${%s}' % x)), [[k, 'mark', t, s]])


def gen(d):
    g = G(d)
    src, want = g.pieces(3, 2, 6)
    defs = ''.join(g.defs)
    src = '<root>%s</root>' % (defs + src if d.bool() else src + defs)
    # functions defined while an included template was built belong to both
    incs = [[n, s[:-4] + defs + '</s>'] for n, s in g.incs]
    return {'src': src, 'incs': incs, 'ctx': g.ctx, 'want': want,
            'opts': {'mode': d.choice(('xml', 'xml', 'html', 'html5')),
                     'cdata_scripts': d.bool(75)}}


def judge(out, want, **det):
    """The output carries the wanted values, in order, each at its marker."""
    pos = 0
    for k, where, kind, text in want:
        if where == 'attr':
            a = ' data-q%d="' % k
            i = out.find(a, pos)
            if kind == 'n':
                if i >= 0 and len([x for x in want if x[0] == k and x[2] != 'n']) == 0:
                    raise Violation('an attribute whose value is None was rendered', attr=a, **det)
                continue
            if i < 0:
                raise Violation('attribute %s is missing' % a, output=out, **det)
            i += len(a)
            j = out.find('"', i)
            body = out[i:j]
            if j < 0 or not re.match(r'"(?:\s|/?>)', out[j:j + 3]):
                raise Violation('the value ended its attribute', value=text, output=out, **det)
            pos = j
        else:
            a, b = 'QS%d-' % k, '-QE%d' % k
            i = out.find(a, pos)
            j = out.find(b, i + len(a))
            if i < 0 or j < 0:
                raise Violation('marker %s is missing' % a, output=out, **det)
            body = out[i + len(a):j]
            pos = j
            if where == 'in i':
                if not (body.startswith('<i>') and body.endswith('</i>')):
                    raise Violation('py:content did not leave <i>...</i>', got=body, output=out,
                                    **det)
                body = body[3:-4]
        if kind == 't':
            if body != text:
                raise Violation('a trusted value was changed', value=text, got=body, **det)
            continue
        if kind == 'n':
            if body:
                raise Violation('None rendered as something', got=body, **det)
            continue
        if kind == 'raw':
            if body != text:
                raise Violation('a value was changed without autoescape', value=text, got=body,
                                **det)
            continue
        rest = ENTITY.sub('', body)
        if '<' in rest or '&' in rest or ']]>' in rest or \
                ('"' in rest and where in ('attr', 'amark')):
            raise Violation('a value reached the output unescaped', value=text, got=body,
                            output=out, **det)
        if ENTITY.sub(lambda m: html.unescape(m.group()), body) != text:
            raise Violation('a value was not escaped exactly once', value=text, got=body, **det)


def nontrivial(want):
    return any(k == 'u' and re.search('[<>&"]', s) for _, _, k, s in want)


def check(case, w, lab):
    steps = [{'op': 'xml', 'id': 'main', 'source': case['src'], 'opts': case['opts']}]
    mods = {'main.xml': 'main'}
    for n, s in case['incs']:
        steps.append({'op': 'xml', 'id': n, 'source': s,
                      'opts': dict(case['opts'], is_fragment=True)})
        mods[n] = n
    steps += [{'op': 'mock', 'id': 'l', 'modules': mods},
              {'op': 'render', 'tpl': 'main', 'ctx': case['ctx']}]
    r = w.call(steps)
    for x in r[:-1]:
        ok(x, 'compiling', source=case['src'], included=case['incs'])
    out = ok(r[-1], 'rendering', source=case['src'], included=case['incs'])
    judge(out, case['want'], source=case['src'], included=case['incs'])
    for x in case['want']:
        lab(x[1] + ' ' + x[2])
    return nontrivial(case['want'])


def gen_text(d):
    auto = d.bool(60)
    # without autoescape, __html__ has no say
    g = G(d, True, auto)
    src, want = g.pieces(3, 2, 6)
    src = ''.join(g.defs) + src
    if not auto:
        for x in want:
            if x[2] == 'u':
                x[2] = 'raw'
    return {'src': src, 'ctx': g.ctx, 'want': want, 'auto': auto,
            'loader': d.bool(40)}


def check_text(case, w, lab):
    if case['loader']:
        steps = [{'op': 'write', 'path': 't/a.txt', 'text': case['src']},
                 {'op': 'fileloader', 'id': 'l', 'path': 't',
                  'opts': {'autoescape_text': case['auto']}},
                 {'op': 'load', 'loader': 'l', 'name': 'a.txt', 'id': 't'}]
    else:
        steps = [{'op': 'text', 'id': 't', 'source': case['src'],
                  'opts': {'autoescape': case['auto']}}]
    r = w.call(steps + [{'op': 'render', 'tpl': 't', 'ctx': case['ctx']}])
    for x in r[:-1]:
        ok(x, 'compiling', source=case['src'])
    out = ok(r[-1], 'rendering', source=case['src'])
    judge(out, case['want'], source=case['src'])
    lab('autoescape' if case['auto'] else 'plain')
    return any(k in ('u', 'raw') and re.search('[<>&"]', s) for _, _, k, s in case['want'])


ASSUMPTIONS = ['in attributes only values not marked as trusted are claimed',
               'values contain only characters XML allows']
SCENARIOS = [
    Scenario('xml', check, gen, n=8000,
             rule='values of every kind at marked positions in XML templates; non-trivial: an '
                  'untrusted value with a markup character'),
    Scenario('text', check_text, gen_text, n=3000,
             rule='values in text templates with and without autoescape; non-trivial: a value '
                  'with a markup character'),
]
