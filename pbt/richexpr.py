"""Python expressions that look as unlike their end as possible.

Valid in Python 3.9 and 3.12 with the same value, never failing, over the
context of exprs.gen_ctx.
"""
from gen import HOSTILE_WORDS

SCARY = ('}', '{', '${x}', '}}', '{{', '$', '$$', '%}', '{%', '#', '<', '>', '&', '"', "'", ']', '[',
         '(', ')', ':', ';', 'a', 'b', ' ', '\\', '&amp;', '<b>', '?>', '-->', '\xe9', '\u4e2d',
         '\x85', '\u2028',
         '%', '=', '!', '@', '%end', 'if', '`', ',', '.', '/', '*', '|', '~')


def content(d, hi=4):
    return ''.join(d.choice(SCARY) for _ in range(d.int(0, hi)))


def string(d, multi, hi=4, fmt=True):
    """A string literal."""
    k = d.weighted((('plain', 6), ('triple', 3), ('raw', 2), ('u', 1), ('concat', 1),
                    ('f', 3 if fmt else 0), ('escapes', 1)))
    s = content(d, hi)
    if k == 'concat':
        return string(d, multi, 2, fmt) + d.choice((' ', '  ')) + string(d, multi, 2, fmt)
    if k == 'escapes':
        q = d.choice('\'"')
        return q + d.choice(('\\}', '\\x7d', '\\u007b', '\\n', '\\\\', '\\' + q, '\\t')) + q
    if k == 'triple':
        q = d.choice(("'''", '"""'))
        s = s.replace('\\', '').replace(q[0], "'" if q[0] == '"' else '"')
        if multi and d.bool(50):
            s += '\n' + content(d, 2).replace('\\', '').replace(q[0], '')
        return q + s + q
    if k == 'raw':
        q = d.choice('\'"')
        s = s.replace(q, '').rstrip('\\').replace('\\', '\\}')
        return d.choice(('r', 'R')) + q + s + q
    if k == 'f':
        q, o = d.choice((('"', "'"), ("'", '"'), ('"""', "'"), ("'''", '"')))
        body = ''
        for _ in range(d.int(1, 3)):
            t = d.choice(('text', 'brace', 'name', 'spec', 'conv', 'dict', 'call'))
            if t == 'text':
                body += content(d, 2).replace('\\', '').replace(q[0], '').replace(
                    '{', '{{').replace('}', '}}')
            elif t == 'brace':
                body += d.choice(('{{', '}}', '{{}}'))
            elif t == 'name':
                body += '{%s}' % d.choice(('i0', 's0', 'o0.name', 'i0 + 1'))
            elif t == 'spec':
                body += '{i0:%s}' % d.choice(('>3', '05d', '{i1 % 3 + 4}d', 'x'))
            elif t == 'conv':
                body += '{i0!r}'
            elif t == 'dict':
                body += '{ {%s1%s: i0}[%s1%s] }' % (o, o, o, o)
            else:
                body += '{len(%s%s%s)}' % (o, content(d, 2).replace('\\', '').replace(
                    q[0], '').replace(o, '').replace('#', '').replace('{', '').replace('}', ''), o)
        return d.choice(('f', 'F')) + q + body + q
    if k == 'u':
        q = d.choice('\'"')
        return 'u' + q + s.replace('\\', '\\\\').replace(q, '\\' + q) + q
    q = d.choice('\'"')
    return q + s.replace('\\', '\\\\').replace(q, '\\' + q) + q


def gap(d, multi):
    """White space allowed inside brackets."""
    if multi and d.bool(35):
        return d.choice(('\n', '\n   ', ' # note\n', ' # } ${ \' "\n', '\n\n', '\t', '#{\n'))
    return d.choice(('', '', ' '))


def rich(d, depth, multi):
    def sub():
        return '(%s)' % rich(d, depth - 1, multi)

    def s(hi=3):
        return string(d, multi, hi)

    def g():
        return gap(d, multi)
    if depth <= 0:
        return d.choice((lambda: 'i0', lambda: 's0', lambda: s(), lambda: 'o0.name',
                         lambda: str(d.int(0, 99)), lambda: "d0['a']", lambda: 'l0[:2]',
                         lambda: '0x1f', lambda: '1_000', lambda: '{}', lambda: '[]',
                         lambda: '()', lambda: 'None is None', lambda: '1e3', lambda: 'b0'))()
    forms = (
        lambda: s(5),
        lambda: '{%s%s: %s}' % (g(), s(), sub()),
        lambda: '{%s: 1, %s**d0}[%s]' % ("'}'", g(), "'}'"),
        lambda: '[%s%s,%s%s]' % (g(), sub(), g(), sub()),
        lambda: '[x for x in l0 if x %s %d]' % (d.choice(('<', '>', '<=', '>=', '!=', '==')),
                                                d.int(0, 3)),
        lambda: '{x: %s for x in range(2)}' % s(),
        lambda: 'len({1,%s 2})' % g(),
        lambda: '(lambda x: {%s: x})(%s)[%s]' % ("'}'", sub(), "'}'"),
        lambda: '%s if %s else %s' % (sub(), sub(), sub()),
        lambda: '%s and %s or %s' % (sub(), sub(), sub()),
        lambda: 'not %s' % sub(),
        lambda: '%d %s %d %s %d' % (d.int(0, 9), d.choice(('<', '>', '<=', '!=')), d.int(0, 9),
                                    d.choice(('<', '>=', '==')), d.int(0, 9)),
        lambda: '%s + %s' % (s(), s()),
        lambda: "'%%s}' %% (%s%s,)" % (g(), sub()),
        lambda: "'{0}{{}}{x}'.format(%s, x=%s)" % (sub(), sub()),
        lambda: 's0[%s:%s]' % (d.choice(('', '1')), d.choice(('', '-1', '3'))),
        lambda: 'str(%s%s)[%s]' % (g(), sub(), d.choice(('0:', ':5', '::2'))),
        lambda: '(%s%s%s)' % (g(), sub(), g()),
        lambda: 'i0 %s %d' % (d.choice(('<<', '&', '|', '^', '*', '-')), d.int(0, 5)),
        lambda: '-i0 ** 2 + ~i1',
        lambda: '%s, %s' % (sub(), sub()),
        lambda: '%s,' % sub(),
        lambda: '[*l0, *{}, %s]' % sub(),
        lambda: 'sum(%s%sx for x in l0)' % (g(), '' if multi else ''),
        lambda: 'sorted({%s, %s}, key=lambda q: str(q))' % (d.choice(("'}'", "'{'")), "'$'"),
        lambda: 'dict(a=%s,%s b={})' % (sub(), g()),
        lambda: '%s in %s' % (s(1), s(4)),
        lambda: 'lambda_ok if defined("lambda_ok") else %s' % sub(),
        lambda: 'd0.get(%s, %s)' % (s(2), sub()),
        lambda: '%s.replace(%s, %s)' % (s(), "'}'", s(1)),
        lambda: '[(x, {x: [x]}) for x in (1, 2)][0][1][1]',
        lambda: '{%s for q in (1,)}' % d.choice(("'}'", '"{"', "'$'")),
        lambda: '(y + %d for y in l0).__class__.__name__' % d.int(0, 3),
        lambda: "'''}''' '{' \"${\"",
        lambda: 'None',
        lambda: '(i0)(  )' if False else 'bool(  )',
        lambda: 'i0.__class__.__name__',
        lambda: '[[[[{1: {2: {3: 4}}}]]]][0][0][0][0][1][2][3]',
    )
    return d.choice(forms)()


def expression(d, multi=True, depth=None):
    """The text between ${ and }."""
    depth = d.int(0, 3) if depth is None else depth
    e = rich(d, depth, multi)
    return (d.choice(('', '', ' ', '\n', '  \n ', '\t') if multi else ('', '', ' ')) + e +
            d.choice(('', '', ' ', '\n', ' # end }\n') if multi else ('', '', ' ')))
