"""Text templates: plain text, escapes and the white space around tags."""
import re

from core import Scenario, Skip, Violation, ok
from exprs import gen_ctx
from gen import plain
from textgen import TGen, WORDS
from textmodel import TooBig, run, text_of, walk, write
from values import decode
from xmlmodel import show

PROF = {'w': {'text': 10, 'expr': 2, 'if': 4, 'for': 3, 'switch': 2}, 'depth': 2,
        'words': WORDS, 'uni': 2, 'sizes': (6, 12, 20)}


def show_plain(v):
    return show(v, False)


def gen(d):
    env, ctx = gen_ctx(d, plain)
    g = TGen(d, PROF, env)
    return {'nodes': g.template(), 'ctx': ctx, 'trim': d.bool(30), 'crlf': d.bool(15), 'auto': d.bool(20)}


def check(case, w, lab):
    nl = '\r\n' if case['crlf'] else '\n'
    src = write(case['nodes'], case['trim'], nl)
    try:
        want = run(case['nodes'], decode(case['ctx']), lambda v: show(v, case['auto']),
                   nl=nl)
    except TooBig:
        return False
    r = w.call([{'op': 'text', 'id': 't', 'source': src, 'opts': {'autoescape': case['auto']}},
                {'op': 'render', 'tpl': 't', 'ctx': case['ctx']}])
    ok(r[0], 'compiling', source=src)
    got = ok(r[1], 'rendering', source=src, expected=want)
    if got != want:
        raise Violation('the text differs from what the white space rules say', source=src,
                        expected=want, got=got)
    kinds = set()
    esc = False
    for n in walk(case['nodes']):
        for f in n.get('f', ()):
            kinds.add(f[0] + ('-' if f[3] is not None else ''))
        if n['t'] == 's':
            esc = esc or any(a[0] != 't' or set(a[1]) & set('$\\%') for a in n['a'])
    for k in kinds:
        lab(k)
    return bool(kinds) and esc


# --- text without directives --------------------------------------------------

def gen_raw(d):
    s = ''.join(d.weighted(((d.choice(WORDS), 8), (d.unitext(1, 3), 1)))
                for _ in range(d.int(0, 12)))
    # no directives and no expressions
    s = re.sub(r'\{%', '{ %', s)
    s = re.sub(r'(?m)^(\s*%)(?=[^\W\d_])', r'\1.', s)
    s = re.sub(r'\$', '$$$$', s)
    if d.bool(20):
        s = s.replace('a', d.choice('ab') * d.choice((50, 400, 3000)))
    if d.bool(20):
        s = s * d.int(2, 30)
    s = re.sub(r'(\\+)$', '', s)
    return {'src': fix(s)}


def fix(s):
    """Repetition may have made new directives or unpaired things."""
    s = re.sub(r'(?m)^(\s*%)(?=[^\W\d_])', r'\1.', s)
    s = re.sub(r'\{%', '{ %', s)
    return re.sub(r'\\(?=\$)', '', s)


def plain_meaning(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '$':
                raise Skip('a backslash directly before "$"')
            if s[i + 1:i + 3] == '\r\n':
                i += 1
            elif s[i + 1] != '\n':
                out.append(s[i + 1])
            i += 2
        elif s[i] == '$':
            if s[i + 1:i + 2] != '$':
                raise Skip('a backslash before "$"')
            out.append('$')
            i += 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def check_raw(case, w, lab):
    src = case['src']
    want = plain_meaning(src)
    r = w.call([{'op': 'text', 'id': 't', 'source': src, 'opts': {}},
                {'op': 'render', 'tpl': 't', 'ctx': {}}])
    ok(r[0], 'compiling', source=src)
    got = ok(r[1], 'rendering', source=src)
    if got != want:
        raise Violation('plain text was not reproduced', source=src, expected=want, got=got)
    return len(set(src)) > 3


ASSUMPTIONS = ['blank lines directly before a "%" line or a "{%-" tag, a backslash directly '
               'before "$" or a tag, and "%}" inside a tag are not generated',
               'white space between %switch and the first %case is not output']
SCENARIOS = [
    Scenario('layout', check, gen, n=4000,
             rule='templates with line, brace, "{%-" and "-%}" tags in hostile text; non-trivial: '
                  'has a tag and an escape or special character'),
    Scenario('raw', check_raw, gen_raw, n=3000,
             rule='text without directives; non-trivial: more than 3 different characters'),
]
