"""Run-time errors point at the template line that failed.

Every expression of a generated template carries a numbered fuse. A first
rendering tells which fuses are reached; then, one at a time, a fuse is made
to blow at its n-th evaluation, and the traceback is compared with where the
fuse stands in the source.
"""
import ast
import re

import inherit
import parts as parts_
from core import Scenario, Violation, ok
from exprs import gen_ctx
from gen import plain
from textgen import TGen
from textmodel import walk, write
from xmlgen import fix_doc, gen_doc
from xmlmodel import small, write_doc

KINDS = ('ValueError', 'KeyError', 'TypeError', 'Custom', 'AttributeError', 'IndexError',
         'RuntimeError', 'ZeroDivisionError')
DIRECT = (('1 // 0', 'ZeroDivisionError'), ('no_such_name', 'NameError'), ('[][7]', 'IndexError'),
          ("{}['k']", 'KeyError'), ('None.attr', 'AttributeError'), ("int('x')", 'ValueError'),
          ("''()", 'TypeError'))


class Fuser(object):
    """Puts fuses into expressions."""

    def __init__(self, forms):
        self.forms, self.n = forms or [0], 0
        self.direct = {}
        self.height = {}

    def form(self):
        self.n += 1
        return self.forms[(self.n - 1) % len(self.forms)]

    def __call__(self, e, lines=False):
        k = self.form()
        i = self.n
        nl = '\n' * (k // 16 % 4) if lines and k % 3 == 0 else ''
        self.height[i] = len(nl)
        if k % 16 < 8:
            return 'kjf(%d,%s %s)' % (i, nl, e)
        bad, name = DIRECT[k % 16 % len(DIRECT)]
        self.direct[i] = name
        return '(%s if not kjf.q(%d) else%s %s)' % (e, i, nl, bad) if not nl else \
            '[kjf.q(%d) and%s %s, %s][1]' % (i, nl, bad, e)

    def name(self):
        self.form()
        self.height[self.n] = 0
        return 'kjf.a%d' % self.n


def place(src, i):
    """Where a fuse stands."""
    m = list(re.finditer(r'kjf\(%d,|kjf\.q\(%d\)|kjf\.a%d(?!\d)' % (i, i, i), src))
    if len(m) != 1:
        raise AssertionError('fuse %d stands %d times in %r' % (i, len(m), src))
    return m[0].start()


def line_of(src, pos):
    return src.count('\n', 0, pos) + 1


def verify(results, where, names, plan, fuser, details):
    """where(i) gives (file name, first line, last line)."""
    good = False
    for i, n, r in results:
        d = dict(details, fuse=i, occurrence=n)
        if 'exc' not in r:
            raise Violation('an exception raised in the template does not reach the caller', **d)
        e = r['exc']
        if i in fuser.direct:
            if e['type'] != fuser.direct[i]:
                raise Violation('%s became %s: %s' % (fuser.direct[i], e['type'], e['msg'][:200]),
                                **d)
        elif not e['same']:
            raise Violation('the exception was replaced by %s: %s' % (e['type'], e['msg'][:200]),
                            **d)
        tb = [(f, ln) for f, ln in e['tb'] if f in names]
        name, a, b = where(i)
        d.update(expected=[name, a, b], traceback=tb)
        if not tb:
            raise Violation('the traceback does not mention the template', all=e['tb'], **d)
        f, ln = tb[-1]
        if f != name:
            raise Violation('the traceback blames another template', **d)
        if not a <= ln <= b:
            raise Violation('the traceback shows line %s instead of %d%s' % (
                ln, a, '-%d' % b if b > a else ''), **d)
        good = good or a > 1
    return good


def gen_plan(d):
    return [[d.int(0, 40), d.choice((0, 0, 1, 2, 5)), d.choice(KINDS)]
            for _ in range(d.count(2, 6))]


def gen_forms(d):
    return [d.int(0, 63) for _ in range(d.count(1, 12))]


SIZES = (1, 1, 2, 3, 7, 30, 100, 126, 127, 128, 129, 130, 200, 253, 254, 255, 256, 257, 300, 511,
         600, 1300)


# --- XML -------------------------------------------------------------------

PROF = {'w': {'text': 7, 'el': 5, 'if': 2, 'ifelse': 2, 'for': 3, 'switch': 2, 'with': 2, 'call': 3,
              'innerdef': 2, 'replace': 1, 'block': 2, 'comment': 1, 'cdata': 1, 'py': 2,
              'script': 1, 'nop': 1}, 'depth': 4, 'funcs': 3, 'attrs': 30, 'pattrs': 8,
        'content': 8, 'strip': 8, 'combo': 8, 'calls': 35, 'pr': 1, 'pd': 1}


def wide(d):
    if d.bool(70):
        # code of about any number of bytes up to 600
        return d.choice(('', 'not ', 'not not ', '-')) + '(%s)' % ' + '.join(
            ['i0'] * (d.int(52, 66) if d.bool(60) else d.int(1, 150)))
    return '[%s][0]' % ', '.join(['i0'] * d.choice((30, 90, 200)))


def space_out(d, n):
    """Line ends, sometimes very many, and code that compiles to much."""
    for k in n.get('kids', ()):
        if n['t'] == 'switch' and k['t'] == 'text':
            k['p'] = [['s', '\n' * d.choice(SIZES)]]
            continue
        space_out(d, k)
    if n['t'] in ('text', 'cdata'):
        out = []
        for p in n['p']:
            if d.bool(40):
                out.append(['s', '\n' * (d.choice(SIZES) if d.bool(25) else d.int(1, 3))])
            if d.bool(10):
                out.append(['e', wide(d)])
            out.append(p)
        n['p'] = out
    elif n['t'] == 'comment' and d.bool(50):
        n['s'] = n['s'].rstrip('-') + '\n' * d.choice(SIZES)
    elif n['t'] == 'py' and d.bool(70):
        n['code'] = block(d, n['code'].strip())
    elif n['t'] == 'el' and n['kids'] and n['tag'] not in ('script', 'style') and d.bool(30):
        n['kids'].insert(0, {'t': 'text', 'p': [['s', '\n' * d.choice(SIZES[:8])]]})
        if n['kids'][1].get('d') == 'else' or 'else' in (n['kids'][1].get('dirs') or {}):
            n['kids'].pop(0)


def block(d, line):
    """A code block of several lines around the line."""
    ind = d.choice(('', '  ', '\t'))
    rows = []
    for _ in range(d.count(0, 4)):
        rows.append(d.choice(('', 'q1 = 1', '# note', 'if True:\n%s    q2 = 2' % ind, 'q3 = (1,\n%s 2)' % ind,
                              'for q4 in ():\n%s    q5 = 1\n\n%s    q6 = 2' % (ind, ind))))
    if d.bool(30):
        line = 'if True:\n%s    %s' % (ind, line)
    rows.append(line)
    if d.bool(30):
        rows.append('q7 = 1')
    while rows[0] == '':
        rows.pop(0)
    return d.choice(('\n', ' #\n')) + '\n'.join(ind + x if x else '' for x in rows) + '\n'


def gen_xml(d):
    case = gen_doc(d, PROF)
    space_out(d, case['doc']['root'])
    fix_doc(case['doc']['root'])
    if d.bool(20):
        case['doc']['pre'] = [{'t': 'raw', 's': '\n' * d.choice(SIZES[:8])}]
    if d.bool(15):
        case['doc']['dtd'] = d.choice(('<!DOCTYPE html>', '<!DOCTYPE r\n SYSTEM "x">'))
    case['forms'], case['plan'] = gen_forms(d), gen_plan(d)
    case['mode'] = d.choice(('xml', 'html', None))
    case['strip_text'] = d.bool(20)
    case['via'] = d.choice(('source', 'source', 'file', 'loader'))
    case['iter'] = d.bool(30)
    case['crlf'] = d.bool(12)
    return case


def fuse_parts(ps, f, multi):
    out = []
    for p in ps:
        if p[0] == 'e':
            e = f(p[1].lstrip() if p[1].lstrip() else p[1], multi)
            out.append(['e', ' ' * (len(p[1]) - len(p[1].lstrip())) + e])
        elif p[0] == 'n':
            out.append(['n', f.name()])
        else:
            out.append(p)
    return out


def fuse_node(n, f, tags, raw=False):
    """A copy of the node with fuses; tags collects those inside tags."""
    n = dict(n)
    t = n['t']
    before = f.n

    def tagged():
        for i in range(before + 1, f.n + 1):
            tags.add(i)
    if t in ('text', 'cdata'):
        n['p'] = fuse_parts(n['p'], f, True)
    elif t == 'py':
        n['code'] = re.sub(r'(\bu\d+ = )(.*\S)', lambda m: m.group(1) + f(m.group(2)), n['code'])
    elif t in ('dir', 'switch'):
        d = n.get('d', 'switch')
        n['v'] = fuse_dir(d, n['v'], n, f)
        tagged()
    elif t == 'el':
        n['attrs'] = [[a, fuse_parts(p, f, False)] for a, p in n['attrs']]
        n['dirs'] = dict((k, fuse_dir(k, v, n, f)) for k, v in (n.get('dirs') or {}).items())
        for k in ('strip', 'pattrs', 'content'):
            if n.get(k):
                n[k] = f(n[k])
        tagged()
    if 'kids' in n:
        n['kids'] = [fuse_node(k, f, tags) for k in n['kids']]
    return n


def bare(seq):
    """A tuple without parentheses gets some."""
    try:
        tuple_ = type(ast.parse(seq.strip(), mode='eval').body) is ast.Tuple
    except SyntaxError:
        return seq
    return '(%s)' % seq if tuple_ else seq


def fuse_dir(d, v, n, f):
    if d in ('if', 'case', 'switch', 'replace', 'call'):
        return f(v)
    if d == 'for':
        a, b = v.split(' in ', 1)
        return '%s in %s' % (a, f(bare(b)))
    if d == 'with':
        return '; '.join('%s = %s' % (x, f(e)) for x, e in n['vars'])
    return v


def check_xml(case, w, lab):
    f, tags = Fuser(case['forms']), set()
    doc = dict(case['doc'], root=fuse_node(case['doc']['root'], f, tags))
    small(case['doc'], case['ctx'])
    src = write_doc(doc)
    if case['crlf']:
        src = src.replace('\n', '\r\n')
    opts = {'mode': case['mode']} if case['mode'] else {}
    if case['strip_text']:
        opts['strip_text'] = True
    if case['via'] == 'source':
        name = 'dir/tpl.html'
        steps = [{'op': 'xml', 'id': 't', 'source': src, 'opts': dict(opts, filename=name)}]
    else:
        name = '<DIR>/d/tpl.html'
        steps = [{'op': 'write', 'path': 'd/tpl.html', 'text': src},
                 {'op': 'fileloader', 'id': 'L', 'path': 'd', 'opts': {
                     'strip_text': case['strip_text']}},
                 {'op': 'load', 'loader': 'L', 'name': 'tpl.html', 'id': 't'}]
    return finish(case, steps, f, w, lab, {name: src}, lambda i: name, tags)


def finish(case, steps, f, w, lab, srcs, file_of, tags=(), strict=False):
    steps = steps + [{'op': 'fused', 'tpl': 't', 'ctx': case['ctx'], 'plan': case['plan'],
                      'via': 'iter' if case.get('iter') else 'render'}]
    r = w.call(steps)
    for x in r[:-1]:
        ok(x, 'compiling or loading', sources=srcs)
    if 'exc' in r[-1] and not strict:
        # fails even without a blown fuse: not decided here
        lab('not rendered')
        return False
    ok(r[-1], 'rendering without a blown fuse', sources=srcs)

    def where(i):
        src = srcs[file_of(i)]
        pos = place(src, i)
        first = line_of(src, src.rfind('<', 0, pos) if i in tags else pos)
        return file_of(i), first, line_of(src, pos) + f.height[i]
    order, out = r[-1]['v']
    for i, n, _ in out:
        lab('in a tag' if i in tags else 'in text')
        a = where(i)[1]
        lab('line > 255' if a > 255 else 'line > 100' if a > 100 else 'line > 1' if a > 1 else
            'line 1')
    return verify(out, where, set(srcs), case['plan'], f, {'sources': srcs})


# --- text ------------------------------------------------------------------

TPROF = {'w': {'text': 6, 'expr': 7, 'if': 3, 'for': 3, 'switch': 3, 'call': 3, 'py': 2, 'def': 2},
         'depth': 4, 'funcs': 3, 'sizes': (8, 20, 40), 'callbacks': 40}


def gen_text(d):
    env, ctx = gen_ctx(d, plain)
    for k in ('l0', 'ls0'):
        ctx[k] = ctx[k][:4]
    nodes = TGen(d, TPROF, env).template()
    for n in walk(nodes):
        if n['t'] == 's' and d.bool(50):
            n['a'].append(['t', '.' + '\n' * (d.choice(SIZES) if d.bool(25) else d.int(1, 3)) + '.'])
        if n['t'] == 's' and d.bool(10):
            n['a'] += [['j']] * d.int(1, 3)
    return {'nodes': nodes, 'ctx': ctx, 'forms': gen_forms(d), 'plan': gen_plan(d),
            'via': d.choice(('source', 'loader')), 'autoescape': d.bool(20), 'iter': d.bool(30), 'crlf': d.bool(12),
            'blank': [d.choice((0, 0, 1, 2, 3)) for _ in range(5)] if d.bool(40) else [0]}


def braces(n, i):
    """May the tag have several lines?"""
    forms = n.get('f') or ()
    return i >= len(forms) or forms[i][0] != 'line'


def fuse_text(nodes, f):
    out = []
    for n in nodes:
        n = dict(n)
        t = n['t']
        if t == 'e':
            n['v'] = f.name() if n.get('n') else f(n['v'], True)
        elif t in ('if', 'switch', 'call'):
            n['x'] = f(n['x'], braces(n, 0))
        elif t == 'for':
            a, b = n['x'].split(' in ', 1)
            n['x'] = '%s in %s' % (a, f(bare(b), braces(n, 0)))
        elif t == 'py':
            n['c'] = [re.sub(r'^(\s*\w+ = )(.*)$', lambda m: m.group(1) + f(m.group(2)), x)
                      for x in n['c']]
        if t == 'switch':
            n['c'] = [[f(x, braces(n, 1 + j)), fuse_text(k, f)] for j, (x, k) in enumerate(n['c'])]
        for k in ('k', 'e'):
            if isinstance(n.get(k), list):
                n[k] = fuse_text(n[k], f)
        out.append(n)
    return out


def check_text(case, w, lab):
    f = Fuser(case['forms'])
    n = [0]

    def blank(m):
        n[0] += 1
        return '\n' * case['blank'][n[0] % len(case['blank'])]
    src = write(fuse_text(case['nodes'], f), nl='\r\n' if case['crlf'] else '\n')
    # blank lines in front of a tag are removed, but they count
    src = re.sub(r'(?m)^(?=[ \t]*(?:%[a-z]|\{%-))', blank, src)
    if case['via'] == 'source':
        name = 'dir/tpl.txt'
        steps = [{'op': 'text', 'id': 't', 'source': src, 'opts': {
            'filename': name, 'autoescape': case['autoescape']}}]
    else:
        name = '<DIR>/d/tpl.txt'
        steps = [{'op': 'write', 'path': 'd/tpl.txt', 'text': src},
                 {'op': 'fileloader', 'id': 'L', 'path': 'd', 'opts': {
                     'autoescape_text': case['autoescape']}},
                 {'op': 'load', 'loader': 'L', 'name': 'tpl.txt', 'id': 't'}]
    return finish(case, steps, f, w, lab, {name: src}, lambda i: name)


# --- several templates -----------------------------------------------------

EXPR = re.compile(r'\$\{([^{}]*)\}')
TEST = re.compile(r'(test=")([^"]*)(")|(\{%if )([^%]*)(%\})')
WORD = re.compile(r'\b(w\d+) ')


def fuse_source(src, f, owner, k, gaps):
    """Fuses in the expressions of a source, and line ends after its words."""
    first = f.n

    def expr(m):
        return '${%s}' % f(m.group(1), True)

    def test(m):
        a, b, c = m.groups()[:3] if m.group(1) else m.groups()[3:]
        return a + f(b) + c
    src = EXPR.sub(expr, src)
    mid = f.n
    src = TEST.sub(test, src)
    tags = set(range(mid + 1, f.n + 1)) if '{%' not in src else set()
    for i in range(first + 1, f.n + 1):
        owner[i] = k
    n = [0]

    def gap(m):
        n[0] += 1
        return m.group(1) + '\n' * gaps[(k + n[0]) % len(gaps)]
    return WORD.sub(gap, src), tags


def gen_gaps(d):
    return [d.choice(SIZES) if d.bool(20) else d.int(1, 4) for _ in range(d.count(1, 8))]


def gen_family(d):
    fam = inherit.family(d)
    files = d.bool(40)
    if files:
        # the loader's option holds for all its templates
        for t in fam['tpls']:
            t['auto'] = fam['tpls'][0]['auto']
    return {'fam': fam, 'ctx': inherit.context(d), 'forms': gen_forms(d), 'plan': gen_plan(d),
            'top': d.choice((0, 0, 1, 2)), 'files': files, 'gaps': gen_gaps(d)}


def check_family(case, w, lab):
    fam = case['fam']
    f, owner, tags = Fuser(case['forms']), {}, set()
    srcs, files, steps = {}, {}, []
    mods = {}
    for i, s in enumerate(inherit.sources(fam)):
        name = inherit.name_of(i, fam['kind'])
        s, t = fuse_source(s, f, owner, i, case['gaps'])
        tags |= t
        files[i] = '<DIR>/d/' + name if case['files'] else name
        srcs[files[i]] = s
        mods[name] = name
        if case['files']:
            steps.append({'op': 'write', 'path': 'd/' + name, 'text': s})
        else:
            opts = {'filename': name}
            if fam['kind'] == 'xml':
                opts['autoblocks'] = fam['tpls'][i]['auto']
            steps.append({'op': fam['kind'], 'id': name, 'source': s, 'opts': opts})
    if case['files']:
        steps.append({'op': 'fileloader', 'id': 'L', 'path': 'd',
                      'opts': {'xml_autoblocks': fam['tpls'][0]['auto']}})
    else:
        steps.append({'op': 'mock', 'id': 'L', 'modules': mods})
    top = max(0, len(fam['tpls']) - 1 - case['top'])
    try:
        inherit.Family(fam, case['ctx']).render(top)
    except (inherit.Undef, inherit.TooBig):
        return False
    steps.append({'op': 'load', 'loader': 'L', 'name': inherit.name_of(top, fam['kind']),
                  'id': 't'})
    good = finish(case, steps, f, w, lab, srcs, lambda i: files[owner[i]], tags)
    return good


def gen_parts(d):
    loader = d.choice(('file', 'mock', 'pkg'))
    ctx = dict((v, d.fresh('V')) for v in ('v1', 'v2', 'v3', 'v4'))
    ctx.update(c1=d.bool(), c2=d.bool(70))
    return {'loader': loader, 'tpls': parts_.world(d, loader), 'ctx': ctx, 'forms': gen_forms(d),
            'plan': gen_plan(d), 'gaps': gen_gaps(d)}


def check_parts(case, w, lab):
    tpls, loader = case['tpls'], case['loader']
    f, owner, tags = Fuser(case['forms']), {}, set()
    srcs, files, steps = {}, {}, []
    for i, t in enumerate(tpls):
        s, g = fuse_source(parts_.source(tpls, i, loader), f, owner, i, case['gaps'])
        tags |= g
        p = parts_.ref(t, 'file')
        files[i] = p if loader == 'mock' else '<DIR>/pk/kjp/' + p
        srcs[files[i]] = s
        if loader == 'mock':
            steps.append({'op': t['kind'], 'id': 'T%d' % i, 'source': s, 'opts': {'filename': p}})
        else:
            steps.append({'op': 'write', 'path': 'pk/kjp/' + p, 'text': s})
    if loader == 'mock':
        steps.append({'op': 'mock', 'id': 'L', 'modules': dict(
            (parts_.ref(t, loader), 'T%d' % i) for i, t in enumerate(tpls))})
    elif loader == 'file':
        steps.append({'op': 'fileloader', 'id': 'L', 'path': 'pk/kjp', 'opts': {}})
    else:
        for p in ('pk/kjp', 'pk/kjp/sub', 'pk/kjp/inc'):
            steps.append({'op': 'write', 'path': p + '/__init__.py', 'text': ''})
        steps += [{'op': 'package', 'base': 'pk'}, {'op': 'pkgloader', 'id': 'L', 'opts': {}}]
    steps.append({'op': 'load', 'loader': 'L', 'name': parts_.ref(tpls[0], loader), 'id': 't'})
    return finish(case, steps, f, w, lab, srcs, lambda i: files[owner[i]], tags)


# --- code of every size, lines at every distance --------------------------------

def size_cases():
    for kind in ('xml', 'text'):
        for n in range(1, 171):
            for pre in ('', 'not '):
                yield {'kind': kind, 'terms': n, 'pre': pre, 'gap': n % 3 + 1}
        for gap in list(range(1, 20)) + list(range(120, 140)) + list(range(250, 262)) + \
                list(range(380, 388)) + list(range(505, 520)) + [1000, 4000]:
            for n in (1, 63):
                yield {'kind': kind, 'terms': n, 'pre': '', 'gap': gap}


def check_size(case, w, lab):
    e = '%s(%s)' % (case['pre'], ' + '.join(['i0'] * case['terms']))
    gap = '\n' * case['gap']
    body = 'a${%s}%sb${kjf(1, i0)}%s%sc${kjf(2, i0)}' % (
        e, gap, '<b>\n</b>' if case['kind'] == 'xml' else '\n', gap)
    src = '<r>%s</r>' % body if case['kind'] == 'xml' else body
    f = Fuser([0])
    f.height = {1: 0, 2: 0}
    steps = [{'op': case['kind'], 'id': 't', 'source': src, 'opts': {'filename': 'n'}}]
    c = {'ctx': {'i0': 3}, 'plan': [[0, 0, 'ValueError'], [1, 0, 'KeyError']]}
    return finish(c, steps, f, w, lab, {'n': src}, lambda i: 'n', strict=True)


ASSUMPTIONS = ['an expression in a tag belongs to any line from the start of the tag to the '
               'expression, one that spans lines to any of its lines',
               'templates that fail without a blown fuse are not looked at']
RULE = ' with a fuse in every expression; non-trivial: one blew below the first line'
SCENARIOS = [
    Scenario('xml', check_xml, gen_xml, n=2200, rule='XML templates' + RULE),
    Scenario('text', check_text, gen_text, n=1800, rule='text templates' + RULE),
    Scenario('families', check_family, gen_family, n=1200, rule='templates that extend others' +
             RULE),
    Scenario('parts', check_parts, gen_parts, n=1200, rule='templates that include and import '
             'others' + RULE),
    Scenario('sizes', check_size, cases=size_cases, n=0,
             rule='a failure behind an expression that compiles to any number of bytes and any '
                  'number of line ends' + RULE),
]
