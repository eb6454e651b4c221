import copy

from core import Scenario, Violation, ok
from xmlgen import count, gen_doc
from xmlmodel import ORDER, small, write_doc

PROF = {'w': {'text': 5, 'el': 4, 'if': 3, 'ifelse': 4, 'for': 4, 'switch': 4, 'with': 4,
              'call': 4, 'replace': 3, 'block': 3, 'innerdef': 3}, 'depth': 4, 'combo': 40,
        'funcs': 3, 'attrs': 30, 'strip': 15, 'content': 10, 'pattrs': 10, 'calls': 30}


def expand(n):
    """The same template with every directive as an element of its own."""
    if n['t'] == 'text' or 'kids' not in n:
        return copy.deepcopy(n)
    n = dict(n, kids=[expand(k) for k in n['kids']])
    if n['t'] == 'el' and n.get('dirs'):
        dirs, kids = n['dirs'], [dict(n, dirs={}, sty=dict(n.get('sty') or {}, order=None))]
    elif n['t'] == 'dir' and n.get('xdirs'):
        dirs, kids = dict(n['xdirs']), n['kids']
        dirs[n['d']] = n['v']
    else:
        return n
    for d in reversed(ORDER):
        if d in dirs:
            w = {'t': 'dir', 'd': d, 'v': dirs[d], 'kids': kids}
            if d == 'call' and n.get('args') is not None:
                w['args'] = n['args']
            kids = [w]
    return kids[0]


def merge(d, n):
    """Put directives of nested directive elements on one element."""
    if 'kids' not in n:
        return
    for k in n['kids']:
        merge(d, k)
    if n['t'] == 'dir' and n['d'] in ('for', 'if', 'else', 'case') and len(n['kids']) == 1:
        k = n['kids'][0]
        if k['t'] == 'dir' and not k.get('xdirs') and k['d'] in ('for', 'if', 'with') and \
                ORDER.index(k['d']) > ORDER.index(n['d']) and d.bool(70):
            n['xdirs'] = {k['d']: k['v']}
            n['xlast'] = d.bool(50)
            if k.get('vars'):
                n['vars'] = k['vars']
            n['kids'] = k['kids']


def wrap_some(d, n):
    """More directives directly inside directives."""
    if 'kids' not in n:
        return
    for k in n['kids']:
        wrap_some(d, k)
    if n['t'] == 'dir' and n['d'] in ('for', 'else', 'case') and len(n['kids']) > 1 and d.bool(30):
        n['kids'] = [{'t': 'dir', 'd': 'if', 'v': d.choice(('True', 'b0', 'i0 > 2')),
                      'kids': n['kids']}]


def gen(d):
    case = gen_doc(d, PROF)
    wrap_some(d, case['doc']['root'])
    merge(d, case['doc']['root'])
    case['mode'] = d.choice(('xml', 'xml', 'html'))
    return case


def check(case, w, lab):
    small(case['doc'], case['ctx'])
    one = write_doc(case['doc'])
    two = write_doc({'root': expand(case['doc']['root'])})
    outs = []
    for src in (one, two):
        r = w.call([{'op': 'xml', 'id': 't', 'source': src, 'opts': {'mode': case['mode']}},
                    {'op': 'render', 'tpl': 't', 'ctx': case['ctx']}])
        ok(r[0], 'compiling', source=src)
        outs.append(ok(r[1], 'rendering', source=src))
    if outs[0] != outs[1]:
        raise Violation('attribute and element forms render differently', attributes=one,
                        elements=two, first=outs[0], second=outs[1])
    c = count(case['doc']['root'])
    many = [0]

    def multi(n):
        k = len(n.get('dirs') or ()) + len(n.get('xdirs') or ())
        if k:
            lab('%d on one element' % k)
        many[0] = max(many[0], k)
        for x in n.get('kids', ()):
            multi(x)
    multi(case['doc']['root'])
    for k in c:
        lab(k)
    return many[0] >= 1 and one != two


# --- every pair of directives on one element, in both orders ----------------

VALUES = {'def': 'g(a=1)', 'call': 'h(%caller)', 'case': 'i0', 'else': '', 'for': 'x in range(2)',
          'if': 'i0 == 3', 'with': 'y=i0', 'replace': 'str(i0) + "z"', 'block': 'blk',
          'strip': 'i0 == 3', 'attrs': "{'k': i0}", 'content': 'i0 + 1'}
NAMES = [d for d in ORDER if d in VALUES] + ['strip', 'attrs', 'content']


def pair_cases():
    for i, a in enumerate(NAMES):
        for b in NAMES[i + 1:]:
            if (a, b) in (('case', 'else'),):
                continue
            for c in [None] + NAMES:
                if c in (a, b) or (c in ('case', 'else') and (a in ('case', 'else') or
                                                             b in ('case', 'else'))):
                    continue
                if c is not None and NAMES.index(c) < NAMES.index(b):
                    continue
                for i0 in (3, 4):
                    yield [a, b] + ([c] if c else []), i0


def pair_source(dirs, form):
    attrs = {'strip': 'py:strip', 'attrs': 'py:attrs', 'content': 'py:content'}
    own = [d for d in dirs if d in attrs]
    rest = [d for d in NAMES if d in dirs and d not in attrs]

    def at(d):
        return '%s="%s"' % ('py:' + d, VALUES[d].replace('"', '&quot;'))
    if form == 'elements':
        inner = '<p z="1"%s>T</p>' % ''.join(' ' + at(d) for d in own)
        args = {'def': 'function', 'call': 'function', 'case': 'value', 'for': 'each',
                'if': 'test', 'with': 'vars', 'replace': 'value', 'block': 'name'}
        for d in reversed(rest):
            v = ' %s="%s"' % (args[d], VALUES[d].replace('"', '&quot;')) if d in args else ''
            inner = '<py:%s%s>%s</py:%s>' % (d, v, inner, d)
    else:
        order = list(dirs) if form == 'forward' else list(reversed(dirs))
        inner = '<p %s z="1">T</p>' % ' '.join(at(d) for d in order)
    if 'case' in dirs:
        inner = '<py:switch test="3">%s<py:else>E</py:else></py:switch>' % inner
    elif 'else' in dirs:
        inner = '<py:if test="i0 == 4">I</py:if>%s' % inner
    tail = '${g()}${g(2)}' if 'def' in dirs else ''
    if 'def' in dirs and ('else' in dirs or 'case' in dirs):
        return None
    if 'call' in dirs and ('else' in dirs or 'case' in dirs):
        return None
    return ('<r><py:def function="h(c)">[${c()}|${c()}]</py:def>%s%s</r>' % (inner, tail))


def check_pair(case, w, lab):
    dirs, i0 = case
    srcs = [pair_source(dirs, f) for f in ('forward', 'backward', 'elements')]
    if srcs[0] is None:
        return False
    outs = []
    for s in srcs:
        r = w.call([{'op': 'xml', 'id': 't', 'source': s, 'opts': {}},
                    {'op': 'render', 'tpl': 't', 'ctx': {'i0': i0}}])
        ok(r[0], 'compiling', source=s)
        outs.append(ok(r[1], 'rendering', source=s))
    if len(set(outs)) != 1:
        raise Violation('the forms of %s render differently' % dirs, sources=srcs, outputs=outs)
    lab('directives: %d' % len(dirs))
    return True


SCENARIOS = [
    Scenario('pairs', check_pair, cases=lambda: list(map(list, pair_cases())),
             rule='every two or three directives on one element, attributes in both orders, against '
                  'the nested element forms (finite, all of them)'),
    Scenario('random', check, gen, n=2500,
             rule='templates with directives as attributes against the same with each directive as '
                  'an element; non-trivial: some directive is written as an attribute'),
]
