"""Text template directives against the equivalent Python program."""
from core import Scenario, Violation, ok
from exprs import gen_ctx
from gen import plain
from textgen import TGen
from textmodel import TooBig, run, walk, write
from values import decode
from xmlmodel import show

PROF = {'w': {'text': 5, 'expr': 6, 'if': 5, 'for': 5, 'switch': 4, 'call': 3, 'py': 2, 'def': 2},
        'depth': 4, 'funcs': 3, 'sizes': (8, 20, 40), 'callbacks': 40, 'one_form': 1}


def gen(d):
    env, ctx = gen_ctx(d, plain)
    for k in ('l0', 'ls0'):
        ctx[k] = ctx[k][:4]
    g = TGen(d, PROF, env)
    return {'nodes': g.template(), 'ctx': ctx, 'trim': d.bool(30), 'crlf': d.bool(15)}


def check(case, w, lab):
    nl = '\r\n' if case['crlf'] else '\n'
    src = write(case['nodes'], case['trim'], nl)
    try:
        want = run(case['nodes'], decode(case['ctx']), lambda v: show(v, False), nl=nl)
    except TooBig:
        return False
    r = w.call([{'op': 'text', 'id': 't', 'source': src, 'opts': {}},
                {'op': 'render', 'tpl': 't', 'ctx': case['ctx']}])
    ok(r[0], 'compiling', source=src)
    got = ok(r[1], 'rendering', source=src, expected=want)
    if got != want:
        raise Violation('the output is not what the program spells', source=src,
                        expected=want, got=got)
    kinds = [n['t'] for n in walk(case['nodes'])]
    for k in set(kinds):
        lab(k)
    return sum(1 for k in kinds if k not in 'se') >= 2


ASSUMPTIONS = ['programs are deterministic and their functions side-effect free; variables are '
               'assigned before they are read']
SCENARIOS = [
    Scenario('programs', check, gen, n=5000,
             rule='nested directives in mixed forms; non-trivial: at least two directives'),
]
