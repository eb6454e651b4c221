from core import Scenario
from exact import make


def etext(d):
    return d.text(('a', ';', '=', ' ', 'b', "'", '1'), 0, 5).replace('=', '==')


PROF = {'w': {'text': 5, 'el': 2, 'if': 2, 'ifelse': 1, 'for': 3, 'switch': 1, 'with': 9,
              'call': 2, 'innerdef': 1}, 'depth': 4, 'combo': 15, 'funcs': 2, 'probe': True,
        'ctxnames': ('c0', 'c1', 'c2'), 'etext': etext, 'base': 40}
gen, check = make(PROF, lambda c: c.get('with', 0) >= 2)
SCENARIOS = [
    Scenario('blocks', check, gen, n=4000,
             rule='templates with nested py:with in both forms, in loops, functions and called '
                  'bodies, probed inside and after, variables from the context or the base globals; non-trivial: two or more py:with'),
]
