from core import Scenario
from exact import make

PROF = {'w': {'text': 7, 'el': 4, 'if': 1, 'ifelse': 1, 'for': 2, 'with': 1, 'call': 6,
              'innerdef': 5, 'replace': 3}, 'depth': 4, 'combo': 8, 'minfuncs': 1, 'funcs': 5, 'calls': 60,
        'attrs': 30, 'content': 15, 'sizes': (12, 25, 50)}
gen, check = make(PROF, lambda c: c.get('def', 0) >= 1)
SCENARIOS = [
    Scenario('functions', check, gen, n=4000,
             rule='templates of functions with all kinds of parameters calling each other and '
                  'themselves, nested functions and py:call; non-trivial: at least one function'),
]
