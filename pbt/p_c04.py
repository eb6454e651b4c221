from core import Scenario
from exact import make

PROF = {'w': {'text': 6, 'el': 3, 'if': 4, 'ifelse': 6, 'for': 5, 'switch': 6}, 'depth': 4,
        'combo': 15}
gen, check = make(PROF, lambda c: (c.get('if', 0) + c.get('for', 0) + c.get('switch', 0)) >= 2)
SCENARIOS = [
    Scenario('nesting', check, gen, n=4000,
             rule='templates of nested py:if/py:else, py:switch and py:for in both forms; '
                  'non-trivial: two or more of them'),
]
