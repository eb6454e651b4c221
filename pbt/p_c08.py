from richexpr import expression
from p_c11 import context, hard
from exact import compare
from core import Scenario
from exact import make

PROF = {'w': {'text': 4, 'el': 9, 'if': 1, 'for': 1, 'replace': 3, 'with': 1}, 'depth': 3,
        'combo': 8, 'attrs': 70, 'pattrs': 40, 'strip': 35, 'content': 25,
        'attr_names': ('title', 'class', 'id', 'href', 'alt', 'data-x', 'lang', 'Z', 'ns:q', '_u',
                       'checked', 'selected')}
gen, check = make(PROF, lambda c: bool(c.get('attrs') or c.get('pattrs') or c.get('strip') or
                                       c.get('content') or c.get('replace')),
                  modes=('xml', 'html', 'html5'))

# --- directives whose expression is anything Python has -------------------------

def gen_rich(d):
    kids = []
    for _ in range(d.count(1, 4)):
        n = {'t': 'el', 'tag': 'i', 'attrs': [], 'dirs': {}, 'kids': [
            {'t': 'text', 'p': [['s', 'kid']]}], 'sty': {'q': d.choice('"\'')}}
        k = d.choice(('content', 'replace', 'attrs', 'strip', 'all'))
        if k in ('content', 'all'):
            n['content'] = expression(d, False)
        if k == 'replace':
            n['dirs']['replace'] = expression(d, False)
        if k in ('attrs', 'all'):
            n['pattrs'] = "{'title': (%s), 'alt': (%s)}" % (expression(d, False),
                                                           expression(d, False))
        if k in ('strip', 'all'):
            n['strip'] = expression(d, False, 2).strip()
        kids.append(n)
    return {'doc': {'root': {'t': 'el', 'tag': 'r', 'attrs': [], 'kids': kids}},
            'ctx': context(d)}


def check_rich(case, w, lab):
    compare(case, w, lab, lambda c: True)
    return any(hard(x) for n in case['doc']['root']['kids']
               for x in (n.get('content'), n.get('strip'), n['dirs'].get('replace')) if x)


SCENARIOS = [
    Scenario('elements', check, gen, n=4000,
             rule='elements with attributes, py:attrs, py:strip, py:content and py:replace in all '
                  'modes; non-trivial: at least one of these'),
    Scenario('rich', check_rich, gen_rich, n=1500,
             rule='py:content, py:replace, py:attrs and py:strip with expressions full of braces, '
                  'quotes and comparisons; non-trivial: such a character in one of them'),
]
