"""Generates text templates (see textmodel)."""
import re

from exprs import gen_expr, show_expr
from gen import plain

WORDS = ('a', 'b', ' ', '\n', '.', '  ', '\n\n', '%', '{', '}', '-', '$', '\\', '#', '%%', '% x',
         '%}', '{%', '{%-', '-%}', '%if', '%end', 'x', '1', '\t', '\xe9', '\u4e2d', "'", '"', '<',
         '&', '%s', '{0}', '{{', '}}', '${', '\xa0', '\u2028', '\x85', '\r', '\x0b', '\x0c', '\x1c', '\x00', '\x00}\x00', '\x7f', '\ufeff', '\U0001f600',
         'if x', '\n%', '\n %', '/', '*', '\n    ', '%.', '%1', '%_', '!', '\n\\')
PLAIN_WORDS = ('a', 'b', ' ', '\n', '.', 'x', '1', '-', '<', '&')


class TGen(object):
    """prof: 'words' the text alphabet, 'depth', 'forms' weights, 'w' node weights."""

    def __init__(self, d, prof, env):
        self.d, self.prof, self.env0 = d, prof, env
        self.left = d.choice(prof.get('sizes', (8, 16, 30)))
        self.in_def = False

    # -- lexical
    def form(self):
        d = self.d
        kind = d.weighted((('brace', 5), ('line', 5), ('ljust', 2)))
        lead = d.choice(('', '', ' ', '    ', '\t')) if kind != 'brace' else ''
        pad = d.choice(('', '', ' ', '  '))
        tail = None
        if kind != 'line' and d.bool(25):
            tail = d.choice(('', ' ', '   ', '\t '))
        return [kind, lead, pad, tail]

    def forms(self, n):
        if self.prof.get('one_form') and self.d.bool(50):
            return [self.form()] * n
        return [self.form() for _ in range(n)]

    def atoms(self):
        d = self.d
        words = self.prof.get('words', PLAIN_WORDS)
        out = []
        for _ in range(d.count(1, 4)):
            k = d.weighted((('t', 8), ('j', 1), ('q', 1), ('u', self.prof.get('uni', 0))))
            if k == 't':
                out.append(['t', d.choice(words)])
            elif k == 'j':
                out.append(['j'])
            elif k == 'u':
                out.append(['t', d.unitext(1, 4)])
            else:
                out.append(['q', d.choice('a%{ }-"n\tx0')])
        return out

    def text(self):
        if self.d.bool(12):
            return {'t': 's', 'a': [['t', self.d.choice((' ', '  ', '\n', ' \n', '\t'))]]}
        return {'t': 's', 'a': self.atoms()}

    # -- expressions
    def expr(self, env, t, depth=1):
        for _ in range(3):
            e = gen_expr(self.d, env, t, depth, lambda d: d.choice(('a', 'b', '', 'ab', '1')))
            if '%}' not in e and not e.endswith('-'):
                return e
        return {'int': '1', 'str': "'a'", 'bool': 'True', 'ints': '[1, 2]', 'strs': "['a']"}[t]

    def show(self, env, funcs):
        d = self.d
        if funcs and d.bool(35):
            return {'t': 'e', 'v': self.call(env, funcs)}
        names = [n for n, t in env.items() if t in ('int', 'str', 'any', 'bool')]
        if names and d.bool(40):
            return {'t': 'e', 'v': d.choice(sorted(names)), 'n': 1}
        return {'t': 'e', 'v': show_expr(d, env, 1)}

    def call(self, env, funcs, first=None):
        """first: the text of the first argument when it is a caller."""
        d = self.d
        name, params, cb = d.choice([f for f in funcs if (f[2] is not None) == (first is not None)]
                                    or [funcs[0]])
        if (cb is not None) != (first is not None):
            return '0'
        args = [first] if first else []
        kw = False
        for p, t, default in params:
            if p == '*':
                kw = True
                continue
            if default is not None and d.bool(50):
                kw = True
                continue
            v = self.expr(env, t)
            if kw or d.bool(20):
                kw = True
                v = '%s=%s' % (p, v)
            args.append(v)
        return '%s(%s)' % (name, ', '.join(args))

    # -- nodes
    def body(self, env, funcs, depth, lo=0, hi=4, lvl=0):
        env = dict(env)
        funcs = list(funcs)
        out = []
        for _ in range(self.d.count(lo, hi)):
            if self.left <= 0 and out:
                break
            out.append(self.node(env, funcs, depth, lvl))
        return tidy(out)

    def node(self, env, funcs, depth, lvl):
        d = self.d
        self.left -= 1
        w = self.prof['w']
        kinds = [(k, w[k]) for k in ('text', 'expr', 'if', 'for', 'switch', 'call', 'py', 'def')
                 if w.get(k) and (depth > 0 or k in ('text', 'expr', 'py'))]
        k = d.weighted(kinds)
        cbs = [f for f in funcs if f[2] is not None]
        if k == 'call' and not cbs or k == 'def' and not self.in_def:
            k = 'text'
        if k == 'text':
            return self.text()
        if k == 'expr':
            return self.show(env, [f for f in funcs if f[2] is None])
        if k == 'if':
            e = self.body(env, funcs, depth - 1, lvl=lvl) if d.bool(50) else None
            return {'t': 'if', 'x': self.expr(env, d.choice(('bool', 'bool', 'int', 'str'))),
                    'k': self.body(env, funcs, depth - 1, lvl=lvl), 'e': e,
                    'f': self.forms(3 if e is not None else 2)}
        if k == 'for':
            t, lt = d.choice((('int', 'ints'), ('str', 'strs')))
            v = '%s%d_%d' % (t[0], d.int(1, 2), lvl)
            x = '%s in %s' % (v, self.expr(env, lt))
            inner = dict(env)
            inner[v] = t
            if d.bool(10):
                x = '%s in %s,' % (v, ', '.join(self.expr(env, t, 0) for _ in range(d.int(1, 2))))
            elif d.bool(20):
                u = 'i3_%d' % lvl
                x = '%s, %s in enumerate(%s)' % (u, v, self.expr(env, lt))
                inner[u] = 'int'
            return {'t': 'for', 'x': x, 'k': self.body(inner, funcs, depth - 1, lvl=lvl),
                    'f': self.forms(2)}
        if k == 'switch':
            t = d.choice(('int', 'str'))
            cases = [[self.expr(env, t, 0), self.body(env, funcs, depth - 1, lvl=lvl)]
                     for _ in range(d.count(0 if d.bool(10) else 1, 3))]
            x = self.expr(env, t)
            if cases and d.bool(40):
                d.choice(cases)[0] = x
            e = self.body(env, funcs, depth - 1, lvl=lvl) if d.bool(60) else None
            n = 2 + len(cases) + (e is not None)
            return {'t': 'switch', 'x': x, 'g': d.choice(('', '', ' ', '\n', '\n  ')), 'c': cases,
                    'e': e, 'f': self.forms(n)}
        if k == 'call':
            name, params, cb = d.choice(cbs)
            ps = ['c%d_%d' % (i, lvl + 1) for i in range(len(cb))]
            inner = dict(env)
            inner.update(zip(ps, cb))
            if d.bool(15):
                ps.append('q%d=%s' % (lvl, d.choice(('(1, 2)', "')'", "len('(')", '((), ())'))))
                inner['q%d' % lvl] = 'any'
            x = self.call(env, [(name, params, cb)], '%caller')
            if d.bool(12):
                x = d.choice(('%s if %%caller else None', '[%%caller, %s][1]',
                              '%s if [%%caller, %%caller] else 0')) % x
            return {'t': 'call', 'p': '(%s)' % ', '.join(ps), 'x': x,
                    'k': self.body(inner, [f for f in funcs if f[2] is None] +
                                   cbs[:d.int(0, 1)], depth - 1, lvl=lvl + 1),
                    'f': self.forms(2)}
        if k == 'py':
            v = d.fresh('w')
            t = d.choice(('int', 'str'))
            line = '%s = %s' % (v, self.expr(env, t))
            env[v] = t
            if d.bool(50):
                return {'t': 'py', 'c': [line], 'in': 1, 'f': self.forms(1)}
            lines = [line]
            if d.bool(50):
                lines += ['if %s:' % self.expr(env, 'bool'), '    %s = %s' % (
                    v, self.expr(env, t))]
            lines = [x for x in lines if '$' not in x]
            return {'t': 'py', 'c': lines, 'f': self.py_forms()}
        # a function inside a function
        f, node = self.function(self.d.fresh('g'), env, funcs, depth - 1, lvl + 1)
        funcs.append(f)
        return node

    def py_forms(self):
        a, b = self.form(), self.form()
        a[3] = None
        return [a, b]

    def function(self, name, env, funcs, depth, lvl):
        d = self.d
        params = []
        inner = dict(env)
        cb = None
        if d.bool(self.prof.get('callbacks', 25)):
            cb = [d.choice(('int', 'str')) for _ in range(d.count(0, 2))]
        default = False
        for i in range(d.count(0, 2)):
            p, t = 'p%d_%d' % (i, lvl), d.choice(('int', 'str'))
            default = default or d.bool(30)
            params.append((p, t, (str(d.int(0, 9)) if t == 'int' else repr(plain(d, 0, 2) + d.choice(('', '', ' ', '  ', ' % ', '%d' , '\t'))))
                           if default else None))
            inner[p] = t
        if params and d.bool(15):
            params.insert(d.int(0, len(params) - 1), ('*', None, None))
        mine = list(funcs)
        if cb is not None:
            mine.append(('caller', [('', t, None) for t in cb], None))
        was, self.in_def = self.in_def, True
        k = self.body(inner, [f for f in mine if f[0] != 'caller'], depth, 0, 4, lvl)
        self.in_def = was
        if cb is not None:
            # at least one call of the callback, somewhere
            for _ in range(d.int(1, 2)):
                args = ', '.join(self.expr(inner, t) for t in cb)
                k.insert(d.int(0, len(k)), {'t': 'e', 'v': 'caller(%s)' % args})
        elif params and params[0][1] == 'int' and d.bool(20) and lvl == 1:
            # recursion on the first parameter
            p = params[0][0]
            star = [q[0] for q in params].index('*') if ('*', None, None) in params else 9
            rest = ''.join(', ' + (q[0] if i < star else '%s=%s' % (q[0], q[0]))
                           for i, q in enumerate(params) if i and q[0] != '*')
            k.insert(d.int(0, len(k)), {
                't': 'if', 'x': '0 < %s < 5' % p,
                'k': [{'t': 'e', 'v': '%s(%s - 1%s)' % (name, p, rest)}],
                'e': None, 'f': self.forms(2)})
        for p, t, v in params:
            if p != '*' and d.bool(50):
                k.insert(d.int(0, len(k)), {'t': 'e', 'v': p})
        ps = (['caller'] if cb is not None else []) + [
            p if v is None else '%s=%s' % (p, v) for p, t, v in params]
        node = {'t': 'def', 'd': '%s(%s)' % (name, ', '.join(ps)), 'k': tidy(k),
                'f': self.forms(2)}
        return (name, params, cb), node

    def template(self):
        d = self.d
        nodes, funcs = [], []
        for i in range(d.count(0, self.prof.get('funcs', 0))):
            f, node = self.function('f%d' % (i + 1), self.env0, funcs, self.prof['depth'], 1)
            funcs.append(f)
            nodes.append(node)
        out = self.body(self.env0, funcs, self.prof['depth'], 1, 7)
        for f in funcs:
            if f[2] is None and d.bool(50):
                out.insert(d.int(0, len(out)), {'t': 'e', 'v': self.call(self.env0, [f])})
        for n in nodes:
            out.insert(d.int(0, len(out)), n)
        return tidy(out)


def tidy(nodes):
    """Adjacent texts are one text; a "$name" does not swallow what follows."""
    out = []
    for n in nodes:
        if n['t'] == 's' and out and out[-1]['t'] == 's':
            out[-1]['a'] += n['a']
            continue
        out.append(n)
    for a, b in zip(out, out[1:]):
        if a['t'] == 'e' and a.get('n') and b['t'] == 's':
            first = b['a'][0] if b['a'] else ['j']
            word = first[1] if first[0] == 't' else ' '
            if word[:1] == '.' and len(word) > 1:
                word = word[1:] if word[1] not in '0123456789.' else ' '
            elif word == '.' and (len(b['a']) == 1 or b['a'][1][0] != 't'):
                word = ' '
            if word[:1].isalnum() or word[:1] in ('_', '.', ''):
                b['a'].insert(0, ['t', ','])
    return out
