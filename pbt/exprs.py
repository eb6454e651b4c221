"""Generated contexts and well-typed Python expressions over them.

An environment maps names to types: 'int', 'str', 'bool', 'none', 'ints'
(list of int), 'strs' (list of str), 'pairs' (list of (int, str) pairs),
'dict' (str -> int), 'obj' (attributes name: str, n: int), 'any' (only to be
shown). Expressions never fail and give the same value on both interpreters.
"""
from gen import hostile, plain

TYPES = ('int', 'str', 'bool', 'ints', 'strs', 'pairs', 'dict', 'obj', 'none', 'any')


def gen_value(d, t, text=hostile):
    if t == 'int':
        return d.weighted(((d.int(-3, 9), 6), (10 ** 12, 1), (0, 1)))
    if t == 'str':
        return text(d)
    if t == 'bool':
        return d.bool()
    if t == 'none':
        return None
    if t == 'ints':
        n = d.weighted(((d.count(0, 4), 12), (d.int(5, 40), 1)))
        return [d.int(-3, 9) for _ in range(n)]
    if t == 'strs':
        return [text(d) for _ in range(d.count(0, 4))]
    if t == 'pairs':
        return [{'!': 'tuple', 'v': [d.int(-3, 9), text(d)]} for _ in range(d.count(0, 3))]
    if t == 'dict':
        return dict((k, d.int(-3, 9)) for k in ('a', 'k1', 'zz')[:d.int(1, 3)])
    if t == 'obj':
        return {'!': 'obj', 'v': text(d), 'attrs': {'name': text(d), 'n': d.int(-3, 9)}}
    return gen_any(d, text)


def gen_any(d, text=hostile):
    """Any value that can be shown."""
    k = d.weighted((('str', 6), ('int', 2), ('none', 2), ('bool', 1), ('float', 1),
                    ('strsub', 2), ('obj', 2), ('list', 1), ('dict', 1), ('tuple', 1),
                    ('bytes', 1), ('empty', 1), ('zero', 1), ('complex', 1), ('set', 1), ('number', 1)))
    if k == 'str':
        return text(d)
    if k == 'int':
        return d.int(-10 ** 6, 10 ** 6)
    if k == 'none':
        return None
    if k == 'bool':
        return d.bool()
    if k == 'float':
        return d.choice((0.5, -1.25, 1e100, 3.0, 0.0))
    if k == 'strsub':
        return {'!': 'strsub', 'v': text(d)}
    if k == 'obj':
        return {'!': 'obj', 'v': text(d), 'attrs': {'name': text(d), 'n': d.int(-3, 9)}}
    if k == 'list':
        return [text(d) for _ in range(d.int(0, 2))]
    if k == 'dict':
        return {'k': text(d)}
    if k == 'tuple':
        return {'!': 'tuple', 'v': [text(d) for _ in range(d.int(0, 2))]}
    if k == 'bytes':
        return {'!': 'bytes', 'v': text(d)}
    if k == 'empty':
        return ''
    if k == 'complex':
        return {'!': 'complex', 're': 1.0, 'im': 2.5}
    if k == 'number':
        return {'!': 'number', 'n': d.choice((0, 1, 7, 2.5)), 'v': text(d)}
    if k == 'set':
        return {'!': 'set1', 'v': text(d)}
    return 0


ODD_NAMES = ('max', 'min', 'id', 'type', 'input', 'dir', 'hash', 'filter', 'map', 'object', 'vars',
             'iter', 'next', 'child', 'parent', 'context', 'name', 'value', 'loader', 'key', 'item',
             'index', 'args', 'kwargs', 'result', 'test', 'extends', 'print', 'literal', 'escape',
             'template', 'open', 'Exception', 'loop', 'e', 'i', 's')


def gen_ctx(d, text=hostile, extra=()):
    """A context with at least one variable per type; returns (env, ctx)."""
    env, ctx = {}, {}
    for t, names in (('int', ('i0', 'i1')), ('str', ('s0', 's1')), ('bool', ('b0',)),
                     ('ints', ('l0',)), ('strs', ('ls0',)), ('pairs', ('lp0',)),
                     ('dict', ('d0',)), ('obj', ('o0',)), ('any', ('a0', 'a1'))):
        for name in names:
            env[name] = t
            ctx[name] = gen_value(d, t, text)
    if d.bool(25):
        # names Python itself or the template engine has a use for
        for name in sorted(set(d.choice(ODD_NAMES) for _ in range(d.int(1, 3)))):
            env[name] = d.choice(('int', 'str', 'any'))
            ctx[name] = gen_value(d, env[name], text)
    return env, ctx


def names_of(env, t):
    return [n for n, x in env.items() if x == t]


def pystr(d, text=plain):
    """A Python string literal without line breaks."""
    s = text(d)
    if d.bool(4):
        s = s[:2] + d.choice(('  ', '   x  ', ' ', 'A B  c')) + s[2:]
    r = ascii(s) if d.bool(20) else repr(s)
    if d.bool(25) and '\\' not in r and '"' not in s and "'" not in s:
        q = d.choice(('"', "'''", '"""'))
        r = q + r[1:-1] + q
    return r


def gen_expr(d, env, t, depth=2, text=plain):
    """Python source of an expression of type t, fit for any position: it has
    no line breaks and stands on its own without parentheses."""
    names = names_of(env, t)

    def sub(t):
        return gen_expr(d, env, t, depth - 1, text)

    def atom():
        if names and d.bool(75):
            return d.choice(names)
        if t == 'int':
            return str(d.int(0, 9))
        if t == 'str':
            return pystr(d, text)
        if t == 'bool':
            return d.choice(('True', 'False'))
        if t == 'none':
            return 'None'
        if t == 'ints':
            return d.choice(('[1, 2]', '[]', '(3, 4)', 'range(3)', '[0]'))
        if t == 'strs':
            return '[%s]' % ', '.join(pystr(d, text) for _ in range(d.int(0, 2)))
        if t == 'pairs':
            return '[%s]' % ', '.join('(%d, %s)' % (d.int(0, 9), pystr(d, text))
                                      for _ in range(d.int(0, 2)))
        if t == 'dict':
            return "{'a': %d}" % d.int(0, 9)
        if t == 'any':
            return atom_any()
        raise ValueError(t)

    def atom_any():
        return d.choice(('None', '0', "''", '[]', '1.5', "'<&>'", 'True'))

    if depth <= 0:
        if t in ('obj',):
            return d.choice(names)
        return atom()
    if t == 'int':
        k = d.weighted((('atom', 4), ('bin', 3), ('len', 1), ('idx', 1), ('attr', 1),
                        ('get', 1), ('cond', 1), ('neg', 1), ('sum', 1), ('lam', 1)))
        if k == 'bin':
            return '%s %s %s' % (paren(sub('int')), d.choice('+-*'), paren(sub('int')))
        if k == 'len':
            return 'len(%s)' % sub(d.choice(('ints', 'strs', 'str')))
        if k == 'idx':
            return '([0] + list(%s))[-1]' % sub('ints')
        if k == 'attr' and names_of(env, 'obj'):
            return d.choice(names_of(env, 'obj')) + '.n'
        if k == 'get' and names_of(env, 'dict'):
            return '%s.get(%s, %d)' % (d.choice(names_of(env, 'dict')),
                                       d.choice(("'a'", '"k1"', "'nope'")), d.int(0, 9))
        if k == 'cond':
            return '%s if %s else %s' % (paren(sub('int')), paren(sub('bool')), paren(sub('int')))
        if k == 'neg':
            return '-%s' % paren(sub('int'))
        if k == 'sum':
            return 'sum(%s)' % sub('ints')
        if k == 'lam':
            return '(lambda q: q + 1)(%s)' % sub('int')
        return atom()
    if t == 'str':
        k = d.weighted((('atom', 5), ('cat', 2), ('str', 1), ('attr', 1), ('upper', 1),
                        ('cond', 1), ('slice', 1), ('join', 1), ('fmt', 1), ('fstr', 1),
                        ('rep', 1), ('fmtd', 1)))
        if k == 'cat':
            return '%s + %s' % (paren(sub('str')), paren(sub('str')))
        if k == 'str':
            return 'str(%s)' % sub(d.choice(('int', 'bool', 'ints', 'none')))
        if k == 'attr' and names_of(env, 'obj'):
            return d.choice(names_of(env, 'obj')) + '.name'
        if k == 'upper':
            return '%s.replace("a", %s)' % (paren(sub('str')), pystr(d, text))
        if k == 'cond':
            return '%s if %s else %s' % (paren(sub('str')), paren(sub('bool')), paren(sub('str')))
        if k == 'slice':
            return '%s[%s:%d]' % (paren(sub('str')), d.choice(('', '0', '1')), d.int(1, 5))
        if k == 'join':
            return '%s.join(%s)' % (pystr(d, text), sub('strs'))
        if k == 'fmt':
            return "'%%s-%%d' %% (%s, %s)" % (sub('str'), sub('int'))
        if k == 'fstr':
            return "f'{%s}'" % d.choice(names_of(env, 'int') or ['1'])
        if k == 'fmtd':
            return "'{0}{{}}{x}'.format(%s, x=%s)" % (sub('int'), sub('int'))
        if k == 'rep':
            return '%s * %d' % (paren(sub('str')), d.int(0, 3))
        return atom()
    if t == 'bool':
        k = d.weighted((('atom', 3), ('cmp', 3), ('eq', 2), ('not', 1), ('and', 2), ('in', 1),
                        ('none', 1), ('truthy', 1)))
        if k == 'cmp':
            return '%s %s %s' % (paren(sub('int')), d.choice(('<', '>', '<=', '>=', '!=', '==')),
                                 paren(sub('int')))
        if k == 'eq':
            return '%s == %s' % (paren(sub('str')), paren(sub('str')))
        if k == 'not':
            return 'not %s' % paren(sub('bool'))
        if k == 'and':
            return '%s %s %s' % (paren(sub('bool')), d.choice(('and', 'or')), paren(sub('bool')))
        if k == 'in':
            return '%s in %s' % (paren(sub('int')), paren(sub('ints')))
        if k == 'none' and names_of(env, 'any'):
            return '%s is %sNone' % (d.choice(names_of(env, 'any')), d.choice(('', 'not ')))
        if k == 'truthy':
            return 'bool(%s)' % sub(d.choice(('ints', 'str', 'int', 'strs')))
        return atom()
    if t == 'ints':
        k = d.weighted((('atom', 4), ('range', 2), ('comp', 2), ('cat', 1), ('filter', 1),
                        ('sorted', 1), ('set', 1)))
        if k == 'range':
            return 'range(%d)' % d.int(0, 4)
        if k == 'comp':
            return '[q + %d for q in %s]' % (d.int(0, 3), sub('ints'))
        if k == 'cat':
            return 'list(%s) + list(%s)' % (sub('ints'), sub('ints'))
        if k == 'filter':
            return '[q for q in %s if q %s %d]' % (sub('ints'), d.choice(('<', '>', '!=')),
                                                   d.int(0, 4))
        if k == 'sorted':
            return 'sorted(%s)' % sub('ints')
        if k == 'set':
            return '[{0: 1, 1: 2}.get(q, 0) for q in %s]' % sub('ints')
        return atom()
    if t == 'strs':
        k = d.weighted((('atom', 4), ('lit', 2), ('comp', 1), ('split', 1)))
        if k == 'lit':
            return '[%s]' % ', '.join(sub('str') for _ in range(d.int(0, 3)))
        if k == 'comp':
            return '[str(q) for q in %s]' % sub('ints')
        if k == 'split':
            return '%s.split(%s)' % (paren(sub('str')), d.choice(("'a'", '"b"', "' '")))
        return atom()
    if t == 'pairs':
        k = d.weighted((('atom', 3), ('enum', 2), ('zip', 1)))
        if k == 'enum':
            return 'enumerate(%s)' % sub('strs')
        if k == 'zip':
            return 'zip(%s, %s)' % (sub('ints'), sub('strs'))
        return atom()
    if t == 'dict':
        if d.bool(60):
            return "{'a': %s, 'b': {'c': %d}['c']}" % (sub('int'), d.int(0, 9))
        return atom()
    if t == 'obj':
        return d.choice(names)
    if t == 'none':
        return 'None'
    # any
    k = d.weighted((('name', 4), ('str', 4), ('int', 3), ('bool', 1), ('none', 1), ('ints', 1),
                    ('obj', 1), ('atom', 1), ('dict', 1), ('or', 1)))
    if k == 'name' and names:
        return d.choice(names)
    if k == 'or' and names:
        return '%s or %s' % (d.choice(names), paren(sub('str')))
    if k == 'obj' and names_of(env, 'obj'):
        return d.choice(names_of(env, 'obj'))
    if k in ('str', 'int', 'bool', 'none', 'ints', 'dict'):
        return sub(k)
    return atom_any()


def paren(src):
    if src.isidentifier() or src.isdigit():
        return src
    if src[0] in '([' and _closes_at_end(src):
        return src
    return '(%s)' % src


def _closes_at_end(src):
    return False


def show_expr(d, env, depth=2, text=plain):
    """An expression to be shown; any type."""
    t = d.weighted((('any', 5), ('str', 4), ('int', 3), ('bool', 1)))
    return gen_expr(d, env, t, depth, text)
