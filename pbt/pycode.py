"""Generated Python statements for code blocks."""
from exprs import gen_expr
from gen import plain


def gen_block(d, scope, name, lo=1, hi=4):
    """Lines of code at indentation 0; binds names in the scope.

    name() gives a new variable name.
    """
    lines = []

    def e(t, depth=1):
        return gen_expr(d, scope.env, t, depth, plain).replace('?>', '? >')

    for _ in range(d.count(lo, hi)):
        k = d.weighted((('assign', 5), ('aug', 3), ('tuple', 1), ('if', 2), ('loop', 2),
                        ('func', 2), ('import', 1), ('log', 2), ('try', 1), ('while', 1),
                        ('semi', 1), ('comment', 1), ('literal', 2)))
        own = [n for n in sorted(scope.bound) if scope.env.get(n) in ('int', 'str')
               and n != 'n']       # the counter of a recursion
        logs = [n for n in sorted(scope.bound) if scope.env.get(n) == 'log']
        if k == 'aug' and own:
            n = d.choice(own)
            lines.append('%s %s %s' % (n, d.choice(('+=', '= %s +' % n)), par(e(scope.env[n]))))
        elif k == 'tuple':
            a, b = name(), name()
            lines.append('%s, %s = %s, %s' % (a, b, e('int'), e('str')))
            bind(scope, a, 'int')
            bind(scope, b, 'str')
        elif k == 'if':
            a = name()
            lines += ['if %s:' % e('bool'), '    %s = %s' % (a, e('int')), 'else:',
                      '    %s = %s' % (a, e('int'))]
            bind(scope, a, 'int')
        elif k == 'loop':
            a = name()
            q = name()
            lines += ['%s = 0' % a, 'for %s in %s:' % (q, e('ints')),
                      '    if %s > %d:' % (q, d.int(0, 3)), '        %s += %s' % (a, q),
                      '    else:', '        %s -= 1' % a]
            bind(scope, a, 'int')
        elif k == 'while':
            a = name()
            lines += ['%s = 3' % a, 'while %s > %d:' % (a, d.int(0, 2)), '    %s -= 1' % a]
            bind(scope, a, 'int')
        elif k == 'func':
            f, a = name(), name()
            lines += ['def %s(q, r=%d):' % (f, d.int(0, 3)), '    s = q + r',
                      '    return s + %s' % par(e('int', 0)), '%s = %s(%s)' % (a, f, e('int'))]
            bind(scope, a, 'int')
        elif k == 'import':
            a = name()
            lines += d.choice((['import math', '%s = math.floor(2.5)' % a],
                               ['from os import path', "%s = len(path.join('a', 'b'))" % a],
                               ['import os.path as osp', "%s = len(osp.basename('x/yy'))" % a]))
            bind(scope, a, 'int')
        elif k == 'log':
            if not logs or d.bool(30):
                a = name()
                lines.append('%s = []' % a)
                bind(scope, a, 'log')
            else:
                a = d.choice(logs)
            lines.append('%s.append(%s)' % (a, e('int')))
        elif k == 'try':
            a = name()
            lines += ['try:', "    %s = int(%s)" % (a, d.choice(("'5'", "'x'"))),
                      'except ValueError:', '    %s = %s' % (a, e('int'))]
            bind(scope, a, 'int')
        elif k == 'semi':
            a, b = name(), name()
            lines.append('%s = %s; %s = %s' % (a, e('int'), b, e('str')))
            bind(scope, a, 'int')
            bind(scope, b, 'str')
        elif k == 'literal':
            a = name()
            lines.append('%s = %s' % (a, d.choice((
                "'a\tb'", '"\t"', "'  two  blanks '", "'# none'", "'a;b'", "'<b>&amp;&lt;'",
                '"it\'s"', "'\\n\\t'", "r'\\d'", "'x' 'y'", "'caf\xe9\xa0'", "'%s' % 1", "'{}'",
                "'a=b'", "'if x:'", "u'u'", "'''q'''"))))
            bind(scope, a, 'str')
        elif k == 'comment':
            lines.append('# ' + d.choice(('note', 'x = 1', 'a; b', "it's")))
        else:
            a = name()
            t = d.choice(('int', 'str', 'ints', 'bool'))
            lines.append('%s = %s' % (a, e(t, 2)))
            bind(scope, a, t)
    if not [x for x in lines if not x.startswith('#')]:
        a = name()
        lines.append('%s = 1' % a)
        bind(scope, a, 'int')
    return lines


def bind(scope, n, t):
    scope.env[n] = t
    scope.bound.add(n)


def par(src):
    return src if src.isidentifier() else '(%s)' % src


def layout(d, lines, comment_start=True):
    """How the lines may stand in an XML code block, after "<?py"."""
    k = d.choice(('inline', 'flush', 'indent', 'hash', 'one'))
    if k == 'one' and len(lines) > 1:
        k = 'flush'
    if d.bool(30) and len(lines) > 1 and k != 'one':
        i = d.int(1, len(lines) - 1)
        lines = lines[:i] + [''] + lines[i:]
    if lines[0].startswith('#') and k in ('inline', 'one'):
        k = 'flush'
    if k == 'one':
        return ' %s ' % lines[0]
    if k == 'inline':
        return ' ' + '\n'.join(lines) + d.choice(('', '\n', ' '))
    if k == 'flush':
        return '\n' + '\n'.join(lines) + '\n'
    ind = d.choice(('    ', '  ', '\t', ' ' * 11))
    body = '\n'.join(ind + x if x else x for x in lines)
    if k == 'hash':
        return ' #\n' + body + '\n' + d.choice(('', ind))
    return '\n' + body + '\n' + d.choice(('', ind))
