"""Text templates as data: how they are written, and what they must render.

A template is a list of nodes:
  {"t": "s", "a": atoms}       text; an atom is ["t", str] text, ["j"] a line
                               end that a backslash removes, ["q", char] a
                               character written behind a backslash
  {"t": "e", "v": expr, "n": 1 for the "$name" form}
  {"t": "if", "x", "k": nodes, "e": nodes or None}
  {"t": "for", "x": "v in items", "k"}
  {"t": "switch", "x", "g": blanks, "c": [[expr, nodes]...], "e"}
  {"t": "def", "d": "f(a, b=1)", "k"}
  {"t": "call", "p": "(n)", "x": "f1(%caller, 2)", "k"}
  {"t": "py", "c": [lines], "in": 1 when on the tag's line}
  {"t": "block", "d": name, "k"}
"f" lists the form of each tag of a node: [kind, lead, pad, tail] with kind
"line", "brace" or "ljust", "lead" blanks before it where the rules remove
them, "pad" before the end of the tag, "tail" 1 for "-%}" plus the blanks
that it removes.

The oracle is the Python program that the template spells, run by Python.
"""
import re

PLAIN_FORM = ['brace', '', '', None]


class TooBig(Exception):
    pass


# --- writing ---------------------------------------------------------------

class Writer(object):
    def __init__(self, nl='\n'):
        self.out = ''
        self.nl = nl
        self.skip = False      # blanks that follow are removed by "-%}"

    def at_start(self):
        return self.out == '' or self.out.endswith('\n')

    def blank_start(self):
        """Is there nothing but white space since a line start?"""
        return re.search(r'(^|\n)\s*$', self.out) is not None

    def tag(self, name, body, form):
        kind, lead, pad, tail = form
        if kind in ('line', 'ljust'):
            tail_blank = re.search(r'(^|\n)\s+$', self.out)
            if kind == 'ljust' and pad and self.out[-1:] not in (' ', '\t') and \
                    not self.blank_start():
                pass            # behind something on the same line
            elif not self.at_start() or tail_blank:
                self.out += '\\' + self.nl
        if kind == 'line':
            self.out += lead + '%' + name + body + pad + self.nl
            self.skip = False
            return
        self.out += lead + '{%-' if kind == 'ljust' else '{%'
        self.out += name + body + pad
        if tail is not None:
            self.out += '-%}' + tail
            self.skip = True
        else:
            self.out += '%}'
            self.skip = False

    def expr(self, node):
        self.skip = False
        self.out += '$' + node['v'] if node.get('n') else '${%s}' % node['v']

    def text(self, atoms):
        seq = []
        for a in atoms:
            if a[0] == 't':
                seq += [(c, False) for c in a[1]]
            elif a[0] == 'q':
                seq.append((a[1], True))
            else:
                seq.append((None, False))
        for i, (c, quote) in enumerate(seq):
            nxt = seq[i + 1][0] if i + 1 < len(seq) else None
            if c is None:
                self.out += '\\' + self.nl
            elif c == '\n':
                self.out += self.nl
            elif c == '$':
                self.out += '$$'
            elif c == '\\':
                self.out += '\\\\'
            elif quote and c != '\n':
                self.out += '\\' + c
            elif c == '%' and (self.out.endswith('{') or
                               self.blank_start() and (nxt is None or nxt.isalpha())):
                self.out += '\\%'
            elif self.skip and c in ' \t':
                self.out += '\\' + c
            else:
                self.out += c
            self.skip = False

    def nodes(self, nodes):
        for n in nodes:
            self.node(n)

    def node(self, n):
        t = n['t']
        forms = list(n.get('f', ()))

        def tag(name, body=''):
            self.tag(name, body, forms.pop(0) if forms else PLAIN_FORM)
        if t == 's':
            self.text(n['a'])
        elif t == 'e':
            self.expr(n)
        elif t == 'if':
            tag('if', ' ' + n['x'])
            self.nodes(n['k'])
            if n['e'] is not None:
                tag('else')
                self.nodes(n['e'])
            tag('end')
        elif t == 'for':
            tag('for', ' ' + n['x'])
            self.nodes(n['k'])
            tag('end')
        elif t == 'switch':
            tag('switch', ' ' + n['x'])
            self.out += n['g'].replace('\n', self.nl)
            for x, k in n['c']:
                tag('case', ' ' + x)
                self.nodes(k)
            if n['e'] is not None:
                tag('else')
                self.nodes(n['e'])
            tag('end')
        elif t in ('def', 'block'):
            tag(t, ' ' + n['d'])
            self.nodes(n['k'])
            tag('end')
        elif t == 'call':
            tag('call', n['p'] + ' ' + n['x'])
            self.nodes(n['k'])
            tag('end')
        elif t == 'py':
            if n.get('in'):
                tag('py', ' ' + n['c'][0])
            else:
                tag('py')
                if not self.at_start():
                    self.out += '\\' + self.nl
                self.out += ''.join(x + self.nl for x in n['c'])
                tag('end')
        elif t in ('extends', 'include', 'import'):
            tag(t, ' ' + n['d'])
        else:
            raise ValueError(t)


def write(nodes, trim=False, nl='\n'):
    w = Writer(nl)
    w.nodes(nodes)
    if trim and nodes and nodes[-1]['t'] not in 'se' and w.out.endswith(nl):
        return w.out[:-len(nl)]      # the last line needs no line end
    return w.out


def text_of(atoms):
    return ''.join(a[1] for a in atoms if a[0] != 'j')


# --- the equivalent program ------------------------------------------------

class Prog(object):
    def __init__(self, nl='\n'):
        self.lines = []
        self.nl = nl
        self.n = 0

    def add(self, ind, s):
        self.lines.append('    ' * ind + s)

    def fresh(self):
        self.n += 1
        return '_k%d' % self.n

    def func(self, decl, body, ind):
        self.add(ind, 'def %s:' % decl)
        o = self.fresh()
        self.add(ind + 1, '%s = []' % o)
        self.body(body, ind + 1, o)
        self.add(ind + 1, "return ''.join(%s)" % o)

    def body(self, nodes, ind, o, top=False):
        self.add(ind, 'pass')
        for n in nodes:
            t = n['t']
            if t == 's':
                self.add(ind, '%s.append(%r)' % (o, text_of(n['a']).replace('\n', self.nl)))
            elif t == 'e':
                self.add(ind, '%s.append(_show(%s))' % (o, n['v']))
            elif t == 'if':
                self.add(ind, 'if %s:' % n['x'])
                self.body(n['k'], ind + 1, o)
                if n['e'] is not None:
                    self.add(ind, 'else:')
                    self.body(n['e'], ind + 1, o)
            elif t == 'for':
                self.add(ind, 'for %s:' % n['x'])
                self.body(n['k'], ind + 1, o)
            elif t == 'switch':
                v = self.fresh()
                self.add(ind, '%s = (%s)' % (v, n['x']))
                self.add(ind, 'if False: pass')
                for x, k in n['c']:
                    self.add(ind, 'elif (%s) == %s:' % (x, v))
                    self.body(k, ind + 1, o)
                if n['e'] is not None:
                    self.add(ind, 'else:')
                    self.body(n['e'], ind + 1, o)
            elif t == 'def':
                if not top:
                    self.func(n['d'], n['k'], ind)
            elif t == 'call':
                c = self.fresh()
                self.func(c + n['p'], n['k'], ind)
                self.add(ind, '%s.append(_show(%s))' % (o, n['x'].replace('%caller', c)))
            elif t == 'py':
                for x in n['c']:
                    self.add(ind, x)
            elif t == 'block':
                self.body(n['k'], ind, o)
            else:
                raise ValueError(t)

    def source(self, nodes):
        for n in nodes:
            if n['t'] == 'def':
                self.func(n['d'], n['k'], 0)
        self.add(0, 'def _main():')
        self.add(1, '_o = []')
        self.body(nodes, 1, '_o', True)
        self.add(1, "return ''.join(_o)")
        return '\n'.join(self.lines) + '\n'


def run(nodes, ctx, show, limit=4000, nl='\n'):
    """What the template must render. Definitions directly in *nodes* are the
    template's functions; deeper ones are local to their function."""
    left = [limit]

    def count(v):
        left[0] -= 1
        if left[0] < 0:
            raise TooBig()
        return show(v)
    g = dict(ctx, _show=count)
    exec(compile(Prog(nl).source(nodes), '<model>', 'exec'), g)
    return g['_main']()


def walk(nodes):
    for n in nodes:
        yield n
        for k in ('k', 'e'):
            if n.get(k):
                for x in walk(n[k]):
                    yield x
        for _, k in n.get('c', ()) if n['t'] == 'switch' else ():
            for x in walk(k):
                yield x
