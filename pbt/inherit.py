"""Families of templates that extend each other: generation, writing, model.

A family is {"kind": "xml" or "text", "tpls": [template]}. A template is
{"name", "parent": None | index | [variable, index, index], "funcs": [[name,
body]], "blocks": [[name, body]], "main": body (roots only), "auto": names,
"forms": seeds for the writer}. Bodies are lists of
  ["t", word], ["v", context variable], ["a"] the parameter,
  ["c", scope, function, argument], ["pb"], ["b", block] (in roots),
  ["el", tag, body], ["if", variable, body], ["for", body]
"""

BLOCKS = ('head', 'body', 'foot', 'side', 'f3')
VARS = ('v1', 'v2', 'v1', 'v2', 'side', 'foot')
FUNCS = ('f1', 'f2', 'f3')


class Undef(Exception):
    pass


class TooBig(Exception):
    pass


# --- model -------------------------------------------------------------------

class Family(object):
    def __init__(self, fam, ctx):
        self.tpls, self.ctx = fam['tpls'], ctx
        self.text = fam['kind'] == 'text'

    def chain(self, i):
        out = [i]
        while True:
            p = self.tpls[i]['parent']
            if p is None:
                return out[::-1]
            if isinstance(p, list):
                p = p[1] if self.ctx[p[0]] else p[2]
            i = p
            out.append(i)

    def render(self, i):
        self.ch = self.chain(i)
        self.left = 3000
        return self.body(self.tpls[self.ch[0]]['main'], 0, None, None)

    def level(self, kind, name, top):
        for j in range(min(top, len(self.ch) - 1), -1, -1):
            for n, b in self.tpls[self.ch[j]][kind]:
                if n == name:
                    return j, b
        raise Undef(name)

    def body(self, nodes, k, arg, block):
        out = []
        for n in nodes:
            self.left -= 1
            if self.left < 0:
                raise TooBig()
            t = n[0]
            if t == 't':
                out.append(n[1])
            elif t == 'v':
                out.append(str(self.ctx[n[1]]))
            elif t == 'a':
                out.append(arg)
            elif t == 'c':
                last = len(self.ch) - 1
                top = {'': last, 'self': last, 'local': k, 'parent': k - 1, 'child': k + 1}[n[1]]
                if top < 0 or top > last:
                    raise Undef(n[1])
                j, b = self.level('funcs', n[2], top)
                out.append(self.body(b, j, arg if n[3] is None else n[3], None))
            elif t == 'pb':
                if k == 0:
                    raise Undef('parent_block')
                j, b = self.level('blocks', block, k - 1)
                out.append(self.body(b, j, None, block))
            elif t == 'b':
                j, b = self.level('blocks', n[1], len(self.ch) - 1)
                if j > 0:
                    self.level('blocks', n[1], j - 1)
                out.append(self.body(b, j, None, n[1]))
            elif t == 'el':
                x = self.body(n[2], k, arg, block)
                if self.text:
                    out.append(x)
                elif n[2]:
                    out.append('<%s>%s</%s>' % (n[1], x, n[1].split()[0]))
                else:
                    out.append('<%s/>' % n[1])
            elif t == 'if':
                if self.ctx[n[1]]:
                    out.append(self.body(n[2], k, arg, block))
            elif t == 'for':
                for _ in range(2):
                    out.append(self.body(n[1], k, arg, block))
            else:
                raise ValueError(n)
        return ''.join(out)


# --- writing -----------------------------------------------------------------

def expr_of(n):
    if n[0] == 'pb':
        return 'parent_block()'
    a = 'a' if n[3] is None else repr(n[3])
    return '%s%s(%s)' % (n[1] + '.' if n[1] else '', n[2], a)


class XmlWriter(object):
    def __init__(self, tpl, name_of):
        self.tpl, self.name_of = tpl, name_of
        self.bodies = dict((b, x) for b, x in tpl['blocks'])
        self.attr_blocks = tpl.get('attr', [])

    def block(self, name):
        body = self.bodies[name]
        if name in self.tpl['auto']:
            # the tag stands for the block, whatever attributes it has
            n = len(body) + len(self.tpl['blocks']) + len(name)
            return '<%s%s%s>%s</%s>' % (
                name, ('', ' py:autoblock="True"', ' py:autoblock="true"')[n % 3],
                ('', ' class="c"', ' py:strip=""', ' py:strip="True" id="i"')[n // 3 % 4],
                self.nodes(body), name)
        if name in self.attr_blocks and len(body) == 1 and body[0][0] == 'el':
            tag = body[0][1]
            return '<%s%s py:block="%s">%s</%s>' % (
                tag, self.plain(tag), name, self.nodes(body[0][2]), tag.split()[0])
        return '<py:block name="%s">%s</py:block>' % (name, self.nodes(body))

    def func(self, name, body):
        if name in self.attr_blocks and len(body) == 1 and body[0][0] == 'el':
            tag = body[0][1]
            return '<%s%s py:def="%s(a)">%s</%s>' % (
                tag, self.plain(tag), name, self.nodes(body[0][2]), tag.split()[0])
        return '<py:def function="%s(a)">%s</py:def>' % (name, self.nodes(body))

    def plain(self, tag):
        """Keeps a tag from being an automatic block."""
        return ' py:autoblock="False"' if tag.split()[0] in self.tpl['auto'] else ''

    def nodes(self, nodes):
        return ''.join(self.node(n) for n in nodes)

    def node(self, n):
        t = n[0]
        if t == 't':
            return n[1]
        if t == 'v':
            return '${%s}' % n[1]
        if t == 'a':
            return '${a}'
        if t in ('c', 'pb'):
            return '${%s}' % expr_of(n)
        if t == 'b':
            return self.block(n[1])
        if t == 'el':
            tag = n[1]
            return '<%s%s>%s</%s>' % (tag, self.plain(tag), self.nodes(n[2]), tag.split()[0])
        if t == 'if':
            return '<py:if test="%s">%s</py:if>' % (n[1], self.nodes(n[2]))
        if t == 'for':
            return '<py:for each="z in (1, 2)">%s</py:for>' % self.nodes(n[1])
        raise ValueError(n)

    def write(self):
        t = self.tpl
        inner = [self.func(n, b) for n, b in t['funcs']]
        p = t['parent']
        if p is None:
            return '<r py:strip="">%s</r>' % ''.join(insert(inner, self.nodes(t['main']), t))
        inner += [self.block(n) for n, _ in t['blocks']]
        inner = permute(inner, t['order'])
        body = ''.join(inner)
        if isinstance(p, list):
            return ('<x py:strip=""><py:if test="%s"><py:extends href="%s"/></py:if><py:else>'
                    '<py:extends href="%s"/></py:else>%s</x>') % (
                        p[0], self.name_of(p[1]), self.name_of(p[2]), body)
        if t.get('empty') == 'attr':
            return '<x py:strip="" py:extends="%s">%s</x>' % (self.name_of(p), body)
        if t.get('empty'):
            return '<x py:strip=""><py:extends href="%s"/>%s</x>' % (self.name_of(p), body)
        return '<py:extends href="%s">%s</py:extends>' % (self.name_of(p), body)


def insert(funcs, main, t):
    """Functions may stand before or after the body."""
    k = t['order'][0] % (len(funcs) + 1) if t['order'] else 0
    return funcs[:k] + [main] + funcs[k:]


def permute(items, order):
    out = []
    for i, x in enumerate(items):
        out.insert(order[i % len(order)] % (len(out) + 1) if order else len(out), x)
    return out


class TextWriter(XmlWriter):
    def tag(self, s):
        return '{%%%s%%}' % s

    def block(self, name):
        return self.tag('block ' + name) + self.nodes(self.bodies[name]) + self.tag('end')

    def func(self, name, body):
        return self.tag('def %s(a)' % name) + self.nodes(body) + self.tag('end')

    def node(self, n):
        t = n[0]
        if t == 'el':
            return self.nodes(n[2])
        if t == 'if':
            return self.tag('if ' + n[1]) + self.nodes(n[2]) + self.tag('end')
        if t == 'for':
            return self.tag('for z in (1, 2)') + self.nodes(n[1]) + self.tag('end')
        return XmlWriter.node(self, n)

    def write(self):
        t = self.tpl
        inner = [self.func(n, b) for n, b in t['funcs']]
        p = t['parent']
        if p is None:
            return ''.join(insert(inner, self.nodes(t['main']), t))
        inner += [self.block(n) for n, _ in t['blocks']]
        body = ''.join(permute(inner, t['order']))
        if isinstance(p, list):
            return '%s%s%s%s%s%s' % (
                self.tag('if ' + p[0]), self.tag('extends ' + self.name_of(p[1])),
                self.tag('else'), self.tag('extends "%s"' % self.name_of(p[2])),
                self.tag('end'), body)
        if t.get('empty'):
            return '%%extends "%s"\n%s' % (self.name_of(p), body)
        return self.tag('extends "%s"' % self.name_of(p)) + body


def name_of(i, kind):
    return 't%d.%s' % (i, 'txt' if kind == 'text' else 'xml')


def sources(fam):
    cls = TextWriter if fam['kind'] == 'text' else XmlWriter
    return [cls(t, lambda i: name_of(i, fam['kind'])).write() for t in fam['tpls']]


# --- generation ----------------------------------------------------------------

def word(d):
    return d.fresh('w') + ' '


def body(d, fidx, place, depth=2):
    """place: ('main',), ('func', level>0), ('block', level>0)."""
    out = []
    for _ in range(d.count(1, 3)):
        opts = [('t', 4), ('v', 1), ('c', 5)]
        if place[0] == 'func':
            opts += [('a', 2), ('up', 3)]
        if place[0] == 'block' and place[1]:
            opts += [('pb', 5)]
        if depth:
            opts += [('el', 2), ('if', 1), ('for', 1)]
        k = d.weighted(opts)
        if k == 't':
            out.append(['t', word(d)])
        elif k == 'v':
            out.append(['v', d.choice(VARS)])
        elif k == 'a':
            out.append(['a'])
        elif k == 'c':
            fs = FUNCS[fidx:]
            if not fs:
                out.append(['t', word(d)])
                continue
            arg = None if place[0] == 'func' and d.bool(40) else d.fresh('x')
            up = (('parent', 2),) if place[-1] is True else ()
            out.append(['c', d.weighted((('', 5), ('local', 2), ('self', 2)) + up +
                                        (('child', 1),)), d.choice(fs), arg])
        elif k == 'up':
            if place[1]:
                out.append(['c', 'parent', FUNCS[fidx - 1], None])
            else:
                out.append(['t', word(d)])
        elif k == 'pb':
            out.append(['pb'])
        elif k == 'el':
            tag = d.choice(('i', 'p') + BLOCKS[:2])
            if d.bool(25):
                tag += d.choice((' id="e"', ' class="" lang="x"'))
            out.append(['el', tag, body(d, fidx, place, depth - 1)])
        elif k == 'if':
            out.append(['if', d.choice(('c1', 'c2')), body(d, fidx, place, depth - 1)])
        else:
            out.append(['for', body(d, fidx, place, depth - 1)])
    return out


def template(d, i, parent, xml):
    t = {'parent': parent, 'auto': [], 'order': [d.int(0, 6) for _ in range(d.count(0, 5))],
         'empty': d.choice((False, False, True, 'attr'))}
    child = parent is not None
    t['funcs'] = [[f, body(d, k + 1, ('func', child))] for k, f in enumerate(FUNCS)
                  if d.bool(50 if child else 95)]
    names = d.subset(BLOCKS, 50 if child else 80)
    t['blocks'] = [[b, body(d, 0, ('block', child))] for b in names]
    if xml:
        t['auto'] = d.subset(BLOCKS[:2], 30)
        t['attr'] = d.subset(BLOCKS + FUNCS, 40)
    if not child:
        main = body(d, 0, ('main',))
        for b in d.shuffle(names):
            # a block stands once in its template, possibly inside another block
            hosts = [main] + hosts_of(main) + [h for n, x in t['blocks'] if placed(main, n)
                                               for h in [x] + hosts_of(x)]
            h = d.choice(hosts)
            h.insert(d.int(0, len(h)), ['b', b])
        t['main'] = main
    return t


def hosts_of(nodes):
    out = []
    for n in nodes:
        if n[0] in ('el', 'if', 'for'):
            out.append(n[-1])
            out += hosts_of(n[-1])
    return out


def placed(nodes, name):
    return any(n == ['b', name] for n in nodes) or any(placed(h, name) for h in hosts_of(nodes))


def family(d, kind=None):
    kind = kind or d.choice(('xml', 'xml', 'text'))
    n = d.int(2, 6)
    tpls = []
    for i in range(n):
        if i == 0 or i > 1 and d.bool(10):
            p = None
        else:
            # mostly deep chains, sometimes siblings
            p = i - 1 if d.bool(70) else d.int(0, i - 1)
            if i > 1 and d.bool(15):
                p = [d.choice(('c1', 'c2')), p, d.int(0, i - 1)]
        tpls.append(template(d, i, p, kind == 'xml'))
    return {'kind': kind, 'tpls': tpls}


def context(d):
    return {'v1': d.fresh('V'), 'v2': d.fresh('V'), 'side': d.fresh('V'), 'foot': d.fresh('V'),
            'c1': d.bool(), 'c2': d.bool()}
