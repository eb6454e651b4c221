"""Templates that include and import each other: generation, writing, model.

{"tpls": [template]}; template: {"kind": "xml"|"html"|"text", "dir": directory,
"base": base name, "dtd": doctype or None, "mod": value of the module-level
variable M or None, "funcs": [[name, body]], "main": body, "extends": index or
None, "block": body (of the child) or None}. A template refers only to later
ones. Bodies are lists of
  ["t", word], ["v", context variable], ["m"] the module variable, ["a"] the
  parameter, ["own", prefix, function, arg], ["imp", index, alias or None],
  ["use", alias, function, arg], ["inc", index], ["el", tag, body],
  ["if", variable, body], ["for", body], ["clob", how, variable],
  ["loc", name, body] a local variable around an include, ["blk", body]
"""

FUNCS = ('f1', 'f2', 'f3')


class TooBig(Exception):
    pass


class Inst(object):
    def __init__(self, i):
        self.i, self.alias, self.over = i, {}, None


class World(object):
    def __init__(self, tpls, ctx):
        self.tpls, self.ctx, self.left = tpls, ctx, 1500

    def render(self, i):
        t = self.tpls[i]
        out = self.main(i)
        if t['kind'] != 'text' and t['dtd']:
            out = t['dtd'] + '\n' + out
        return out

    def main(self, i):
        t = self.tpls[i]
        inst = Inst(i)
        if t.get('extends') is not None:
            base = Inst(t['extends'])
            base.over = inst
            return self.body(self.tpls[base.i]['main'], base, None, {})
        return self.body(t['main'], inst, None, {})

    def func(self, inst, name):
        for n, b in self.tpls[inst.i]['funcs']:
            if n == name:
                return b
        raise KeyError(name)

    def body(self, nodes, inst, arg, loc):
        out = []
        t = self.tpls[inst.i]
        for n in nodes:
            self.left -= 1
            if self.left < 0:
                raise TooBig()
            k = n[0]
            if k == 't':
                out.append(n[1])
            elif k == 'v':
                out.append(str(self.ctx[n[1]]))
            elif k == 'm':
                out.append(t['mod'])
            elif k == 'a':
                out.append(arg)
            elif k == 'own':
                who = inst
                if inst.over and n[1] != 'local.' and n[2] in [
                        f for f, _ in self.tpls[inst.over.i]['funcs']]:
                    who = inst.over
                out.append(self.body(self.func(who, n[2]), who, n[3], {}))
            elif k == 'imp':
                inst.alias[n[2] or self.tpls[n[1]]['base']] = Inst(n[1])
            elif k == 'use':
                other = inst.alias[n[1]]
                out.append(self.body(self.func(other, n[2]), other, n[3], {}))
            elif k == 'inc':
                out.append(self.main(n[1]))
            elif k == 'el':
                out.append('<%s>' % n[1] if t['kind'] != 'text' else '')
                out.append(self.body(n[2], inst, arg, loc))
                out.append('</%s>' % n[1] if t['kind'] != 'text' else '')
            elif k == 'if':
                if self.ctx[n[1]]:
                    out.append(self.body(n[2], inst, arg, loc))
            elif k == 'for':
                for _ in range(2):
                    out.append(self.body(n[1], inst, arg, loc))
            elif k == 'clob':
                pass
            elif k == 'loc':
                out.append(n[1] + '!')
                out.append(self.body(n[2], inst, arg, loc))
                out.append(n[1] + '!')
            elif k == 'blk':
                o = inst.over
                if o is not None and self.tpls[o.i]['block'] is not None:
                    out.append(self.body(self.tpls[o.i]['block'], o, None, {}))
                else:
                    out.append(self.body(n[1], inst, None, {}))
            else:
                raise ValueError(n)
        return ''.join(out)


# --- writing -----------------------------------------------------------------

def ref(t, loader):
    if loader == 'pkg':
        return '.'.join(['kjp'] + ([t['dir']] if t['dir'] else []) + [t['base']])
    return (t['dir'] + '/' if t['dir'] else '') + t['base'] + '.' + (
        'txt' if t['kind'] == 'text' else t['kind'])


class Xml(object):
    def __init__(self, tpls, i, loader):
        self.tpls, self.t, self.loader = tpls, tpls[i], loader

    def name(self, i):
        return ref(self.tpls[i], self.loader)

    def wrap(self, d, attr, value, inner):
        return '<py:%s %s="%s">%s</py:%s>' % (d, attr, value, inner, d)

    def nodes(self, nodes):
        return ''.join(self.node(n) for n in nodes)

    def node(self, n):
        k = n[0]
        if k == 't':
            return n[1]
        if k == 'v':
            return '${%s}' % n[1]
        if k == 'm':
            return '${M}'
        if k == 'a':
            return '${a}'
        if k == 'own':
            return '${%s%s(%r)}' % (n[1], n[2], n[3])
        if k == 'use':
            return '${%s.%s(%r)}' % (n[1], n[2], n[3])
        if k == 'if':
            return self.cond(n[1], self.nodes(n[2]))
        if k == 'for':
            return self.loop('z in (1, 2)', self.nodes(n[1]))
        return getattr(self, 'w_' + k)(n)

    def cond(self, x, inner):
        return self.wrap('if', 'test', x, inner)

    def loop(self, x, inner):
        return self.wrap('for', 'each', x, inner)

    def w_imp(self, n):
        return '<py:import href="%s"%s/>' % (
            self.name(n[1]), ' alias="%s"' % n[2] if n[2] else '')

    def w_inc(self, n):
        return '<py:include href="%s"/>' % self.name(n[1])

    def w_el(self, n):
        return '<%s>%s</%s>' % (n[1], self.nodes(n[2]), n[1])

    def w_clob(self, n):
        if n[1] == 'py':
            return "<?py %s = 'clobbered' ?>" % n[2]
        if n[1] == 'with':
            return self.wrap('with', 'vars', "%s='clobbered'" % n[2], '')
        return self.loop("%s in ('clobbered',)" % n[2], '')

    def w_loc(self, n):
        return "<?py %s = '%s!' ?>${%s}%s${%s}" % (n[1], n[1], n[1], self.nodes(n[2]), n[1])

    def w_blk(self, n):
        return self.wrap('block', 'name', 'body', self.nodes(n[1]))

    def func(self, name, body):
        return self.wrap('def', 'function', name + '(a)', self.nodes(body))

    def mod(self, v):
        return "<?py %%M = %r ?>" % v

    def write(self):
        t = self.t
        head = ''.join([self.mod(t['mod'])] if t['mod'] else [])
        head += ''.join(self.func(n, b) for n, b in t['funcs'])
        if t.get('extends') is not None:
            inner = head
            if t['block'] is not None:
                inner += self.w_blk([None, t['block']])
            body = '<py:extends href="%s">%s</py:extends>' % (self.name(t['extends']), inner)
        else:
            body = '<u py:strip="">%s%s</u>' % (head, self.nodes(t['main']))
        return (t['dtd'] + '\n' if t['dtd'] else '') + body


class Text(Xml):
    def tag(self, s):
        return '{%' + s + '%}'

    def cond(self, x, inner):
        return self.tag('if ' + x) + inner + self.tag('end')

    def loop(self, x, inner):
        return self.tag('for ' + x) + inner + self.tag('end')

    def w_imp(self, n):
        return self.tag('import "%s"%s' % (self.name(n[1]), ' as ' + n[2] if n[2] else ''))

    def w_inc(self, n):
        return self.tag('include "%s"' % self.name(n[1]))

    def w_el(self, n):
        return self.nodes(n[2])

    def w_clob(self, n):
        if n[1] == 'for':
            return self.loop("%s in ('clobbered',)" % n[2], '')
        return self.tag("py %s = 'clobbered'" % n[2])

    def w_loc(self, n):
        return self.tag("py %s = '%s!'" % (n[1], n[1])) + '${%s}%s${%s}' % (
            n[1], self.nodes(n[2]), n[1])

    def w_blk(self, n):
        return self.tag('block body') + self.nodes(n[1]) + self.tag('end')

    def func(self, name, body):
        return self.tag('def %s(a)' % name) + self.nodes(body) + self.tag('end')

    def mod(self, v):
        return self.tag('py %%M = %r' % v)

    def write(self):
        t = self.t
        head = ''.join([self.mod(t['mod'])] if t['mod'] else [])
        head += ''.join(self.func(n, b) for n, b in t['funcs'])
        if t.get('extends') is not None:
            if t['block'] is not None:
                head += self.w_blk([None, t['block']])
            return self.tag('extends "%s"' % self.name(t['extends'])) + head
        return head + self.nodes(t['main'])


def source(tpls, i, loader):
    return (Text if tpls[i]['kind'] == 'text' else Xml)(tpls, i, loader).write()


# --- generation ----------------------------------------------------------------

class PGen(object):
    def __init__(self, d, tpls):
        self.d, self.tpls = d, tpls

    def body(self, i, fidx, in_func, depth, aliases=None, lo=1, hi=4):
        """fidx: functions from this index on may be called."""
        d = self.d
        t = self.tpls[i]
        out = []
        aliases = dict(aliases or {})
        for _ in range(d.count(lo, hi)):
            later = self.later(i)
            opts = [('t', 3), ('v', 2)]
            if t['mod']:
                opts.append(('m', 2))
            if in_func:
                opts.append(('a', 1))
            if [f for f in t['fnames'] if FUNCS.index(f) >= fidx]:
                opts.append(('own', 3))
            if later:
                opts += [('inc', 4), ('imp', 4), ('loc', 1)]
            if aliases:
                opts.append(('use', 9))
            if not t['top']:
                opts.append(('clob', 2))
            if depth:
                opts += [('el', 2), ('if', 1), ('for', 2)]
            k = d.weighted(opts)
            if k == 't':
                out.append(['t', d.fresh('w') + ' '])
            elif k == 'v':
                out.append(['v', d.choice(('v1', 'v2', 'v3', 'v4') if t['top'] else
                                          ('v1', 'v2'))])
            elif k in ('m', 'a'):
                out.append([k])
            elif k == 'own':
                out.append(['own', d.choice(('', '', 'local.', 'self.')), d.choice(
                    [f for f in t['fnames'] if FUNCS.index(f) >= fidx]), d.fresh('x')])
            elif k == 'inc':
                out.append(['inc', d.choice(later)])
            elif k == 'imp':
                libs = [j for j in later if self.tpls[j]['fnames'] and
                        self.tpls[j].get('extends') is None]
                if not libs:
                    continue
                j = d.choice(libs)
                alias = d.choice((None, 'al1', 'al2', 'lib'))
                if alias is None and self.tpls[j]['base'] in ('v1', 'f1'):
                    alias = 'al1'
                out.append(['imp', j, alias])
                aliases[alias or self.tpls[j]['base']] = j
            elif k == 'use':
                a = d.choice(sorted(aliases))
                out.append(['use', a, d.choice(self.tpls[aliases[a]]['fnames']), d.fresh('x')])
            elif k == 'clob':
                out.append(['clob', d.choice(('py', 'for', 'with')), d.choice(
                    ('v3', 'v4', d.choice(later) and 'v3') if later else ('v3', 'v4'))])
            elif k == 'loc':
                # a local variable named like the included template
                j = d.choice(later)
                out.append(['loc', d.choice((self.tpls[j]['base'], 'q')), [['inc', j]]])
            elif k == 'el':
                out.append(['el', d.choice(('i', 'p')), [['t', '.']] +
                            self.body(i, fidx, in_func, depth - 1, aliases)])
            elif k == 'if':
                out.append(['if', d.choice(('c1', 'c2')),
                            self.body(i, fidx, in_func, depth - 1, aliases)])
            else:
                out.append(['for', self.body(i, fidx, in_func, depth - 1, aliases)])
        return out

    def later(self, i):
        return [j for j in range(i + 1, len(self.tpls)) if not self.tpls[j]['top'] and
                not self.tpls[j].get('layout')]


def no_conflict(nodes, aliases):
    return not any(n[0] == 'loc' and n[1] in aliases for n in nodes)


BASES = ('lib', 'item', 'row', 'page', 'v1', 'menu', 'nav', 'f1', 'x9', 'Lib', 'myLib2',
         'T', 'under_score', '_p')


def world(d, loader, late=True):
    """late: functions may rely on imports that their template makes when it is rendered."""
    n = d.int(2, 6)
    tops = d.int(1, 2) if n > 2 else 1
    tpls = []
    bases = d.shuffle(BASES)[:n]
    for i in range(n):
        top = i < tops
        kind = d.choice(('xml', 'xml', 'html', 'text'))
        t = {'kind': kind, 'dir': d.choice(('', '', 'sub', 'inc')), 'base': bases[i], 'top': top,
             'dtd': None, 'mod': d.fresh('M') if d.bool(30) else None,
             'fnames': [f for f in FUNCS if d.bool(40)], 'extends': None, 'block': None}
        if loader == 'mock':
            t['kind'] = kind = 'text' if kind == 'text' else 'xml'
        if kind != 'text' and loader != 'mock' and d.bool(40):
            t['dtd'] = d.choice(('<!DOCTYPE html>', '<!DOCTYPE r SYSTEM "r.dtd">'))
        tpls.append(t)
    g = PGen(d, tpls)
    # the last template may be a layout that others extend
    if n > 2 and n - 1 >= tops and d.bool(35):
        last = tpls[-1]
        last['layout'] = True
        last['dtd'] = None
        for t in tpls[tops:-1]:
            if d.bool(50) and (t['kind'] == 'text') == (last['kind'] == 'text'):
                t['extends'] = n - 1
                t['dtd'] = None
    for i, t in reversed(list(enumerate(tpls))):
        shared = {}
        libs = [j for j in g.later(i) if tpls[j]['fnames'] and tpls[j].get('extends') is None]
        if libs and t['extends'] is None and t['fnames'] and late and d.bool(40):
            # functions that rely on an import of the template, which may come late
            for a in d.shuffle(('al1', 'al2', 'lib'))[:d.int(1, 2)]:
                shared[a] = d.choice(libs)
        t['funcs'] = [[f, g.body(i, FUNCS.index(f) + 1, True, 1, shared, hi=3)]
                      for f in t['fnames']]
        if t['extends'] is not None:
            t['block'] = g.body(i, 0, False, 1) if d.bool(70) else None
            t['main'] = []
        else:
            t['main'] = g.body(i, 0, False, 2, lo=3 if t['top'] else 1, hi=7)
            for a in sorted(shared):
                # a function that does not use the alias may well run before the import
                t['main'].insert(d.int(0, 2), ['imp', shared[a], a])
            if shared:
                f = d.choice(t['fnames'])
                t['main'].append(['own', d.choice(('', 'local.', 'self.')), f, d.fresh('x')])
            if t.get('layout'):
                t['main'].insert(d.int(0, len(t['main'])), ['blk', g.body(i, 0, False, 1)])
    for t in tpls:
        del t['fnames']
    return tpls
