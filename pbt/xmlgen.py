"""Generates XML templates (see xmlmodel) that are valid by construction."""
import json
import re

from exprs import gen_expr, gen_ctx, gen_value, names_of, show_expr
from gen import HOSTILE, HOSTILE_WORDS, plain

TAGS = ('p', 'b', 'div', 'span', 'ul', 'li', 'a', 'em', 'td', 'h1', 'ns:x', 'X-y', 'section', 'pyx', 'py-z', 'python', 'Py', '_a', 'a.b', '\xe9t\xe9', 'H2')
HTML_TAGS = ('a abbr address article aside audio b bdi bdo blockquote body button canvas caption '
             'cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset '
             'figcaption figure font footer form frameset h1 h2 h3 h4 h5 h6 head header html i '
             'ins kbd label legend li main map mark menu meter nav object ol optgroup option '
             'output p picture pre progress q rp rt ruby s samp section select small span strong '
             'sub summary sup table tbody td tfoot th thead time tr u ul var video').split()
ATTRS = ('title', 'class', 'id', 'href', 'alt', 'data-x', 'lang', 'Z', 'ns:q', '_u', 'q', 'for', 'if',
         'content', 'with', 'value', 'style', 'onclick', 'src', 'py', 'pyif', 'ns:if', 'xml:lang')
NAMES = ('V', 'aB', '_v', 'v_', 'Long_Name', 'data', 'x_2_', 'forks', 'inner', 'self_')
NAME_CHARS = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.')


def static(d, prof):
    """Static text; may contain anything XML can carry."""
    k = prof.get('static', 'plain')
    if k == 'plain':
        return d.text(('a', 'b', 'x', 'T', '1', ' ', '.', '-', '\n', ','), 1, 6)
    c = d.weighted((('chars', 5), ('words', 2), ('uni', 2), ('ws', 1)))
    if c == 'chars':
        return d.text(HOSTILE, 1, 8)
    if c == 'words':
        return ''.join(d.choice(HOSTILE_WORDS) for _ in range(d.int(1, 3)))
    if c == 'ws':
        return d.text((' ', '\n', '\t', 'a', '\xa0', '\u2003'), 1, 6)
    return d.unitext(1, 8)


def swallowed(rest):
    """Would a "$name" take the beginning of this text for a part of the name?"""
    if rest[:1] == '.':
        rest = rest[1:]
        return rest[:1].isalpha() or rest[:1] == '_' or rest[:1] > '\x7f'
    return rest[:1] in NAME_CHARS or rest[:1] > '\x7f' if rest else False


def fix_parts(parts):
    """Make sure that the parts read back as they are meant."""
    out = []
    for p in parts:
        if p[0] != 's':
            out.append(list(p))
            continue
        buf, s = '', p[1]
        for i, ch in enumerate(s):
            if ch == '$' and not (i + 1 < len(s) and s[i + 1] in ' 0123456789.,;:!?<>&"\'()'):
                if buf:
                    out.append(['s', buf])
                    buf = ''
                out.append(['$'])
            else:
                buf += ch
        if buf:
            out.append(['s', buf])
    # neighbours
    for i, p in enumerate(out):
        if p[0] == 'n' and i + 1 < len(out):
            rest = ''
            for q in out[i + 1:]:
                if q[0] not in 'sr':
                    break
                rest += q[-1]
            if swallowed(rest):
                out[i] = ['e', p[1]]
    # no "<", "&" trouble: writing takes care of that
    return out


class Scope(object):
    def __init__(self, env, bound=(), funcs=(), in_def=False, cbs=(), loops=0):
        self.env, self.bound, self.funcs = dict(env), set(bound), list(funcs)
        self.in_def, self.cbs, self.loops = in_def, list(cbs), loops
        self.nested = False           # a function within a function

    def sub(self, **kw):
        s = Scope(self.env, self.bound, self.funcs, self.in_def, self.cbs, self.loops)
        s.nested = self.nested
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def bind(self, names):
        s = self.sub()
        for n, t in names:
            s.env[n] = t
            s.bound.add(n)
        return s

    def inner(self, names=(), in_def=None):
        """The scope of a function nested here."""
        s = self.sub()
        s.nested = self.in_def or in_def is None
        s.bound = set(n for n, _ in names)
        s.env.update(names)
        if in_def is not None:
            s.in_def = in_def
        return s


class Func(object):
    def __init__(self, name, params, cb=None, rec=False, star=None, rest=None, kw=None):
        self.name, self.params, self.cb, self.rec = name, params, cb, rec
        # parameters from number star on can only be given by name; rest and kw are the names
        # that take all others
        self.star, self.rest, self.kw = len(params) if star is None else star, rest, kw

    def decl(self):
        out = ['cb'] if self.cb is not None else []
        for i, (n, t, default) in enumerate(self.params):
            if i == self.star:
                out.append('*' + (self.rest or ''))
            out.append(n if default is None else '%s=%s' % (n, default))
        if self.rest and self.star == len(self.params):
            out.append('*' + self.rest)
        if self.kw:
            out.append('**' + self.kw)
        return '%s(%s)' % (self.name, ', '.join(out))


class XGen(object):
    def __init__(self, d, prof):
        self.d, self.prof = d, prof
        self.w = prof['w']
        self.left = d.choice((6, 12, 25, 50)) if prof.get('sizes') is None else \
            d.choice(prof['sizes'])
        self.pool = []

    # -- names
    def name(self, scope, prefix='v'):
        free = [n for n in self.pool if n not in scope.env]
        if free and self.d.bool(30):
            return self.d.choice(free)
        if prefix == 'v' and self.d.bool(25):
            prefix = self.d.choice(NAMES)
        n = self.d.fresh(prefix)
        self.pool.append(n)
        return n

    # -- expressions
    def expr(self, scope, t=None, depth=2):
        if t is None:
            if scope.cbs and self.d.bool(35):
                return self.cb_call(scope)
            if scope.funcs and self.d.bool(self.prof.get('calls', 25)):
                c = self.call(scope)
                if c:
                    return c
            return show_expr(self.d, scope.env, depth, self.prof.get('etext', plain))
        return gen_expr(self.d, scope.env, t, depth, self.prof.get('etext', plain))

    def cb_call(self, scope):
        name, types = self.d.choice(scope.cbs)
        return '%s(%s)' % (name, ', '.join(self.expr(scope, t, 1) for t in types))

    def args(self, scope, f):
        """Arguments for a call: positional, then by keyword."""
        d = self.d
        args = []
        by_name = False
        for i, (n, t, default) in enumerate(f.params):
            if default is not None and d.bool(50):
                by_name = True
                continue
            if i == f.star:
                if f.rest and not by_name:
                    args += [self.expr(scope, 'int', 1) for _ in range(d.int(3, 9) if d.bool(25) else d.count(0, 2))]
                by_name = True
            v = str(self.levels()) if f.rec and i == 0 else self.expr(scope, t, 1)
            if t == 'any' and d.bool(40 if default else 15):
                v = 'None'
            if by_name or d.bool(25 if default is None else 50):
                by_name = True
                args.append('%s=%s' % (n, v))
            else:
                args.append(v)
        if f.rest and not by_name and f.star == len(f.params):
            args += [self.expr(scope, 'int', 1) for _ in range(d.int(3, 9) if d.bool(25) else d.count(0, 2))]
        if f.kw and d.bool(60):
            args.append('%s_x=%s' % (f.kw, self.expr(scope, 'str', 1)))
        # keyword arguments come in any order
        k = [i for i, a in enumerate(args) if self.is_kw(a, f)]
        if len(k) > 1 and d.bool(50):
            args = args[:k[0]] + d.shuffle(args[k[0]:])
        return args

    def levels(self):
        d = self.d
        return d.weighted(((d.int(0, 3), 8), (d.choice((6, 12, 25)), 1)))

    @staticmethod
    def is_kw(a, f):
        return any(a.startswith(n + '=') and not a.startswith(n + '==') for n in [x[0] for x in f.params] +
                   ['%s_x' % f.kw])

    def call(self, scope):
        fs = [f for f in scope.funcs if f.cb is None]
        if not fs:
            return None
        f = self.d.choice(fs)
        return '%s(%s)' % (f.name, ', '.join(self.args(scope, f)))

    # -- text
    def parts(self, scope, attr=False, raw=False, lo=1, hi=3):
        d = self.d
        out = []
        for _ in range(d.count(lo, hi)):
            k = d.weighted((('s', 4), ('e', self.prof.get('pe', 4)), ('n', 1),
                            ('r', self.prof.get('pr', 0)), ('$', self.prof.get('pd', 0))))
            if k == 's':
                out.append(['s', static(d, self.prof)])
            elif k == 'e':
                e = self.expr(scope)
                out.append(['e', d.choice(('', '', ' ')) + e])
            elif k == 'n':
                n = self.dotted(scope)
                if n:
                    out.append(['n', n])
            elif k == 'r':
                out.append(list(d.choice(REFS)))
            else:
                out.append(['$'])
        out = fix_parts(out)
        if raw:
            out = [p for p in out if p[0] != 'r']
            for p in out:
                if p[0] == 'e' and (']]>' in p[1] or ']]>' in '${%s}' % p[1]):
                    p[1] = 'i0'
        return out

    def dotted(self, scope):
        d = self.d
        cand = [n for n, t in scope.env.items() if t in ('int', 'str', 'any', 'bool', 'none')]
        objs = names_of(scope.env, 'obj')
        if objs and d.bool(30):
            return d.choice(objs) + d.choice(('.name', '.n'))
        return d.choice(cand) if cand else None

    # -- nodes
    def kids(self, scope, depth, lo=0, hi=3):
        out = []
        last_text = False
        for _ in range(self.d.count(lo, hi)):
            if self.left <= 0:
                break
            for n in self.node(scope, depth):
                if n['t'] == 'text' and not self.prof.get('probe'):
                    if last_text or not n['p']:
                        continue
                    last_text = True
                else:
                    last_text = False
                out.append(n)
        return out

    def node(self, scope, depth):
        """A list of adjacent nodes."""
        d = self.d
        self.left -= 1
        w = self.w
        kinds = [('text', w.get('text', 6)), ('el', w.get('el', 4))]
        if depth > 0:
            for k in ('if', 'ifelse', 'for', 'switch', 'with', 'call', 'innerdef', 'replace',
                      'block'):
                if k == 'call' and not [f for f in scope.funcs if f.cb is not None]:
                    continue
                if k == 'innerdef' and not scope.in_def:
                    continue
                if k == 'for' and scope.loops >= 3:
                    continue
                if k == 'block' and (scope.in_def or scope.bound or scope.cbs):
                    continue
                if w.get(k):
                    kinds.append((k, w[k]))
        for k in ('comment', 'cdata', 'py', 'script', 'nop'):
            if w.get(k):
                kinds.append((k, w[k]))
        return getattr(self, 'g_' + d.weighted(kinds))(scope, depth - 1)

    def g_text(self, scope, depth):
        return [{'t': 'text', 'p': self.parts(scope)}]

    def g_comment(self, scope, depth):
        return [{'t': 'comment', 's': self.comment_text()}]

    def comment_text(self):
        d = self.d
        s = d.choice(('', '!')) + d.text(('a', ' ', '<', '&', '>', '$', '{', '\n', 'b', '-', '!',
                                          '"', '%', '\xe9'), 0, 6)
        while '--' in s:
            s = s.replace('--', '-')
        return s.rstrip('-')

    def g_cdata(self, scope, depth):
        # a function may render elements and CDATA sections of its own
        p = self.parts(scope.sub(funcs=[], cbs=[]), raw=True)
        for q in p:
            if q[0] == 's':
                q[1] = q[1].replace(']]>', ']]').replace('\r', '')
        p = fix_parts([q for q in p if q[0] != 's' or q[1]])
        if self.ends_cdata(p):
            p = [['s', 'x']]
        return [{'t': 'cdata', 'p': p or [['s', 'x']]}]

    @staticmethod
    def ends_cdata(p):
        from xmlmodel import write_parts
        return ']]>' in write_parts(p, raw=True)

    def g_py(self, scope, depth):
        # its variable is not used: see pycode for code blocks proper
        e = self.expr(scope, self.d.choice(('int', 'str', 'ints')), 1).replace('?>', '? >')
        return [{'t': 'py', 'code': ' %s = %s ' % (self.d.fresh('u'), e)}]

    def g_nop(self, scope, depth):
        return [{'t': 'dir', 'd': 'nop', 'v': None, 'kids': self.kids(scope, depth)}]

    def g_script(self, scope, depth):
        d = self.d
        # a function may render elements and CDATA sections of its own
        p = self.parts(scope.sub(funcs=[], cbs=[]), raw=True)
        for q in p:
            if q[0] == 's':
                q[1] = q[1].replace('\r', '')
        p = fix_parts([q for q in p if q[0] != 's' or q[1]])
        attrs = []
        if self.prof.get('attrs') and d.bool(30):
            attrs = [[d.choice(('type', 'media', 'id')), d.choice((
                [['s', 'text/x']], [], [['e', 'None']], [['e', '1']]))]]
        return [{'t': 'el', 'tag': d.choice(('script', 'style')), 'attrs': attrs, 'dirs': {},
                 'kids': [{'t': 'text', 'p': p}] if p else []}]

    # directives in element or attribute form
    def wrap(self, scope, depth, d_, v, kids_scope, extra=None, node_extra=None):
        """The directive around some content, in either form."""
        d = self.d
        if d.bool(50):
            n = self.element(kids_scope, depth, dirs={d_: v}, outer=d_)
        else:
            n = {'t': 'dir', 'd': d_, 'v': v, 'kids': self.kids(kids_scope, depth, 0, 3)}
            if not n['kids'] and d.bool(30):
                n['self'] = True
        n.update(node_extra or {})
        return n

    def g_if(self, scope, depth):
        return [self.wrap(scope, depth, 'if', self.expr(scope, self.truthy()), scope.sub())]

    def truthy(self):
        return self.d.weighted((('bool', 6), ('int', 1), ('str', 1), ('ints', 1), ('any', 1)))

    def g_ifelse(self, scope, depth):
        a = self.wrap(scope, depth, 'if', self.expr(scope, self.truthy()), scope.sub())
        b = self.wrap(scope, depth, 'else', '', scope.sub())
        return [a, b]

    def g_for(self, scope, depth):
        target, seq, names = self.loop(scope)
        s = scope.bind(names)
        s.loops += 1
        return [self.wrap(scope, depth, 'for', '%s in %s' % (target, seq), s)]

    def loop(self, scope):
        d = self.d
        k = d.weighted((('ints', 4), ('strs', 2), ('pairs', 2), ('enum', 1), ('dict', 1), ('bare', 1)))
        a = self.name(scope)
        if k == 'bare':
            # a tuple without parentheses
            t = d.choice(('int', 'str'))
            items = [self.expr(scope, t, 1) for _ in range(d.int(1, 3))]
            items = ['(%s)' % x if ' if ' in x or 'lambda' in x else x for x in items]
            return a, ', '.join(items) + (',' if len(items) == 1 or d.bool(30) else ''), [(a, t)]
        if k in ('ints', 'strs'):
            return a, self.expr(scope, k, 1), [(a, 'int' if k == 'ints' else 'str')]
        if k == 'dict':
            return a, 'sorted(%s)' % self.expr(scope, 'dict', 1), [(a, 'str')]
        b = self.d.fresh('v')
        if k == 'pairs':
            return (d.choice(('%s, %s', '(%s, %s)')) % (a, b), self.expr(scope, 'pairs', 1),
                    [(a, 'int'), (b, 'str')])
        c = self.d.fresh('v')
        return ('%s, (%s, %s)' % (a, b, c), 'enumerate(%s)' % self.expr(scope, 'pairs', 1),
                [(a, 'int'), (b, 'int'), (c, 'str')])

    def g_switch(self, scope, depth):
        d = self.d
        t = d.choice(('int', 'str', 'bool', 'any'))
        v = self.expr(scope, t, 1)
        kids = []
        for _ in range(d.count(0, 3)):
            c = v if d.bool(25) else self.expr(scope, t, 1)
            kids.append(self.wrap(scope, depth, 'case', c, scope.sub()))
        if d.bool(60):
            kids.append(self.wrap(scope, depth, 'else', '', scope.sub()))
        out = []
        for k in kids:
            if d.bool(40):
                out.append({'t': 'text', 'p': [['s', d.choice(('\n', ' ', '\n  '))]]})
            out.append(k)
        return [{'t': 'switch', 'v': v, 'kids': out}]

    def with_vars(self, scope, lo=1):
        """Assignments; later ones see earlier ones. Returns (pairs, scope)."""
        d = self.d
        s = scope.sub()
        pairs = []
        for _ in range(d.int(4, 7) if d.bool(8) else d.count(lo, 3)):
            again = [n for n in s.bound if s.env.get(n) in ('int', 'str', 'bool', 'ints')]
            if again and d.bool(45):
                n = d.choice(sorted(again))
                t = s.env[n]
            else:
                # context variables not read so far in this function
                ctx = [x for x in self.prof.get('ctxnames', ())
                       if x not in s.env and not s.nested]         # see known-findings.txt
                if ctx and d.bool(30):
                    n = d.choice(ctx)
                    t = self.ctxtypes[n]
                else:
                    n = self.name(s)
                    t = d.choice(('int', 'str', 'bool', 'ints'))
            e = self.with_expr(s, t)
            pairs.append([n, e])
            s = s.bind([(n, t)])
        return pairs, s

    def with_expr(self, s, t):
        e = self.expr(s, t)
        if any(re.match(r'[^;=]+=(?!=)', x) for x in e.split(';')[1:]):
            e = self.expr(s, t, 0)    # see known-findings.txt
            if ';' in e:
                e = {'int': '7', 'str': "'q'", 'bool': 'True', 'ints': '[1]'}[t]
        return e

    def with_src(self, pairs):
        d = self.d
        out = ''
        for i, (n, e) in enumerate(pairs):
            if i:
                out += d.choice((';', '; ', ' ; ', ';\n'))
            out += n + d.choice(('=', ' = ', '= ')) + e
        if d.bool(10):
            out += ' '
        return out

    def g_with(self, scope, depth):
        pairs, s = self.with_vars(scope)
        n = self.wrap(scope, depth, 'with', self.with_src(pairs), s, node_extra={'vars': pairs})
        if not self.prof.get('probe'):
            return [n]
        inside = [['s', '['], ['e', pairs[-1][0]], ['s', ']']]
        n['kids'].insert(free_slot(self.d, n['kids']), {'t': 'text', 'p': inside})
        after = [['s', '{']]
        for name, _ in pairs:
            if name in self.prof.get('ctxnames', ()) and name not in scope.env:
                scope.env[name] = self.ctxtypes[name]
                scope.bound.add(name)
            if name in scope.env:
                after += [['e', name], ['s', '|']]
        return [n, {'t': 'text', 'p': after + [['s', '}']]}]

    def g_replace(self, scope, depth):
        return [self.wrap(scope, depth, 'replace', self.expr(scope), scope.sub())]

    def g_block(self, scope, depth):
        n = self.d.fresh('blk')
        # a block is a function of the template: it sees the context
        s = Scope(self.ctx_env, (), scope.funcs)
        return [self.wrap(scope, depth, 'block', n, s)]

    def g_call(self, scope, depth):
        f = self.d.choice([f for f in scope.funcs if f.cb is not None])
        names = [(self.d.fresh('c'), t) for t in f.cb]
        s = scope.inner(names)
        args = self.args(scope, f)
        if f.params and args and any(self.is_kw(a, f) for a in args) and self.d.bool(50):
            args.append('cb=%caller')
            v = '%s(%s)' % (f.name, ', '.join(a for a in args)) \
                if all(self.is_kw(a, f) for a in args[:-1]) else \
                '%s(%s)' % (f.name, ', '.join(['%caller'] + args[:-1]))
        else:
            v = '%s(%s)' % (f.name, ', '.join(['%caller'] + args))
        if self.d.bool(12):
            # the body by its name more than once
            v = self.d.choice(('%s if %%caller else None', '[%%caller, %s][1]',
                               '%s if [%%caller, %%caller] else 0')) % v
        if not names and self.d.bool(50):
            n = self.element(s, depth, dirs={'call': v}, outer='call')
        else:
            n = {'t': 'dir', 'd': 'call', 'v': v, 'kids': self.kids(s, depth, 1, 3)}
            if names:
                n['args'] = ', '.join(x for x, _ in names)
        if self.d.bool(50):
            key = n['dirs'] if n['t'] == 'el' else n
            k = 'call' if n['t'] == 'el' else 'v'
            key[k] = key[k].replace('%caller', '$caller')
        return [n]

    def signature(self, scope, name, cb_ok=True, rec_ok=True, const=True):
        d = self.d
        rec = rec_ok and d.bool(20)
        params = [('n', 'int', None)] if rec else []
        defaults = False
        for _ in range(d.int(4, 8) if d.bool(6) else d.count(0, 3)):
            t = d.choice(('int', 'str', 'any', 'any', 'ints', 'bool'))
            default = None
            if defaults or d.bool(35):
                defaults = True
                default = {'int': str(d.int(0, 9)), 'str': repr(plain(d)), 'any': d.choice(('None', '7', "'D'")),
                           'ints': '(1, 2)', 'bool': 'True'}[t]
            params.append((d.fresh('a'), t, default))
        cb = None
        if cb_ok and not rec and d.bool(30):
            cb = [d.choice(('int', 'str')) for _ in range(d.count(0, 2))]
        star = rest = kw = None
        if d.bool(15):
            star = d.int(1 if rec else 0, len(params))
        if d.bool(12) and (star is not None or all(x[2] is None for x in params)):
            rest = d.fresh('r')
        if star == len(params) and not rest:
            star = None
        if d.bool(12):
            kw = d.fresh('k')
        return Func(name, params, cb, rec, star, rest, kw)

    def body(self, f, scope, depth):
        """Content of a function; its last part may recurse."""
        d = self.d
        kids = self.kids(scope, depth, 1, 3)
        shown = [n for n, t, v in f.params if t in ('int', 'str', 'any') and n != 'n']
        if shown and d.bool(40):
            # its parameters, as they are
            kids.insert(free_slot(d, kids), {'t': 'text', 'p': sum(
                [[['s', '['], ['e', n], ['s', ']']] for n in shown], [])})
        if f.rec:
            rest = ['n - 1'] + [n if i < f.star else '%s=%s' % (n, n)
                                for i, (n, _, _) in enumerate(f.params) if i]
            kids.insert(d.int(0, len(kids)), {
                't': 'dir', 'd': 'if', 'v': 'n > 0', 'kids': [
                    {'t': 'text', 'p': [['s', '('], ['e', '%s(%s)' % (f.name, ', '.join(rest))],
                                        ['s', ')']]}]})
        return kids

    def fn_node(self, f, scope, depth):
        d = self.d
        names = [(n, t) for n, t, _ in f.params]
        names += [(n, 'any') for n in (f.rest, f.kw) if n]
        s = scope.inner(names, in_def=True)
        s.loops = 1
        if f.cb is not None:
            s.cbs = s.cbs + [('cb', f.cb)]
            s.env.pop('cb', None)
        if d.bool(40) and not f.rec:
            return self.element(s, depth, dirs={'def': f.decl()}, outer='def')
        kids = merge_text(self.body(f, s, depth))
        return {'t': 'dir', 'd': 'def', 'v': f.decl(), 'kids': kids}

    def g_innerdef(self, scope, depth):
        f = self.signature(scope, self.d.fresh('g'), cb_ok=not scope.cbs)
        node = self.fn_node(f, scope, depth)
        scope.funcs.append(f)
        return [node] + (self.one_call(scope, f) if self.d.bool(60) else [])

    def one_call(self, scope, f):
        if f.cb is None:
            return [{'t': 'text', 'p': [['s', '='], ['e', '%s(%s)' % (
                f.name, ', '.join(self.args(scope, f)))], ['s', '=']]}]
        return self.g_call(scope.sub(funcs=[f]), 0) if self.w.get('call') else []

    def g_el(self, scope, depth):
        return [self.element(scope, depth)]

    def element(self, scope, depth, dirs=None, outer=None, tag=None, kids=True):
        """An element, possibly with more directives on it."""
        d = self.d
        prof = self.prof
        n = {'t': 'el', 'tag': tag or d.choice(prof.get('tags') or (
            HTML_TAGS if d.bool(10) else TAGS)), 'attrs': [],
             'dirs': dict(dirs or {}), 'kids': []}
        s = scope
        have = n['dirs']
        more = prof.get('combo', 0)
        if more and depth > 0:
            if 'for' not in have and s.loops < 3 and outer in (None, 'def', 'call', 'case', 'else') \
                    and self.w.get('for') and d.bool(more):
                target, seq, names = self.loop(s)
                have['for'] = '%s in %s' % (target, seq)
                s = s.bind(names)
                s.loops += 1
            if 'if' not in have and outer in (None, 'def', 'call', 'case', 'else', 'for') \
                    and self.w.get('if') and d.bool(more):
                have['if'] = self.expr(s, self.truthy())
            if 'with' not in have and outer not in ('replace', 'block') \
                    and self.w.get('with') and d.bool(more):
                pairs, s = self.with_vars(s)
                have['with'] = self.with_src(pairs)
                n['vars'] = pairs
            if 'replace' not in have and outer != 'block' and self.w.get('replace') \
                    and d.bool(more // 2):
                have['replace'] = self.expr(s)
        if have:
            s = s.sub()     # what is defined inside may not always be
        if prof.get('strip') and d.bool(prof['strip']):
            n['strip'] = d.choice(('', 'e'))
            if n['strip']:
                n['strip'] = self.expr(s, self.truthy())
        if prof.get('attrs') and d.bool(prof['attrs']):
            names = d.shuffle(prof.get('attr_names', ATTRS))[:d.int(1, 3)]
            for a in names:
                n['attrs'].append([a, self.attr_parts(s)])
        if prof.get('pattrs') and d.bool(prof['pattrs']):
            n['pattrs'] = self.pattrs(s, [a for a, _ in n['attrs']])
        if prof.get('content') and d.bool(prof['content']):
            n['content'] = self.expr(s)
        if n.get('content') is not None or 'replace' in (n.get('dirs') or {}):
            s = s.sub()     # the children are never run
        if kids and depth > 0 and self.left > 0:
            n['kids'] = self.kids(s, depth, 0, 3)
        elif kids and d.bool(60):
            n['kids'] = [{'t': 'text', 'p': self.parts(s)}]
            if not n['kids'][0]['p']:
                n['kids'] = []
        sty = {}
        if d.bool(30):
            sty['q'] = "'"
        if d.bool(20):
            sty['sp'] = d.choice(('  ', '\n', '\t'))
        if d.bool(10):
            sty['end'] = ' '
        if d.bool(30):
            sty['self'] = False
        k = len(n['attrs']) + len(have) + sum(n.get(x) is not None
                                              for x in ('strip', 'pattrs', 'content'))
        if k > 1 and d.bool(60):
            sty['order'] = d.shuffle(range(k))
        n['sty'] = sty
        return n

    def attr_parts(self, s):
        d = self.d
        if self.prof.get('no_attr_calls'):
            s = s.sub(funcs=[], cbs=[])
        k = d.weighted((('expr', 4), ('mix', 4), ('empty', 1), ('none', 1)))
        if k == 'expr':
            return [['e', self.expr(s)]]
        if k == 'empty':
            return []
        if k == 'none':
            return [['e', d.choice(['None'] + names_of(s.env, 'any'))]]
        p = self.parts(s, attr=True)
        return p

    def pattrs(self, s, have):
        """An expression for py:attrs with names not among the attributes."""
        d = self.d
        names = [a for a in ('title', 'class', 'id', 'checked', 'disabled', 'zed', 'data-y',
                             'A', 'selected', 'multiple', 'Zed', 'M', 'dat-A', 'x_y') if a not in have]
        if self.prof.get('fold'):
            names = [a for a in names if a != 'Zed']         # as HTML does not tell them apart
        items = []
        for a in d.shuffle(names)[:d.int(0, 4)]:
            if a in ('checked', 'disabled', 'selected', 'multiple'):
                v = d.choice(('True', 'False', 'None', "'x'", self.expr(s, 'bool', 1), '1', '0'))
            else:
                v = d.choice(('None', "''")) if d.bool(25) else self.expr(s, d.choice(
                    ('str', 'int', 'any')), 1)
                fs = [f for f in s.funcs if f.cb is None]
                if fs and self.prof.get('pattr_calls', True) and not self.prof.get(
                        'no_attr_calls') and d.bool(20):
                    f = d.choice(fs)
                    v = '%s(%s)' % (f.name, ', '.join(self.args(s, f)))
            items.append((a, v))
        k = d.choice(('dict', 'pairs', 'dict', 'none', 'dictcall'))
        if k == 'none' and d.bool(60):
            return 'None'
        if k == 'pairs':
            return '[%s]' % ', '.join('(%r, %s)' % kv for kv in items)
        if k == 'dictcall' and all(a.isidentifier() and a != 'class' for a, _ in items):
            return 'dict(%s)' % ', '.join('%s=%s' % kv for kv in items)
        return '{%s}' % ', '.join('%r: %s' % kv for kv in items)


REFS = (['r', '&amp;', '&'], ['r', '&lt;', '<'], ['r', '&gt;', '>'], ['r', '&quot;', '"'],
        ['r', '&apos;', "'"], ['r', '&#65;', 'A'], ['r', '&#x20ac;', '\u20ac'],
        ['r', '&nbsp;', '\xa0'], ['r', '&eacute;', '\xe9'], ['r', '&hellip;', '\u2026'],
        ['r', '&#9;', '\t'], ['r', '&copy;', '\xa9'])


def merge_text(kids):
    """Adjacent text nodes read back as one."""
    out = []
    for k in kids:
        if k['t'] == 'text' and out and out[-1]['t'] == 'text':
            out[-1] = {'t': 'text', 'p': fix_parts(out[-1]['p'] + k['p'])}
        elif k['t'] == 'text' and not k['p']:
            continue
        else:
            out.append(k)
    return out


def fix_doc(n):
    """Merge adjacent text everywhere; neighbours may have been inserted."""
    if 'kids' in n and n['t'] != 'switch':
        n['kids'] = merge_text(n['kids'])
    for k in n.get('kids', ()):
        fix_doc(k)
    return n


def placeable(n, out):
    """Elements whose content is always part of the template."""
    if n['t'] == 'el' and not n.get('dirs') and n.get('content') is None and \
            n['tag'] not in ('script', 'style'):
        out.append(n)
        for k in n['kids']:
            placeable(k, out)
    elif n['t'] == 'dir' and n['d'] == 'nop':
        for k in n['kids']:
            placeable(k, out)
    return out


def gen_doc(d, prof):
    """Returns {"doc": ..., "ctx": ...}."""
    env, ctx = gen_ctx(d, prof.get('ctext', plain))
    g = XGen(d, prof)
    g.ctx_env = env
    g.ctxtypes = {}
    for n in prof.get('ctxnames', ()):
        t = d.choice(('int', 'str', 'bool', 'ints'))
        g.ctxtypes[n] = t
        ctx[n] = gen_value(d, t, prof.get('ctext', plain))
    funcs, nodes = [], []
    for _ in range(d.count(prof.get('minfuncs', 0), prof.get('funcs', 0))):
        s = Scope(env, (), list(funcs))
        f = g.signature(s, d.fresh('f'))
        nodes.append(g.fn_node(f, s, prof.get('depth', 3) - 1))
        funcs.append(f)
    s = Scope(env, (), funcs)
    root = g.element(s, 0, tag=prof.get('root', 'root'), kids=False)
    for k in ('strip', 'content'):
        root.pop(k, None)
    root['sty'].pop('order', None)
    root['kids'] = g.kids(s, prof.get('depth', 3), 2, 6)
    have = json.dumps([root['kids'], root['attrs']])
    for f in funcs:
        if not re.search(r'\b%s\(' % f.name, have) and d.bool(75):
            for n in g.one_call(Scope(env, (), funcs), f):
                root['kids'].insert(free_slot(d, root['kids']), n)
    for n in nodes:
        places = placeable(root, [])
        p = d.choice(places)
        p['kids'].insert(free_slot(d, p['kids']), n)
    return {'doc': {'root': fix_doc(root)}, 'ctx': ctx}


def free_slot(d, kids):
    """An index that does not separate a py:else from its py:if."""
    ok = [i for i in range(len(kids) + 1) if i == len(kids) or not is_else(kids[i])]
    return d.choice(ok)


def is_else(n):
    return n.get('d') == 'else' or 'else' in (n.get('dirs') or {})


def count(n, out=None):
    """How often each construct occurs."""
    out = {} if out is None else out
    t = n['t']
    if t == 'dir':
        t = n['d']
        out[t] = out.get(t, 0) + 1
    elif t == 'el':
        for k in n.get('dirs') or ():
            out[k] = out.get(k, 0) + 1
        for k in ('strip', 'pattrs', 'content'):
            if n.get(k) is not None:
                out[k] = out.get(k, 0) + 1
        if n.get('attrs'):
            out['attrs'] = out.get('attrs', 0) + 1
    out[n['t']] = out.get(n['t'], 0) + 1
    for k in n.get('kids', ()):
        count(k, out)
    return out
