import builtins

from core import Scenario, Violation, ok
from exprs import ODD_NAMES, gen_ctx, gen_expr
from gen import plain
from pycode import gen_block, layout
from values import decode
from xmlgen import Scope, XGen, fix_doc, free_slot, placeable, count
from xmlmodel import Flat, Model, TooBig, show, write_doc
from exact import compare

PROF = {'w': {'text': 6, 'el': 3, 'if': 2, 'for': 3, 'with': 1, 'code': 7}, 'depth': 3,
        'combo': 5, 'calls': 40, 'sizes': (12, 25, 40)}


class CGen(XGen):
    def node(self, scope, depth):
        if self.d.bool(25):
            self.left -= 1
            return self.g_code(scope, depth)
        if self.d.bool(15):
            e = self.d.choice(self.odd) if self.odd and self.d.bool() else self.builtin(scope)
            return [{'t': 'text', 'p': [['s', '('], ['e', e], ['s', ')']]}]
        if self.d.bool(15):
            own = sorted(n for n in scope.bound if scope.env.get(n) in ('int', 'str', 'log'))
            if own:
                return [{'t': 'text', 'p': [['s', ' '], ['e', self.d.choice(own)], ['s', ' ']]}]
        return XGen.node(self, scope, depth)

    def g_code(self, scope, depth):
        d = self.d
        lines = gen_block(d, scope, lambda: d.fresh('p'))
        return [{'t': 'py', 'code': layout(d, lines), 'plain': '\n'.join(lines) + '\n'}]

    def builtin(self, scope):
        """defined() and value_of() for names that exist globally or nowhere."""
        d = self.d
        n = d.choice(self.known + ['nope', 'missing', 'x_y'])
        k = d.choice(('defined', 'value_of', 'value_of2', 'not'))
        if k == 'defined':
            return 'defined(%r)' % n
        if k == 'not':
            return "'yes' if defined(%r) else 'no'" % n
        if n in self.opaque:
            return 'value_of(%r) is None' % n
        if k == 'value_of':
            return 'value_of(%r)' % n
        return 'value_of(%r, %s)' % (n, self.expr(scope, 'str', 0))


def gen(d):
    env, ctx = gen_ctx(d, plain)
    g = CGen(d, PROF)
    # names of the loader's globals, some of them hidden by the context
    base = {}
    for n in d.subset(('i0', 's0', 'bg1', 'bg2'), 50):
        base[n] = 'base-' + n if n != 'i0' else 77
        env.setdefault(n, 'str')
    odd = sorted(set(ctx) & set(ODD_NAMES))
    g.known = ['i0', 's1', 'a0'] + sorted(base) + odd
    g.odd = odd
    g.opaque = set()
    # module-level code: sees only itself
    mod, modenv, modlines = [], Scope({}), []
    names = []

    def mname():
        # sometimes a name the context has as well
        n = d.fresh('m')
        names.append(n)
        return n
    for _ in range(d.count(0, 2)):
        lines = gen_block(d, modenv, mname)
        mod.append({'t': 'py', 'code': ' %' + mod_layout(d, lines),
                    'plain': '\n'.join(lines) + '\n'})
    for n, t in modenv.env.items():
        env[n] = t
    if mod and d.bool(30):
        # hidden by what the template's own module has
        for n in d.subset(sorted(modenv.env), 50):
            base[n] = 'base-' + n
    if mod and d.bool(40):
        n = d.choice(sorted(modenv.env))
        ctx[n] = 'ctx-' + n
        env[n] = 'str'
    if mod:
        g.known += sorted(modenv.env)[:2]
    funcs, nodes = [], []
    for _ in range(d.count(0, 2)):
        s = Scope(env, (), list(funcs))
        f = g.signature(s, d.fresh('f'), cb_ok=False)
        nodes.append(g.fn_node(f, s, 2))
        funcs.append(f)
        g.known.append(f.name)
        g.opaque.add(f.name)
    s = Scope(env, (), funcs)
    pre = []
    if d.bool(25):
        pre = g.g_code(s, 1)
    root = {'t': 'el', 'tag': 'r', 'attrs': [], 'dirs': {}, 'kids': g.kids(s, 3, 2, 6)}
    for n in nodes + mod:
        # module code keeps its order
        p = d.choice(placeable(root, [])) if n in nodes else root
        p['kids'].insert(free_slot(d, p['kids']) if n in nodes else 0, n)
    if len(mod) == 2:
        i, j = [k for k, n in enumerate(root['kids']) if n in mod][:2]
        root['kids'][i], root['kids'][j] = mod[0], mod[1]
    return {'doc': {'root': fix_doc(root), 'pre': pre}, 'ctx': ctx, 'base': base}


def mod_layout(d, lines):
    k = d.choice(('flush', 'next', 'hash'))
    if k == 'flush' and not lines[0].startswith('#'):
        return '\n'.join(lines) + '\n'
    if k == 'hash':
        ind = d.choice(('', '  ', '    '))
        return '#\n' + '\n'.join(ind + x if x else x for x in lines) + '\n'
    ind = d.choice(('', '    '))
    return '\n' + '\n'.join(ind + x if x else x for x in lines) + '\n'


def check(case, w, lab):
    src = write_doc(case['doc'])
    try:
        m = Model(case['doc'], case['ctx'], globals_=case['base'])
        want = m.main()
    except (TooBig, RecursionError):
        return False
    render = {'op': 'render', 'tpl': 't', 'ctx': case['ctx']}
    r = w.call([{'op': 'xml', 'id': 't', 'source': src, 'opts': {'base_globals': case['base']}},
                render, render])
    ok(r[0], 'compiling', source=src)
    for i in (1, 2):
        got = ok(r[i], 'rendering', source=src)
        if got != want:
            raise Violation('rendering number %d differs from what the code says' % i, source=src,
                            expected=want, got=got)
    c = count(case['doc']['root'])
    for k in c:
        lab(k)
    if case['base']:
        lab('base globals')
    return c.get('py', 0) >= 1


# --- text templates --------------------------------------------------------

def gen_text(d):
    env, ctx = gen_ctx(d, plain)
    base = {}
    for n in d.subset(('i0', 's0', 'bg1'), 50):
        base[n] = 'base-' + n if n != 'i0' else 77
        env.setdefault(n, 'str')
    items = []
    modenv = Scope({})
    for _ in range(d.count(0, 2)):
        items.append(['mod', gen_block(d, modenv, lambda: d.fresh('m')),
                      d.choice(('line', 'brace', 'indent', 'flush'))])
    env.update(modenv.env)
    if modenv.env and d.bool(30):
        for n in d.subset(sorted(modenv.env), 50):
            base[n] = 'base-' + n
    s = Scope(env)
    for _ in range(d.count(2, 7)):
        k = d.weighted((('code', 4), ('show', 4), ('builtin', 2), ('one', 2)))
        if k == 'code':
            items.append(['code', gen_block(d, s, lambda: d.fresh('p')),
                          d.choice(('line', 'brace', 'indent', 'flush'))])
        elif k == 'one':
            n = d.fresh('p')
            t = d.choice(('int', 'str'))
            items.append(['one', '%s = %s' % (n, gen_expr(d, s.env, t, 1, plain)),
                          d.choice(('line', 'brace'))])
            s.env[n] = t
            s.bound.add(n)
        elif k == 'builtin':
            n = d.choice(['i0', 's1', 'a0', 'nope'] + [b for b in sorted(base)
                                                       if b not in modenv.env])
            items.append(['show', d.choice(('defined(%r)' % n, 'value_of(%r, 5)' % n,
                                            'value_of(%r)' % n))])
        else:
            own = sorted(n for n in s.bound if s.env.get(n) in ('int', 'str', 'log'))
            items.append(['show', d.choice(own) if own and d.bool(70)
                          else gen_expr(d, s.env, 'str', 1, plain)])
    return {'items': items, 'ctx': ctx, 'base': base}


def text_source(items):
    out = []
    for it in items:
        k = it[0]
        if k == 'show':
            out.append('=${%s}=\n' % it[1])
        elif k == 'one':
            out.append('%%py %s\n' % it[1] if it[2] == 'line' else '{%%py %s %%}\n' % it[1])
        else:
            lines = it[1]
            ind = '    ' if it[2] in ('indent', 'brace') else ''
            body = ''.join(ind + x + '\n' for x in lines)
            pc = '%' if k == 'mod' else ''
            if it[2] == 'brace':
                out.append('{%%py%s%%}\n%s{%%end%%}\n' % (pc, body))
            elif it[2] == 'flush':
                out.append('{%%py%s%%}\\\n%s{%%end%%}\n' % (pc, body))
            else:
                out.append('%%py%s\n%s%%end\n' % (pc, body))
    return ''.join(out)


def check_text(case, w, lab):
    src = text_source(case['items'])
    # text templates insert values unchanged
    mod = {}
    for it in case['items']:
        if it[0] == 'mod':
            exec('\n'.join(it[1]), mod)
    g = dict(case['base'])
    g.update(mod)
    ctx = decode(case['ctx'], Flat)
    g.update(ctx)
    glob = dict(g)
    g['defined'] = lambda n: n in glob
    g['value_of'] = lambda n, default=None: glob.get(n, default)
    want = ''
    for it in case['items']:
        if it[0] == 'show':
            want += '=%s=\n' % show(eval(it[1], g), False)
        elif it[0] == 'one':
            exec(it[1], g)
            want += '' if it[2] == 'line' else '\n'
        elif it[0] == 'code':
            exec('\n'.join(it[1]), g)
            want += '\n' if it[2] in ('brace', 'flush') else ''
        else:
            want += '\n' if it[2] in ('brace', 'flush') else ''
    render = {'op': 'render', 'tpl': 't', 'ctx': case['ctx']}
    r = w.call([{'op': 'text', 'id': 't', 'source': src, 'opts': {'base_globals': case['base']}},
                render, render])
    ok(r[0], 'compiling', source=src)
    for i in (1, 2):
        got = ok(r[i], 'rendering', source=src)
        if got != want:
            raise Violation('rendering number %d differs from what the code says' % i, source=src,
                            expected=want, got=got)
    for it in case['items']:
        lab('text ' + it[0])
    return any(it[0] != 'show' for it in case['items'])


# --- templates that share their globals ----------------------------------------------

POOL = ('n0', 'n1', 'n2', 'n3')


def gen_shared(d):
    tpls = []
    for i in range(d.int(2, 4)):
        tpls.append({'kind': d.choice(('xml', 'text')), 'mod': d.subset(POOL, 35),
                     'code': d.subset(POOL, 15)})
    return {'loader': d.bool(40), 'base': dict((n, d.fresh('B')) for n in d.subset(POOL, 45)),
            'tpls': tpls,
            'runs': [[d.int(0, len(tpls) - 1),
                      dict((n, d.fresh('C')) for n in d.subset(POOL, 20))]
                     for _ in range(d.int(2, 6))]}


def shared_source(i, t):
    text = t['kind'] == 'text'
    out = ''
    if t['mod']:
        code = '\n'.join("%s = 'M%d%s'" % (n, i, n) for n in t['mod'])
        out += ('%%py %%\n%s\n%%end\n' if text else '<?py %%\n%s\n?>') % code
    for n in t['code']:
        out += ("%%py %s = 'L%d%s'\n" if text else "<?py %s = 'L%d%s' ?>") % (n, i, n)
    for n in POOL:
        if n in t['code']:
            out += '[${%s}]' % n
        else:
            out += "[${defined('%s')} ${value_of('%s', 'none')}]" % (n, n)
    return out if text else '<r>%s</r>' % out


def check_shared(case, w, lab):
    """Templates that are compiled with the same globals do not see each other's names."""
    steps = [{'op': 'value', 'id': 'g', 'value': case['base']}, {'op': 'snapshot', 'id': 'g'}]
    if case['loader']:
        for i, t in enumerate(case['tpls']):
            steps.append({'op': 'write', 'path': 'd/t%d.%s' % (i, t['kind'].replace('text', 'txt')),
                          'text': shared_source(i, t)})
        steps.append({'op': 'fileloader', 'id': 'L', 'path': 'd', 'opts': {'base_globals_ref': 'g'}})
        for i, t in enumerate(case['tpls']):
            steps.append({'op': 'load', 'loader': 'L', 'id': 't%d' % i,
                          'name': 't%d.%s' % (i, t['kind'].replace('text', 'txt'))})
    else:
        for i, t in enumerate(case['tpls']):
            steps.append({'op': t['kind'], 'id': 't%d' % i, 'source': shared_source(i, t),
                          'opts': {'base_globals_ref': 'g'}})
    first = len(steps)
    for i, ctx in case['runs']:
        steps.append({'op': 'render', 'tpl': 't%d' % i, 'ctx': ctx})
    steps.append({'op': 'snapshot', 'id': 'g'})
    res = w.call(steps)
    for r in res[:first]:
        ok(r, 'setting up')
    for (i, ctx), r in zip(case['runs'], res[first:]):
        t = case['tpls'][i]
        want = ''
        for n in POOL:
            if n in t['code']:
                want += '[L%d%s]' % (i, n)
                continue
            v = ctx.get(n) or ('M%d%s' % (i, n) if n in t['mod'] else case['base'].get(n))
            want += '[True %s]' % v if v else '[False none]'
        if t['kind'] == 'xml':
            want = '<r>%s</r>' % want
        got = ok(r, 'rendering', source=shared_source(i, t))
        if got != want:
            raise Violation('a name has another value than the template says', ctx=ctx,
                            source=shared_source(i, t), expected=want, got=got)
    if res[1]['v'] != res[-1]['v']:
        raise Violation('the globals given to the template were modified', before=res[1]['v'],
                        after=res[-1]['v'])
    lab('shared by loader' if case['loader'] else 'shared')
    return any(t['mod'] for t in case['tpls'])


# --- every name is the template's to use ------------------------------------------------

BUILTINS = [n for n in dir(builtins) if n[0] != '_' and n not in ('None', 'True', 'False', 'locals')]
ENGINE = ['child', 'parent', 'context', 'loader', 'template', 'kajiki', 'escape', 'extends', 'block',
          'include', 'blocks', 'render', 'main', 'globals_', 'base_globals', 'filename', 'text',
          'stack', 'ret', 'result', 'it', 'k', 'v', 'x', 'e', 'i', 's', 'n', 'args', 'kwargs', 'klass',
          'cls', 'obj', 'func', 'switch', 'case', 'end', 'py', 'test', 'each', 'function', 'href',
          'alias', 'attrs', 'strip', 'content', 'replace', 'vars_', 'translate', 'collect', 'lang',
          'data', 'chunk', 'method', 'types', 'sys', 'os', 're', 'html', 'body', 'request', 'tmpl']


def gen_name(d):
    k = d.choice(('builtin', 'builtin', 'engine', 'engine', 'own'))
    if k == 'builtin':
        return d.choice(BUILTINS)
    if k == 'engine':
        return d.choice(ENGINE)
    return (d.choice(('', '', '_')) + d.choice('abcXYZ\xe9\u03b1') + d.choice(('', 'a', 'B', '\xe8'))
            + d.choice(('', '', '_', '1', '_1', '__')))


# a function is an attribute of the template, and its class is compiled with the name kajiki
RESERVED = ('render', 'base_globals', 'filename', 'loader', 'kajiki', 'template')
USES = ('show', 'show', 'brace', 'attr', 'if', 'for', 'with', 'param', 'kw', 'value_of', 'code', 'def')


FALSY = (None, 0, '', False, 0.0)


def gen_names(d):
    names = sorted(set(gen_name(d) for _ in range(d.int(4, 12))))
    uses = [d.choice(USES[:-1] if n in RESERVED else USES)
            for n in names]
    return {'kind': d.choice(('xml', 'xml', 'text')), 'names': names, 'uses': uses,
            'base': [d.bool(25) for _ in names],
            'both': [d.bool(20) for _ in names],
            'falsy': [d.choice(FALSY) if d.bool(15) else 'V' for _ in names]}


def name_source(case):
    text = case['kind'] == 'text'
    src, want = '', ''
    for i, (n, u) in enumerate(zip(case['names'], case['uses'])):
        if case['falsy'][i] != 'V' and u not in ('def', 'py'):
            src += "[${'%%r' %% (%s,)}]" % n
            want += '[%r]' % (case['falsy'][i],)
        elif u in ('show', 'value_of'):
            src += ('[$%s]' if n.isascii() else '[${%s}]') % n if u == 'show' else "[${value_of('%s')}]" % n
            want += '[V%d]' % i
        elif u == 'brace' or u in ('attr', 'with') and text:
            src += '[${%s + "x"}]' % n
            want += '[V%dx]' % i
        elif u == 'attr':
            src += '<a b="${%s}"/>' % n
            want += '<a b="V%d"/>' % i
        elif u == 'if':
            src += ("{%%if %s == 'V%d'%%}yes{%%end%%}" if text
                    else "<py:if test=\"%s == 'V%d'\">yes</py:if>") % (n, i)
            want += 'yes'
        elif u == 'for':
            src += ('{%%for %s in [1, 2]%%}<${%s}>{%%end%%}' if text
                    else '<py:for each="%s in [1, 2]">(${%s})</py:for>') % (n, n)
            want += '<1><2>' if text else '(1)(2)'
        elif u == 'with':
            src += '<py:with vars="%s=3">(${%s})</py:with>' % (n, n)
            want += '(3)'
        elif u == 'param':
            src += ('{%%def zz%d(%s, zy=1)%%}<${%s}>{%%end%%}${zz%d(4)}' if text else
                    '<py:def function="zz%d(%s, zy=1)">(${%s})</py:def>${zz%d(4)}') % (i, n, n, i)
            want += '<4>' if text else '(4)'
        elif u == 'kw':
            src += ('{%%def zz%d(zy, %s=1)%%}<${%s}>{%%end%%}${zz%d(4, %s=5)}' if text else
                    '<py:def function="zz%d(zy, %s=1)">(${%s})</py:def>${zz%d(4, %s=5)}') % (i, n, n, i, n)
            want += '<5>' if text else '(5)'
        elif u == 'def':
            src += ('{%%def %s(zz)%%}<$zz>{%%end%%}${%s(6)}' if text else
                    '<py:def function="%s(zz)">($zz)</py:def>${%s(6)}') % (n, n)
            want += '<6>' if text else '(6)'
        else:
            src += ('{%%py %s = 7 %%}[${%s}]' if text else '<?py %s = 7 ?>[${%s}]') % (n, n)
            want += '[7]'
    return (src, want) if text else ('<r>%s</r>' % src, '<r>%s</r>' % want)


def check_names(case, w, lab):
    """A name means what the template, or else the context, or else the globals say."""
    src, want = name_source(case)
    base, ctx = {}, {}
    for i, (n, u, b) in enumerate(zip(case['names'], case['uses'], case['base'])):
        if u != 'def':
            v = case['falsy'][i] if case['falsy'][i] != 'V' else 'V%d' % i
            if n in ('template', 'kajiki'):     # names of the compiled module itself
                ctx[n] = v
            elif b:
                base[n] = v
            else:
                ctx[n] = v
                if case['both'][i]:
                    base[n] = 'hidden'
    render = {'op': 'render', 'tpl': 't', 'ctx': ctx}
    r = w.call([{'op': case['kind'], 'id': 't', 'source': src, 'opts': {'base_globals': base}},
                render, render])
    ok(r[0], 'compiling', source=src)
    for i in (1, 2):
        got = ok(r[i], 'rendering', source=src)
        if got != want:
            raise Violation('a name has another value than the template says', source=src,
                            context=ctx, globals=base, expected=want, got=got)
    for n, u in zip(case['names'], case['uses']):
        lab('name ' + u)
    return any(n in BUILTINS for n in case['names'])


SCENARIOS = [
    Scenario('xml', check, gen, n=3000,
             rule='XML templates with code blocks of several statements, laid out in all ways, in '
                  'the body, loops and functions, module-level code, defined(), value_of() and '
                  'loader globals; each rendered twice; non-trivial: at least one code block'),
    Scenario('text', check_text, gen_text, n=1500,
             rule='the same in text templates; non-trivial: at least one code block'),
    Scenario('shared', check_shared, gen_shared, n=800,
             rule='templates compiled with one dictionary of globals, directly or by a loader, '
                  'rendered in any order; non-trivial: one has module-level code'),
    Scenario('names', check_names, gen_names, n=1000,
             rule='context variables, loader globals, loop variables, parameters and functions with '
                  'names of built-ins, of things of the engine and others; non-trivial: one is the '
                  'name of a built-in'),
]
