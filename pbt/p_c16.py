"""Histories of renderings: instances, interleavings, failures and threads."""
import copy

from core import Scenario, Violation, ok
from exprs import gen_ctx
from gen import plain
from inherit import context, family, name_of, sources
from parts import ref, source, world
from textgen import TGen
from textmodel import write
from xmlgen import gen_doc
from p_c20 import Fuser, fuse_node, fuse_text
from xmlmodel import small, write_doc

XML = {'w': {'text': 6, 'el': 3, 'if': 2, 'ifelse': 2, 'for': 3, 'switch': 3, 'with': 4, 'call': 2,
             'innerdef': 1, 'replace': 1, 'block': 1, 'comment': 1, 'cdata': 1, 'script': 1},
       'depth': 3, 'combo': 8, 'funcs': 2, 'attrs': 30, 'pattrs': 10, 'sizes': (8, 15, 25),
       'pattr_calls': False}
TEXT = {'w': {'text': 4, 'expr': 6, 'if': 3, 'for': 4, 'switch': 3, 'call': 2, 'py': 2, 'def': 1},
        'depth': 3, 'funcs': 2, 'sizes': (8, 16), 'callbacks': 30}
OWN = (
    # module-level and main-level state, generators, recursion, literals
    ('<r><?py %import itertools\nN = [1, 2]\n?><?py x = [] ?><py:for each="i in l0">'
     '<?py x.append(i) ?>${len(x)}</py:for>${len(N)}$x</r>', ('l0',)),
    ('<r><py:def function="f(n)"><py:if test="n > 0">$n${f(n - 1)}</py:if></py:def>${f(i0 % 7)}'
     '<py:with vars="y=f(2)"><b>$y</b></py:with>$a0</r>', ('i0', 'a0')),
    ('<r py:with="i0=i1"><py:for each="i1 in l0"><a py:with="i0=i0 + i1; s0=str(i0)" '
     'title="$s0">$i0</a>$i0,</py:for>$s0</r>', ('i0', 'i1', 'l0', 's0')),
    ('<r><py:switch test="i0"><py:case value="1">one<py:switch test="s0"><py:case value="\'a\'">A'
     '</py:case><py:else>$s0</py:else></py:switch></py:case><py:else>${1 / i0}</py:else>'
     '</py:switch></r>', ('i0', 's0')),
)


def group(d, g):
    """Templates made together, contexts for them, and which can be rendered."""
    k = d.weighted((('xml', 4), ('text', 3), ('own', 2), ('family', 3), ('parts', 2)))
    steps, entries = [], []
    if k == 'xml':
        c = gen_doc(d, XML)
        steps.append({'op': 'xml', 'id': 'g%d' % g, 'source': write_doc(c['doc']),
                      'opts': {'mode': d.choice(('xml', 'html5'))}})
        entries, ctxs = ['g%d' % g], [c['ctx']]
    elif k == 'own':
        src, names = d.choice(OWN)
        env, ctx = gen_ctx(d, plain)
        steps.append({'op': 'xml', 'id': 'g%d' % g, 'source': src, 'opts': {}})
        entries, ctxs = ['g%d' % g], [ctx]
    elif k == 'text':
        env, ctx = gen_ctx(d, plain)
        for n in ('l0', 'ls0'):
            ctx[n] = ctx[n][:3]
        nodes = TGen(d, TEXT, env).template()
        steps.append({'op': 'text', 'id': 'g%d' % g, 'source': write(nodes), 'opts': {
            'autoescape': d.bool(40)}})
        entries, ctxs = ['g%d' % g], [ctx]
    elif k == 'family':
        fam = family(d)
        for i, s in enumerate(sources(fam)):
            steps.append({'op': fam['kind'], 'id': 'g%d_%d' % (g, i), 'source': s, 'opts':
                          {'autoblocks': fam['tpls'][i]['auto']} if fam['kind'] == 'xml' else {}})
            entries.append('g%d_%d' % (g, i))
        steps.append({'op': 'mock', 'id': 'L%d' % g, 'modules': dict(
            (name_of(i, fam['kind']), e) for i, e in enumerate(entries))})
        ctxs = [context(d), context(d)]
    else:
        tpls = world(d, 'mock', late=False)
        for i, t in enumerate(tpls):
            steps.append({'op': t['kind'], 'id': 'g%d_%d' % (g, i), 'source':
                          source(tpls, i, 'mock'), 'opts': {}})
        steps.append({'op': 'mock', 'id': 'L%d' % g, 'modules': dict(
            (ref(t, 'mock'), 'g%d_%d' % (g, i)) for i, t in enumerate(tpls))})
        entries = ['g%d_%d' % (g, i) for i, t in enumerate(tpls) if t['top']]
        ctxs = [dict([(v, d.fresh('V')) for v in ('v1', 'v2', 'v3', 'v4')], c1=d.bool(),
                     c2=d.bool())]
    if 'a0' in ctxs[0] and d.bool(30):
        ctxs[0]['a0'] = {'!': 'literal', 'v': '<b>x</b>'}
    ctxs.append(other(d, ctxs[0]))
    ctxs.append(broken(d, ctxs[0]))
    return {'kind': k, 'steps': steps, 'entries': entries, 'ctxs': ctxs}


def other(d, ctx):
    """The same names with other values of the same kinds."""
    out = copy.deepcopy(ctx)
    for k, v in out.items():
        if isinstance(v, bool):
            out[k] = not v
        elif isinstance(v, int):
            out[k] = v + 1
        elif isinstance(v, str):
            out[k] = v + 'z'
        elif isinstance(v, list):
            out[k] = v[1:] if d.bool() else v + v[:1]
    return out


def broken(d, ctx):
    """A context with which rendering is likely to fail somewhere."""
    out = copy.deepcopy(ctx)
    for k in d.shuffle(sorted(out))[:d.int(1, 3)]:
        how = d.choice(('gone', 'boom', 'none', 'fail'))
        if how == 'gone':
            del out[k]
        elif how == 'boom':
            out[k] = {'!': 'boom'}
        elif how == 'fail':
            out[k] = {'!': 'fail', 'kind': 'Custom', 'msg': 'x'}
        else:
            out[k] = None
    return out


def gen(d):
    groups = [group(d, g) for g in range(d.int(1, 3))]
    hist = []
    slots = 0
    its = 0
    busy = {}      # slot -> iterator

    def pick():
        g = d.int(0, len(groups) - 1)
        return [g, d.int(0, len(groups[g]['entries']) - 1),
                d.int(0, len(groups[g]['ctxs']) - 1)]
    for _ in range(d.int(2, 14)):
        free = [s for s in range(slots) if s not in busy]
        opts = [('render', 4), ('inst', 3)]
        if free:
            opts += [('again', 5), ('start', 4)]
        if busy:
            opts += [('step', 9), ('finish', 2), ('close', 1), ('drop', 1)]
        opts.append(('threads', 1))
        k = d.weighted(opts)
        via = d.choice(('', 'iter'))
        if k == 'render':
            hist.append(['render', pick(), via])
        elif k == 'inst':
            hist.append(['inst', slots, pick()])
            slots += 1
        elif k == 'again':
            hist.append(['again', d.choice(free), via])
        elif k == 'start':
            s = d.choice(free)
            hist.append(['start', s, its])
            busy[s] = its
            its += 1
        elif k == 'step':
            hist.append(['step', busy[d.choice(sorted(busy))], d.choice((1, 1, 2, 3, 5, 9))])
        elif k in ('finish', 'close', 'drop'):
            s = d.choice(sorted(busy))
            hist.append([k, busy.pop(s)])
        else:
            hist.append(['threads', [[pick() for _ in range(d.int(1, 3))]
                                     for _ in range(d.int(2, 4))]])
    for s in sorted(busy):
        hist.append(['finish', busy[s]])
    return {'groups': groups, 'hist': hist}


def outcome(r):
    return ['ok', r['v']] if 'v' in r else ['exc', r['exc']['type']]


def check(case, w, lab):
    groups = case['groups']
    # what each combination renders, each with templates of its own
    wants = {}
    picks = set()
    slot_pick, it_slot = {}, {}
    for h in case['hist']:
        if h[0] == 'render':
            picks.add(tuple(h[1]))
        elif h[0] == 'inst':
            picks.add(tuple(h[2]))
            slot_pick[h[1]] = tuple(h[2])
        elif h[0] == 'start':
            it_slot[h[2]] = h[1]
        elif h[0] == 'threads':
            picks.update(tuple(p) for t in h[1] for p in t)
    for g, e, c in sorted(picks):
        gr = groups[g]
        r = w.call(gr['steps'] + [{'op': 'render', 'tpl': gr['entries'][e],
                                   'ctx': gr['ctxs'][c]}])
        for x in r[:-1]:
            ok(x, 'compiling', steps=gr['steps'])
        wants[g, e, c] = outcome(r[-1])
    # the history, on shared templates and shared contexts
    steps = []
    for g, gr in enumerate(groups):
        steps += gr['steps']
        for c, ctx in enumerate(gr['ctxs']):
            steps.append({'op': 'value', 'id': 'c%d_%d' % (g, c), 'value': ctx})
            steps.append({'op': 'snapshot', 'id': 'c%d_%d' % (g, c)})
    first = len(steps)
    for h in case['hist']:
        if h[0] in ('render', 'inst'):
            g, e, c = h[1] if h[0] == 'render' else h[2]
            s = {'op': h[0], 'tpl': groups[g]['entries'][e], 'ctx_ref': 'c%d_%d' % (g, c)}
            if h[0] == 'inst':
                s['id'] = 'i%d' % h[1]
            else:
                s['via'] = h[2]
            steps.append(s)
        elif h[0] == 'again':
            steps.append({'op': 'render', 'inst': 'i%d' % h[1], 'via': h[2]})
        elif h[0] == 'start':
            steps.append({'op': 'start', 'id': 'it%d' % h[2], 'inst': 'i%d' % h[1]})
        elif h[0] == 'step':
            steps.append({'op': 'step', 'it': 'it%d' % h[1], 'n': h[2]})
        elif h[0] in ('finish', 'close'):
            steps.append({'op': h[0], 'it': 'it%d' % h[1]})
        elif h[0] == 'drop':
            steps.append({'op': 'value', 'id': 'it%d' % h[1], 'value': 0})
        else:
            steps.append({'op': 'threads', 'tasks': [
                [{'op': 'render', 'tpl': groups[g]['entries'][e], 'ctx_ref': 'c%d_%d' % (g, c)}
                 for g, e, c in t] for t in h[1]]})
    last = len(steps)
    for g, gr in enumerate(groups):
        for c in range(len(gr['ctxs'])):
            steps.append({'op': 'snapshot', 'id': 'c%d_%d' % (g, c)})
    res = w.call(steps)
    templates = [s['source'] for gr in groups for s in gr['steps'] if 'source' in s]

    def differ(what, pick, got):
        if got != wants[pick]:
            raise Violation('%s gave another result than rendering it on its own' % what,
                            templates=templates, context=groups[pick[0]]['ctxs'][pick[2]],
                            expected=wants[pick], got=got, at=what)
    seen = {}
    pieces = {}
    failed = shared = False
    for n, (h, r) in enumerate(zip(case['hist'], res[first:last])):
        what = 'step %d %s' % (n, h[:2])
        if h[0] == 'render':
            differ(what, tuple(h[1]), outcome(r))
            p = tuple(h[1])
        elif h[0] == 'inst':
            ok(r, what, templates=templates)
            continue
        elif h[0] == 'again':
            p = slot_pick[h[1]]
            differ(what, p, outcome(r))
        elif h[0] == 'start':
            p = slot_pick[h[1]]
            if 'exc' in r:
                differ(what, p, outcome(r))
            pieces[h[2]] = []
        elif h[0] in ('step', 'finish'):
            it = h[1]
            p = slot_pick[it_slot[it]]
            got = pieces[it]
            if got is None:
                continue                 # it ended before
            if 'exc' in r:
                differ(what, p, outcome(r))
                pieces[it] = None
                continue
            v = r['v']
            if h[0] == 'finish':
                v = ['end', v]
            if v[0] not in ('more', 'end'):
                raise Violation('iterating gave something that is not a string: %r' % v,
                                templates=templates)
            got.append(v[1])
            if v[0] == 'end':
                differ(what, p, ['ok', ''.join(got)])
                pieces[it] = None
            elif wants[p][0] == 'ok' and not wants[p][1].startswith(''.join(got)):
                differ(what, p, ['partly', ''.join(got)])
        elif h[0] == 'threads':
            outs = ok(r, what)
            for t, o in zip(h[1], outs):
                for p, x in zip(t, o or []):
                    differ(what + ' in a thread', tuple(p), outcome(x))
            lab('threads')
            continue
        else:
            continue
        failed = failed or wants[p][0] == 'exc'
        shared = shared or p[:2] in seen
        seen[p[:2]] = 1
    k = 0
    ids = [(g, c) for g, gr in enumerate(groups) for c in range(len(gr['ctxs']))]
    before = [res[i]['v'] for i, s in enumerate(steps[:first]) if s['op'] == 'snapshot']
    for (g, c), a, b in zip(ids, before, res[last:]):
        if b.get('v') != a:
            raise Violation('a context was modified', templates=templates, before=a,
                            after=b.get('v'))
    if failed:
        lab('with failures')
    for gr in groups:
        lab(gr['kind'])
    return shared


# --- compiling and rendering in threads ------------------------------------------

def gen_threads(d):
    tasks = []
    for _ in range(d.int(2, 4)):
        c = gen_doc(d, dict(XML, w=dict(XML['w'], el=6), attrs=70, sizes=(10, 20)))
        tasks.append({'source': write_doc(c['doc']), 'ctx': c['ctx'], 'n': d.int(1, 3)})
    return {'tasks': tasks}


def check_threads(case, w, lab):
    wants, tasks = [], []
    for k, t in enumerate(case['tasks']):
        s = [{'op': 'xml', 'id': 't%d' % k, 'source': t['source'], 'opts': {}},
             {'op': 'render', 'tpl': 't%d' % k, 'ctx': t['ctx']}]
        r = w.call(s)
        ok(r[0], 'compiling', source=t['source'])
        wants.append([outcome(x) for x in r])
        tasks.append(s * t['n'])
    res = ok(w.call([{'op': 'threads', 'tasks': tasks}])[0], 'threads')
    for k, t in enumerate(case['tasks']):
        got = [outcome(x) for x in res[k] or []]
        if got != wants[k] * t['n']:
            raise Violation('compiling and rendering in threads gave another result',
                            source=t['source'], expected=wants[k] * t['n'], got=got)
    return len(tasks) > 1


# --- renderings inside the expressions of others ------------------------------------

def gen_entwined(d):
    tpls = []
    for k in range(d.int(1, 2)):
        if d.bool(65):
            c = gen_doc(d, dict(XML, funcs=1, sizes=(6, 10, 15)))
            tpls.append({'kind': 'xml', 'doc': c['doc'], 'ctx': c['ctx']})
        else:
            env, ctx = gen_ctx(d, plain)
            for n in ('l0', 'ls0'):
                ctx[n] = ctx[n][:3]
            tpls.append({'kind': 'text', 'nodes': TGen(d, TEXT, env).template(), 'ctx': ctx})
    chain = [[d.int(0, len(tpls) - 1), d.bool(25)] for _ in range(d.int(2, 3))]
    return {'tpls': tpls, 'chain': chain, 'every': d.choice((1, 1, 1, 2, 3))}


def check_entwined(case, w, lab):
    """A rendering does not mind what other instances do while it evaluates an expression."""
    steps, ctxs = [], []
    for k, t in enumerate(case['tpls']):
        f = Fuser([0])
        if t['kind'] == 'xml':
            small(t['doc'], t['ctx'])
            src = write_doc(dict(t['doc'], root=fuse_node(t['doc']['root'], f, set())))
        else:
            src = write(fuse_text(t['nodes'], f))
        steps.append({'op': t['kind'], 'id': 't%d' % k, 'source': src, 'opts': {}})
        ctxs.append((t['ctx'], other(NoChoice(), t['ctx'])))
    r = w.call(steps + [{'op': 'entwined', 'every': case['every'], 'chain': [
        ['t%d' % k, ctxs[k][alt]] for k, alt in case['chain']]}])
    for s, x in zip(steps, r):
        ok(x, 'compiling', source=s['source'])
    if 'exc' in r[-1]:
        # some of these contexts make a template fail; then it must fail alone as well
        for k, alt in case['chain']:
            x = w.call(steps + [{'op': 'entwined', 'every': 1, 'chain': [['t%d' % k, ctxs[k][alt]]]}])
            if 'exc' in x[-1]:
                return False
    alone, got = ok(r[-1], 'rendering', sources=[s['source'] for s in steps])
    for i, (a, b) in enumerate(zip(alone, got)):
        if a != b:
            raise Violation('rendering number %d of those that took turns gave another result than '
                            'on its own' % i, sources=[s['source'] for s in steps],
                            chain=case['chain'], expected=a, got=b)
    for t in case['tpls']:
        lab('entwined ' + t['kind'])
    return any(len(a) > 20 for a in alone)


class NoChoice(object):
    def bool(self, *a):
        return True


ASSUMPTIONS = ['one instance is not iterated twice at the same time',
               'template code and context values have no state of their own, except what a '
               'rendering makes itself',
               'failures are compared by exception type']
SCENARIOS = [
    Scenario('histories', check, gen, n=2000,
             rule='up to 14 operations on up to 3 groups of templates (render, re-render, '
                  'interleaved iteration, abandoning, failing, threads); non-trivial: a template '
                  'is rendered more than once'),
    Scenario('threads', check_threads, gen_threads, n=160,
             rule='templates compiled and rendered in several threads; always non-trivial'),
    Scenario('entwined', check_entwined, gen_entwined, n=1200,
             rule='two or three renderings, of the same or of two templates, where every expression '
                  'of one lets another one go on; non-trivial: one has more than 20 characters'),
]
