"""Translation at render time, message extraction, and how they are installed."""
import copy

from core import Scenario, Skip, Violation, ok
from inherit import Family, Undef, context, family, name_of, sources
from inherit import TooBig as FamTooBig
from parts import TooBig, World, ref, source, world
from p_c15 import bad_locals, names
from values import Recorder
from xmlgen import fix_parts, gen_doc
from xmlmodel import RAW, run_model, esc_text, write_doc

PROF = {'w': {'text': 9, 'el': 5, 'if': 2, 'ifelse': 2, 'for': 2, 'switch': 1, 'with': 1, 'call': 1,
              'innerdef': 1, 'replace': 1, 'block': 2, 'comment': 2, 'cdata': 2, 'py': 1,
              'script': 2}, 'depth': 3, 'funcs': 2, 'attrs': 40, 'pattrs': 8, 'content': 8,
        'strip': 10, 'pe': 3, 'pr': 2, 'combo': 8, 'calls': 30, 'sizes': (6, 12, 25)}
WS = (' ', '  ', '\n', '\n   ', '\t', '', '', ' \n\n ')
WORDS = ('Hello', 'Save changes', 'a', 'Two\nlines', 'x  y', 'caf\xe9', '5 > 3', 'you & me',
         '"quoted"', "it's", '100%', '{name}', '\u4f60\u597d', '%(x)s', 'A.', '<b>', 'back\\slash',
         'x;y', '#', 'None')
ALL = ('context', 'globals', 'module', 'module-late')


def texts(n, out=None):
    """The nodes with text that is part of the template, and whether it is translated."""
    out = [] if out is None else out
    if n['t'] in ('text', 'cdata'):
        out.append(n)
    if n['t'] == 'el' and (n['tag'] in RAW or n.get('content') or 'replace' in (
            n.get('dirs') or {})) or n['t'] == 'dir' and n['d'] == 'replace':
        return out
    for k in n.get('kids', ()):
        texts(k, out)
    return out


def holders(n, out=None):
    """The lists of parts with expressions that are part of the template."""
    out = [] if out is None else out
    if n['t'] in ('text', 'cdata'):
        out.append(n['p'])
    if n['t'] == 'dir' and n['d'] == 'replace' or 'replace' in (n.get('dirs') or {}):
        return out
    out += [p for _, p in n.get('attrs', ())]
    if not n.get('content'):
        for k in n.get('kids', ()):
            holders(k, out)
    return out


def wordy(d, n):
    """Give text some words and whitespace, and gettext calls."""
    for parts in holders(n):
        for p in parts:
            if p[0] == 'e' and d.bool(20):
                p[1] = '%s(%r)' % (d.choice(('_', 'gettext')), d.fresh('call '))
    for node in texts(n):
        if node['t'] == 'cdata':
            if d.bool(50):
                node['p'] = [['s', d.choice(WS) + d.choice(WORDS) + d.choice(WS)]]
            continue
        for p in node['p']:
            if p[0] == 's' and d.bool(60) and p[1].strip():
                p[1] = d.choice(WS) + d.choice(WORDS) + d.choice(WS)
        node['p'] = fix_parts(node['p'])
    return n


def gen(d):
    case = gen_doc(d, PROF)
    wordy(d, case['doc']['root'])
    if d.bool(2):
        # longer than any buffer
        nodes = [t for t in texts(case['doc']['root']) if t['t'] == 'text' and any(
            p[0] != 's' or p[1].strip() for p in t['p'])]
        for t in nodes[:1]:
            t['p'] = fix_parts([['s', ('word ' * 13 + '\n') * d.int(200, 2000) + 'end']] + t['p'])
    case['doc']['dtd'] = d.choice((None, None, '<!DOCTYPE html>',
                                   '<!DOCTYPE html PUBLIC\n "-//W3C//DTD XHTML 1.0 Strict//EN"\n'
                                   ' "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">'))
    if d.bool(15):
        case['doc']['pre'] = [{'t': 'comment', 's': 'a\nb'}, {'t': 'raw', 's': '\n'}]
    case['mode'] = d.choice(('xml', 'xml', 'html', 'html5'))
    case['strip'] = d.bool(30)
    case['cdata_scripts'] = d.bool(80)
    case['how'] = d.choice(ALL)
    case['more'] = [h for h in ('globals', 'module') if d.bool(30)]
    case['default'] = case['how'] == 'context' and d.bool(10)
    return case


def marked(doc):
    """The document with a marker at every message, and the messages by marker."""
    doc = copy.deepcopy(doc)
    found = {}
    for node in texts(doc['root']):
        groups = []          # [kind, parts]
        for p in node['p']:
            k = 'e' if p[0] in 'en' else '$' if p[0] == '$' else 's'
            if groups and k == 's' == groups[-1][0]:
                groups[-1][1].append(p)
            else:
                groups.append([k, [p]])
        new = []
        for i, (k, ps) in enumerate(groups):
            text = ''.join(p[-1] if p[0] != '$' else '$' for p in ps)
            if k == 'e' or not text.strip():
                new += ps
                continue
            mark = ['M', str(len(found))]
            done = False
            for p in ps:
                s = '$' if p[0] == '$' else p[-1]
                if done or i == 0 and not s.strip():
                    new.append(p)
                elif i == 0 and s.lstrip() != s:
                    cut = len(s) - len(s.lstrip())
                    new += [[p[0], s[:cut]], mark, [p[0], s[cut:]]]
                    done = True
                else:
                    new += [mark, p]
                    done = True
            core = text
            if i == 0:
                core = core.lstrip()
            if i == len(groups) - 1:
                core = core.rstrip()
            found[mark[1]] = core if node['t'] == 'cdata' else esc_text(core)
        node['p'] = new
    return doc, found


def lines(doc):
    """{(line, message)} that the document has."""
    mdoc, found = marked(doc)
    src = write_doc(mdoc)
    out = set()
    for k, msg in found.items():
        at = src.find('\ue000%s\ue001' % k)
        if at < 0:
            raise Skip()          # not written, as inside a py:content
        out.add((src.count('\n', 0, at) + 1, msg))
    return out


def calls(doc):
    """Explicit calls in the expressions of text and attributes."""
    out = set()
    for parts in holders(doc['root']):
        for p in parts:
            if p[0] == 'e' and ("_('call " in p[1] or "gettext('call " in p[1]):
                f, m = p[1].split('(')
                out.add((f.strip(), m.rstrip(')').strip("'")))
    return out


def install(case, src, opts):
    """Steps that compile src as t with the translation function, and the context."""
    tr = {'!': 'recorder', 'a': '[', 'b': ']'}
    low = {'!': 'wrap', 'a': 'WRONG', 'b': ''}
    how = case['how']
    ctx = dict(case['ctx'])
    steps = [{'op': 'value', 'id': 'tr', 'value': tr}, {'op': 'value', 'id': 'ctx', 'value': ctx}]
    opts = dict(opts)
    compile_ = {'op': 'xml', 'id': 't', 'source': src, 'opts': opts}
    late = []
    if how == 'context':
        steps.append({'op': 'setref', 'into': 'ctx', 'key': 'gettext', 'ref': 'tr'})
        if 'globals' in case['more']:
            opts['base_globals'] = {'gettext': low}
        if 'module' in case['more']:
            steps.append({'op': 'set_gettext', 'value': low})
    elif how == 'globals':
        steps += [{'op': 'value', 'id': 'bg', 'value': {}},
                  {'op': 'setref', 'into': 'bg', 'key': 'gettext', 'ref': 'tr'}]
        opts['base_globals_ref'] = 'bg'
        if 'module' in case['more']:
            steps.append({'op': 'set_gettext', 'value': low})
    else:
        (steps if how == 'module' else late).append({'op': 'set_gettext', 'ref': 'tr'})
    return steps + [compile_] + late


def check(case, w, lab):
    doc = case['doc']
    src = write_doc(doc)
    opts = {'mode': case['mode'], 'strip_text': case['strip'],
            'cdata_scripts': case['cdata_scripts']}
    rec = Recorder('[', ']')
    want = run_model(doc, case['ctx'], mode=case['mode'], strip_text=case['strip'],
                     cdata_scripts=case['cdata_scripts'], gettext=rec,
                     globals_={'_': rec, 'gettext': rec})
    steps = install(case, src, opts)
    n = len(steps)
    steps += [{'op': 'render', 'tpl': 't', 'ctx_ref': 'ctx'}, {'op': 'recorded', 'id': 'tr'},
              {'op': 'extract', 'source': src, 'options': {'strip_text': case['strip']}},
              {'op': 'extract', 'source': src, 'keywords': ['_', 'gettext'],
               'as_text': case['strip'], 'options': {'strip_text': case['strip'],
                                                     'extract_python': True}}]
    r = w.call(steps)
    for x in r[:n]:
        ok(x, 'compiling', source=src)
    got = ok(r[n], 'rendering', source=src)
    if case['strip']:
        from p_c21 import norm
        got, want = norm(got), norm(want)
    if got != want:
        raise Violation('the text is not translated as it should be', source=src, how=case['how'],
                        expected=want, got=got)
    expected = lines(doc)
    ex = ok(r[n + 2], 'extracting', source=src)
    found = set((x[0], x[2]) for x in ex)
    if found != expected:
        raise Violation('extraction does not report the messages of the template', source=src,
                        missing=sorted(expected - found), extra=sorted(found - expected))
    exp = calls(doc)
    ex2 = ok(r[n + 3], 'extracting with expressions', source=src)
    found2 = set((x[0], x[2]) for x in ex2 if not (
        isinstance(x[2], str) and x[2].startswith('call ')))
    fcalls = set((x[1], x[2]) for x in ex2 if isinstance(x[2], str) and x[2].startswith('call '))
    if found2 != expected or fcalls != exp:
        raise Violation('extraction with expressions does not report the messages of the '
                        'template', source=src, expected=[sorted(expected), sorted(exp)],
                        got=[sorted(found2), sorted(fcalls)])
    seen = set(r[n + 1]['v'])
    known = set(m for _, m in expected) | set(m for _, m in exp)
    if not seen <= known:
        raise Violation('the translation function received something that is not a message',
                        source=src, extra=sorted(seen - known))
    if exp:
        lab('calls')
    lab(case['how'])
    return bool(expected)


# --- identity, on hostile text ------------------------------------------------------------

HARD = dict(PROF, static='any', pd=1, pr=3)


def gen_same(d):
    case = gen_doc(d, HARD)
    case.update(mode=d.choice(('xml', 'html5')), how=d.choice(ALL), more=[], strip=d.bool(30))
    return case


def check_same(case, w, lab):
    src = write_doc(case['doc'])
    opts = {'mode': case['mode'], 'strip_text': case['strip']}
    steps = install(case, src, opts)
    steps[0] = {'op': 'value', 'id': 'tr', 'value': {'!': 'recorder'}}
    n = len(steps)
    steps += [{'op': 'render', 'tpl': 't', 'ctx_ref': 'ctx'}, {'op': 'recorded', 'id': 'tr'},
              {'op': 'extract', 'source': src, 'options': {'strip_text': case['strip']}}]
    r = w.call([{'op': 'xml', 'id': 'p', 'source': src, 'opts': opts},
                {'op': 'render', 'tpl': 'p', 'ctx': case['ctx']}] + steps)
    for x in r:
        ok(x, 'a step', source=src)
    if r[1]['v'] != r[2 + n]['v']:
        raise Violation('an identity translation changes the output', source=src,
                        expected=r[1]['v'], got=r[2 + n]['v'])
    seen = set(r[3 + n]['v'])
    msgs = set(x[2] for x in r[4 + n]['v'])
    if not seen <= msgs:
        raise Violation('messages translated but not extracted', source=src,
                        extra=sorted(seen - msgs))
    return bool(seen)


# --- across templates -----------------------------------------------------------------------

def upper(nodes):
    for n in nodes:
        if n[0] == 't':
            n[1] = n[1].upper()
        elif isinstance(n[-1], list):
            upper(n[-1])


def gen_many(d):
    kind = d.choice(('family', 'parts'))
    loader = d.choice(('mock', 'file'))
    how = d.choice(('context', 'module') if loader == 'mock' else ('context', 'module', 'globals'))
    if kind == 'family':
        fam = family(d, 'xml')
        for t in fam['tpls']:
            t['auto'] = []
        ctx = context(d)
        case = {'fam': fam, 'i': len(fam['tpls']) - 1}
    else:
        ctx = dict((v, d.fresh('v')) for v in ('v1', 'v2', 'v3', 'v4'))
        ctx.update(c1=d.bool(), c2=d.bool(70))
        case = {'tpls': world(d, loader), 'i': 0}
    ctx['v1'] = d.fresh('value')
    return dict(case, kind=kind, loader=loader, how=how, ctx=ctx)


def check_many(case, w, lab):
    loader, ctx = case['loader'], case['ctx']
    if case['kind'] == 'family':
        fam = case['fam']
        big = copy.deepcopy(fam)
        for t in big['tpls']:
            for b in [x[1] for x in t['funcs'] + t['blocks']] + [t.get('main') or []]:
                upper(b)
        try:
            want = Family(big, ctx).render(case['i'])
        except (Undef, FamTooBig):
            return False
        srcs = [(name_of(i, 'xml'), 'xml', s) for i, s in enumerate(sources(fam))]
        top = name_of(case['i'], 'xml')
    else:
        tpls = case['tpls']
        for t in tpls:
            used = set()
            for body in [t['main'], t['block'] or []] + [b for _, b in t['funcs']]:
                for n in names(body):
                    if n[0] == 'imp':
                        used.add(n[2] or tpls[n[1]]['base'])
            if used & {'v1', 'f1', 'a', 'c1', 'c2'} or bad_locals(t):
                return False
            for body in [t['main'], t['block'] or []] + [b for _, b in t['funcs']]:
                if used & set(n[1] for n in names(body) if n[0] == 'loc'):
                    return False
        big = copy.deepcopy(tpls)
        for t in big:
            if t['kind'] != 'text':
                for b in [t['main'], t['block'] or []] + [b for _, b in t['funcs']]:
                    upper(b)
        try:
            want = World(big, ctx).render(case['i'])
        except (TooBig, KeyError):
            return False
        srcs = [(ref(t, loader), t['kind'], source(tpls, i, loader)) for i, t in enumerate(tpls)]
        top = ref(tpls[case['i']], loader)
    steps = []
    c = dict(ctx)
    opts = {}
    up = {'!': 'upper'}
    if case['how'] == 'context':
        c['gettext'] = up
    elif case['how'] == 'globals':
        opts['base_globals'] = {'gettext': up}
    else:
        steps.append({'op': 'set_gettext', 'value': up})
    for name, kind, s in srcs:
        if loader == 'file':
            steps.append({'op': 'write', 'path': 'd/' + name, 'text': s})
        else:
            steps.append({'op': 'text' if kind == 'text' else 'xml', 'id': name, 'source': s,
                          'opts': {}})
    if loader == 'file':
        steps.append({'op': 'fileloader', 'id': 'L', 'path': 'd', 'opts': opts})
    else:
        steps.append({'op': 'mock', 'id': 'L', 'modules': dict((n, n) for n, _, _ in srcs)})
    steps += [{'op': 'load', 'loader': 'L', 'name': top, 'id': 't'},
              {'op': 'render', 'tpl': 't', 'ctx': c}]
    r = w.call(steps)
    for x in r:
        got = ok(x, 'a step', sources=srcs, expected=want)
    if got != want:
        raise Violation('text is not translated in every template', how=case['how'],
                        sources=srcs, expected=want, got=got)
    lab(case['kind'] + ' ' + case['how'])
    return 'w' in want.lower()


ASSUMPTIONS = ['the translation function gets the text as it stands in the output, with "&", "<" '
               'and ">" escaped, cut at expressions, and its result is not escaped again',
               'gettext calls are looked for in the expressions of text and attributes only']
SCENARIOS = [
    Scenario('exact', check, gen, n=3500,
             rule='generated templates rendered with a marking translation and extracted; '
                  'non-trivial: the template has a message'),
    Scenario('identity', check_same, gen_same, n=1200,
             rule='hostile static text; non-trivial: something was translated'),
    Scenario('many', check_many, gen_many, n=1500,
             rule='families and graphs of templates; non-trivial: text is rendered'),
]
