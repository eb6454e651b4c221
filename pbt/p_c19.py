"""Invalid templates are rejected, with an error that tells where.

A valid template gets one mistake; U+E000 marks the place until the source
is complete.
"""
import re

from core import Scenario, Violation, exc_text
from exprs import gen_ctx
from gen import plain
from p_c20 import SIZES, space_out
from textgen import TGen
from textmodel import Writer, walk
from xmlgen import fix_doc, free_slot, gen_doc, is_else
from xmlmodel import ORDER, RAW, write_doc

MARK = '\ue000'
PARSE, COMPILE, SYNTAX = 'XMLTemplateParseError', 'XMLTemplateCompileError', 'KajikiSyntaxError'
BAD = ('1 +', 'a b', ')', '(', "'abc", 'for', '1 2', 'lambda', 'x = 1', '[1, 2', '{1: }', 'a..b',
       '* 2', 'not', 'x if y', '?', 'f(1,', 'x[', 'def f(): 1', 'return', '1 = 2', 'x;y', 'a!b',
       "'a' 'b", 'if x', '0x', '+', '.a', 'a.', 'f(a=)', 'import os')
# not expressions, but arguments of a call: see known-findings.txt
ARGUMENTS = ('x = 1', '* 2')
# (fault, what it must raise, how the lines are meant): "at" the marked line, "tag" any line of
# the tag up to the mark, "end" the mark or later
PARSE_FAULTS = (
    (MARK + '< x', 'at'), (MARK + '& x', 'at'), (MARK + '&nosuch;', 'at'), (MARK + '&a b;', 'at'),
    ('<b>' + MARK + '</i>', 'at'), ('<b ' + MARK + 'x=1/>', 'tag'), ('<b ' + MARK + 'x/>', 'tag'),
    ('<b x="1"\n ' + MARK + 'x="2"/>', 'tag'), ('<b x="1" ' + MARK + 'x="2"/>', 'tag'),
    ('<b x="' + MARK + '<"/>', 'tag'), ('<b x="' + MARK + '&nosuch;"/>', 'tag'),
    ('<b\n\n x="' + MARK + '& "/>', 'tag'), ('a' + MARK + ']]>', 'at'),
    ('<!-- a ' + MARK + '-- b -->', 'end'), (MARK + '</b>', 'at'), (MARK + '<1/>', 'at'),
    (MARK + '<b', 'end'), (MARK + '<![CDATA[ x', 'end'), (MARK + '<!-- x', 'end'),
    (MARK + '<b>', 'end'), (MARK + '<py:if test="1">', 'end'), (MARK + '\x01', 'at'),
    (MARK + '<b x="1"y="2"/>', 'at'), (MARK + '<?xml version="1.0"?>', 'at'),
    (MARK + '<!DOCTYPE html>', 'at'), (MARK + '<b x="1/>', 'end'), (MARK + '&#0;', 'at'),
    (MARK + '&#xZ;', 'at'), (MARK + '&amp', 'at'), ('<b>' + MARK + '</B>', 'at'),
    (MARK + '<a:b:c x:="1"="2"/>', 'at'), (MARK + '<!x>', 'at'), (MARK + '</>', 'at'))


def spoiled(d, e):
    """An invalid expression, sometimes over several lines."""
    if d.bool(20):
        long = d.choice(('(', '[', 'f(')) + '\n' * d.int(1, 3) + e
        try:
            compile(long, '', 'eval')
        except SyntaxError:
            return long
    return e


def xml_esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')


def faults(d):
    """(kind, text, how, extra lines)."""
    k = d.weighted((('parse', 5), ('expr', 6), ('attr', 3), ('dir', 8), ('else', 3), ('switch', 3)))
    e = d.choice(BAD)
    if k == 'parse':
        text, how = d.choice(PARSE_FAULTS)
        return PARSE, text, how, 0
    if k == 'expr':
        e = spoiled(d, e)
        form = d.choice(('${%s}', '${ %s}', '${%s }', '${%s', 'x${%s} y', '${'))
        t = form % xml_esc(e) if '%s' in form else form
        # an expression that is not closed goes on
        return COMPILE, MARK + t, 'at' if t.endswith('y') or t.endswith('}') else 'end', \
            e.count('\n')
    if k == 'attr':
        t = d.choice(('<b x="%s${%s}"/>', '<b\n x="1"\n y="a%s${%s}b"/>', '<b x="%s${%s"/>'))
        return COMPILE, t % (MARK, xml_esc(e)), 'tag', 0
    if k == 'else':
        t = d.choice(('<py:else>x</py:else>', '<p py:else="">x</p>', '<py:else/>',
                      '<p\n py:else=""/>', '<p py:for="q in (1,)" py:else="">x</p>'))
        return 'else', MARK + t, 'at', 0
    if k == 'switch':
        t = d.choice(('text', '<p>x</p>', '<p/>', '$$', '${1}', '<py:if test="True">x</py:if>',
                      '<py:for each="q in ()"/>', '<py:with vars="q=1">x</py:with>',
                      '<py:nop>x</py:nop>', '<py:replace value="1"/>'))
        return 'switch', MARK + t, 'switch', 0
    return (SYNTAX,) + directive(d, e) + ('any', 0)


def directive(d, e):
    """A directive with an invalid value."""
    k = d.choice(('if', 'for', 'with', 'content', 'replace', 'attrs', 'strip', 'switch', 'case',
                  'def', 'call'))
    v = e
    if k == 'for':
        v = d.choice(('x', 'in y', 'x in', '1 in i0', 'x in i0 i1', 'x of i0', 'x in ' + e))
    elif k == 'with':
        v = d.choice(('x = ' + ('1 +' if e == 'x = 1' else e.replace(';', ' ')), '1 = 2', 'x = ', 'x = 1 y = 2'))
    elif k == 'def':
        v = d.choice(('f(', 'f', '1f()', 'f(a b)', 'f(a=)', 'f(1)', 'f(a, a)', 'f)(', 'f g()'))
    elif k == 'call':
        v = d.choice(('f(', 'f(%caller', '1 +', 'f(%caller b)', ')', 'f(%caller))'))
    elif k in ('attrs', 'switch', 'case') and v in ARGUMENTS:
        v = '1 +'
    v = xml_esc(v)
    if k in ('content', 'attrs', 'strip'):
        return ('<p py:%s="%s">x</p>' % (k, v) + MARK,)
    if k == 'case':
        return ('<py:switch test="1"><py:case value="%s">x</py:case></py:switch>' % v + MARK,)
    if k == 'switch':
        return ('<py:switch test="%s"><py:else>x</py:else></py:switch>' % v + MARK,)
    if d.bool(50):
        return ('<p py:%s="%s">x</p>' % (k, v) + MARK,)
    a = {'if': 'test', 'for': 'each', 'with': 'vars', 'replace': 'value', 'def': 'function',
         'call': 'function'}[k]
    return ('<py:%s %s="%s">x</py:%s>' % (k, a, v, k) + MARK,)


PROF = {'w': {'text': 7, 'el': 5, 'if': 2, 'ifelse': 2, 'for': 3, 'switch': 3, 'with': 2, 'call': 2,
              'innerdef': 2, 'replace': 1, 'block': 2, 'comment': 1, 'cdata': 1, 'py': 1,
              'script': 1, 'nop': 1}, 'depth': 4, 'funcs': 2, 'attrs': 30, 'pattrs': 8,
        'content': 8, 'strip': 8, 'combo': 8, 'pr': 1, 'pd': 1, 'sizes': (4, 10, 20)}


def hosts(n, out, live=True):
    """Lists of children that are compiled."""
    if 'kids' in n and n['t'] != 'switch' and n.get('tag') not in RAW and \
            n.get('content') is None and 'replace' not in (n.get('dirs') or {}) and \
            n.get('d') != 'replace':
        out.append(n['kids'])
    elif n['t'] != 'switch':
        return out
    for k in n.get('kids', ()):
        hosts(k, out)
    return out


def switches(n, out):
    if n['t'] == 'switch':
        out.append(n['kids'])
    elif n.get('content') is not None or 'replace' in (n.get('dirs') or {}) or \
            n.get('d') == 'replace':
        return out
    for k in n.get('kids', ()):
        switches(k, out)
    return out


def is_if(n):
    if n['t'] == 'dir':
        return n['d'] == 'if'
    return n['t'] == 'el' and [k for k in ORDER if k in (n.get('dirs') or {})][:1] == ['if']


LINE_LIKE = ('\u2028', '\x85', '\u2029', '\xa0', '\ufeff')


def gen(d):
    case = gen_doc(d, PROF)
    root = case['doc']['root']
    space_out(d, root)
    fix_doc(root)
    if d.bool(25):
        k = d.choice(hosts(root, []))
        k.insert(free_slot(d, k), {'t': 'raw', 's': d.choice(LINE_LIKE) * d.int(1, 3)})
    if d.bool(20):
        case['doc']['pre'] = [{'t': 'raw', 's': '\n' * d.choice(SIZES[:8])}]
    if d.bool(15):
        case['doc']['dtd'] = d.choice(('<!DOCTYPE html>', '<!DOCTYPE r\n SYSTEM "x">'))
    case['whole'] = whole = d.choice(('', '', '', '', '', '', 'cut', 'drop', 'after', 'empty',
                                      'tagswitch'))
    fault = faults(d)
    if whole in ('cut', 'drop'):
        fault = (PARSE, '', 'end', 0)
        case['at'] = d.int(0, 10000)
    elif whole == 'after':
        t = d.choice(('x', '<p/>', '<b>x</b>', '${1}', '&amp;', '</r>', '<r>', '<![CDATA[x]]>',
                      '<!DOCTYPE html>'))
        fault = (PARSE, MARK + t, 'at', 0)
        case['doc']['post'] = [{'t': 'raw', 's': '\n' * d.int(0, 2) + fault[1]}]
    elif whole == 'empty':
        fault = (PARSE, '', 'any', 0)
        case['text'] = d.choice(('', '\n', '  ', 'text', '<!-- x -->', '<!DOCTYPE html>',
                                 '<?py x = 1 ?>'))
    elif whole == 'tagswitch':
        k = d.choice(hosts(root, []))
        k.insert(free_slot(d, k), {'t': 'raw', 's': d.choice((
            '<p py:switch="1">' + MARK + '<b py:case="1">x</b></p>',
            '<p\n py:switch="1">' + MARK + '<py:case value="1">x</py:case></p>',
            '<p py:switch="1">' + MARK + '<py:else>x</py:else></p>'))})
        fault = (COMPILE, '', 'switch', 0)
    elif fault[0] == 'switch':
        sw = switches(root, [])
        if sw:
            k = d.choice(sw)
            k.insert(d.int(0, len(k)), {'t': 'raw', 's': fault[1]})
        else:
            k = d.choice(hosts(root, []))
            k.insert(free_slot(d, k), {'t': 'raw', 's': '<py:switch test="1">%s<py:else>x'
                                       '</py:else></py:switch>' % fault[1]})
        fault = (COMPILE,) + fault[1:]
    else:
        ks = hosts(root, [])
        k = d.choice(ks)
        i = free_slot(d, k)
        after = [(h, j + 1) for h in ks for j, n in enumerate(h)
                 if is_if(n) and not (j + 1 < len(h) and is_else(h[j + 1]))]
        if fault[0] == 'else' and after and d.bool(60):
            k, i = d.choice(after)
        if fault[0] == 'else':
            if i and is_if(k[i - 1]):
                k.insert(i, {'t': 'raw', 's': d.choice((
                    'x', ' ', '\n', '<!-- x -->', '<!--! x -->', '<b/>', '${1}', '$$', '<?py q = 1?>',
                    '<![CDATA[x]]>'))})
                i += 1
            fault = (COMPILE,) + fault[1:]
        k.insert(i, {'t': 'raw', 's': fault[1]})
    fault = list(fault)
    if not whole and fault[2] in ('at', 'tag', 'end') and d.bool(30):
        # far down in the same text
        far = 'a' + d.choice(('\n', '\n', '\n ', '\t\n')) * d.choice(SIZES) + d.choice(('', 'b', ' $$'))
        for k in hosts(root, []):
            for n in k:
                if n.get('s') == fault[1] and n['t'] == 'raw':
                    n['s'] = fault[1] = far + fault[1]
    case['fault'] = fault
    case['via'] = d.choice(('source', 'source', 'nofile', 'loader', 'include', 'extends'))
    case['strip'] = d.bool(15)
    return case


def build(case):
    """(source, first line, last line) with the mistake."""
    cls, text, how, more = case['fault']
    if case['whole'] == 'empty':
        return case['text'], 0, case['text'].count('\n') + 1
    src = write_doc(case['doc'])
    if case['whole'] == 'cut':
        end = src.rstrip().rfind('<')
        first = src.index('<root')
        src = src[:first + case['at'] % (end - first)]
        return src, src.count('\n', 0, first) + 1, src.count('\n') + 1
    if case['whole'] == 'drop':
        ends = [m.span() for m in re.finditer(r'</[^<>]*>', src)]
        if not ends:
            return None
        a, b = ends[case['at'] % len(ends)]
        src = src[:a] + src[b:]
        return src, src.count('\n', 0, a) + 1, src.count('\n') + 1
    pos = src.index(MARK)
    src = src[:pos] + src[pos + 1:]
    if '<![CDATA[ x' in text and ']]>' in src[pos:]:
        return None
    line = src.count('\n', 0, pos) + 1
    first, last = line, line + more
    if how == 'tag':
        first = src.count('\n', 0, src.rfind('<', 0, pos)) + 1
    elif how == 'switch':
        start = src.rfind('<p', 0, pos)
        if case['whole'] != 'tagswitch':
            around = []
            for m in re.finditer('<py:switch|</py:switch>', src[:pos]):
                if m.group() == '<py:switch':
                    around.append(m.start())
                else:
                    around.pop()
            start = around[-1]
        first = src.count('\n', 0, start) + 1
    elif how == 'end':
        last = src.count('\n') + 1
    return src, first, last


def steps_for(case, src, op='xml', ext='html'):
    via = case['via']
    opts = {'strip_text': True} if case.get('strip') else {}
    if via in ('source', 'nofile'):
        name = 'some/dir/bad.' + ext if via == 'source' else '<string>'
        if via == 'source':
            opts['filename'] = name
        return [{'op': op, 'id': 't', 'source': src, 'opts': opts}], name
    name = '<DIR>/d/bad.' + ext
    steps = [{'op': 'write', 'path': 'd/bad.' + ext, 'text': src},
             {'op': 'fileloader', 'id': 'L', 'path': 'd', 'opts': opts}]
    if via == 'loader':
        return steps + [{'op': 'load', 'loader': 'L', 'name': 'bad.' + ext, 'id': 't'}], name
    if op == 'xml':
        top = '<r>\n\n<py:include href="bad.html"/></r>' if via == 'include' else \
            '<py:extends href="bad.html"/>'
    else:
        top = 'x\n%include "bad.txt"\n' if via == 'include' else '%extends "bad.txt"\n'
    steps.insert(0, {'op': 'write', 'path': 'd/top.' + ext, 'text': top})
    return steps + [{'op': 'load', 'loader': 'L', 'name': 'top.' + ext, 'id': 't'},
                    {'op': 'render', 'tpl': 't', 'ctx': case['ctx']}], name


def judge(r, src, name, cls, first, last, lab, located):
    d = {'source': src}
    if 'exc' not in r[-1]:
        raise Violation('an invalid template is accepted', **d)
    for x in r[:-1]:
        if 'exc' in x:
            raise Violation('an unexpected error: ' + exc_text(x), **d)
    e = r[-1]['exc']
    d['error'] = exc_text(r[-1])
    wanted = (cls,) if cls != SYNTAX else (SYNTAX, COMPILE, PARSE)
    if not set(wanted) & set(e['mro']):
        raise Violation('the mistake is reported as %s, not %s' % (e['type'], cls), **d)
    lab(e['type'])
    if not located and e['type'] == SYNTAX:
        return
    d.update(file=name, lines=[first, last], reported=[e.get('filename'), e.get('linenum')])
    if e.get('filename') != name:
        raise Violation('the error names another file', **d)
    ln = e.get('linenum')
    if not isinstance(ln, int) or not first <= ln <= last:
        raise Violation('the error names another line', **d)
    rows = src.split('\n')
    quoted = [x for x in e['msg'].split('\n') if '-->' in x]
    row = rows[ln - 1] if 0 < ln <= len(rows) else ''
    if '%s:%d' % (name, ln) not in e['msg'] or not any(row.strip() in x for x in quoted):
        raise Violation('the error does not quote the line', quoted=quoted, line=row, **d)


def check(case, w, lab):
    b = build(case)
    if b is None:
        return False
    src, first, last = b
    cls, _, how, _ = case['fault']
    steps, name = steps_for(case, src)
    if case['whole'] == 'empty' and '<?py' in src:
        cls = SYNTAX
    judge(w.call(steps), src, name, cls, first, last, lab, cls != SYNTAX)
    lab(case['whole'] or how)
    return True


# --- text templates --------------------------------------------------------

TPROF = {'w': {'text': 6, 'expr': 7, 'if': 3, 'for': 3, 'switch': 3, 'call': 3, 'py': 2, 'def': 2},
         'depth': 4, 'funcs': 3, 'sizes': (6, 14), 'callbacks': 40}


class FaultyWriter(Writer):
    def node(self, n):
        if n['t'] == 'fault':
            if n.get('line') and not self.at_start():
                self.out += '\\\n'
            self.out += n['s']
            self.skip = False
        else:
            Writer.node(self, n)


def lists(nodes, out):
    out.append(nodes)
    for n in nodes:
        for k in ('k', 'e'):
            if isinstance(n.get(k), list) and n['t'] != 'py':
                lists(n[k], out)
        if n['t'] == 'switch':
            for _, k in n['c']:
                lists(k, out)
    return out


def gen_text(d):
    env, ctx = gen_ctx(d, plain)
    nodes = TGen(d, TPROF, env).template()
    for n in walk(nodes):
        if n['t'] == 's' and d.bool(50):
            n['a'].append(['t', '.' + '\n' * (d.choice(SIZES) if d.bool(25) else d.int(1, 3)) + '.'])
        if n['t'] == 's' and d.bool(10):
            n['a'].append(['t', d.choice(LINE_LIKE)])
    e = d.choice(BAD)
    case = {'nodes': nodes, 'ctx': ctx, 'via': d.choice(('source', 'nofile', 'loader', 'include',
                                                         'extends'))}
    k = d.choice(lists(nodes, []))
    i = d.int(0, len(k))
    if d.bool(50):
        e = spoiled(d, e)
        form = d.choice(('${%s}', '${ %s}', '${%s }', '${%s', '${'))
        node = {'t': 'fault', 's': MARK + (form % e if '%s' in form else form)}
        case['located'], case['more'] = True, e.count('\n') if form.endswith('}') else 10 ** 6
    else:
        t = d.choice(('if', 'for', 'switch', 'def', 'call', 'py'))
        v, tail = ' ' + e, 'x{%end%}'
        if t == 'for':
            v = ' ' + d.choice(('x', 'in y', 'x in', '1 in i0', 'x in i0 i1', 'x in ' + e))
        elif t == 'def':
            v = ' ' + d.choice(('f(', 'f', '1f()', 'f(a b)', 'f(a=)', 'f(1)', 'f(a, a)'))
        elif t == 'call':
            v = '()' + d.choice((' f(', ' f(%caller', ' 1 +', ' f(%caller b)', ' )'))
        elif t == 'switch':
            v = ' ' + ('1 +' if e in ARGUMENTS else e)
            tail = '{%case 1%}x{%end%}'
        elif t == 'py':
            v, tail = ' ' + d.choice(('1 +', 'x = ', 'a b', ')', 'for', "'abc", 'if x')), ''
        if d.bool(50) or '%}' in v:
            node = {'t': 'fault', 's': MARK + '%' + t + v + '\n' + tail, 'line': True}
        else:
            node = {'t': 'fault', 's': MARK + '{%' + t + v + '%}' + tail}
        case['located'], case['more'] = False, 0
    k.insert(i, node)
    return case


def check_text(case, w, lab):
    wr = FaultyWriter()
    wr.nodes(case['nodes'])
    src = wr.out
    pos = src.index(MARK)
    src = src.replace(MARK, '')
    line = src.count('\n', 0, pos) + 1
    steps, name = steps_for(case, src, 'text', 'txt')
    judge(w.call(steps), src, name, SYNTAX, line, line + case['more'], lab, case['located'])
    return True


# --- and valid templates are accepted --------------------------------------

ASSUMPTIONS = ['the location of invalid Python in directives other than ${...} is not claimed',
               'missing ends of text template directives are not claimed']
SCENARIOS = [
    Scenario('xml', check, gen, n=3500,
             rule='valid XML templates with one mistake; non-trivial: all'),
    Scenario('text', check_text, gen_text, n=1500,
             rule='valid text templates with one mistake; non-trivial: all'),
]
