"""XML templates as data: how they are written, and what they must render.

A document is {"root": node, "dtd": str or None, "pre": [nodes]}.
Nodes:
  {"t": "text", "p": parts}            text with expressions
  {"t": "cdata", "p": parts}           a CDATA section
  {"t": "comment", "s": str}
  {"t": "py", "code": str}             <?py ...?>
  {"t": "el", "tag", "attrs": [[name, parts]], "dirs": {directive: value},
   "strip", "pattrs", "content": expression or None, "kids": [...],
   "sty": lexical variations}
  {"t": "dir", "d": directive, "v": value, "kids": [...], "args": str or None}
  {"t": "switch", "v": expr, "kids": [...]}    element form
Parts: ["s", str] plain, ["r", reference, str] an entity or character
reference, ["e", expr] "${expr}", ["n", name] "$name", ["$"] "$$".

The interpreter follows the documentation; Python code is evaluated by
Python itself, in a frame per function as Python has it.
"""
import os

from values import decode, Html, HtmlStr

ORDER = ('def', 'call', 'case', 'else', 'for', 'if', 'switch', 'with', 'replace', 'block',
         'extends')
DIR_ATTR = {'def': 'function', 'call': 'function', 'case': 'value', 'for': 'each', 'if': 'test',
            'switch': 'test', 'with': 'vars', 'replace': 'value', 'block': 'name',
            'extends': 'href', 'else': None}
VOID = set('area base br col hr img input link meta param'.split())
BOOLEAN = set('checked disabled readonly multiple selected nohref ismap declare defer'.split())
RAW = ('script', 'style')
MAX_OUTPUT = 300000


class TooBig(Exception):
    pass


# --- writing ---------------------------------------------------------------

def esc_src(s, quote=None, code=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace(']]>', ']]&gt;')
    s = s.replace('\r', '&#13;')
    if quote:
        s = s.replace(quote, '&quot;' if quote == '"' else '&#39;')
        if not code:
            s = s.replace('\n', '&#10;').replace('\t', '&#9;')
    return s


def write_parts(parts, quote=None, raw=False):
    out = []
    for p in parts:
        k = p[0]
        if k == 's':
            out.append(p[1] if raw else esc_src(p[1], quote))
        elif k == 'r':
            out.append(p[1])
        elif k == 'e':
            src = '${%s}' % p[1]
            out.append(src if raw else esc_src(src, quote))
        elif k == 'n':
            out.append('$' + p[1])
        elif k == '$':
            out.append('$$')
        elif k == 'M':
            out.append('\ue000%s\ue001' % p[1])      # finds a place in the source
        else:
            raise ValueError(p)
    # "]]>" may not stand in text, even across parts
    return ''.join(out) if raw else ''.join(out).replace(']]>', ']]&gt;')


def attr_src(name, value, quote):
    return '%s=%s%s%s' % (name, quote, value, quote)


def write(node):
    t = node['t']
    if t == 'text':
        return write_parts(node['p'])
    if t == 'cdata':
        return '<![CDATA[%s]]>' % write_parts(node['p'], raw=True)
    if t == 'comment':
        return '<!--%s-->' % node['s']
    if t == 'py':
        return '<?py%s?>' % node['code']
    if t == 'raw':
        return node['s']
    if t in ('dir', 'switch'):
        d = 'switch' if t == 'switch' else node['d']
        attrs = ''
        if DIR_ATTR.get(d):
            attrs = ' ' + attr_src(DIR_ATTR[d], esc_src(node['v'], '"', True), '"')
        if node.get('args') is not None:
            attrs += ' ' + attr_src('args', esc_src(node['args'], '"'), '"')
        for x, v in (node.get('xdirs') or {}).items():
            a = attr_src('py:' + x, esc_src(v or '', '"', True), '"')
            attrs = attrs + ' ' + a if node.get('xlast') else ' ' + a + attrs
        body = ''.join(write(k) for k in node['kids'])
        if not body and node.get('self'):
            return '<py:%s%s/>' % (d, attrs)
        return '<py:%s%s>%s</py:%s>' % (d, attrs, body, d)
    if t == 'include':
        return '<py:include href="%s"/>' % esc_src(node['href'], '"')
    if t == 'import':
        alias = ' alias="%s"' % node['alias'] if node.get('alias') else ''
        return '<py:import href="%s"%s/>' % (esc_src(node['href'], '"'), alias)
    # element
    sty = node.get('sty') or {}
    q = sty.get('q', '"')
    attrs = [attr_src(n, write_parts(p, q), q) for n, p in node.get('attrs', ())]
    for d in ORDER:
        if d in (node.get('dirs') or {}):
            attrs.append(attr_src('py:' + d, esc_src(node['dirs'][d] or '', q, True), q))
    for k, a in (('strip', 'py:strip'), ('pattrs', 'py:attrs'), ('content', 'py:content')):
        if node.get(k) is not None:
            attrs.append(attr_src(a, esc_src(node[k], q, True), q))
    order = sty.get('order')
    if order:
        attrs = [attrs[i] for i in order if i < len(attrs)] + attrs[len(order):]
    sp = sty.get('sp', ' ')
    body = ''.join(write_raw(k) if node['tag'] in RAW else write(k) for k in node['kids'])
    head = '<' + node['tag'] + ''.join(sp + a for a in attrs) + sty.get('end', '')
    if not body and sty.get('self', True):
        return head + '/>'
    return '%s>%s</%s%s>' % (head, body, node['tag'], sty.get('end', ''))


def write_raw(node):
    """Children of script and style elements."""
    return write(node)


def attr_count(node):
    return (len(node.get('attrs', ())) + len(node.get('dirs') or {}) +
            sum(node.get(k) is not None for k in ('strip', 'pattrs', 'content')))


def write_doc(doc):
    out = []
    if doc.get('dtd'):
        out.append(doc['dtd'] + '\n')
    for n in doc.get('pre', ()):
        out.append(write(n))
    out.append(write(doc['root']))
    for n in doc.get('post', ()):
        out.append(write(n))
    return ''.join(out)


# --- meaning ---------------------------------------------------------------

class Flat(object):
    """Rendered markup: the result of a function, or a literal."""

    def __init__(self, s):
        self.s = s


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def esc_text(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def show(v, escape=True):
    """How a value appears in text."""
    if v is None:
        return ''
    if isinstance(v, Flat):
        return v.s
    if isinstance(v, (Html, HtmlStr)):
        return v.__html__()
    s = str(v)
    return esc(s) if escape else s


def pieces(parts, strip=False):
    """A run of text in pieces: ("e", expression), ("m", a message) or ("w", other text).

    A message is static text between tags and expressions, without the
    whitespace next to tags.
    """
    items = []
    for p in parts:
        if p[0] in 'en':
            items.append(['e', p[1]])
        elif p[0] == '$':
            items.append(['$', '$'])
        elif p[0] == 'M':
            continue
        elif items and items[-1][0] == 's':
            items[-1][1] += p[-1]
        else:
            items.append(['s', p[-1]])
    out = []
    for i, (k, x) in enumerate(items):
        if k == 'e':
            out.append((k, x))
            continue
        lead = trail = ''
        if i == 0:
            core = x.lstrip()
            lead, x = x[:len(x) - len(core)], core
        if i == len(items) - 1:
            core = x.rstrip()
            trail, x = x[len(core):], core
        for kind, y in (('w', lead), ('m' if x.strip() else 'W', x), ('w', trail)):
            if y and not (strip and kind == 'w'):
                out.append((kind, y))
    return out


class Frame(object):
    def __init__(self, m, parent, in_def=False):
        self.m, self.parent, self.vars = m, parent, {}
        self.in_def = in_def    # definitions inside functions are local to the call

    def names(self):
        """All visible names, as one dictionary to evaluate code in."""
        chain = []
        f = self
        while f is not None:
            chain.append(f.vars)
            f = f.parent
        g = dict(self.m.globals)
        for v in reversed(chain):
            g.update(v)
        return g

    def eval(self, src):
        return eval(compiled(src), self.names())


_CODE = {}


def compiled(src, kind='eval'):
    k = (src, kind)
    if k not in _CODE:
        if len(_CODE) > 5000:
            _CODE.clear()
        _CODE[k] = compile(src.strip() if kind == 'eval' else src, '<model>', kind)
    return _CODE[k]


class Model(object):
    def __init__(self, doc, ctx, mode='xml', cdata_scripts=True, gettext=None, loader=None,
                 globals_=None, child=False, strip_text=False):
        self.doc, self.mode, self.cdata_scripts = doc, mode, cdata_scripts
        self.strip_text = strip_text
        self.html = mode.startswith('html')
        self.gettext = gettext
        self.globals = {'literal': Flat, 'Markup': Flat}
        self.globals.update(globals_ or {})
        self.defs = {}
        self.size = 0
        self.ctx = decode(ctx, Flat)
        self.globals.update(self.ctx)
        self.globals['defined'] = lambda n: n in self.globals
        self.globals['value_of'] = lambda n, default=None: self.globals.get(n, default)
        self.modns = {}
        for n in list(doc.get('pre', ())) + [doc['root']]:
            self.modules(n)
        self.globals.update((k, v) for k, v in self.modns.items() if k != '__builtins__')
        self.globals.update(self.ctx)
        self.collect(doc['root'], False)

    # -- functions and module code are known before anything is rendered
    def collect(self, n, in_def):
        if n['t'] in ('el', 'dir', 'switch'):
            dirs = dict(n.get('dirs') or {})
            if n['t'] == 'dir':
                dirs = {n['d']: n['v']}
            if 'def' in dirs:
                if not in_def:
                    name = dirs['def'].split('(')[0].strip()
                    rest = dict(n)
                    if n['t'] == 'el':
                        rest['dirs'] = dict((k, v) for k, v in dirs.items() if k != 'def')
                        body = [rest]
                    else:
                        body = n['kids']
                    self.globals[name] = self.function(dirs['def'], body, None)
                in_def = True
            if 'replace' in dirs or n.get('content') is not None:
                return
            for k in n.get('kids', ()):
                self.collect(k, in_def)

    def modules(self, n):
        if n['t'] == 'py' and n['code'].strip().startswith('%'):
            code = n.get('plain') or n['code'].strip()[1:]
            exec(compiled(dedent(code), 'exec'), self.modns)
        for k in n.get('kids', ()):
            self.modules(k)

    def function(self, decl, body, frame):
        """A Python function with this signature that renders the body."""
        name, args = decl.split('(', 1)
        args = args.rstrip()[:-1]
        ns = frame.names() if frame else dict(self.globals)
        # the signature is Python's own business
        exec(compiled('def _sig(%s): return dict(locals())' % args, 'exec'), ns)
        sig = ns['_sig']

        def call(*a, **k):
            f = Frame(self, frame, True)
            f.vars.update(sig(*a, **k))
            out = []
            self.render(body, f, out)
            return Flat(''.join(out))
        return call

    # -- rendering
    def emit(self, out, s):
        self.size += len(s)
        if self.size > MAX_OUTPUT:
            raise TooBig()
        out.append(s)

    def main(self):
        out = []
        dtd = self.doc.get('dtd')
        if dtd:
            self.emit(out, dtd.strip() + '\n')
        elif self.mode == 'html5':
            self.emit(out, '<!DOCTYPE html>\n')
        f = Frame(self, None)
        self.render([n for n in self.doc.get('pre', ()) if n['t'] == 'py'], f, out)
        self.render([self.doc['root']], f, out)
        return ''.join(out)

    def render(self, nodes, f, out):
        chosen = None    # whether the preceding py:if was taken
        for n in nodes:
            chosen = self.node(n, f, out, chosen)

    def node(self, n, f, out, chosen):
        t = n['t']
        if t == 'text':
            self.text(n['p'], f, out)
        elif t == 'cdata':
            self.emit(out, '<![CDATA[')
            self.text(n['p'], f, out, False)
            self.emit(out, ']]>')
        elif t == 'comment':
            if not n['s'].startswith('!'):
                self.emit(out, '<!-- %s -->' % n['s'])
        elif t == 'py':
            self.python(n, f)
        elif t == 'switch':
            self.switch(n, f, out)
        elif t == 'dir':
            return self.directives([(n['d'], n['v'])], n['kids'], n, f, out, chosen)
        elif t == 'el':
            dirs = n.get('dirs') or {}
            return self.directives([(k, dirs[k]) for k in ORDER if k in dirs], None, n, f, out,
                                   chosen)
        else:
            self.other(n, f, out)
        return None

    def other(self, n, f, out):
        raise ValueError(n)

    def text(self, parts, f, out, escape=True, translate=True):
        for k, x in pieces(parts, self.strip_text):
            if k == 'e':
                self.emit(out, show(f.eval(x)))
            else:
                if escape:
                    x = esc_text(x)
                if k == 'm' and translate and self.gettext:
                    x = self.gettext(x)
                self.emit(out, x)

    def python(self, n, f):
        if n['code'].strip().startswith('%'):
            return
        code = n.get('plain') or n['code'].strip()
        g = f.names()
        before = dict(g)
        exec(compiled(dedent(code), 'exec'), g)
        for k, v in g.items():
            if k != '__builtins__' and (k not in before or before[k] is not v):
                f.vars[k] = v

    def switch(self, n, f, out):
        v = f.eval(n['v'])
        for k in n['kids']:
            dirs = (k.get('dirs') or {}) if k['t'] == 'el' else {k.get('d'): k.get('v')}
            if 'case' in dirs:
                if not (f.eval(dirs['case']) == v):
                    continue
            elif 'else' not in dirs:
                continue
            if k['t'] == 'el':
                rest = [(x, dirs[x]) for x in ORDER if x in dirs and x not in ('case', 'else')]
                self.directives(rest, None, k, f, out, None)
            else:
                self.render(k['kids'], f, out)
            return

    def directives(self, dirs, kids, n, f, out, chosen):
        """Apply the directives, outermost first; kids is None for elements."""
        if not dirs:
            if kids is None:
                self.element(n, f, out)
            else:
                self.render(kids, f, out)
            return None
        (d, v), rest = dirs[0], dirs[1:]

        def inner(f, out):
            self.directives(rest, kids, n, f, out, None)
        if d == 'def':
            name = v.split('(')[0].strip()
            if f.in_def:
                f.vars[name] = self.inner_function(v, inner, f, True)
            return None
        if d == 'call':
            body = self.inner_function('_(%s)' % (n.get('args') or ''), inner, f)
            g = f.names()
            g['_kj_caller'] = body
            src = v.replace('%caller', '_kj_caller').replace('$caller', '_kj_caller')
            r = eval(compiled(src), g)
            self.emit(out, show(r, False))
            return None
        if d == 'nop':
            inner(f, out)
            return None
        if d == 'for':
            target, seq = v.split(' in ', 1)
            f_eval = f.eval(seq)
            for item in f_eval:
                ns = {'_item': item}
                exec(compiled('%s = _item' % target, 'exec'), ns)
                for k, x in ns.items():
                    if k not in ('_item', '__builtins__'):
                        f.vars[k] = x
                inner(f, out)
            return None
        if d == 'if':
            if f.eval(v):
                inner(f, out)
                return True
            return False
        if d == 'else':
            if chosen is False:
                inner(f, out)
            return None
        if d == 'with':
            saved = []
            for name, src in n['vars']:
                saved.append((name, f.vars[name] if name in f.vars else None, name in f.vars))
            for name, src in n['vars']:
                f.vars[name] = f.eval(src)
            inner(f, out)
            for name, val, had in reversed(saved):
                if had:
                    f.vars[name] = val
                else:
                    f.vars.pop(name, None)
            return None
        if d == 'replace':
            self.emit(out, show(f.eval(v)))
            return None
        if d == 'block':
            self.block(v, inner, f, out)
            return None
        raise ValueError(d)

    def block(self, name, inner, f, out):
        inner(Frame(self, None), out)

    def inner_function(self, decl, inner, frame, in_def=False):
        args = decl.split('(', 1)[1].rstrip()[:-1]
        ns = frame.names()
        exec(compiled('def _sig(%s): return dict(locals())' % args, 'exec'), ns)
        sig = ns['_sig']

        def call(*a, **k):
            f = Frame(self, frame, in_def or frame.in_def)
            f.vars.update(sig(*a, **k))
            out = []
            inner(f, out)
            return Flat(''.join(out))
        return call

    # -- elements
    def element(self, n, f, out):
        tag = n['tag']
        keep = True
        if n.get('strip') is not None:
            keep = n['strip'] != '' and not f.eval(n['strip'])
        if keep:
            self.emit(out, '<' + tag)
            self.attributes(n, f, out)
        if n.get('content'):
            if keep:
                self.emit(out, '>')
            self.emit(out, show(f.eval(n['content'])))
            if keep:
                self.emit(out, '</%s>' % tag)
            return
        if any(k['t'] != 'text' or k['p'] for k in n['kids']):
            if keep:
                self.emit(out, '>')
            if tag in RAW and self.cdata_scripts:
                self.raw(n['kids'], f, out)
            elif tag in RAW:
                for k in n['kids']:
                    self.text(k['p'], f, out, translate=False)
            else:
                self.render(n['kids'], f, out)
            if keep and not (self.html and tag in VOID):
                self.emit(out, '</%s>' % tag)
        elif keep:
            if self.html and tag in VOID:
                self.emit(out, '>')
            elif self.html or tag == 'script':
                self.emit(out, '></%s>' % tag)
            else:
                self.emit(out, '/>')

    def raw(self, kids, f, out):
        if self.mode == 'xml':
            self.emit(out, '/*<![CDATA[*/')
        for k in kids:
            for kind, s in pieces(k['p'], self.strip_text):
                if kind == 'e':
                    self.emit(out, show(f.eval(s)))
                else:
                    if self.mode == 'xml':
                        s = s.replace(']]>', ']]]]><![CDATA[>')
                    self.emit(out, s)
        if self.mode == 'xml':
            self.emit(out, '/*]]>*/')

    def attr_value(self, parts, f):
        vals = []
        for p in parts:
            if p[0] in 'en':
                v = f.eval(p[1])
                if v is None:
                    continue
                vals.append(v.s if isinstance(v, Flat) else str(v))
            else:
                vals.append('$' if p[0] == '$' else p[-1])
        if not vals and parts:
            return None
        return ''.join(vals)

    def attributes(self, n, f, out):
        for name, parts in sorted(n.get('attrs', ()), key=lambda x: x[0]):
            self.attr(name, self.attr_value(parts, f), out)
        if n.get('pattrs'):
            v = f.eval(n['pattrs'])
            if v is not None:
                items = v.items() if hasattr(v, 'items') else v
                for k, x in sorted(items, key=lambda kv: kv[0]):
                    if k in BOOLEAN and x in (True, False):
                        x = k if x else None
                    self.attr(k, x, out)

    def attr(self, name, v, out):
        if v is None:
            return
        if self.html and name in BOOLEAN:
            self.emit(out, ' ' + name)
        else:
            self.emit(out, ' %s="%s"' % (name, esc(v.s) if isinstance(v, Flat) else show(v)))


def dedent(code):
    """The code without the indentation of its first line."""
    lines = code.strip('\n').split('\n')
    lines = [x for x in lines]
    while lines and not lines[0].strip():
        lines.pop(0)
    if not lines:
        return ''
    first = lines[0]
    prefix = first[:len(first) - len(first.lstrip())]
    return '\n'.join(x[len(prefix):] if x.startswith(prefix) else x.strip() for x in lines) + '\n'


def run_model(doc, ctx, **kw):
    from core import Skip
    try:
        return Model(doc, ctx, **kw).main()
    except TooBig:
        raise Skip()
    except RecursionError:
        raise Skip()
    except NameError:
        # the generator slipped: the template uses something it never defined
        if os.environ.get('KJ_STRICT'):
            raise
        raise Skip()


def small(doc, ctx):
    """Skip a template whose output is out of proportion (functions that call functions)."""
    from core import Skip
    try:
        Model(doc, ctx).main()
    except (TooBig, RecursionError):
        raise Skip()
    except Exception:
        pass
