"""Runs on the interpreter of the code under test; executes scripts of steps.

Protocol: one JSON request per line on stdin, one JSON response per line on
the original stdout. A request is {"steps": [...]}; the response is
{"results": [...]}, one per step: {"v": value} or {"exc": description}.
Everything the code under test prints goes to /dev/null.
"""
import json
import os
import shutil
import sys
import tempfile
import threading
import traceback

REPO = os.environ.get('KJ_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


def setup_io():
    out = os.fdopen(os.dup(1), 'wb')
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    return sys.stdin.buffer, out


INP, OUT = setup_io()
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.setrecursionlimit(3000)
import values  # noqa: E402

BOOT_ERROR = None
try:
    import kajiki  # noqa: E402
    import kajiki.i18n  # noqa: E402
    import kajiki.template  # noqa: E402
    import kajiki.doctype  # noqa: E402
    from kajiki.util import literal  # noqa: E402
    if not os.path.realpath(kajiki.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise ImportError('wrong kajiki: %s' % kajiki.__file__)
except BaseException as e:  # the tree does not import
    BOOT_ERROR = '%s: %s' % (type(e).__name__, e)
    literal = None


def describe(e, tb=True):
    d = {'type': type(e).__name__,
         'mro': [c.__name__ for c in type(e).__mro__],
         'msg': str(e) if not isinstance(e, KeyError) else repr(e.args[0]) if e.args else ''}
    for k in ('filename', 'linenum', 'colnum'):
        v = getattr(e, k, None)
        if isinstance(v, (str, int)):
            d[k] = v
    if tb:
        frames = traceback.extract_tb(e.__traceback__)
        d['tb'] = [[f.filename, f.lineno] for f in frames
                   if f.filename != __file__]
    return d


class Script(object):
    def __init__(self, req):
        self.reg = {}
        self.objs = []
        self.dir = None

    # -- helpers
    def val(self, v):
        return values.decode(v, literal)

    def ctx(self, step):
        if 'ctx_ref' in step:
            return self.reg[step['ctx_ref']]
        if step.get('ctx') is None:
            return None
        return self.val(step['ctx'])

    def tmp(self):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix='kjpbt-')
        return self.dir

    def path(self, p):
        full = os.path.normpath(os.path.join(self.tmp(), p))
        assert full.startswith(self.tmp() + os.sep) or full == self.tmp()
        return full

    def token(self, obj):
        for i, o in enumerate(self.objs):
            if o is obj:
                return i
        self.objs.append(obj)
        return len(self.objs) - 1

    def opts(self, step):
        o = dict(step.get('opts') or {})
        if 'base_globals' in o:
            o['base_globals'] = self.val(o['base_globals'])
        if 'base_globals_ref' in o:
            o['base_globals'] = self.reg[o.pop('base_globals_ref')]
        return o

    # -- steps
    def do_xml(self, s):
        t = kajiki.XMLTemplate(s['source'], **self.opts(s))
        self.reg[s['id']] = t
        return True

    def do_text(self, s):
        t = kajiki.TextTemplate(s['source'], **self.opts(s))
        self.reg[s['id']] = t
        return True

    def do_mock(self, s):
        self.reg[s['id']] = kajiki.MockLoader(
            dict((k, self.reg[v]) for k, v in s['modules'].items()))
        return True

    def do_write(self, s):
        p = self.path(s['path'])
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        with open(p, 'wb') as f:
            f.write(s['text'].encode(s.get('encoding', 'utf-8')))
        if 'mtime' in s:
            os.utime(p, (s['mtime'], s['mtime']))
        return True

    def do_remove(self, s):
        os.unlink(self.path(s['path']))
        return True

    def do_fileloader(self, s):
        path = s['path']
        if isinstance(path, list):
            path = [self.path(p) for p in path]
            if s.get('joined'):
                path = ';'.join(path)
        else:
            path = self.path(path)
        self.reg[s['id']] = kajiki.FileLoader(path, **self.opts(s))
        return True

    def do_package(self, s):
        """Make a Python package out of files under the scratch directory."""
        base = self.path(s.get('base', 'pk'))
        if base not in sys.path:
            sys.path.insert(0, base)
            sys.path_importer_cache.clear()
            self.reg.setdefault('!paths', []).append(base)
        return True

    def do_pkgloader(self, s):
        self.reg[s['id']] = kajiki.PackageLoader(**self.opts(s))
        return True

    def do_load(self, s):
        loader = self.reg[s['loader']]
        meth = loader.load if s.get('alias') else loader.import_
        t = meth(s['name'], **(s.get('kw') or {}))
        if s.get('id'):
            self.reg[s['id']] = t
        return self.token(t)

    def do_value(self, s):
        self.reg[s['id']] = self.val(s['value'])
        return True

    def do_snapshot(self, s):
        return values.snapshot(self.reg[s['id']])

    def do_recorded(self, s):
        return list(self.reg[s['id']].seen)

    def do_setref(self, s):
        """Put a registered object into a registered dict."""
        self.reg[s['into']][s['key']] = self.reg[s['ref']]
        return True

    def do_inst(self, s):
        t = self.reg[s['tpl']]
        c = self.ctx(s)
        self.reg[s['id']] = t(c) if c is not None else t()
        return True

    def do_render(self, s):
        if 'inst' in s:
            i = self.reg[s['inst']]
        else:
            t = self.reg[s['tpl']]
            c = self.ctx(s)
            i = t(c) if c is not None else t()
        if s.get('via') == 'iter':
            chunks = []
            for x in i:
                if not isinstance(x, str):
                    return {'bad chunk': type(x).__name__}
                chunks.append(x)
            return ''.join(chunks)
        r = i.render()
        if not isinstance(r, str):
            return {'bad result': type(r).__name__}
        return r

    def do_start(self, s):
        self.reg[s['id']] = iter(self.reg[s['inst']])
        return True

    def do_step(self, s):
        out = []
        it = self.reg[s['it']]
        for _ in range(s['n']):
            try:
                x = next(it)
            except StopIteration:
                return ['end', ''.join(out)]
            if not isinstance(x, str):
                return ['bad chunk', type(x).__name__]
            out.append(x)
        return ['more', ''.join(out)]

    def do_finish(self, s):
        return ''.join(self.reg[s['it']])

    def do_close(self, s):
        it = self.reg[s['it']]
        if hasattr(it, 'close'):
            it.close()
        return True

    def do_threads(self, s):
        """Render in several threads at once; each task is a list of renders."""
        n = len(s['tasks'])
        res = [None] * n
        gate = threading.Barrier(n)

        def run(k):
            out = []
            gate.wait(30)
            for st in s['tasks'][k]:
                out.append(self.one(st))
            res[k] = out
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ths = [threading.Thread(target=run, args=(k,)) for k in range(n)]
            for t in ths:
                t.daemon = True
                t.start()
            for t in ths:
                t.join(60)
        finally:
            sys.setswitchinterval(old)
        return res

    def do_fused(self, s):
        """Render once to see which fuses are reached, then blow some."""
        t = self.reg[s['tpl']]
        name = s.get('name', 'kjf')

        def ctx(f):
            c = self.val(s['ctx'])
            c[name] = f
            return c
        f = values.Fuses()
        t(ctx(f)).render()
        out = []
        for pick, nth, kind in s['plan']:
            if not f._order:
                break
            i = f._order[pick % len(f._order)]
            n = 1 + nth % f._counts[i]
            g = values.Fuses([i, n], kind)
            try:
                if s.get('via') == 'iter':
                    for _ in t(ctx(g)):
                        pass
                else:
                    t(ctx(g)).render()
            except Exception as e:
                d = describe(e)
                d['same'] = e is values.Fuses.last
                out.append([i, n, {'exc': d}])
            else:
                out.append([i, n, {'v': g._counts.get(i, 0)}])
        return [f._order, out]

    def do_entwined(self, s):
        """Render templates on their own, then one inside the expressions of the other."""
        alone = []
        for tpl, ctx in s['chain']:
            alone.append(self.reg[tpl](dict(self.val(ctx), kjf=values.Fuses())).render())
        got = []
        steppers = []
        nxt = None
        for tpl, ctx in reversed(s['chain']):
            f = values.Stepper(nxt, s['every'])
            steppers.insert(0, f)
            inst = self.reg[tpl](dict(self.val(ctx), kjf=f))
            nxt = iter(inst)
        got.append(''.join(nxt))
        for f in steppers[:-1]:
            got.append(f._rest())
        return [alone, got]

    def do_extract(self, s):
        from io import BytesIO, StringIO
        src = s['source']
        f = StringIO(src) if s.get('as_text') else BytesIO(src.encode('utf-8'))
        opts = dict(s.get('options') or {})
        return [[x[0], x[1], x[2], list(x[3])] for x in kajiki.i18n.extract(
            f, s.get('keywords', ['_']), s.get('comment_tags', None), opts)]

    def do_set_gettext(self, s):
        self.reg.setdefault('!gettext', kajiki.i18n.gettext)
        kajiki.i18n.gettext = self.val(s['value']) if 'value' in s else self.reg[s['ref']]
        return True

    def do_dtd_match(self, s):
        d = kajiki.doctype.DocumentTypeDeclaration.matching(s['dtd'])
        return None if d is None else [d.name, d.rendering_mode, str(d)]

    def do_dtd_list(self, s):
        return [[d.name, d.rendering_mode, str(d), d.uri]
                for d in kajiki.doctype.DocumentTypeDeclaration.by_uri.values()]

    def do_extract_dtd(self, s):
        return list(kajiki.doctype.extract_dtd(s['markup']))

    def do_class_template(self, s):
        """kajiki.Template over a class of exposed functions."""
        ns = {'kajiki': kajiki}
        exec(s['code'], ns)
        self.reg[s['id']] = kajiki.Template(ns[s['name']])
        return True

    def do_plugin(self, s):
        from kajiki.integration.turbogears1 import XMLTemplateEnginePlugin
        extra = self.val(s.get('extra'))
        args = {}
        if 'options' in s:
            args['engine_options'] = s['options']
        self.reg[s['id']] = XMLTemplateEnginePlugin(
            None if extra is None else lambda: extra, **args)
        return True

    def do_plugin_load(self, s):
        p = self.reg[s['plugin']]
        if 'source' in s:
            t = p.load_template(None, s['source'])
        else:
            t = p.load_template(s['name'])
        self.reg[s['id']] = t
        return True

    def do_plugin_render(self, s):
        t = self.reg[s['tpl']] if 'tpl' in s else s['name']
        info = self.val(s['info'])
        p = self.reg[s['plugin']]
        if s.get('how') == 'transform':
            return ''.join(p.transform(info, t))
        if s.get('how') == 'kw':
            return p.render(info, fragment=False, format='html', template=t)
        return p.render(info, template=t)

    def do_pyramid(self, s):
        """Configure an application; the file name extensions it was given."""
        import pyrstub
        pyrstub.install()
        from kajiki.integration.pyramid import includeme
        c = self.reg[s['id']] = pyrstub.Config(dict(s['settings']))
        for _ in range(s.get('times', 1)):
            includeme(c)
        return [ext for ext, f in c.renderers]

    def pyr_loader(self, s):
        import pyrstub
        c = self.reg[s['app']]
        ext = os.path.splitext(s['name'])[1]
        factory = dict(c.renderers)[ext]
        return factory(pyrstub.Thing(name=s['name'], package=None, type=ext, registry=c.registry,
                                     settings=c.settings))

    def do_pyr_render(self, s):
        import pyrstub
        name = s['name']
        if s.get('abs'):
            name = self.path('pk/' + name.replace(':', '/'))
        if s.get('how') == 'fragment':
            kw = {}
            if s.get('view'):
                kw['view'] = pyrstub.Thing(request=self.val(s['system'].get('request')))
            else:
                kw['request'] = self.val(s['system'].get('request')) or 'rq'
            return self.pyr_loader(s).fragment(name, self.val(s['value']), **kw)
        system = self.val(s['system'])
        if s.get('how') == 'info':
            system['renderer_info'] = pyrstub.Thing(name=name)
            if s.get('none'):
                system['renderer_name'] = None
        else:
            system['renderer_name'] = name
        return self.pyr_loader(s)(self.val(s['value']), system)

    def do_pyr_load(self, s):
        c = self.reg[s['app']]
        return self.token(c.registry.kajiki_loader.import_(s['name']))

    def one(self, s):
        try:
            return {'v': getattr(self, 'do_' + s['op'])(s)}
        except Exception as e:
            return {'exc': describe(e)}

    def run(self, steps):
        try:
            out = []
            for s in steps:
                if s['op'] not in DIR:
                    return {'harness': 'unknown op %r' % s['op']}
                out.append(self.one(s))
            return {'results': out, 'dir': self.dir}
        finally:
            if '!gettext' in self.reg:
                kajiki.i18n.gettext = self.reg['!gettext']
            for p in self.reg.get('!paths', []):
                if p in sys.path:
                    sys.path.remove(p)
            if self.reg.get('!paths'):
                for name, m in list(sys.modules.items()):
                    f = getattr(m, '__file__', None)
                    if f and self.dir and f.startswith(self.dir):
                        del sys.modules[name]
                sys.path_importer_cache.clear()
            if self.dir:
                shutil.rmtree(self.dir, ignore_errors=True)


DIR = set(n[3:] for n in dir(Script) if n.startswith('do_'))


def main():
    while True:
        line = INP.readline()
        if not line:
            return
        req = json.loads(line.decode('utf-8'))
        if BOOT_ERROR:
            resp = {'boot': BOOT_ERROR}
        else:
            try:
                resp = Script(req).run(req['steps'])
            except BaseException as e:
                resp = {'harness': traceback.format_exc()}
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    resp = {'results': [], 'fatal': type(e).__name__}
        data = json.dumps(resp)
        OUT.write(data.encode('utf-8', 'surrogatepass') + b'\n')
        OUT.flush()


if __name__ == '__main__':
    main()
