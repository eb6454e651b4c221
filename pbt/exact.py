"""Checks that compare a rendering with the model, character by character."""
from core import Violation, ok
from xmlgen import count, gen_doc
from xmlmodel import run_model, write_doc


def make(prof, nontrivial, modes=('xml',)):
    def gen(d):
        case = gen_doc(d, prof)
        if len(modes) > 1:
            case['mode'] = d.choice(modes)
        if d.bool(prof.get('base', 10)):
            # some names come from the loader's globals instead
            # (the compiled module has a name "template" of its own)
            case['base'] = d.subset(sorted(set(case['ctx']) - {'template', 'kajiki'}), 60)
        return case

    def check(case, w, lab):
        mode = case.get('mode', 'xml')
        return compare(case, w, lab, nontrivial, opts={'mode': mode}, mode=mode)
    return gen, check


def compare(case, w, lab, nontrivial, opts=None, **kw):
    src = write_doc(case['doc'])
    want = run_model(case['doc'], case['ctx'], **kw)
    opts, ctx = dict(opts or {}), case['ctx']
    if case.get('base'):
        opts['base_globals'] = dict((k, ctx[k]) for k in case['base'])
        ctx = dict((k, v) for k, v in ctx.items() if k not in case['base'])
    r = w.call([{'op': 'xml', 'id': 't', 'source': src, 'opts': opts},
                {'op': 'render', 'tpl': 't', 'ctx': ctx}])
    ok(r[0], 'compiling', source=src)
    got = ok(r[1], 'rendering', source=src)
    if got != want:
        raise Violation('the output differs from what the template says', source=src,
                        expected=want, got=got)
    c = count(case['doc']['root'])
    for k in c:
        lab(k)
    return nontrivial(c)
