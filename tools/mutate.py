"""Mutation testing of the checks: mutate.py gen|tests|checks DIR [options].

gen    writes every single-point mutant of the engine's sources to DIR/mutants.jsonl
tests  keeps those that pass the repository's own tests (DIR/alive.jsonl)
checks runs the checks on the ones that are left (DIR/result.jsonl)
Nothing here is used by the checks.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
PY = '/opt/venv/bin/python'
FILES = ['__init__', 'template', 'ir', 'xml_template', 'text', 'loader', 'util', 'i18n', 'lnotab',
         'doctype', 'html_utils', 'markup_template', 'integration/turbogears1']
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
       ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
METHODS = {'strip': ('lstrip', 'rstrip'), 'lstrip': ('strip',), 'rstrip': ('strip',),
           'startswith': ('endswith',), 'find': ('rfind',), 'rfind': ('find',),
           'split': ('rsplit',), 'lower': ('upper', 'strip'), 'search': ('match',),
           'match': ('search',), 'extend': ('append',), 'rsplit': ('split',),
           'splitlines': ('split',), 'partition': ('rpartition',), 'rpartition': ('partition',),
           'setdefault': ('get',), 'count': ('find',)}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split('\n')
        self.offs = [0]
        for x in self.lines:
            self.offs.append(self.offs[-1] + len(x.encode('utf-8')) + 1)
        self.raw = src.encode('utf-8')
        self.out = []
        self.doc = set()

    def pos(self, n):
        return (self.offs[n.lineno - 1] + n.col_offset,
                self.offs[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.pos(n)
        return self.raw[a:b].decode('utf-8')

    def put(self, n, new, kind):
        a, b = self.pos(n)
        self.out.append([a, b, new, kind, n.lineno])

    def visit(self, n):
        m = getattr(self, 'm_' + type(n).__name__, None)
        if m:
            m(n)
        self.generic_visit(n)

    def m_Compare(self, n):
        if len(n.ops) == 1:
            self.put(n, '(%s %s %s)' % (self.text(n.left), CMP[type(n.ops[0])],
                                        self.text(n.comparators[0])), 'cmp')
            if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                o = {ast.Lt: '>=', ast.Gt: '<=', ast.LtE: '>', ast.GtE: '<'}[type(n.ops[0])]
                self.put(n, '(%s %s %s)' % (self.text(n.left), o, self.text(n.comparators[0])),
                         'cmp2')

    def m_BoolOp(self, n):
        v = [self.text(x) for x in n.values]
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.put(n, '(%s)' % op.join(v), 'bool')
        old = ' and ' if isinstance(n.op, ast.And) else ' or '
        for i in range(len(v)):
            self.put(n, '(%s)' % old.join(v[:i] + v[i + 1:]), 'drop operand')

    def m_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, '(%s)' % self.text(n.operand), 'not')

    def m_If(self, n):
        self.put(n.test, 'True', 'if true')
        self.put(n.test, 'False', 'if false')

    m_IfExp = m_If

    def m_BinOp(self, n):
        if isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.right, ast.Constant) or \
                isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(n.right.value, int):
            self.put(n, '(%s)' % self.text(n.left), 'drop addend')

    def m_Constant(self, n):
        v = n.value
        if n in self.doc:
            return
        if v is True or v is False:
            self.put(n, str(not v), 'const')
        elif isinstance(v, int):
            self.put(n, str(v + 1), 'const')
            if v:
                self.put(n, str(v - 1), 'const')
        elif isinstance(v, str):
            t = self.text(n)
            if len(v) == 0:
                self.put(n, "'x'", 'str')
            else:
                self.put(n, "''" if not t.startswith('b') else "b''", 'str')
                q = t[-1]
                if len(v) > 1 and not t.endswith(q * 3) and t.count('\n') == 0:
                    i = t.index(q) + 1
                    body = t[i:-1]
                    for j, c in enumerate(body):
                        if c in '+*?^|' and j and body[j - 1] != '\\' or c == '^':
                            for r in {'+': '*', '*': '+', '?': '', '^': '', '|': ''}[c],:
                                self.put(n, t[:i] + body[:j] + r + body[j + 1:] + q, 'regex')
                        elif body[j:j + 2] in ('\\s', '\\w', '\\b', '\\n'):
                            self.put(n, t[:i] + body[:j] + {'s': ' ', 'w': '[a-z]', 'b': '',
                                                            'n': ''}[body[j + 1]] + body[j + 2:] +
                                     q, 'regex')
                        elif c in ' ;:,' and len(body) < 30:
                            self.put(n, t[:i] + body[:j] + body[j + 1:] + q, 'str char')

    def m_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            a, b = self.pos(f)
            for m in METHODS[f.attr]:
                self.out.append([b - len(f.attr), b, m, 'method', n.lineno])
        if isinstance(f, ast.Attribute) and f.attr in (
                'strip', 'lstrip', 'rstrip', 'lower', 'copy', 'upper', 'splitlines') and \
                not n.args:
            self.put(n, self.text(f.value), 'drop method')
        if isinstance(f, ast.Name) and f.id in ('str', 'list', 'dict', 'sorted', 'reversed',
                                                'set', 'tuple') and len(n.args) == 1:
            self.put(n, '(%s)' % self.text(n.args[0]), 'drop call')
        if isinstance(f, ast.Attribute) and f.attr == 'replace' and len(n.args) == 2:
            self.put(n, '(%s)' % self.text(f.value), 'drop replace')
        args = [self.text(a) for a in n.args] + [
            '%s=%s' % (k.arg, self.text(k.value)) if k.arg else '**' + self.text(k.value)
            for k in n.keywords]
        k = len(n.args)
        for i in range(len(args)):
            if i >= k or i == len(args) - 1 and i > 0:
                self.put(n, '%s(%s)' % (self.text(f), ', '.join(args[:i] + args[i + 1:])),
                         'drop arg')
        if k == 2 and not n.keywords:
            self.put(n, '%s(%s, %s)' % (self.text(f), args[1], args[0]), 'swap args')

    def m_Subscript(self, n):
        s = n.slice
        v = self.text(n.value)
        if isinstance(s, ast.Slice):
            if s.lower is not None:
                self.put(n, '%s[:%s]' % (v, self.text(s.upper) if s.upper else ''), 'slice')
            if s.upper is not None:
                self.put(n, '%s[%s:]' % (v, self.text(s.lower) if s.lower else ''), 'slice')
        elif isinstance(s, ast.UnaryOp) and self.text(s) == '-1':
            self.put(n, '%s[0]' % v, 'index')
        elif isinstance(s, ast.Constant) and s.value == 0:
            self.put(n, '%s[-1]' % v, 'index')

    def stmt(self, n, kind='delete'):
        self.put(n, 'pass', kind)

    def m_Expr(self, n):
        if not isinstance(n.value, ast.Constant):
            self.stmt(n)
            if isinstance(n.value, ast.Yield) and n.value.value is not None:
                pass

    def m_Assign(self, n):
        self.stmt(n)
        if not isinstance(n.value, ast.Constant) or n.value.value is not None:
            self.put(n.value, 'None', 'assign none')

    m_AugAssign = m_Delete = m_Raise = m_Continue = m_Break = stmt

    def m_Return(self, n):
        if n.value is not None:
            self.put(n, 'return None', 'return')
        else:
            self.stmt(n)

    def m_FunctionDef(self, n):
        self.mark(n)

    def m_Module(self, n):
        self.mark(n)

    m_ClassDef = m_Module

    def mark(self, n):
        b = n.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
            self.doc.add(b[0].value)
        for d in getattr(n, 'decorator_list', ()):
            a, b = self.pos(d)
            self.out.append([a - 1, b, '', 'decorator', d.lineno])

    def m_ExceptHandler(self, n):
        if n.type is not None:
            self.put(n.type, 'ZeroDivisionError', 'except')


def gen(out):
    total = 0
    with open(out + '/mutants.jsonl', 'w') as fo:
        for f in FILES:
            p = '%s/kajiki/%s.py' % (REPO, f)
            if not os.path.exists(p):
                continue
            src = open(p, encoding='utf-8').read()
            v = Finder(src)
            v.visit(ast.parse(src))
            seen = set()
            for a, b, new, kind, line in v.out:
                m = v.raw[:a] + new.encode('utf-8') + v.raw[b:]
                if m == v.raw or m in seen:
                    continue
                seen.add(m)
                try:
                    compile(m, p, 'exec')
                except (SyntaxError, ValueError):
                    continue
                total += 1
                fo.write(json.dumps({'id': total, 'file': f, 'a': a, 'b': b, 'new': new,
                                     'old': v.raw[a:b].decode('utf-8'), 'kind': kind,
                                     'line': line}) + '\n')
    print(total, 'mutants')


def copies(n, tag):
    q = Queue()
    for i in range(n):
        d = '/tmp/mut-%s-%d' % (tag, i)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, symlinks=True)
        q.put(d)
    return q


def apply(d, m):
    p = '%s/kajiki/%s.py' % (REPO, m['file'])
    raw = open(p, 'rb').read()
    assert raw[m['a']:m['b']].decode('utf-8') == m['old'], m
    with open('%s/kajiki/%s.py' % (d, m['file']), 'wb') as fo:
        fo.write(raw[:m['a']] + m['new'].encode('utf-8') + raw[m['b']:])
    return p


def restore(d, m):
    shutil.copy('%s/kajiki/%s.py' % (REPO, m['file']), '%s/kajiki/%s.py' % (d, m['file']))


def tests(out, n=8):
    ms = [json.loads(x) for x in open(out + '/mutants.jsonl')]
    done = set()
    if os.path.exists(out + '/tested.jsonl'):
        done = set(json.loads(x)['id'] for x in open(out + '/tested.jsonl'))
    q = copies(n, 't')
    fo = open(out + '/tested.jsonl', 'a')

    def one(m):
        d = q.get()
        try:
            apply(d, m)
            try:
                r = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p',
                                    'no:cacheprovider', 'kajiki/tests'], cwd=d, timeout=60,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                alive = ' 142 passed' in ' ' + r.stdout.strip().split('\n')[-1]
            except subprocess.TimeoutExpired:
                alive = False
            fo.write(json.dumps(dict(m, alive=alive)) + '\n')
            fo.flush()
        finally:
            restore(d, m)
            q.put(d)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, [m for m in ms if m['id'] not in done]))
    k = [x for x in map(json.loads, open(out + '/tested.jsonl')) if x['alive']]
    print(len(k), 'alive')
    while not q.empty():
        shutil.rmtree(q.get())


ORDER = {'loader': 'C17 C15 C14 C16 C10', 'text': 'C12 C13 C11 C19 C20 C18', 'i18n': 'C18',
         'lnotab': 'C20', 'doctype': 'C10 C09', 'util': 'C06 C16 C13', 'html_utils': 'C09 C08',
         'template': 'C06 C02 C14 C16 C05 C08 C20', 'ir': 'C04 C13 C08 C19 C20 C21 C18 C22',
         'xml_template': 'C07 C08 C03 C19 C09 C01 C18 C21 C11'}
ALL = ['C%02d' % i for i in range(1, 23)]


def checks(out, n=8, factor='0.15'):
    ms = [x for x in map(json.loads, open(out + '/tested.jsonl')) if x['alive']]
    done = set()
    if os.path.exists(out + '/result.jsonl'):
        done = set(json.loads(x)['id'] for x in open(out + '/result.jsonl'))
    q = copies(n, 'c')
    fo = open(out + '/result.jsonl', 'a')

    def one(m):
        d = q.get()
        try:
            apply(d, m)
            first = ORDER.get(m['file'], '').split()
            res = None
            bad = []
            for c in first + [x for x in ALL if x not in first]:
                e = dict(os.environ, KJ_REPO=d, KJ_FACTOR=factor, KJ_SHARDS='1',
                         KJ_EVIDENCE='/tmp/mut-ev', VERIF_SEED=str(m['id']))
                r = subprocess.run(['python3-vt', 'check.py', c], cwd=ROOT + '/pbt', env=e,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                    res = c
                    break
                if r.returncode:
                    bad.append([c, r.stdout[-300:]])
            fo.write(json.dumps(dict(m, caught=res, bad=bad)) + '\n')
            fo.flush()
        finally:
            restore(d, m)
            q.put(d)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, [m for m in ms if m['id'] not in done]))
    while not q.empty():
        shutil.rmtree(q.get())


if __name__ == '__main__':
    os.makedirs(sys.argv[2], exist_ok=True)
    {'gen': gen, 'tests': tests, 'checks': checks}[sys.argv[1]](sys.argv[2])
