"""Context values shared by the driver (CPython 3.12) and the worker (PyPy 3.9).

A value is written in JSON as itself when it is a string, number, boolean,
None, list or dict with string keys not starting with "!"; anything else as
{"!": kind, ...}.
"""


class StrSub(str):
    """A str subclass that is not marked as trusted."""


class StrForm(str):
    """A str subclass with a string form of its own."""

    def __new__(cls, v, text):
        self = str.__new__(cls, v)
        self.text = text
        return self

    def __str__(self):
        return self.text


class IntStr(int):
    """A number with a string form of its own."""

    def __new__(cls, v, text):
        self = int.__new__(cls, v)
        self.text = text
        return self

    def __str__(self):
        return self.text

    __repr__ = __str__


class FloatStr(float):
    def __new__(cls, v, text):
        self = float.__new__(cls, v)
        self.text = text
        return self

    def __str__(self):
        return self.text

    __repr__ = __str__


class Html(object):
    """An object offering __html__; its str() is different on purpose."""

    def __init__(self, html, text):
        self.html, self.text = html, text

    def __html__(self):
        return self.html

    def __str__(self):
        return self.text

    __repr__ = __str__


class HtmlStr(str):
    """A string marked as safe, as markupsafe.Markup is."""

    def __html__(self):
        return str(self)


class Obj(object):
    """An object with a str() and attributes."""

    def __init__(self, text, attrs):
        self._text = text
        for k, v in attrs.items():
            setattr(self, k, v)

    def __str__(self):
        return self._text

    __repr__ = __str__


class Boom(object):
    """An object whose str() fails."""

    def __str__(self):
        raise ValueError('boom str')

    __repr__ = __str__


class Fail(object):
    """A callable that raises the given exception."""

    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg

    def __call__(self, *a, **k):
        raise EXC[self.kind](self.msg)

    def __repr__(self):
        return 'Fail'


class Custom(Exception):
    pass


EXC = {'ValueError': ValueError, 'KeyError': KeyError, 'ZeroDivisionError':
       ZeroDivisionError, 'Custom': Custom, 'TypeError': TypeError,
       'AttributeError': AttributeError, 'IndexError': IndexError,
       'RuntimeError': RuntimeError}


class Upper(object):
    def __call__(self, s):
        return s.upper()


class Wrap(object):
    """A translation function with a recognisable result."""

    def __init__(self, before, after):
        self.before, self.after = before, after

    def __call__(self, s):
        return self.before + s + self.after


class Table(object):
    def __init__(self, table, default=None):
        self.table, self.default = table, default

    def __call__(self, s):
        return self.table.get(s, s if self.default is None else self.default)


class Recorder(object):
    def __init__(self, before='', after=''):
        self.seen = []
        self.before, self.after = before, after

    def __call__(self, s):
        self.seen.append(s)
        return self.before + s + self.after


class Ident(object):
    def __call__(self, x=None, *a, **k):
        return x


class Fuses(object):
    """Stands in expressions; counts how often each place is evaluated and
    makes one of them fail: fire = [place, nth time].
    """
    last = None

    def __init__(self, fire=None, kind='ValueError'):
        self._fire, self._kind = fire, kind
        self._counts, self._order = {}, []
        Fuses.last = None

    def _hit(self, i):
        if i not in self._counts:
            self._order.append(i)
            self._counts[i] = 0
        self._counts[i] += 1
        return self._fire == [i, self._counts[i]]

    def _raise(self):
        Fuses.last = EXC[self._kind]('blown fuse')
        raise Fuses.last

    def __call__(self, i, v=None):
        if self._hit(i):
            self._raise()
        return v

    def q(self, i):
        return self._hit(i)

    def __getattr__(self, name):
        if name[0] != 'a' or not name[1:].isdigit():
            raise AttributeError(name)
        if self._hit(int(name[1:])):
            self._raise()
        return 'fuse'


class Stepper(Fuses):
    """Stands in expressions; every few times one is evaluated, another rendering goes on."""

    def __init__(self, it, every):
        Fuses.__init__(self)
        self._it, self._every, self._n, self._out, self._busy = it, every, 0, [], False

    def _hit(self, i):
        self._n += 1
        if self._it is not None and self._n % self._every == 0 and not self._busy:
            self._busy = True
            try:
                self._out.append(next(self._it))
            except StopIteration:
                self._it = None
            finally:
                self._busy = False
        return False

    def _rest(self):
        return ''.join(self._out) + ''.join(self._it or ())


class Once(object):
    """An iterable that is not a list and counts how often it is iterated."""

    def __init__(self, items):
        self.items, self.count = items, 0

    def __iter__(self):
        self.count += 1
        for x in self.items:
            yield x


def decode(v, literal=None):
    def dec(v):
        if isinstance(v, list):
            return [dec(x) for x in v]
        if isinstance(v, dict):
            kind = v.get('!')
            if kind is None:
                return dict((k, dec(x)) for k, x in v.items())
            if kind == 'strsub':
                return StrSub(v['v'])
            if kind == 'strform':
                return StrForm(v['v'], v['text'])
            if kind == 'number':
                return (IntStr if isinstance(v['n'], int) else FloatStr)(v['n'], v['v'])
            if kind == 'html':
                return Html(v['html'], v['text'])
            if kind == 'htmlstr':
                return HtmlStr(v['v'])
            if kind == 'obj':
                return Obj(v['v'], dec(v.get('attrs', {})))
            if kind == 'tuple':
                return tuple(dec(x) for x in v['v'])
            if kind == 'set1':
                return set([dec(v['v'])])
            if kind == 'bytes':
                return v['v'].encode('utf-8')
            if kind == 'complex':
                return complex(v['re'], v['im'])
            if kind == 'pairs':
                return dict((dec(k), dec(x)) for k, x in v['v'])
            if kind == 'literal':
                return literal(v['v'])
            if kind == 'fail':
                return Fail(v['kind'], v['msg'])
            if kind == 'boom':
                return Boom()
            if kind == 'wrap':
                return Wrap(v['a'], v['b'])
            if kind == 'table':
                return Table(v['v'], v.get('default'))
            if kind == 'upper':
                return Upper()
            if kind == 'ident':
                return Ident()
            if kind == 'recorder':
                return Recorder(v.get('a', ''), v.get('b', ''))
            if kind == 'fuses':
                return Fuses(v.get('fire'), v.get('kind', 'ValueError'))
            if kind == 'iter':
                return Once([dec(x) for x in v['v']])
            if kind == 'range':
                return range(v['v'])
            raise ValueError('unknown kind %r' % (kind,))
        return v
    return dec(v)


def snapshot(v, depth=0):
    """A structural description of a value, to tell whether it was modified."""
    if isinstance(v, dict):
        return ['dict', [[snapshot(k), snapshot(x)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, [snapshot(x) for x in v]]
    if isinstance(v, (set, frozenset)):
        return ['set', sorted(repr(snapshot(x)) for x in v)]
    if isinstance(v, Obj):
        return ['obj', snapshot(dict(v.__dict__))]
    if isinstance(v, (str, int, float, bool, bytes, complex)) or v is None:
        return [type(v).__name__, repr(v)]
    if isinstance(v, Once):
        return ['iter', snapshot(v.items)]
    return [type(v).__name__, 'opaque']
