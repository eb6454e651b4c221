"""What scenarios are made of."""
import json


class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, msg, **details):
        Exception.__init__(self, msg)
        self.msg, self.details = msg, details


class Skip(Exception):
    """The case is outside the domain (counted, never a result)."""


class Scenario(object):
    """One executable statement of (part of) a property.

    gen(d) draws a case (JSON data); cases() lists them instead when the
    domain is finite. check(case, w, lab) runs it: raises Violation, or
    returns whether the case was non-trivial. lab(name) counts a label.
    """

    def __init__(self, name, check, gen=None, cases=None, n=100, rule='', thorough=20,
                 timeout=40.0):
        self.name, self.check, self.gen, self.cases = name, check, gen, cases
        self.n, self.rule, self.thorough, self.timeout = n, rule, thorough, timeout


def short(x, n=600):
    s = x if isinstance(x, str) else json.dumps(x, ensure_ascii=False)
    return s if len(s) <= n else s[:n] + '... (%d characters)' % len(s)


def exc_text(r):
    e = r['exc']
    return '%s: %s' % (e['type'], e['msg'][:300])


def ok(r, what, **details):
    """The value of a step that must not fail."""
    if 'exc' in r:
        raise Violation('%s raised %s' % (what, exc_text(r)), **details)
    return r['v']
