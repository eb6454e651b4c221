"""Drawing primitives on top of Hypothesis."""
import traceback
import unicodedata
from functools import lru_cache

from hypothesis import strategies as st


@lru_cache(None)
def _ints(a, b):
    return st.integers(a, b)


@lru_cache(None)
def _sampled(seq):
    return st.sampled_from(seq)


@lru_cache(None)
def _text(alphabet, lo, hi):
    return st.text(st.sampled_from(alphabet), min_size=lo, max_size=hi)


def _uni_alphabet():
    """Characters both interpreters know, thinned out but with every kind."""
    u = unicodedata.ucd_3_2_0
    special, others = [], []
    for i in range(0x20, 0x110000):
        c = chr(i)
        if i in (0x7f,) or 0x80 <= i < 0xa0 and i != 0x85:
            continue
        cat = u.category(c)
        if cat in ('Cn', 'Cs', 'Co') or i & 0xfffe == 0xfffe or i >= 0xe0000:
            continue
        if i < 0x180 or cat in ('Zs', 'Zl', 'Zp', 'Cf') or i == 0x85:
            special.append(c)
        elif i % 41 == 0:
            others.append(c)
    return tuple(special + others)


UNI = _uni_alphabet()


class D(object):
    """Wraps Hypothesis' draw; all choices list the simplest option first."""

    def __init__(self, draw):
        self.draw = draw
        self.n = 0

    def int(self, a, b):
        return self.draw(_ints(a, b))

    def choice(self, seq):
        seq = tuple(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[self.draw(_ints(0, len(seq) - 1))]

    def weighted(self, pairs):
        """pairs: (item, weight) in order of increasing complexity."""
        total = sum(w for _, w in pairs)
        k = self.draw(_ints(0, total - 1))
        for item, w in pairs:
            if k < w:
                return item
            k -= w

    def bool(self, percent=50):
        """True with the given probability; shrinks to False."""
        return self.draw(_ints(0, 99)) >= 100 - percent

    def count(self, lo, hi):
        """Small numbers more often than large ones."""
        if hi <= lo:
            return lo
        n = lo
        while n < hi and self.bool(60):
            n += 1
        return n

    def text(self, alphabet, lo=0, hi=8):
        return self.draw(_text(alphabet, lo, hi))

    def unitext(self, lo=0, hi=8):
        return self.draw(_text(UNI, lo, hi))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = self.int(i, len(seq) - 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, percent=50):
        return [x for x in seq if self.bool(percent)]

    def fresh(self, prefix):
        self.n += 1
        return '%s%d' % (prefix, self.n)


class Broken(KeyboardInterrupt):
    """The machinery itself failed; stops Hypothesis at once."""


def case_strategy(fn):
    @st.composite
    def strat(draw):
        try:
            return fn(D(draw))
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            raise Broken('generator: ' + traceback.format_exc())
    return strat()


# --- alphabets -------------------------------------------------------------

# Characters with a meaning somewhere in a template or in its output.
HOSTILE = ('a', 'b', ' ', '<', '>', '&', '"', "'", '$', '{', '}', '%', '\\', ';', '/', '=',
           '-', '!', '?', '#', '(', ')', '[', ']', ':', '.', ',', '`', '@', '|', '~', '^', '*',
           '+', '_', '0', '9', 'x', '\n', '\t', '\xa0', '\xe9', '\u2028', '\x85', '\u4e2d',
           '\U0001f600', 'Z')
HOSTILE_WORDS = ('&amp;', '&lt;', '<b>', '</b>', '<!--', '-->', ']]>', '<![CDATA[', '<?py',
                 '?>', '"><script>', "' onclick='", '${x}', '$x', '$$', '%s', '%(a)s', '\\n',
                 '{%if', '%end', '&nbsp;', '&#60;', '</script>', '<br/>', 'None', 'True',
                 '/*', '*/', '\r', '__html__', '&', '<', '>', '"', "'", '{{', '}}', '{0}')
PLAIN = ('a', 'b', 'c', 'X', '1', ' ', '.', '-', '\xe9', '\u4e2d')


def hostile(d, hi=6):
    """A string full of characters that matter to markup."""
    k = d.weighted((('chars', 5), ('words', 3), ('uni', 2), ('long', 1)))
    if k == 'chars':
        return d.text(HOSTILE, 0, hi)
    if k == 'words':
        return ''.join(d.choice(HOSTILE_WORDS) for _ in range(d.int(1, 3)))
    if k == 'uni':
        return d.unitext(0, hi)
    unit = d.choice(HOSTILE_WORDS + ('ab', 'a&b', 'x<y'))
    return d.text(HOSTILE, 0, 2) + unit * d.choice((10, 40, 100, 300, 1200)) + d.text(HOSTILE, 0, 2)


def plain(d, lo=0, hi=6):
    return d.text(PLAIN, lo, hi)
