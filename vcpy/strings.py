"""vcpy.strings: strings with embedded symbolic numbers (ropes)."""

import re

from vcpy import core
from vcpy.core import SInt, SBool, SReal, Unsupported, sand, snot

NUMBER = set('0123456789-+.einfa')  # characters which the text of a number may have
SPACE = ' \t\r\n\f\v'


class SStr:
    """concatenation of literal text and decimal representations of symbolic numbers (float(str(x)) is x, as for python)"""
    __hash__ = None

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = out

    def __add__(self, o):
        if isinstance(o, str):
            return SStr(self.parts + [o])
        if isinstance(o, SStr):
            return SStr(self.parts + o.parts)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SStr([o] + self.parts)
        return NotImplemented

    def __str__(self):
        return ''.join(p if isinstance(p, str) else '<symbolic>' for p in self.parts)

    def __format__(self, spec):
        return str(self)

    def __deepcopy__(self, memo):
        return self

    def number(self):
        """the number of which this is the text, if it is that of one number alone"""
        return self.parts[0] if len(self.parts) == 1 and not isinstance(self.parts[0], str) else None

    def __eq__(self, o):
        n = self.number()
        if isinstance(o, str) and n is not None:
            if not o or not set(o) <= NUMBER:
                return False
            if isinstance(n, SInt):
                try:
                    v = int(o)
                except ValueError:
                    return False
                return n == v if str(v) == o else False
            raise Unsupported('comparison of the text of a number with text')
        if isinstance(o, str):
            o = SStr([o])
        if not isinstance(o, SStr):
            return False
        if len(self.parts) != len(o.parts):
            raise core.Unsupported('comparison of text with different structure')
        cs = []
        for a, b in zip(self.parts, o.parts):
            if isinstance(a, str) and isinstance(b, str):
                if a != b:
                    # literals between numbers without digits at their ends: texts differ
                    if any(ch.isdigit() or ch in NUMBER for ch in (a[0], a[-1], b[0], b[-1])):
                        raise core.Unsupported('comparison of text with digits next to symbolic numbers')
                    return False
            elif isinstance(a, str) or isinstance(b, str):
                raise core.Unsupported('comparison of text with different structure')
            else:
                cs.append(a == b)
        return sand(*cs)

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __mod__(self, o):
        return self

    def __bool__(self):
        return True

    def vc_len(self):
        n = core.ctx().fresh_int('textlen')
        core.ctx().assume(n >= 1)
        return n

    def encode(self, *a):
        return self

    def decode(self, *a):
        return self

    def _map(self, f):
        return SStr([f(p) if isinstance(p, str) else p for p in self.parts])

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def strip(self, chars = None):
        return self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars = None):
        if chars is not None and set(chars) & NUMBER:
            raise Unsupported('strip of characters which numbers have')
        ps = list(self.parts)
        if ps and isinstance(ps[0], str):
            ps[0] = ps[0].lstrip(chars)
        return SStr(ps)

    def rstrip(self, chars = None):
        if chars is not None and set(chars) & NUMBER:
            raise Unsupported('strip of characters which numbers have')
        ps = list(self.parts)
        if ps and isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip(chars)
        return SStr(ps)

    def isspace(self):
        return False

    def _no_number(self, s):
        if not isinstance(s, str) or not s or set(s) & NUMBER:
            raise Unsupported('search of symbolic text for what numbers may hold')

    def replace(self, old, new, *a):
        self._no_number(old)
        return self._map(lambda p: p.replace(old, new, *a))

    def __contains__(self, s):
        self._no_number(s)
        return any(isinstance(p, str) and s in p for p in self.parts)

    def split(self, sep = None, maxsplit = -1):
        if sep is not None:
            self._no_number(sep)
        if maxsplit != -1:
            raise Unsupported('split of symbolic text')
        out, cur = [], []
        for p in self.parts:
            if not isinstance(p, str):
                cur.append(p)
                continue
            if sep is None:
                words = []
                pre = p[:1] in SPACE
                post = p[-1:] in SPACE
                words = p.split()
                if pre:
                    words.insert(0, '')
                if post and len(words):
                    words.append('')
                if not p.strip():
                    words = ['', '']
            else:
                words = p.split(sep)
            cur.append(words[0])
            for w in words[1:]:
                out.append(cur)
                cur = [w]
        out.append(cur)
        rs = [norm(SStr(x)) for x in out]
        return [r for r in rs if r != ''] if sep is None else rs

    def startswith(self, s, *a):
        if a:
            raise Unsupported('startswith of symbolic text')
        if isinstance(s, tuple):
            return any(self.startswith(x) for x in s)
        p = self.parts[0]
        if isinstance(p, str):
            if len(p) >= len(s) or not s.startswith(p):
                return p.startswith(s)
        elif s and s[0] not in NUMBER:
            return False
        raise Unsupported('startswith of symbolic text')

    def endswith(self, s, *a):
        if a:
            raise Unsupported('endswith of symbolic text')
        if isinstance(s, tuple):
            return any(self.endswith(x) for x in s)
        p = self.parts[-1]
        if isinstance(p, str):
            if len(p) >= len(s) or not s.endswith(p):
                return p.endswith(s)
        elif s and s[-1] not in NUMBER:
            return False
        raise Unsupported('endswith of symbolic text')

    def to_number(self, integer):
        """int() or float() of the text"""
        s = self.strip()
        n = s.number()
        if n is None:
            if any(isinstance(p, str) and set(p) - NUMBER - set(SPACE) - set('_') for p in s.parts):
                raise ValueError(f'invalid literal for number: {s}')
            raise Unsupported('number from text with symbolic parts')
        if integer:
            if isinstance(n, SReal):
                raise Unsupported('integer from the text of a real number')
            return SInt(n.t)
        return SReal(core.real_term(n), core.nan_of(n))


def norm(s):
    if isinstance(s, SStr) and (not s.parts or all(isinstance(p, str) for p in s.parts)):
        return ''.join(s.parts)
    return s


def to_str(x):
    if isinstance(x, SInt):
        return SStr([SInt(x.t)])
    if isinstance(x, SReal):
        return SStr([SReal(x.t, core.nan_of(x))])
    if isinstance(x, SStr):
        return x
    return str(x)


def rounded(x, digits):
    """the number which fixed point text with so many decimals has"""
    from fractions import Fraction
    import z3
    c = core.ctx()
    k = c.fresh_int('fixed')
    p = 10**digits
    r = SReal(z3.ToReal(k.t) / p, core.nan_of(x))
    c.assume(core.sand(r - x <= Fraction(1, 2 * p), x - r <= Fraction(1, 2 * p)) if core.nan_of(x) is None else
             core.sor(x.isnan, core.sand(r - x <= Fraction(1, 2 * p), x - r <= Fraction(1, 2 * p))))
    return r


def formatted(fmt, *args, **kw):
    """'...'.format(...)"""
    import string
    if not any(isinstance(a, (core.S, SStr)) for a in list(args) + list(kw.values())):
        return fmt.format(*args, **kw)
    parts, auto = [], 0
    for lit, name, spec, conv in string.Formatter().parse(fmt):
        parts.append(lit)
        if name is None:
            continue
        if name == '':
            name, auto = str(auto), auto + 1
        v = args[int(name)] if name.isdigit() else kw[name]
        parts.append((v, ord(conv) if conv else -1, spec))
    return fstr(*parts)


FIXED = re.compile(r'\d*\.(\d+)f$')


def fstr(*parts):
    """value of an f-string: literals and (value, conversion, spec) triples"""
    out = []
    sym = False
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if isinstance(v, (SInt, SStr, SReal)) and conv in (-1, 115) and (spec in (None, '') or (spec == 'd' and isinstance(v, SInt))):
            out.append(v)
            sym = True
        elif isinstance(v, SReal) and conv == -1 and isinstance(spec, str) and FIXED.match(spec):
            # blanks to the left, for the sake of width, are left out
            out.append(rounded(v, int(FIXED.match(spec).group(1))))
            sym = True
        else:
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            out.append(format(v, spec or ''))
    if not sym:
        return ''.join(out)
    r = SStr([])
    for p in out:
        r = r + (p if isinstance(p, (str, SStr)) else to_str(p))
    return r


def same(s, parts):
    r = SStr([])
    for p in parts:
        r = r + (p if isinstance(p, str) else SStr([SInt(core.int_term(p))]) if isinstance(p, SInt) else str(p))
    return norm(r) == s
