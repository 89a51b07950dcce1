"""Value numbering of numbers: rational functions of the symbols which are given to abstract data.

The expression of a number is one of its tags ('e:<number>'): two numbers with the same expression are the same number.
"""
import math
from fractions import Fraction

MAXTERMS = 60
_exprs = []     # index -> (numerator, denominator): {monomial: coefficient}, a monomial is a sorted tuple of symbols
_index = {}
ONE = {(): Fraction(1)}
RANK = {}       # the order of the symbols, where it is given


def _key(p):
    return tuple(sorted(p.items()))


def intern(num, den):
    if len(num) + len(den) > MAXTERMS:
        return None
    if len(den) == 1 and () in den:
        c = den[()]
        if c != 1:
            num = {m: v / c for m, v in num.items()}
            den = ONE
    elif not num:
        den = ONE
    key = (_key(num), _key(den))
    i = _index.get(key)
    if i is None:
        i = _index[key] = len(_exprs)
        _exprs.append((num, den))
    return i


def padd(a, b, s=1):
    out = dict(a)
    for m, v in b.items():
        x = out.get(m, 0) + s * v
        if x:
            out[m] = x
        else:
            out.pop(m, None)
    return out


def pmul(a, b):
    if len(a) * len(b) > 4 * MAXTERMS:
        return None
    out = {}
    for m, v in a.items():
        for n, w in b.items():
            mn = tuple(sorted(m + n))
            x = out.get(mn, 0) + v * w
            if x:
                out[mn] = x
            else:
                out.pop(mn, None)
    return out


def const(v):
    try:
        f = Fraction(v)
    except (TypeError, ValueError, OverflowError):
        return None
    return intern({(): f} if f else {}, ONE)


def sym(name):
    return intern({(name,): Fraction(1)}, ONE)


def op(o, a, b):
    if a is None or b is None:
        return None
    (an, ad), (bn, bd) = _exprs[a], _exprs[b]
    if o in '+-':
        s = 1 if o == '+' else -1
        if ad == bd:
            return intern(padd(an, bn, s), ad)
        x, y, d = pmul(an, bd), pmul(bn, ad), pmul(ad, bd)
        return None if x is None or y is None or d is None else intern(padd(x, y, s), d)
    if o == '/':
        if not bn:
            return None
        bn, bd = bd, bn
        o = '*'
    if o == '*':
        x, d = pmul(an, bn), pmul(ad, bd)
        return None if x is None or d is None else intern(x, d)
    return None


def neg(a):
    return None if a is None else op('-', const(0), a)


VAL = {}        # the values which give the order of the symbols, where checks choose one
TIES = False       # are values which are equal the same number, or not known to be
POS = set()     # symbols which are positive numbers
_fns = {}       # symbol -> (function, expression)


def _fsym(name, i):
    s = '{}[{}]'.format(name, i)
    _fns[s] = (name, i)
    return s


def _unit(p):
    """A polynomial as its leading coefficient and the polynomial without it."""
    m = min(p)
    return p[m], {k: v / p[m] for k, v in p.items()}


def _abs(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple(sorted(s if s in POS or s.startswith(('abs[', 'sqrt[')) else _fsym('abs', sym(s)) for s in m)): abs(c)}
    c, q = _unit(p)
    i = intern(q, ONE)
    return None if i is None else {(_fsym('abs', i),): abs(c)}


def _log(p):
    c, q = _unit(p)
    if c < 0:
        return None
    out = {(): Fraction(math.log(c))} if c != 1 else {}
    for m in [[s] for s in min(q)] if len(q) == 1 else [None]:
        i = sym(m[0]) if m else intern(q, ONE)
        if i is None:
            return None
        out = padd(out, {(_fsym('log', i),): Fraction(1)})
    return out


def fn(name, a):
    """Absolute value, logarithm, square root."""
    if a is None:
        return None
    n, d = _exprs[a]
    if name == 'abs':
        x, y = _abs(n) if n else {}, _abs(d)
        return None if x is None or y is None else intern(x, y)
    if not n:
        return None
    if name in ('log', 'log10'):
        x, y = _log(n), _log(d)
        if x is None or y is None:
            return None
        i = intern(padd(x, y, -1), ONE)
        return i if name == 'log' else op('*', i, const(1 / math.log(10)))
    if n == ONE and d == ONE:
        return a
    return intern({(_fsym(name, a),): Fraction(1)}, ONE)


def value(a):
    """The number an expression is for the values given to symbols, or None."""
    def poly(p):
        tot = 0.0
        for m, v in p.items():
            x = float(v)
            for s in m:
                y = symval(s)
                if y is None:
                    return None
                x *= y
            tot += x
        return tot
    n, d = _exprs[a]
    x, y = poly(n), poly(d)
    return None if x is None or not y else x / y


def symval(s):
    if s in VAL:
        return float(VAL[s])
    if s not in _fns:
        return None
    f, i = _fns[s]
    x = value(i)
    try:
        return None if x is None else abs(x) if f == 'abs' else getattr(math, f)(x)
    except (ValueError, AttributeError):
        return None


def symbols(a, deep=True):
    """The symbols of an expression."""
    out = set()
    for p in _exprs[a]:
        for m in p:
            for s in m:
                if s in _fns and deep:
                    out |= symbols(_fns[s][1])
                else:
                    out.add(s)
    return out


def equal(a, b, tol=1e-7):
    """The same function, but for the rounding of the constants."""
    if a == b:
        return True
    (an, ad), (bn, bd) = _exprs[a], _exprs[b]
    x, y = pmul(an, bd), pmul(bn, ad)
    if x is None or y is None:
        return None
    scale = max([abs(v) for v in x.values()] + [abs(v) for v in y.values()] + [Fraction(1, 10 ** 12)])
    return all(abs(v) <= tol * scale for v in padd(x, y, -1).values())


def compare(a, b):
    """-1, 0, 1 for symbols whose order is given, otherwise None."""
    x, y = of(a), of(b)
    if x is None or y is None:
        return None
    if x == y:
        return 0
    if VAL:
        v, w = value(x), value(y)
        if v is not None and w is not None and (TIES or abs(v - w) > 1e-9):
            return 0 if abs(v - w) <= 1e-9 else (v > w) - (v < w)
    r = []
    for e in (x, y):
        n, d = _exprs[e]
        m = next(iter(n), ())
        if d != ONE or len(n) != 1 or len(m) != 1 or n[m] != 1 or m[0] not in RANK:
            return None
        r.append(RANK[m[0]])
    return (r[0] > r[1]) - (r[0] < r[1])


def show(a):
    def poly(p):
        return ' + '.join('{:.6g}{}'.format(float(v), ''.join('*' + s for s in m)) if v != 1 or not m else '*'.join(m)
                          for m, v in sorted(p.items())) or '0'
    n, d = _exprs[a]
    return poly(n) if d == ONE else '({}) / ({})'.format(poly(n), poly(d))


def of(atom):
    """The expression of an atom, or None."""
    if atom[0] == 'k':
        return const(atom[1]) if isinstance(atom[1], (int, float)) and not isinstance(atom[1], bool) else None
    if atom[0] != 'n':
        return None
    es = [t for t in atom[3] if t.startswith('e:')]
    return int(es[0][2:]) if len(es) == 1 else None


def has(atom):
    return atom[0] == 'n' and any(t.startswith('e:') for t in atom[3])


def tag(i):
    return frozenset() if i is None else frozenset(['e:{}'.format(i)])


def strip(tags):
    for t in tags:
        if t.startswith('e:'):
            return frozenset(x for x in tags if not x.startswith('e:'))
    return tags


class E(object):
    """Expressions for the specifications of the checks."""

    def __init__(self, i):
        self.i = i if isinstance(i, int) and not isinstance(i, bool) else None

    @staticmethod
    def of(x):
        return x if isinstance(x, E) else E(const(x))

    def __add__(self, o):
        return E(op('+', self.i, E.of(o).i))
    __radd__ = __add__

    def __sub__(self, o):
        return E(op('-', self.i, E.of(o).i))

    def __rsub__(self, o):
        return E.of(o) - self

    def __mul__(self, o):
        return E(op('*', self.i, E.of(o).i))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return E(op('/', self.i, E.of(o).i))

    def __repr__(self):
        return '?' if self.i is None else show(self.i)


def S(name):
    return E(sym(name))
