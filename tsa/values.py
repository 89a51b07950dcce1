"""Abstract values: a value is a frozenset of atoms (tuples).

('k', v, typename)            constant (int, float, bool, str, NoneType, bytes, ellipsis)
('n', typ, signs, tags)       number, typ in int/float/num, signs a subset of '-0+'
('o', group, rank, typ, tags) ordinal: compares only with ordinals of the same group
('s', pattern, tags)          string, '*' stands for any text
('r', oid)                    reference to a heap object
('fn', code_id, env)          function;  ('bm', self, fn) bound method
('bi', receiver, name)        method of a builtin value
('cls', cid)                  class of the repository
('mod', name)                 module of the repository
('ext', dotted)               external (or builtin) function, class or module
('exti', dotted, tags)        value obtained from something external
('t', (v, ...))               tuple/exact iterable;  ('tt', v, lo) iterable of unknown length
('slice', lo, hi, step)
('x', clsatom, args)          exception instance
('sup', cid, selfatom)        super object
('prop', g, s, d) ('static', f) ('clsm', f)
('unb',)                      unbound / absent
('top', tags)                 anything
"""

NOTAGS = frozenset()
UNB = ('unb',)
EMPTY = frozenset()


def k(v):
    return ('k', v, type(v).__name__)


def av(*atoms):
    return frozenset(atoms)


def kv(v):
    return frozenset((k(v),))


NONE = k(None)
VNONE = av(NONE)
TRUE = k(True)
FALSE = k(False)
BOOL = av(TRUE, FALSE)
TOPA = ('top', NOTAGS)
TOP = av(TOPA)
STRA = ('s', '*', NOTAGS)
STR = av(STRA)


def num(typ='num', signs='-0+', tags=NOTAGS):
    return ('n', typ, signs, frozenset(tags))


def tagsof(val, st=None, depth=0):
    out = set()
    for a in val:
        t = a[0]
        if t in ('n', 'o', 's', 'exti', 'top'):
            out |= a[-1]
        elif t == 't':
            for x in a[1]:
                out |= tagsof(x, st, depth)
        elif t == 'tt':
            out |= tagsof(a[1], st, depth)
        elif t == 'r' and st is not None and depth < 4:
            o = st.get(a[1])
            if o is not None and o.kind in ('list', 'dict', 'set'):
                for x in o.children():
                    out |= tagsof(x, st, depth + 1)
        elif t == 'bm':
            out |= tagsof((a[1],), st, depth + 1)
    return frozenset(x for x in out if not x.startswith('e:'))


def addtags(val, tags):
    if not tags:
        return val
    tags = frozenset(tags)
    out = []
    for a in val:
        t = a[0]
        if t in ('n', 'o', 's', 'exti', 'top'):
            out.append(a[:-1] + (a[-1] | tags,))
        elif t == 'k' and a[2] in ('int', 'float'):
            out.append(('n', a[2], sign(a[1]), tags))
        elif t == 'k' and a[2] == 'str':
            out.append(('s', a[1].replace('*', ''), tags))
        else:
            out.append(a)
    return frozenset(out)


def sign(v):
    try:
        if v != v:
            return '-0+'
    except Exception:
        return '-0+'
    return '0' if v == 0 else ('+' if v > 0 else '-')


def depth(val, d=0):
    if d > 6:
        return d
    m = d
    for a in val:
        if a[0] == 't':
            for x in a[1]:
                m = max(m, depth(x, d + 1))
        elif a[0] == 'tt':
            m = max(m, depth(a[1], d + 1))
        elif a[0] == 'x':
            for x in a[2]:
                m = max(m, depth(x, d + 1))
    return m


LIMIT = 12


def widen(val, hard=False):
    """Bound the size of a value."""
    if len(val) <= (3 if hard else LIMIT):
        if not hard and len(val) < 4:
            return val
    ints = [a for a in val if a[0] == 'k' and a[2] in ('int', 'float')]
    strs = [a for a in val if a[0] in 's' or (a[0] == 'k' and a[2] == 'str')]
    nums = [a for a in val if a[0] == 'n']
    out = set(val)
    lim = 3 if hard else 8
    if len(ints) > lim:
        typ = 'int' if all(a[2] == 'int' for a in ints) else 'num'
        signs = ''.join(s for s in '-0+' if any(sign(a[1]) == s for a in ints))
        if hard:
            signs = '-0+' if '-' in signs else '0+'
        for a in ints:
            out.discard(a)
        out.add(('n', typ, signs, NOTAGS))
    if len(nums) > lim:
        for a in nums:
            out.discard(a)
        out.add(('n', 'num', '-0+', frozenset(x for a in nums for x in a[3] if not x.startswith('e:'))))
    if len(strs) > lim:
        tg = frozenset().union(*[a[2] for a in strs if a[0] == 's']) if strs else NOTAGS
        for a in strs:
            out.discard(a)
        out.add(('s', '*', tg))
    tups = [a for a in out if a[0] == 't']
    if len(tups) > lim:
        byn = {}
        for a in tups:
            byn.setdefault(len(a[1]), []).append(a)
            out.discard(a)
        for n, xs in byn.items():
            out.add(('t', tuple(widen(frozenset().union(*[x[1][i] for x in xs]), hard) for i in range(n))))
    if depth(out) > 5:
        return av(('top', tagsof(out)))
    if len(out) > 24:
        return av(('top', tagsof(out)))
    return frozenset(out)


def norm(val):
    """Merge numbers of equal type/tags."""
    ns = {}
    out = []
    for a in val:
        if a[0] == 'n':
            ns.setdefault((a[1], a[3]), set()).update(a[2])
        else:
            out.append(a)
    if not ns:
        return val
    for (typ, tg), s in ns.items():
        out.append(('n', typ, ''.join(c for c in '-0+' if c in s), tg))
    return frozenset(out)


def join(*vals):
    out = EMPTY
    for v in vals:
        out = out | v
    if len(out) > 3:
        out = widen(norm(out))
    return out


def consts(val):
    """The python constants of a value, or None if not all constant."""
    out = []
    for a in val:
        if a[0] != 'k':
            return None
        out.append(a[1])
    return out


def one_const(val):
    if len(val) == 1:
        a = next(iter(val))
        if a[0] == 'k':
            return True, a[1]
    return False, None


def show(val, st=None, d=0):
    if val is None:
        return '-'
    out = []
    for a in sorted(val, key=repr):
        t = a[0]
        if t == 'k':
            out.append(repr(a[1]))
        elif t == 'r':
            o = st.get(a[1]) if st else None
            out.append('<{}{}>'.format(o.label() if o else 'ref', '' if not o or not o.origin else ' ' + o.origin))
        elif t == 'n':
            out.append('{}{}{}'.format(a[1], a[2] if a[2] != '-0+' else '', sorted(a[3]) if a[3] else ''))
        elif t == 'o':
            out.append('{}#{}'.format(a[1], a[2]))
        elif t == 's':
            out.append('str"{}"{}'.format(a[1], sorted(a[2]) if a[2] else ''))
        elif t == 't':
            out.append('(' + ', '.join(show(x, st, d + 1) for x in a[1]) + ')')
        elif t == 'x':
            out.append('{}({})'.format(a[1][1].split('.')[-1], ', '.join(show(x, st, d + 1) for x in a[2])))
        else:
            out.append(str(a[:2]))
    return '|'.join(out) or 'none'
