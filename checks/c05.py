"""C05: no list operation bypasses the ordering and type guarantees."""
import ast
from tsa.build import *
from tsa.rules import *

NONMUT = {'__add__', '__class__', '__class_getitem__', '__contains__', '__delattr__', '__dir__', '__doc__', '__eq__', '__format__', '__ge__', '__getattribute__',
          '__getitem__', '__getstate__', '__gt__', '__hash__', '__init__', '__init_subclass__', '__iter__', '__le__', '__len__', '__lt__', '__mul__', '__ne__', '__new__',
          '__reduce__', '__reduce_ex__', '__repr__', '__reversed__', '__rmul__', '__setattr__', '__sizeof__', '__str__', '__subclasshook__', 'copy', 'count', 'index'}
MUTATORS = sorted(set(dir(list)) - NONMUT)


def rank(st, val):
    rs = [a for a in val if a[0] == 'o']
    return rs[0][2] if len(val) == 1 and rs else None


def field(st, val, name):
    for a in val:
        if a[0] == 'r':
            ob = st.get(a[1])
            if ob is not None:
                return ob.fields.get(name)
    return None


def time_of(st, item):
    c = field(st, item, 'coordinates')
    for a in c or ():
        if a[0] == 't' and a[1]:
            return rank(st, a[1][0])
    return None


def wellformed(st, ser):
    """None if in order or succession and uniform, '?' if not known, otherwise what is wrong."""
    its = items_of(st, ser)
    if its is None:
        return '?'
    prev = None
    for it in its:
        if len(it) != 1 or next(iter(it))[0] != 'r':
            return '?' if any(a[0] in ('top', 'exti') for a in it) else 'contains {}'.format(V.show(it, st))
        ob = st.get(next(iter(it))[1])
        cls = ob.cls
        start, end = field(st, it, 'start'), field(st, it, 'end')
        if start:
            cur = (time_of(st, start), time_of(st, end))
        else:
            cur = (time_of(st, it), None)
        if cur[0] is None:
            return '?'
        data_ = field(st, it, '_data')
        lab = None
        for a in data_ or ():
            if a[0] == 'r' and st.get(a[1]).kind == 'dict':
                lab = tuple(sorted(kk[1] for kk in st.get(a[1]).kv))
            elif a[0] == 'r':
                lab = ('len', len(st.get(a[1]).items or ()))
        unit_ = field(st, it, '_unit')
        tz = field(st, start, '_tz') if start else None
        if prev is not None:
            pc, pcur, plab, ptz = prev
            if pc != cls:
                return 'mixes {} and {}'.format(pc[1].split('.')[-1], cls[1].split('.')[-1])
            if plab != lab:
                return 'mixes data labels {} and {}'.format(plab, lab)
            if start:
                if pcur[1] != cur[0]:
                    return 'slots not in succession'
                if ptz != tz:
                    return 'slots on different time zones'
            elif not pcur[0] < cur[0]:
                return 'items out of order'
        prev = (cls, cur, lab, tz)
    return None


def check_outcomes(chk, rule, name, s, ser, bs, raised):
    base = guessed(s.st)
    for b in bs:
        w = wellformed(b.st, ser)
        if w == '?' or (w and guessed(b.st) - base):
            chk.undecided(rule, name, 'result not known')
        else:
            chk.ok(rule, name, w is None, 'accepted, and leaves the series with {}'.format(w))
    if not bs and raised:
        chk.ok(rule, name)
    elif not bs:
        chk.undecided(rule, name, 'no outcome')


def mk_series(I, kind, cls='TimeSeries'):
    s = Scn(I)
    if kind == 'points':
        its = [point(s, r) for r in (2, 4, 6)]
    elif kind == 'lists':
        its = [point(s, r, kind='list') for r in (2, 4, 6)]
    elif kind == 'plain points':
        its = [point(s, r, cls='TimePoint') for r in (2, 4, 6)]
    else:
        u = unit(s)
        its = [slot(s, r, end=r + 2, u=u) for r in (2, 4, 6)]
    return s, its, series(s, its, cls=cls)


def run(chk):
    chk.rule('mutator', 'every operation of list which changes its contents, called on a series, is refused or leaves it in order or succession and uniform', 60)
    chk.rule('insert', 'inserting is accepted between a smaller and a larger item only', 30)
    chk.rule('insert-accept', 'inserting between a smaller and a larger item is accepted', 5)
    chk.rule('slot-middle', 'nothing is inserted in, or removed from, the middle of a succession of slots', 6)
    chk.rule('self-test', 'the ordering rule reports a list out of order', 2)
    I = chk.interp()

    # The rule must fire on what it is for
    with chk.guard('self-test', 'self-test'):
        s, its, ser = mk_series(I, 'points')
        oid = s.oid(ser)
        s.st.put(oid, s.st.get(oid).upd(items=tuple(reversed(its))))
        assert wellformed(s.st, ser) == 'items out of order'
        chk.ok('self-test', 'points out of order are reported')
        s, its, ser = mk_series(I, 'slots')
        oid = s.oid(ser)
        s.st.put(oid, s.st.get(oid).upd(items=(its[0], its[2])))
        assert wellformed(s.st, ser) == 'slots not in succession'
        chk.ok('self-test', 'slots not in succession are reported')

    for cls in ('TimeSeries', 'Series'):
        for kind in ('points', 'slots', 'lists'):
            def new(s, r, **kw):
                if kind == 'slots':
                    return slot(s, r, end=kw.pop('end', r + 2), u=unit(s), **kw)
                return point(s, r, kind='list' if kind == 'lists' else 'dict', **kw)
            s0, its, ser = mk_series(I, kind, cls)
            calls = {
                'append': [lambda s: ([new(s, 1)], {})],
                'extend': [lambda s: ([s.list(new(s, 1), new(s, 4))], {}), lambda s: ([s.list(new(s, 8), new(s, 9))], {})],
                '__iadd__': [lambda s: ([s.list(new(s, 1))], {}), lambda s: ([s.list(new(s, 3))], {})],
                '__imul__': [lambda s: ([kv(2)], {})],
                '__setitem__': [lambda s: ([kv(0), new(s, 5)], {}), lambda s: ([kv(-1), new(s, 1)], {}),
                                lambda s: ([av(('slice', kv(0), kv(1), VNONE)), s.list(new(s, 7))], {})],
                '__delitem__': [lambda s: ([kv(1)], {}), lambda s: ([av(('slice', kv(1), kv(2), VNONE))], {})],
                'sort': [lambda s: ([], {}), lambda s: ([], dict(reverse=kv(True)))],
                'reverse': [lambda s: ([], {})],
                'clear': [lambda s: ([], {})],
                'pop': [lambda s: ([], {}), lambda s: ([kv(0)], {}), lambda s: ([kv(1)], {}), lambda s: ([kv(2)], {}), lambda s: ([kv(-2)], {}), lambda s: ([kv(3)], {})],
                'remove': [lambda s: ([its[0]], {}), lambda s: ([its[1]], {}), lambda s: ([its[2]], {})],
                'insert': [lambda s: ([kv(0), new(s, 5)], {})],
            }
            for m in MUTATORS:
                if m not in calls:
                    chk.undecided('mutator', '{}.{}'.format(cls, m), 'an operation of list this check does not know')
                    continue
                for i, mk in enumerate(calls[m]):
                    name = '{}.{} ({}, case {})'.format(cls, m, kind, i + 1)
                    rule = 'mutator'
                    with chk.guard(rule, name):
                        s = s0.fork()
                        args, kw = mk(s)
                        bs, raised = branches(s, s.attr(ser, m), *args, **kw)
                        check_outcomes(chk, rule, name, s, ser, bs, raised)
            # Inserting, in every position
            for i in (-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5):
                for r in (0, 1, 2, 3, 4, 5, 6, 7, 8):
                    if kind == 'slots' and r % 2:
                        continue
                    name = '{}.insert({}) ({}), {}'.format(cls, i, kind, 'equal to item {}'.format(r // 2 - 1) if r in (2, 4, 6) else 'after {} items'.format((r - 1) // 2))
                    with chk.guard('insert', name):
                        s = s0.fork()
                        x = new(s, r)
                        bs, raised = branches(s, s.attr(ser, 'insert'), kv(i), x)
                        check_outcomes(chk, 'insert', name, s, ser, bs, raised)
                        if kind == 'slots' and i in (1, 2, -1, -2):
                            chk.ok('slot-middle', name, not bs, 'accepted')
                        after = {0: (0, 1), 1: (3,), 2: (5,), 3: (7, 8)}.get(i, ())
                        if kind == 'slots':
                            after = {0: (0,), 3: (8,)}.get(i, ())
                        if r in after:
                            chk.ok('insert-accept', name, bool(bs) and not raised, 'refused: {}'.format(describe(I, [], raised)))
                            for b in bs:
                                got = items_of(b.st, ser)
                                want = its[:i] + [x] + its[i:]
                                chk.ok('insert-accept', name, got is None or list(got) == want, 'the item is not in the position asked for')
            # Inserting something else
            for i in (0, 1, 3):
                r = {0: 0, 1: 3, 3: 8}[i]
                others = {'another type': lambda s: (slot(s, r, end=r + 2, u=unit(s)) if kind != 'slots' else point(s, r)),
                          'other labels': lambda s: new(s, r, **({'labels': ('a', 'c', 'd')})),
                          'other kind of data': lambda s: (slot(s, r, end=r + 2, u=unit(s), kind='list') if kind == 'slots' else point(s, r, kind='list' if kind == 'points' else 'dict')),
                          'a number': lambda s: o(r)}
                if kind == 'slots':
                    others['another unit'] = lambda s: slot(s, r, end=r + 2, u=unit(s, '1D'))
                    others['another time zone'] = lambda s: slot(s, r, end=r + 2, u=unit(s), tz=kv('Europe/Rome'))
                for what, mk in others.items():
                    if cls == 'Series' and what in ('another unit', 'another time zone'):
                        continue
                    name = '{}.insert({}) ({}), {}'.format(cls, i, kind, what)
                    with chk.guard('insert', name):
                        s = s0.fork()
                        refused(chk, 'insert', name, s, s.attr(ser, 'insert'), kv(i), mk(s))
            if kind == 'slots':
                for name, m, args in (('pop(1)', 'pop', [kv(1)]), ('pop(-2)', 'pop', [kv(-2)]), ('remove() of the middle one', 'remove', [its[1]])):
                    with chk.guard('slot-middle', name):
                        s = s0.fork()
                        refused(chk, 'slot-middle', '{}.{}'.format(cls, name), s, s.attr(ser, m), *args)
    # Inserting in an empty series
    for kind in ('points', 'slots'):
        with chk.guard('insert', 'empty'):
            s = Scn(I)
            ser = series(s, [])
            x = point(s, 1) if kind == 'points' else slot(s, 1, u=unit(s))
            bs, raised = branches(s, s.attr(ser, 'insert'), kv(0), x)
            check_outcomes(chk, 'insert', 'TimeSeries.insert in an empty series ({})'.format(kind), s, ser, bs, raised)
            chk.ok('insert-accept', 'TimeSeries.insert in an empty series ({})'.format(kind), bool(bs) and not raised, 'refused: {}'.format(describe(I, [], raised)))
            s = Scn(I)
            ser = series(s, [])
            refused(chk, 'insert', 'TimeSeries.insert of a number in an empty series', s, s.attr(ser, 'insert'), kv(0), o(1))
