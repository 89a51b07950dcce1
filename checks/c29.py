"""C29: points and slots, with and without data, behave alike where they offer the same interface."""
import contextlib

from checks.ops import *
from checks.c30 import Explicit
from tsa.models import AT
from tsa.scenario import Failed

PROBE = '''
def eq(a, b):
    return a == b

def ne(a, b):
    return a != b

def among(a, b):
    return a in [b]

def ends(slot):
    return slot.end.coordinates[0] - slot.start.coordinates[0]

class Foreign(object):
    pass
'''
PTS = ('Point', 'DataPoint', 'TimePoint', 'DataTimePoint')
SLS = ('Slot', 'DataSlot', 'TimeSlot', 'DataTimeSlot')


@contextlib.contextmanager
def works(chk, rule, con):
    """What has to work in this check includes creating the items, and reading their attributes."""
    with chk.guard(rule, con):
        try:
            yield
        except Failed as e:
            chk.viol(rule, con, str(e))


def is_slot(cls):
    return cls in SLS


def has_data(cls):
    return cls.startswith('Data')


def in_time(cls):
    return 'Time' in cls


def make(s, cls, pos=0, data='A', tz=None, span=1, how='end', **kw):
    """An item in a position."""
    base = T0 + 3600 * pos if in_time(cls) else 10 + pos
    tzkw = {} if tz is None or not in_time(cls) else dict(tz=kv(tz))
    if has_data(cls) and isinstance(data, frozenset):
        kw['data'] = data
    elif has_data(cls):
        kw['data'] = s.dict(dict(a=sym_('a' + data), b=sym_('b' + data))) if not isinstance(data, list) else s.list(*[kv(x) for x in data])
    P_ = 'TimePoint' if in_time(cls) else 'Point'
    if not is_slot(cls):
        if in_time(cls) and how == 'dt':
            return s.new(DS + cls, dt=av(('o', AT, float(base), 'dt', frozenset(['tz=' + (tz or 'UTC')]))), **kw)
        if in_time(cls):
            return s.new(DS + cls, t=kv(base), **dict(kw, **tzkw))
        return s.new(DS + cls, kv(base), **kw)
    start = s.new(DS + P_, kv(base), **tzkw)
    if how == 'unit':
        return s.new(DS + cls, start=start, unit=s.new(UN + 'TimeUnit', kv('{}h'.format(span))) if in_time(cls) else s.new(UN + 'Unit', kv(span)), **kw)
    if how == 't':
        return s.new(DS + cls, t=kv(base), unit=s.new(UN + 'TimeUnit', kv('{}h'.format(span))), **dict(kw, **tzkw))
    if how == 'dt':
        return s.new(DS + cls, dt=av(('o', AT, float(base), 'dt', frozenset(['tz=' + (tz or 'UTC')]))), unit=s.new(UN + 'TimeUnit', kv('{}h'.format(span))), **kw)
    end = s.new(DS + P_, kv(base + (3600 * span if in_time(cls) else span)), **tzkw)
    return s.new(DS + cls, start=start, end=end, **kw)


def sym_(name):
    return kv({'aA': 1.5, 'bA': 2.5, 'aB': 3.5, 'bB': 2.5}[name])


def tell(chk, I, rule, con, s, op, a, b, want):
    s = s.fork()
    bs, raised = branches(s, s.probe(op), a, b)
    if raised:
        chk.viol(rule, con, 'fails: {}'.format(describe(I, [], raised)))
        return
    got = set()
    for x in bs:
        got |= set(x.val)
    if got == {V.k(want)}:
        chk.ok(rule, con)
    elif V.k(want) in got or not all(g[0] == 'k' for g in got):
        chk.undecided(rule, con, 'gives {}'.format(sorted(map(str, got))[:3]))
    else:
        chk.viol(rule, con, 'is {}, it has to be {}'.format(sorted(str(g[1]) for g in got), want))


def equality(chk, I):
    foreign = {'None': lambda s: VNONE, 'an int': lambda s: kv(10), 'a number': lambda s: kv(float(T0)), 'a text': lambda s: kv('abc'), 'a list': lambda s: s.list(kv(10)),
               'an empty dict': lambda s: s.dict({}), 'a tuple': lambda s: s.tuple(kv(10)), 'an object': lambda s: s.new('timeseria.probe__.Foreign'),
               'a series': lambda s: s.new(DS + 'TimeSeries'), 'a class': lambda s: s.cls(DS + 'Point'), 'a unit': lambda s: s.new(UN + 'TimeUnit', kv('1h')),
               'True': lambda s: kv(True)}
    for cls in PTS + SLS:
        for what, f in foreign.items():
            for op, want in (('eq', False), ('ne', True)):
                for swap in (False, True):
                    if what == 'a unit' and swap:
                        continue
                    con = '{} and {}: {}{}'.format(cls, what, op, ' (swapped)' if swap else '')
                    with works(chk, 'foreign', con):
                        s = Scn(I)
                        a, b = make(s, cls), f(s)
                        tell(chk, I, 'foreign', con, s, op, *((b, a) if swap else (a, b)), want=want)
        for other in (SLS if cls in PTS else PTS):
            con = '{} and {}'.format(cls, other)
            with works(chk, 'foreign', con):
                s = Scn(I)
                tell(chk, I, 'foreign', con, s, 'eq', make(s, cls), make(s, other), False)
    for fam in (PTS, SLS):
        for c1 in fam:
            for c2 in fam:
                if in_time(c1) != in_time(c2):
                    continue
                cases = [('the same', {}, True), ('another position', dict(pos=2), False)]
                if is_slot(c1):
                    cases += [('another end', dict(span=2), False)]
                if in_time(c1):
                    cases += [('another time zone', dict(tz=ROME), True)]
                if has_data(c1) and has_data(c2):
                    cases += [('other data', dict(data='B'), False), ('other data, position', dict(data='B', pos=2), False), ('other indexes', dict(ix=True), True),
                              ('other kind of data', dict(data=[1.5, 2.5]), False)]
                else:
                    cases += [('data on one only', dict(data='B'), True)]
                for what, kw, want in cases:
                    con = '{} and {} with {}'.format(c1, c2, what)
                    with works(chk, 'equality', con):
                        s = Scn(I)
                        kw = dict(kw)
                        if kw.pop('ix', None):
                            kw['data_loss'] = kv(0.5)
                        if not has_data(c2):
                            kw.pop('data', None)
                        tell(chk, I, 'equality', con, s, 'eq', make(s, c1), make(s, c2, **kw), want)
                        tell(chk, I, 'equality', con + ' (ne)', s, 'ne', make(s, c1), make(s, c2, **kw), not want)
    # More dimensions
    for n1, n2, want in (((1, 2), (1, 2), True), ((1, 2), (1, 3), False), ((1, 2), (2, 1), False), ((1,), (1, 2), False), ((1, 2, 3), (1, 2), False)):
        for cls in ('Point', 'DataPoint'):
            con = '{}{} and {}'.format(cls, n1, n2)
            with works(chk, 'equality', con):
                s = Scn(I)
                mk = lambda n_: s.new(DS + cls, *[kv(x) for x in n_], **(dict(data=s.list(kv(1))) if has_data(cls) else {}))
                tell(chk, I, 'equality', con, s, 'eq', mk(n1), mk(n2), want)
    for e1, e2, want in (((1, 3), (1, 3), True), ((1, 3), (1, 4), False), ((1, 3), (2, 3), False)):
        for cls in ('Slot', 'DataSlot'):
            con = '{}{} and {}'.format(cls, e1, e2)
            with works(chk, 'equality', con):
                s = Scn(I)
                mk = lambda e: s.new(DS + cls, start=s.new(DS + 'Point', kv(e[0])), end=s.new(DS + 'Point', kv(e[1])), **(dict(data=s.list(kv(1))) if has_data(cls) else {}))
                tell(chk, I, 'equality', con, s, 'eq', mk(e1), mk(e2), want)


def data_args(chk, I):
    for cls in ('DataPoint', 'DataTimePoint', 'DataSlot', 'DataTimeSlot'):
        # Without data
        con = '{} with no data'.format(cls)
        with works(chk, 'refused', con):
            refused_make(chk, I, 'refused', con, cls, data=None)
        for what, f in (('a list', lambda s: s.list(kv(1))), ('a number', lambda s: kv(0.5)), ('a text', lambda s: kv('abc')), ('an empty list', lambda s: s.list()),
                        ('zero', lambda s: kv(0)), ('a set of pairs', lambda s: s.tuple(kv('a'), kv(1)))):
            con = '{} with {} as data indexes'.format(cls, what)
            with works(chk, 'refused', con):
                refused_make(chk, I, 'refused', con, cls, data_indexes=f)
        for what, args, want in (
                ('no indexes', {}, {}),
                ('data_indexes=None', dict(data_indexes=None), {}),
                ('empty indexes', dict(data_indexes={}), {}),
                ('an index', dict(data_indexes=dict(x=0.25)), dict(x=0.25)),
                ('an index set to None', dict(data_indexes=dict(x=None)), dict(x=None)),
                ('a zero index', dict(data_indexes=dict(x=0, data_loss=0)), dict(x=0, data_loss=0)),
                ('a data loss', dict(data_loss=0.5), dict(data_loss=0.5)),
                ('a zero data loss', dict(data_loss=0), dict(data_loss=0)),
                ('data_loss=None', dict(data_loss=None), dict(data_loss=None)),
                ('both', dict(data_indexes=dict(x=0.25), data_loss=0.5), dict(x=0.25, data_loss=0.5)),
                ('None and a data loss', dict(data_indexes=None, data_loss=0.5), dict(data_loss=0.5)),
                ('both, the data loss twice', dict(data_indexes=dict(x=0.25, data_loss=1), data_loss=0.5), dict(x=0.25, data_loss=0.5))):
            con = '{} with {}'.format(cls, what)
            with works(chk, 'stored', con):
                s = Scn(I)
                kw = {k_: (s.dict({a: kv(b) for a, b in v.items()}) if isinstance(v, dict) else kv(v)) for k_, v in args.items()}
                d = s.dict(dict(b=kv(2.5), a=kv(1.5)))
                ob = make(s, cls, **dict(kw, data=d))
                s0 = s.st
                ix = s.attr(ob, 'data_indexes')
                o_ = one(s.st, ix)
                got = {k_[1]: v for k_, v in o_.kv.items()} if o_ is not None and o_.kind == 'dict' else None
                chk.ok('stored', con, got == {a: kv(b) for a, b in want.items()}, 'the data indexes are {}'.format(V.show(ix, s.st)))
                chk.ok('stored', con + ': data', s.attr(ob, 'data') == d, 'the data is not the one given')
                chk.ok('stored', con + ': data loss', s.attr(ob, 'data_loss') == kv(want.get('data_loss')), 'the data loss is {}'.format(V.show(s.attr(ob, 'data_loss'), s.st)))
                if 'data_indexes' in kw and isinstance(args['data_indexes'], dict):
                    chk.ok('stored', con + ': own', s.oid(ix) != s.oid(kw['data_indexes']), 'the dictionary given is kept')
                new = s.dict(dict(y=kv(1)))
                bs, raised = branches(s.fork(), s.attr(ob, 'data_labels'))
                for b in bs:
                    its = one(b.st, b.val)
                    chk.ok('stored', con + ': labels', its is not None and [x for x in its.items or ()] == [kv('a'), kv('b')], 'the labels are {}'.format(V.show(b.val, b.st)))
        con = '{} of a list'.format(cls)
        with works(chk, 'stored', con):
            s = Scn(I)
            ob = make(s, cls, data=[7, 8, 9])
            for b in branches(s.fork(), s.attr(ob, 'data_labels'))[0]:
                its = one(b.st, b.val)
                chk.ok('stored', con + ': labels', its is not None and list(its.items or ()) == [kv('0'), kv('1'), kv('2')], 'the labels are {}'.format(V.show(b.val, b.st)))
            for i in range(3):
                for b in branches(s.fork(), s.method(ob, '_data_by_label'), kv(str(i)))[0]:
                    chk.ok('stored', con + ': label {}'.format(i), b.val == kv(7 + i), 'is {}'.format(V.show(b.val, b.st)))


def refused_make(chk, I, rule, con, cls, **kw):
    e = Explicit()
    I.monitors.append(e)
    try:
        s = Scn(I)
        args = {}
        if kw.get('data', 1) is not None:
            args['data'] = s.dict(dict(a=kv(1.5)))
        if 'data_indexes' in kw:
            args['data_indexes'] = kw['data_indexes'](s)
        if is_slot(cls):
            P_ = 'TimePoint' if in_time(cls) else 'Point'
            args.update(start=s.new(DS + P_, kv(3600)), end=s.new(DS + P_, kv(7200)))
            pos = ()
        else:
            pos = (kv(3600),)
        bs, raised = branches(s, s.cls(DS + cls), *pos, **args)
    finally:
        I.monitors.remove(e)
    if bs:
        chk.viol(rule, con, 'accepted')
    elif not raised:
        chk.undecided(rule, con, 'no outcome')
    else:
        bad = [r for r in raised if next(iter(r.val)) not in e.seen]
        chk.ok(rule, con, not bad, bad and 'refused by accident only: {}'.format(describe(I, [], bad)))


def t_of(s, v):
    ok, c = V.one_const(v)
    if ok:
        return c
    for a in v:
        if a[0] == 'o':
            return a[2]


def tz_name(st, v):
    """The name of a time zone."""
    out = set()
    for a in v:
        if a[0] == 'ext' and a[1].startswith('pytz.'):
            out.add(a[1][5:].split(':')[-1])
        else:
            out |= {t[3:] for t in V.tagsof(av(a), st) if t.startswith('tz=')}
    return out.pop() if len(out) == 1 else None


def instants(s, ob, cls):
    """What an item is about."""
    out = {}
    if is_slot(cls):
        out['start'] = t_of(s, s.attr(s.attr(ob, 'start'), 't'))
        out['end'] = t_of(s, s.attr(s.attr(ob, 'end'), 't'))
    out['t'] = t_of(s, s.attr(ob, 't'))
    dt_ = s.attr(ob, 'dt')
    out['dt'] = t_of(s, dt_)
    return out, dt_


def zones(chk, I):
    for cls in ('TimePoint', 'DataTimePoint', 'TimeSlot', 'DataTimeSlot'):
        hows = ('end', 'dt') if not is_slot(cls) else ('end', 'unit', 't', 'dt')
        for how in hows:
            for tz in (None, 'UTC', ROME, 'America/New_York'):
                for to in ('UTC', ROME, 'Asia/Tokyo'):
                    con = '{} by {} on {} moved on {}'.format(cls, how, tz, to)
                    with works(chk, 'tz', con):
                        s = Scn(I)
                        ob = make(s, cls, tz=tz, how=how)
                        was, d0 = instants(s, ob, cls)
                        want = dict(t=T0, dt=T0)
                        if is_slot(cls):
                            want.update(start=T0, end=T0 + 3600)
                        chk.ok('tz', con + ': before', was == want, 'it is at {}, it has to be at {}'.format(was, want))
                        chk.ok('tz', con + ': zone before', tz_name(s.st, s.attr(ob, 'tz')) == (tz or 'UTC') and tz_name(s.st, d0) == (tz or 'UTC'),
                               'the time zone is {} ({})'.format(tz_name(s.st, s.attr(ob, 'tz')), tz_name(s.st, d0)))
                        bs, raised = branches(s, s.method(ob, 'change_tz'), kv(to))
                        if raised or not bs:
                            chk.viol('tz', con, 'fails: {}'.format(describe(I, [], raised)))
                            continue
                        for b in bs:
                            s1 = s.fork()
                            s1.st = b.st
                            now, d1 = instants(s1, ob, cls)
                            chk.ok('tz', con, now == want, 'the instants become {}'.format(now))
                            zs = {tz_name(s1.st, s1.attr(ob, 'tz')), tz_name(s1.st, d1)}
                            if is_slot(cls):
                                zs |= {tz_name(s1.st, s1.attr(s1.attr(ob, x), 'tz')) for x in ('start', 'end')}
                            chk.ok('tz', con + ': zone', zs == {to}, 'the time zones become {}'.format(sorted(map(str, zs))))
                            chk.ok('tz', con + ': result', b.val == VNONE, 'returns {}'.format(V.show(b.val, b.st)))


def refuse(chk, I, rule, con, f, on_purpose=True):
    """The call is refused (and on purpose)."""
    e = Explicit()
    I.monitors.append(e)
    try:
        with works(chk, rule, con):
            s = Scn(I)
            c, args, kw = f(s)
            bs, raised = branches(s, c, *args, **kw)
            if bs:
                chk.viol(rule, con, 'accepted')
            elif not raised:
                chk.undecided(rule, con, 'no outcome')
            else:
                bad = [r for r in raised if on_purpose and next(iter(r.val)) not in e.seen]
                chk.ok(rule, con, not bad, bad and 'refused by accident only: {}'.format(describe(I, [], bad)))
    finally:
        I.monitors.remove(e)


def creation(chk, I):
    # Casting, and the time zone of what is cast
    for src in ('TimePoint', 'DataTimePoint'):
        for tz in (None, 'UTC', ROME):
            con = 'TimePoint of a {} on {}'.format(src, tz)
            with works(chk, 'cast', con):
                s = Scn(I)
                ob = make(s, src, tz=tz)
                new = s.new(DS + 'TimePoint', ob)
                chk.ok('cast', con, t_of(s, s.attr(new, 't')) == T0 and tz_name(s.st, s.attr(new, 'tz')) == (tz or 'UTC'),
                       'it is at {} on {}'.format(V.show(s.attr(new, 't'), s.st), tz_name(s.st, s.attr(new, 'tz'))))
                chk.ok('cast', con + ': another one', s.oid(new) != s.oid(ob), 'the same object')
                s.do(s.method(new, 'change_tz'), kv('Asia/Tokyo'))
                chk.ok('cast', con + ': on its own', tz_name(s.st, s.attr(ob, 'tz')) == (tz or 'UTC'), 'changing its time zone changes the first one')
    for cls in ('TimePoint', 'DataTimePoint'):
        kw = lambda s: dict(data=s.dict(dict(a=kv(1)))) if has_data(cls) else {}
        for t in (0, 5, -7.5, T0):
            con = '{}({})'.format(cls, t)
            with works(chk, 'cast', con):
                s = Scn(I)
                if not has_data(cls):
                    ob = s.new(DS + cls, kv(t))
                    chk.ok('cast', con, s.attr(ob, 't') == kv(t), 'it is at {}'.format(V.show(s.attr(ob, 't'), s.st)))
                ob = s.new(DS + cls, t=kv(t), **kw(s))
                chk.ok('cast', con + ': by name', s.attr(ob, 't') == kv(t), 'it is at {}'.format(V.show(s.attr(ob, 't'), s.st)))
        # The time zone given prevails on the one of the date
        for tz, of in ((ROME, 'UTC'), ('UTC', ROME), ('Asia/Tokyo', ROME)):
            con = '{} by dt on {} with tz={}'.format(cls, of, tz)
            with works(chk, 'cast', con):
                s = Scn(I)
                ob = s.new(DS + cls, dt=av(('o', AT, float(T0), 'dt', frozenset(['tz=' + of]))), tz=kv(tz), **kw(s))
                chk.ok('cast', con, t_of(s, s.attr(ob, 't')) == T0 and tz_name(s.st, s.attr(ob, 'tz')) == tz,
                       'it is at {} on {}'.format(V.show(s.attr(ob, 't'), s.st), tz_name(s.st, s.attr(ob, 'tz'))))
    refuse(chk, I, 'refused', 'TimePoint of two times', lambda s: (s.cls(DS + 'TimePoint'), [kv(1), kv(2)], {}))
    for cls in ('TimePoint', 'DataTimePoint'):
        refuse(chk, I, 'refused', '{} by a naive date'.format(cls),
               lambda s: (s.cls(DS + cls), [], dict(dt=av(('o', 'naive', 5.0, 'dt', NOTAGS)), **(dict(data=s.dict(dict(a=kv(1)))) if has_data(cls) else {}))), False)
    # Slots
    for cls in SLS:
        T = 'Time' if in_time(cls) else ''
        kw = lambda s, **k_: dict(k_, **(dict(data=s.dict(dict(a=kv(1)))) if has_data(cls) else {}))
        pt = lambda s, *x: s.new(DS + T + 'Point', *[kv(y) for y in x])
        unit = lambda s: s.new(UN + T + 'Unit', kv('1h') if T else kv(1))
        for what, wrong in (('a number', lambda s: kv(5)), ('a text', lambda s: kv('abc')), ('a list', lambda s: s.list(kv(1))), ('a unit', unit)):
            refuse(chk, I, 'refused', '{} starting at {}'.format(cls, what), lambda s: (s.cls(DS + cls), [], kw(s, start=wrong(s), end=pt(s, 5))), False)
            refuse(chk, I, 'refused', '{} ending at {}'.format(cls, what), lambda s: (s.cls(DS + cls), [], kw(s, start=pt(s, 5), end=wrong(s))), False)
            if what != 'a unit':
                refuse(chk, I, 'refused', '{} of {}'.format(cls, what), lambda s: (s.cls(DS + cls), [], kw(s, start=pt(s, 5), unit=wrong(s))))
        refuse(chk, I, 'refused', '{} of a point'.format(cls), lambda s: (s.cls(DS + cls), [], kw(s, start=pt(s, 5), unit=pt(s, 5))))
        if T:
            refuse(chk, I, 'refused', '{} starting at a Point'.format(cls), lambda s: (s.cls(DS + cls), [], kw(s, start=s.new(DS + 'Point', kv(1)), unit=unit(s))))
            refuse(chk, I, 'refused', '{} ending at a Point'.format(cls), lambda s: (s.cls(DS + cls), [], kw(s, start=pt(s, 1), end=s.new(DS + 'Point', kv(5)))), False)
            refuse(chk, I, 'refused', '{} of a Unit'.format(cls), lambda s: (s.cls(DS + cls), [], kw(s, start=pt(s, 1), unit=s.new(UN + 'Unit', kv(5)))))
            refuse(chk, I, 'refused', '{} from a zone to another'.format(cls),
                   lambda s: (s.cls(DS + cls), [], kw(s, start=pt(s, 1), end=s.new(DS + 'TimePoint', kv(5), tz=kv(ROME)))))
        else:
            refuse(chk, I, 'refused', '{} of two dimensions by unit'.format(cls), lambda s: (s.cls(DS + cls), [], kw(s, start=pt(s, 1, 2), unit=unit(s))))
            refuse(chk, I, 'refused', '{} of different dimensions'.format(cls), lambda s: (s.cls(DS + cls), [], kw(s, start=pt(s, 1, 2), end=pt(s, 5))))
        refuse(chk, I, 'refused', '{} which is empty'.format(cls), lambda s: (s.cls(DS + cls), [], kw(s, start=pt(s, 5), end=pt(s, 5))))
        for span in (1, 2, 5):
            con = '{} of {}'.format(cls, span)
            with works(chk, 'length', con):
                s = Scn(I)
                a, b = make(s, cls, span=span), make(s, cls, span=span, how='unit')
                tell(chk, I, 'length', con + ': by end and by unit', s, 'eq', a, b, True)
                want = span * (3600 if T else 1)
                for what, ob in (('by end', a), ('by unit', b)):
                    got = s.do(s.probe('ends'), ob)
                    chk.ok('length', '{}: {}'.format(con, what), V.one_const(got) == (True, want), 'from start to end {}'.format(V.show(got, s.st)))
                    got = s.attr(ob, 'length')
                    got_u = s.attr(ob, 'unit')
                    tell(chk, I, 'length', '{}: {}: unit'.format(con, what), s, 'eq', got_u, s.new(UN + T + 'Unit', kv('{}s'.format(want) if T and what == 'by end' else '{}h'.format(span) if T else span)), True)
                    chk.ok('length', '{}: {}: length'.format(con, what), V.one_const(got) == (True, want), 'the length is {}'.format(V.show(got, s.st)))
    # Data by label
    for cls in ('DataPoint', 'DataTimePoint', 'DataSlot', 'DataTimeSlot'):
        for what, f, label, want in (('a dictionary', lambda s: s.dict(dict(a=kv(1), b=kv(2))), 'b', 2), ('a list', lambda s: s.list(kv(1), kv(2)), '1', 2),
                                     ('a tuple', lambda s: s.tuple(kv(1), kv(2)), '0', 1)):
            con = '{} of {}: the data of a label'.format(cls, what)
            with works(chk, 'stored', con):
                s = Scn(I)
                ob = make(s, cls, data=f(s))
                got = s.do(s.method(ob, '_data_by_label'), kv(label))
                chk.ok('stored', con, got == kv(want), 'is {}'.format(V.show(got, s.st)))
        for what, f in (('a number', lambda s: kv(1.5)), ('a date', lambda s: av(('o', AT, 5.0, 'dt', frozenset(['tz=UTC']))))):
            def call(s):
                return s.method(make(s, cls, data=f(s)), '_data_by_label'), [kv('0')], {}
            refuse(chk, I, 'refused', '{} of {}: the data of a label'.format(cls, what), call)


def run(chk):
    chk.rule('foreign', 'comparing with anything else never fails, and is false', 200)
    chk.rule('equality', 'items are equal if in the same position and, when both have data, with the same data', 80)
    chk.rule('refused', 'items with no data, or with data indexes which are not a dictionary, are refused', 20)
    chk.rule('stored', 'data, data indexes and data loss are stored as given, in a dictionary of the item', 100)
    chk.rule('tz', 'changing the time zone changes the representation of an item, and not its instants', 300)
    chk.rule('cast', 'a time point is where it is asked to be, by position, by name, by date or from another point, on its own time zone', 20)
    chk.rule('length', 'a slot goes from its start to its end, as long as its unit', 40)
    I = chk.interp(probe=PROBE)
    equality(chk, I)
    data_args(chk, I)
    zones(chk, I)
    creation(chk, I)
