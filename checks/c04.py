"""C04: a series only ever accepts the next item in order or succession."""
from tsa.build import *
from tsa.rules import *

T = DS + 'TimeSeries.append'
G = DS + 'Series.append'


def appended(chk, rule, construct, bs, ser, item):
    """After an accepted append the item is the last one and the others are as before."""
    for b in bs:
        its = items_of(b.st, ser)
        if its is None:
            chk.undecided(rule, construct, 'items not known')
        else:
            chk.ok(rule, construct, len(its) == 3 and its[-1] == item, 'the item appended is not the last one of the series, or others were added or lost')


def run(chk):
    chk.rule('refuse', 'an item which is not the next one is refused by append and by the creation of a series', 40)
    chk.rule('accept', 'an item which is the next one is accepted, and becomes the last one', 20)
    I = chk.interp()

    def series_of(mk, cls, kind, n_=2, first=3):
        s = Scn(I)
        its = [mk(s, first + i) for i in range(n_)]
        return s, its

    def point_cases(cls, mkcls, kind):
        for res in ('variable', 'constant'):
            s = Scn(I)
            mk = lambda r, **kw: point(s, r, kind=kind, cls=mkcls, **kw)
            its = [mk(3), mk(4), mk(5)]
            ser = series(s, its[:2], cls=cls, res=None)
            if mkcls.startswith('Data') or res == 'variable':
                ser = series(s, its[:2], cls=cls)
            for r, ok in ((1, False), (3, False), (4, False), (5, True), (6, True), (2, False)):
                x = s.fork()
                it = point(x, r, kind=kind, cls=mkcls)
                name = '{} of {} with {} data, at {}'.format(cls, mkcls, kind, {1: 'a time before all', 2: 'a time before all (2)', 3: 'the time of the first item',
                                                                                  4: 'the time of the last item', 5: 'the next time', 6: 'a later time'}[r])
                with chk.guard('accept' if ok else 'refuse', name):
                    f = x.attr(ser, 'append')
                    if ok:
                        bs, _ = accepted(chk, 'accept', name, x, f, it)
                        appended(chk, 'accept', name, bs, ser, it)
                    else:
                        refused(chk, 'refuse', name, x, f, it)
            if res == 'variable':
                # creation
                for rs, ok in (((1, 2, 3), True), ((1, 3, 2), False), ((2, 1, 3), False), ((1, 1, 2), False), ((1, 2, 2), False), ((1, 2), True)):
                    x = Scn(I)
                    its = [point(x, r, kind=kind, cls=mkcls) for r in rs]
                    name = '{}() of {} with {} data, at times {}'.format(cls, mkcls, kind, ', '.join(map(str, rs)))
                    with chk.guard('accept' if ok else 'refuse', name):
                        (accepted if ok else refused)(chk, 'accept' if ok else 'refuse', name, x, x.cls(DS + cls), *its)

    for cls in ('TimeSeries', 'Series'):
        for mkcls in ('DataTimePoint', 'TimePoint'):
            for kind in ('dict', 'list') if mkcls.startswith('Data') else ('no',):
                with chk.guard('refuse', '{} of {}'.format(cls, mkcls)):
                    point_cases(cls, mkcls, kind)

    # A third item after two, with a resolution which is already variable or not
    for res in ('variable', 'constant'):
        with chk.guard('refuse', 'resolution {}'.format(res)):
            s = Scn(I)
            its = [point(s, r) for r in (1, 2, 3)]
            ser = series(s, its, res=res)
            for r, ok in ((3, False), (2, False), (1, False), (0, False), (4, True), (9, True)):
                x = s.fork()
                it = point(x, r)
                name = 'TimeSeries with {} resolution, at {}'.format(res, r - 3)
                (accepted if ok else refused)(chk, 'accept' if ok else 'refuse', name, x, x.attr(ser, 'append'), it)

    # Slots
    for cls in ('TimeSeries', 'Series'):
        for mkcls in ('DataTimeSlot', 'TimeSlot'):
            for kind in ('dict', 'list') if mkcls.startswith('Data') else ('no',):
                with chk.guard('refuse', '{} of {}'.format(cls, mkcls)):
                    s = Scn(I)
                    u = unit(s)
                    ser = series(s, [slot(s, 3, u=u, cls=mkcls, kind=kind), slot(s, 4, u=u, cls=mkcls, kind=kind)], cls=cls)
                    for start, ok, what in ((5, True, 'in succession'), (6, False, 'after a gap'), (4, False, 'on the last one'), (3, False, 'on the first one'),
                                            (2, False, 'ending where the first one starts'), (1, False, 'before')):
                        x = s.fork()
                        it = slot(x, start, u=unit(x), cls=mkcls, kind=kind)
                        name = '{} of {} with {} data, {}'.format(cls, mkcls, kind, what)
                        f = x.attr(ser, 'append')
                        if ok:
                            bs, _ = accepted(chk, 'accept', name, x, f, it)
                            appended(chk, 'accept', name, bs, ser, it)
                        else:
                            refused(chk, 'refuse', name, x, f, it)
                    # creation
                    for rs, ok in (((1, 2, 3), True), ((1, 3), False), ((2, 1), False), ((1, 1), False), ((1, 2, 4), False), ((1, 2, 2), False), ((1, 2, 1), False)):
                        x = Scn(I)
                        u2 = unit(x)
                        its = [slot(x, r, u=u2, cls=mkcls, kind=kind) for r in rs]
                        name = '{}() of {} with {} data, starting at {}'.format(cls, mkcls, kind, ', '.join(map(str, rs)))
                        (accepted if ok else refused)(chk, 'accept' if ok else 'refuse', name, x, x.cls(DS + cls), *its)

    # Different unit and time zone
    for mkcls in ('DataTimeSlot', 'TimeSlot'):
        for n_ in (1, 2):
            for ours, theirs in (('1h', '2h'), ('1h', '1D'), ('1D', '1h'), ('1M', '1D'), ('1D', '24h'), ('15m', '1h')):
                name = 'TimeSeries of {} {}, a unit of {} after {}'.format(n_, mkcls, theirs, ours)
                with chk.guard('refuse', name):
                    s = Scn(I)
                    u, w = unit(s, ours), unit(s, theirs)
                    ser = series(s, [slot(s, 3 + i, u=u, cls=mkcls) for i in range(n_)])
                    refused(chk, 'refuse', name, s, s.attr(ser, 'append'), slot(s, 3 + n_, u=w, cls=mkcls))
            name = 'TimeSeries of {} {}, on another time zone'.format(n_, mkcls)
            with chk.guard('refuse', name):
                for a, b in (('Europe/Rome', 'America/New_York'), (None, 'Europe/Rome'), ('Europe/Rome', None)):
                    s = Scn(I)
                    u = unit(s)
                    tza = kv(a) if a else None
                    tzb = kv(b) if b else None
                    ser = series(s, [slot(s, 3 + i, u=u, cls=mkcls, tz=tza) for i in range(n_)])
                    refused(chk, 'refuse', name, s, s.attr(ser, 'append'), slot(s, 3 + n_, u=u, cls=mkcls, tz=tzb))
            name = 'TimeSeries of {} {}, on the same time zone'.format(n_, mkcls)
            with chk.guard('accept', name):
                s = Scn(I)
                u = unit(s)
                ser = series(s, [slot(s, 3 + i, u=u, cls=mkcls, tz=kv('Europe/Rome')) for i in range(n_)])
                accepted(chk, 'accept', name, s, s.attr(ser, 'append'), slot(s, 3 + n_, u=unit(s), cls=mkcls, tz=kv('Europe/Rome')))

    # Different types and data
    def mk(s, what, r):
        if what in ('DataTimePoint', 'TimePoint'):
            return point(s, r, cls=what)
        if what in ('DataTimeSlot', 'TimeSlot'):
            return slot(s, r, cls=what, u=unit(s))
        if what == 'Point' or what == 'DataPoint':
            return gpoint(s, r, cls=what)
        if what == 'number':
            return o(r)
        if what == 'string':
            return STR
        if what == 'None':
            return VNONE
        raise ValueError(what)
    for cls in ('TimeSeries', 'Series'):
        for ours in ('DataTimePoint', 'TimePoint', 'DataTimeSlot', 'TimeSlot'):
            for theirs in ('DataTimePoint', 'TimePoint', 'DataTimeSlot', 'TimeSlot', 'Point', 'number', 'string', 'None'):
                if ours == theirs or (ours, theirs) in (('TimePoint', 'DataTimePoint'), ('TimeSlot', 'DataTimeSlot')):
                    continue
                for n_ in (1, 2):
                    name = '{} of {} {}, a {} after them'.format(cls, n_, ours, theirs)
                    with chk.guard('refuse', name):
                        s = Scn(I)
                        u = unit(s)
                        its = [mk(s, ours, 3 + i) for i in range(n_)]
                        ser = series(s, its, cls=cls)
                        refused(chk, 'refuse', name, s, s.attr(ser, 'append'), mk(s, theirs, 3 + n_))
    for first in ('number', 'string', 'None', 'Point', 'DataPoint'):
        name = 'TimeSeries, a {} as first item'.format(first)
        with chk.guard('refuse', name):
            s = Scn(I)
            ser = series(s, [])
            refused(chk, 'refuse', name, s, s.attr(ser, 'append'), mk(s, first, 1))
    for cls in ('TimeSeries', 'Series'):
        for item in ('DataTimePoint', 'DataTimeSlot'):
            for (k1, l1), (k2, l2), ok in ((('dict', 'ab'), ('dict', 'ac'), False), (('dict', 'ab'), ('dict', 'a'), False), (('dict', 'a'), ('dict', 'ab'), False),
                                           (('list', 'ab'), ('list', 'a'), False), (('list', 'a'), ('list', 'ab'), False), (('dict', 'ab'), ('list', 'ab'), False),
                                           (('list', 'ab'), ('dict', 'ab'), False), (('dict', 'a'), ('num', ''), False), (('num', ''), ('dict', 'a'), False),
                                           (('num', ''), ('list', 'a'), False), (('list', ''), ('list', 'a'), False), (('dict', ''), ('dict', 'a'), False),
                                           (('dict', 'ab'), ('dict', 'ba'), True), (('num', ''), ('num', ''), True)):
                for n_ in (1, 2):
                    name = '{} of {} {}, {} data {} after {} {}'.format(cls, n_, item, k2, l2, k1, l1)
                    rule = 'accept' if ok else 'refuse'
                    with chk.guard(rule, name):
                        s = Scn(I)
                        if item == 'DataTimePoint':
                            its = [point(s, 3 + i, kind=k1, labels=l1) for i in range(n_)]
                            it = point(s, 3 + n_, kind=k2, labels=l2)
                        else:
                            u = unit(s)
                            its = [slot(s, 3 + i, kind=k1, labels=l1, u=u) for i in range(n_)]
                            it = slot(s, 3 + n_, kind=k2, labels=l2, u=u)
                        ser = series(s, its, cls=cls)
                        (accepted if ok else refused)(chk, rule, name, s, s.attr(ser, 'append'), it)

    # Generic points and slots
    for mkcls in ('Point', 'DataPoint'):
        for r, ok in ((1, False), (2, False), (3, False), (4, True)):
            name = 'Series of {}, at {}'.format(mkcls, r - 3)
            rule = 'accept' if ok else 'refuse'
            with chk.guard(rule, name):
                s = Scn(I)
                ser = series(s, [gpoint(s, 2, cls=mkcls), gpoint(s, 3, cls=mkcls)], cls='Series')
                (accepted if ok else refused)(chk, rule, name, s, s.attr(ser, 'append'), gpoint(s, r, cls=mkcls))
    for mkcls in ('Slot', 'DataSlot'):
        for r, ok in ((1, False), (2, False), (3, False), (4, True), (5, False)):
            name = 'Series of {}, starting at {}'.format(mkcls, r - 4)
            rule = 'accept' if ok else 'refuse'
            with chk.guard(rule, name):
                s = Scn(I)
                ser = series(s, [gslot(s, 2, cls=mkcls), gslot(s, 3, cls=mkcls)], cls='Series')
                (accepted if ok else refused)(chk, rule, name, s, s.attr(ser, 'append'), gslot(s, r, cls=mkcls))

    # Floating point rounding of the times of the slots
    for mkcls in ('DataTimeSlot', 'TimeSlot'):
        for d in (-1e-7, 1e-7):
            name = 'TimeSeries of {}, in succession up to rounding'.format(mkcls)
            with chk.guard('accept', name):
                s = Scn(I)
                u = unit(s)
                ser = series(s, [slot(s, 3, u=u, cls=mkcls)])
                accepted(chk, 'accept', name, s, s.attr(ser, 'append'), slot(s, 4 + d, end=5, u=u, cls=mkcls))
