"""C30: what operations and transformations do not support is refused, deliberately and before computing anything."""
from checks.ops import *

NOT_DATA = ('ints', 'times', 'time slots', 'points', 'slots', 'numbers')
UNCOMPUTED = ('DataTimePoint', 'DataTimeSlot', 'DataPoint', 'DataSlot')


class Explicit(object):
    """The exceptions raised by a raise statement."""

    def __init__(self):
        self.seen = set()

    def on_raise(self, I, st, exc, node, explicit=False):
        if explicit:
            self.seen.add(exc)


def source(s, kind):
    """A series of what has no data, or no indexed data."""
    tp = lambda t, **kw: s.new(DS + 'TimePoint', t=kv(t), **kw)
    h = lambda: s.new(UN + 'TimeUnit', kv('1h'))
    if kind == 'empty':
        return s.new(DS + 'TimeSeries')
    if kind == 'empty, not in time':
        return s.new(DS + 'Series')
    if kind == 'emptied':
        ser = series(s, [s.new(DS + 'DataTimePoint', t=kv(T0), data=s.dict(dict(a=kv(1.5))))])
        s.do(s.method(ser, 'clear'))
        return ser
    if kind == 'ints':
        return s.new(DS + 'Series', kv(1), kv(2), kv(3))
    if kind == 'points':
        return s.new(DS + 'Series', *[s.new(DS + 'Point', kv(i)) for i in (1, 2, 3)])
    if kind == 'slots':
        return s.new(DS + 'Series', *[s.new(DS + 'Slot', start=s.new(DS + 'Point', kv(i)), end=s.new(DS + 'Point', kv(i + 1))) for i in (1, 2, 3)])
    if kind == 'times':
        return series(s, [tp(T0 + 60 * i) for i in range(3)])
    if kind == 'time slots':
        return series(s, [s.new(DS + 'TimeSlot', start=tp(T0 + 3600 * i), unit=h()) for i in range(3)])
    if kind == 'numbers':
        return series(s, [s.new(DS + 'DataTimePoint', t=kv(T0 + 60 * i), data=kv(0.5 + i)) for i in range(3)])
    if kind == 'slots of numbers':
        return series(s, [s.new(DS + 'DataTimeSlot', start=tp(T0 + 3600 * i), unit=h(), data=kv(0.5 + i)) for i in range(3)])
    raise KeyError(kind)


ARGS = {
    'max': lambda s: ((), {}), 'min': lambda s: ((), {}), 'avg': lambda s: ((), {}), 'sum': lambda s: ((), {}),
    'derivative': lambda s: ((), {}), 'integral': lambda s: ((), {}), 'diff': lambda s: ((), {}), 'csum': lambda s: ((), {}),
    'normalize': lambda s: ((), {}), 'rescale': lambda s: ((kv(2.0),), {}), 'offset': lambda s: ((kv(2.0),), {}), 'mavg': lambda s: ((kv(2),), {}),
    'filter': lambda s: ((kv('a'),), {}), 'select': lambda s: ((kv('a=1'),), {}), 'merge': lambda s: ((), {}),
}
VARIANTS = {
    'max': [dict(data_label='a')], 'min': [dict(data_label='a')], 'avg': [dict(data_label='a')], 'sum': [dict(data_label='a')],
    'derivative': [dict(normalize=False), dict(inplace=True)], 'integral': [dict(normalize=False), dict(inplace=True)], 'csum': [dict(inplace=True)],
    'normalize': [dict(inplace=True)], 'rescale': [dict(inplace=True)], 'offset': [dict(inplace=True)],
}


def deliberate(chk, I, rule, con, s, fv, *args, **kw):
    """It has to raise, with a raise statement and an explanation, having computed no item and changed nothing."""
    look = kw.pop('look_', [])
    e = Explicit()
    I.monitors.append(e)
    try:
        s0 = s.st
        bs, raised = branches(s, fv, *args, **kw)
    finally:
        I.monitors.remove(e)
    base = guessed(s0)
    sure = [b for b in bs if not guessed(b.st) - base]
    if sure or (bs and not raised):
        chk.viol(rule, con, 'accepted, giving {}'.format(V.show((sure or bs)[0].val, (sure or bs)[0].st)))
        return
    if bs:
        chk.undecided(rule, con, 'may be accepted')
        return
    if not raised:
        chk.undecided(rule, con, 'no outcome')
        return
    for r in raised:
        exc = next(iter(r.val))
        if guessed(r.st) - base:
            continue
        if exc not in e.seen:
            chk.viol(rule, con, 'refused by accident only: {}'.format(describe(I, [], [r])))
            return
        new = [o for k_, o in r.st.heap.items() if k_ not in s0.heap and o.kind == 'obj' and str(o.cls).rsplit('.', 1)[-1] in UNCOMPUTED]
        if new:
            chk.viol(rule, con, 'refused only after having computed items')
            return
        for x in look:
            d = [y for y in changed(s0, r.st, x) if not y[1].startswith('unset')]
            if d:
                chk.viol(rule, con, 'refused, but changing {}'.format(d[0][1]))
                return
    chk.ok(rule, con)


def forms(s, name, ser):
    """As a function and as a method."""
    out = [('{}(series)'.format(name), s.attr(av(('mod', 'timeseria.operations')), name), [ser])]
    return out


def has_method(I, s, ser, name):
    try:
        return s.method(ser, name)
    except Exception:
        return None


def operations(chk, I):
    for kind in ('empty', 'empty, not in time', 'emptied') + NOT_DATA + ('slots of numbers',):
        rule = 'empty' if kind.startswith('empt') else 'no data'
        for name in ARGS:
            for extra in [{}] + VARIANTS.get(name, []):
                con = '{} of {}{}'.format(name, kind, ''.join(', {}={}'.format(*x) for x in extra.items()))
                with chk.guard(rule, con):
                    s = Scn(I)
                    ser = source(s, kind)
                    args, kw = ARGS[name](s)
                    kw = dict(kw, **{k_: kv(v) for k_, v in extra.items()})
                    deliberate(chk, I, rule, con, s, s.attr(av(('mod', 'timeseria.operations')), name), ser, *args, look_=[ser], **kw)
                if not extra or chk.tier != 'quick':
                    with chk.guard(rule, con + ', as a method'):
                        s = Scn(I)
                        ser = source(s, kind)
                        if name == 'merge':
                            ser2 = Src(chk, I, 'points', 3, labels=('c',), s=s, prefix='w').ser
                            deliberate(chk, I, rule, con + ', with another one', s, s.attr(av(('mod', 'timeseria.operations')), name), ser2, ser, look_=[ser, ser2])
                            continue
                        args, kw = ARGS[name](s)
                        kw = dict(kw, **{k_: kv(v) for k_, v in extra.items()})
                        deliberate(chk, I, rule, con + ', as a method', s, s.method(ser, name), *args, look_=[ser], **kw)


def transformed(chk, I):
    T = 'timeseria.transformations.'
    for how, cls in (('resample', 'Resampler'), ('aggregate', 'Aggregator')):
        for kind in ('empty', 'empty, not in time', 'emptied') + NOT_DATA + ('slots of numbers', 'data slots', 'one point', 'a list'):
            for unit in ('2m', '1h'):
                for method in (False, True):
                    if method and kind in ('empty, not in time', 'ints', 'points', 'slots', 'a list'):
                        continue
                    con = '{} at {} of {}{}'.format(how, unit, kind, ', as a method' if method else '')
                    with chk.guard('transformations', con):
                        s = Scn(I)
                        if kind == 'data slots':
                            ser = Src(chk, I, 'slots', 4, s=s).ser
                        elif kind == 'one point':
                            ser = Src(chk, I, 'points', 1, s=s).ser
                        elif kind == 'a list':
                            ser = s.list(*Src(chk, I, 'points', 4, s=s).items)
                        else:
                            ser = source(s, kind)
                        if method:
                            deliberate(chk, I, 'transformations', con, s, s.method(ser, how), kv(unit), look_=[ser])
                        else:
                            t = s.new(T + cls, kv(unit))
                            deliberate(chk, I, 'transformations', con, s, s.method(t, 'process'), ser, look_=[ser, t])
    # Units
    for unit in ('1D', '1W', '1M', '1Y', '2D', '2W', '3M', '10Y', '1D_3h', '1M_1h', '1Y_1D', '1W_30m'):
        for form in ('text', 'unit', 'method'):
            con = 'resample at {} ({})'.format(unit, form)
            with chk.guard('calendar', con):
                s = Scn(I)
                if form == 'text':
                    deliberate(chk, I, 'calendar', con, s, s.cls(T + 'Resampler'), kv(unit))
                elif form == 'unit':
                    deliberate(chk, I, 'calendar', con, s, s.cls(T + 'Resampler'), s.new(UN + 'TimeUnit', kv(unit)))
                else:
                    ser = Src(chk, I, 'points', 4, s=s).ser
                    deliberate(chk, I, 'calendar', con, s, s.method(ser, 'resample'), kv(unit), look_=[ser])
    for unit in ('1h', '24h', '30m', '15s', '90s', '1h_30m'):
        with chk.guard('calendar', unit):
            s = Scn(I)
            accepted(chk, 'calendar', 'resample at ' + unit, s, s.cls(T + 'Resampler'), kv(unit))
    # Operations
    for what, ops_ in (('an empty list', lambda s: s.list()), ('an empty tuple', lambda s: s.tuple()), ('None', lambda s: VNONE)):
        for form in ('class', 'method'):
            con = 'aggregate with {} as operations ({})'.format(what, form)
            with chk.guard('no operations', con):
                s = Scn(I)
                if form == 'class':
                    deliberate(chk, I, 'no operations', con, s, s.cls(T + 'Aggregator'), kv('1h'), operations=ops_(s))
                else:
                    ser = Src(chk, I, 'points', 4, s=s).ser
                    deliberate(chk, I, 'no operations', con, s, s.method(ser, 'aggregate'), kv('2m'), operations=ops_(s), look_=[ser])


def resolutions(chk, I):
    src = lambda s, form, n_, prefix='v', labels=('a',), **kw: Src(chk, I, form, n_, labels=labels, s=s, prefix=prefix, **kw).ser
    for name in ('diff', 'csum'):
        for n_ in (4, 5, 7):
            con = '{} of {} points at variable resolution'.format(name, n_)
            with chk.guard('resolution', con):
                s = Scn(I)
                ser = src(s, 'variable', n_)
                deliberate(chk, I, 'resolution', con, s, s.method(ser, name), look_=[ser])
    for name, extra in (('derivative', {}), ('derivative', dict(normalize=False)), ('diff', {}), ('integral', {})):
        for form in ('points', 'slots'):
            if name == 'integral' and form == 'slots':
                continue
            con = '{} of one of {}'.format(name + str(extra or ''), form)
            with chk.guard('one item', con):
                s = Scn(I)
                ser = src(s, form, 1)
                deliberate(chk, I, 'one item', con, s, s.method(ser, name), look_=[ser], **{k_: kv(v) for k_, v in extra.items()})
    other = dict(labels=('b',), prefix='w')
    cases = {
        'a variable one': lambda s: [src(s, 'variable', 4)],
        'a variable one, second': lambda s: [src(s, 'points', 4), src(s, 'variable', 4, **other)],
        'a variable one, first': lambda s: [src(s, 'variable', 4), src(s, 'points', 4, **other)],
        'both variable': lambda s: [src(s, 'variable', 4), src(s, 'variable', 4, **other)],
        'another resolution': lambda s: [src(s, 'points', 4), src(s, 'points', 4, times=[T0 + 30 * i for i in range(4)], **other)],
        'a double resolution': lambda s: [src(s, 'points', 4), src(s, 'points', 4, times=[T0 + 120 * i for i in range(4)], **other)],
        'slots of another unit': lambda s: [src(s, 'slots', 4), src(s, 'slots', 4, unit='2h', times=[T0 + 7200 * i for i in range(4)], **other)],
        'the third at another resolution': lambda s: [src(s, 'points', 4), src(s, 'points', 4, **other), src(s, 'points', 4, times=[T0 + 30 * i for i in range(4)], labels=('c',), prefix='z')],
        'points and slots': lambda s: [src(s, 'points', 4, times=[T0 + 3600 * i for i in range(4)]), src(s, 'slots', 4, **other)],
        'slots and points': lambda s: [src(s, 'slots', 4), src(s, 'points', 4, times=[T0 + 3600 * i for i in range(4)], **other)],
        'list data': lambda s: [src(s, 'points', 4, kind='list'), src(s, 'points', 4, **other)],
        'list data, second': lambda s: [src(s, 'points', 4), src(s, 'points', 4, kind='list', **other)],
    }
    for what, f in cases.items():
        with chk.guard('merge', what):
            s = Scn(I)
            sers = f(s)
            deliberate(chk, I, 'merge', 'merge with ' + what, s, s.attr(av(('mod', 'timeseria.operations')), 'merge'), *sers, look_=sers)
    for what, f in {'the same resolution': lambda s: [src(s, 'points', 4), src(s, 'points', 4, **other)],
                    'slots of the same unit': lambda s: [src(s, 'slots', 4), src(s, 'slots', 4, **other)]}.items():
        with chk.guard('merge', what):
            s = Scn(I)
            accepted(chk, 'merge', 'merge with ' + what, s, s.attr(av(('mod', 'timeseria.operations')), 'merge'), *f(s))
    # Windows, and in place
    for w in (0, -1, None):
        con = 'mavg with window {}'.format(w)
        with chk.guard('window', con):
            s = Scn(I)
            ser = src(s, 'points', 4)
            deliberate(chk, I, 'window', con, s, s.method(ser, 'mavg'), VNONE if w is None else kv(w), look_=[ser])
    for what, kw in (('a text as start', dict(start=kv('abc'))), ('a text as end', dict(end=kv('abc'))), ('a start which is not on the unit', dict(start=kv(T0 + 7))),
                     ('an end which is not on the unit', dict(end=kv(T0 + 247))), ('the extremes', dict(include_extremes=kv(True)))):
        for cls in ('Resampler', 'Aggregator'):
            con = '{} with {}'.format(cls, what)
            with chk.guard('bounds', con):
                s = Scn(I)
                ser = src(s, 'points', 6)
                t = s.new('timeseria.transformations.' + cls, kv('2m'))
                deliberate(chk, I, 'bounds', con, s, s.method(t, 'process'), ser, look_=[ser], **kw)
    for what, kw in (('two labels at once', None),):
        pass


def run(chk):
    chk.rule('empty', 'operations refuse empty series', 60)
    chk.rule('no data', 'and series whose items are not points or slots, or carry no indexed data', 100)
    chk.rule('transformations', 'resampling and aggregating refuse empty series, and those not made of points with data', 40)
    chk.rule('calendar', 'resampling refuses calendar units, and only them', 30)
    chk.rule('no operations', 'aggregating with no operations is refused', 4)
    chk.rule('resolution', 'differences and cumulative sums refuse variable resolutions', 6)
    chk.rule('one item', 'what needs at least two items refuses just one', 5)
    chk.rule('merge', 'merging refuses variable and different resolutions, different items, and data which is not key-value', 12)
    chk.rule('window', 'a moving average refuses a window which is not positive', 3)
    chk.rule('bounds', 'what is not a time, or not on the unit, is refused as start and end', 8)
    I = chk.interp()
    operations(chk, I)
    transformed(chk, I)
    resolutions(chk, I)
