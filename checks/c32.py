"""C32: resampling and aggregation weigh each point by the part of the interval its validity covers."""
from checks.ops import *
import datetime
import zoneinfo

TR = 'timeseria.transformations.'


def regions(t, v):
    """Validity of each point: half of the sampling interval on both sides, split in the middle where two overlap."""
    out = [[x - v / 2, x + v / 2] for x in t]
    for a, b in zip(out, out[1:]):
        if b[0] < a[1]:
            a[1] = b[0] = (a[1] + b[0]) / 2
    return out


def overlap(r, lo, hi):
    return max(0, min(r[1], hi) - max(r[0], lo))


def interval(src, rs, lo, hi, v):
    """Weights of the points in the interval, with gaps interpolated; and of the points alone."""
    alone = {i: overlap(r, lo, hi) for i, r in enumerate(rs)}
    w = dict(alone)
    gap = 0
    for i in range(1, len(rs)):
        a, b = max(rs[i - 1][1], lo), min(rs[i][0], hi)
        if a < b:
            gap += b - a
            mid = (a + b) / 2
            f = (mid - src.t[i - 1]) / (src.t[i] - src.t[i - 1])
            w[i - 1] += (b - a) * (1 - f)
            w[i] += (b - a) * f
    return w, alone, gap


def most_common(t):
    d = [b - a for a, b in zip(t, t[1:])]
    return max(sorted(set(d)), key=d.count)


def wavg(w, f):
    tot = sum(w.values())
    e = E.of(0)
    for i, x in w.items():
        if x:
            e = e + f(i) * (x / tot)
    return e


def intervals(t, unit, how, tz=None):
    """The intervals which are all inside of the series, aligned to the unit (those centred on it when resampling)."""
    z = zoneinfo.ZoneInfo(tz) if tz else datetime.timezone.utc
    out = []
    if unit.endswith('D') or unit.endswith('M'):
        d = datetime.datetime.fromtimestamp(t[0], z).replace(hour=0, minute=0, second=0, tzinfo=None)
        step = lambda d: d + datetime.timedelta(days=1)
        if unit.endswith('M'):
            d = d.replace(day=1)
            step = lambda d: (d + datetime.timedelta(days=31)).replace(day=1)
        while True:
            lo, hi = d.replace(tzinfo=z).timestamp(), step(d).replace(tzinfo=z).timestamp()
            if hi > t[-1]:
                return out
            if lo >= t[0]:
                out.append((lo, hi))
            d = step(d)
    u = int(unit[:-1]) * {'s': 1, 'm': 60, 'h': 3600}[unit[-1]]
    c = t[0] // u * u
    while True:
        lo, hi = (c - u / 2, c + u / 2) if how == 'resample' else (c, c + u)
        if hi > t[-1]:
            return out
        if lo >= t[0]:
            out.append((lo, hi))
        c += u


def check(chk, name, src, how, unit, b, v, ops_=('avg',), fill=None, force_loss=None, tz=None, loss=True, ivs=None):
    its = items_of(b.st, b.val)
    if its is None:
        chk.undecided('intervals', name, 'items not known')
        return
    exp = ivs or intervals(src.t, unit, how, tz)
    got = [time_of(b.st, it) for it in its]
    want = [lo if how == 'aggregate' else (lo + hi) / 2 for lo, hi in exp]
    if None in got:
        chk.undecided('intervals', name, 'times not known')
        return
    chk.ok('intervals', name, got == want, '{} at {} instead of {}'.format('slots' if how == 'aggregate' else 'points', got, want))
    if got != want:
        return
    rs = regions(src.t, v)
    for (lo, hi), it in zip(exp, its):
        where = '{} [{:g},{:g})'.format(name, lo - src.t[0], hi - src.t[0])
        w, alone, gap = interval(src, rs, lo, hi, v)
        covered = sum(alone.values())
        if how == 'aggregate':
            ob = one(b.st, it)
            end = one(b.st, ob.fields.get('end', EMPTY))
            c = end.fields.get('coordinates', EMPTY) if end is not None else EMPTY
            e_ = [a[1][0] for a in c if a[0] == 't']
            chk.ok('intervals', where, e_ == [kv(float(hi))] or e_ == [kv(hi)], 'ends at {}'.format([V.show(x) for x in e_]))
        d = data_of(b.st, it)
        inside = [i for i, t in enumerate(src.t) if lo <= t < hi]
        labels = src.names if how == 'resample' else ['{}_{}'.format(l, o) for l in src.names for o in ops_]
        if d is None or set(d) != set(labels):
            chk.viol('values', where, 'data {}'.format(d and sorted(d)))
            continue
        bad = []
        for l in src.names:
            if how == 'resample':
                specs = [(l, wavg(w, lambda i: src.v(i, l)))]
            else:
                specs = []
                for o in ops_:
                    x = None
                    if fill is not None and not covered:
                        x = E.of(fill)
                    elif o == 'avg':
                        x = wavg(w, lambda i: src.v(i, l))
                    elif not inside:
                        # No point to work on: their weighted average
                        x = wavg(w, lambda i: src.v(i, l))
                    elif o == 'sum':
                        x = sum((src.v(i, l) for i in inside), E.of(0))
                        for i in inside[1:]:
                            # A gap between points is one more point
                            a, c = rs[i - 1][1], rs[i][0]
                            if a < c:
                                f = ((a + c) / 2 - src.t[i - 1]) / (src.t[i] - src.t[i - 1])
                                x = x + src.v(i - 1, l) * (1 - f) + src.v(i, l) * f
                    elif inside and not any(rs[i][0] > rs[i - 1][1] for i in inside[1:]) and src.order and o in ('min', 'max'):
                        j = (min if o == 'min' else max)(inside, key=lambda i: src.order[l][i])
                        x = src.v(j, l)
                    if x is not None:
                        specs.append(('{}_{}'.format(l, o), x))
            for out, e in specs:
                m = match(d[out], e)
                if m is None:
                    chk.undecided('values', where, '"{}": {}'.format(out, V.show(d[out], b.st)))
                elif not m:
                    bad.append('"{}" is {} instead of {}'.format(out, shown(d[out]), X.show(e.i)))
        chk.ok('values', where, not bad, '; '.join(bad[:2]))
        ix = indexes_of(b.st, it)
        if ix is None:
            chk.viol('data loss', where, 'no data indexes')
            continue
        if loss:
            e = E.of(1 - covered / (hi - lo))
            if force_loss is not None:
                e = E.of(force_loss)
            elif not src.loss0 and 'data_loss' in src.indexes:
                for i, x in alone.items():
                    if x:
                        e = e + src.ix(i, 'data_loss') * (x / (hi - lo))
            v_ = ix.get('data_loss', EMPTY)
            m = match(v_, e)
            if m is None:
                chk.undecided('data loss', where, V.show(v_, b.st))
            else:
                chk.ok('data loss', where, m, '{} instead of {}'.format(shown(v_), X.show(e.i)))
        for x in src.indexes:
            if x == 'data_loss':
                continue
            v_ = ix.get(x, EMPTY)
            having = {i: y for i, y in alone.items() if y and i not in src.absent}
            if not having:
                chk.ok('indexes', where, v_ == VNONE, '"{}" is {} with no data'.format(x, shown(v_)))
            else:
                e = wavg(having, lambda i: src.ix(i, x))
                m = match(v_, e)
                if m is None:
                    chk.undecided('indexes', where, V.show(v_, b.st))
                else:
                    chk.ok('indexes', where, m, '"{}" is {} instead of {}'.format(x, shown(v_), X.show(e.i)))


def failures(chk, rule, name, I, base, raised, bs):
    for r in raised:
        if not guessed(r.st) - base:
            chk.viol(rule, name, 'fails: {}'.format(describe(I, [], [r])))
    if not bs and not raised:
        chk.viol(rule, name, 'no outcome')


def run(chk):
    chk.rule('intervals', 'the result has an item for each interval, aligned to the unit in the time zone of the series, which is inside of the series', 20)
    chk.rule('values', 'averages are weighed by the part of the interval the validity of each point covers, with gaps interpolated; min, max and sum are those of the points in the slot', 60)
    chk.rule('data loss', 'the data loss is the part of the interval no point covers, plus the losses of the points by the part they cover', 60)
    chk.rule('indexes', 'the other data indexes are averaged by the part of the interval each point covers', 40)
    I = chk.interp()
    deep = chk.tier != 'quick'
    for labels in (('a', 'b'), ('a',)):
        for src, how, unit, kw in transformations(chk, I, labels=labels, deep=deep):
            src.order = {l: [(3 * i + 2 * j) % len(src.t) for i in range(len(src.t))] for j, l in enumerate(src.names)}
            if labels == ('a',) and src.when not in ('every minute', 'with a gap'):
                continue
            v = most_common(src.t)
            name = '{}({}) of {} at {}'.format(how, unit, src.name, src.when)
            with chk.guard('values', name):
                base = guessed(src.s.st)
                bs, raised = transform(src, how, unit)
                failures(chk, 'values', name, I, base, raised, bs)
                for b in bs:
                    check(chk, name, src, how, unit, b, v)
    # Data losses of the source
    for when, n_, unit, how in (('every minute', 6, '2m', 'aggregate'), ('every minute', 6, '2m', 'resample'), ('every minute, from :30', 7, '2m', 'aggregate'),
                                ('every 90 seconds', 5, '3m', 'resample'), ('every 90 seconds', 5, '2m', 'aggregate'), ('every minute', 5, '1m', 'resample')) + (
                                   (('every minute', 4, '20s', 'resample'), ('every minute', 4, '20s', 'aggregate'), ('with a gap', 9, '2m', 'aggregate'), ('with a hole', 7, '2m', 'resample'), ('with a hole', 7, '1m', 'aggregate'))):
        src = Src(chk, I, 'points', times=WHEN[when](n_), labels=('a',))
        v = most_common(src.t)
        name = '{}({}) of {} at {} with data losses'.format(how, unit, src.name, when)
        with chk.guard('data loss', name):
            base = guessed(src.s.st)
            bs, raised = transform(src, how, unit)
            failures(chk, 'data loss', name, I, base, raised, bs)
            for b in bs:
                check(chk, name, src, how, unit, b, v)
    # Starting inside of an interval; points without the index
    for when, n_, unit, how, kw in (('every minute, from :27', 7, '2m', 'aggregate', {}), ('every minute, from :27', 7, '2m', 'resample', {}), ('every minute, from :50', 6, '2m', 'aggregate', {}), ('every minute, from :50', 6, '2m', 'resample', {}),
                                    ('every minute', 6, '2m', 'aggregate', dict(none=(1,))), ('every minute', 7, '2m', 'resample', dict(none=(2, 3, 4))),
                                    ('every minute', 6, '2m', 'aggregate', dict(zero=(1, 2))), ('every minute', 6, '2m', 'resample', dict(zero=(0, 3), none=(2,))), ('every minute', 5, '1m', 'resample', dict(zero=(0, 1, 2, 3, 4))),
                                    ('every minute', 6, '2m', 'resample', dict(missing=(1,))), ('every minute', 6, '1m', 'aggregate', dict(missing=(1, 2)))):
        src = Src(chk, I, 'points', times=WHEN[when](n_), labels=('a',), loss0=True, **kw)
        name = '{}({}) of {} at {}{}'.format(how, unit, src.name, when, ''.join(', index {} at {}'.format(*x) for x in kw.items()))
        with chk.guard('indexes', name):
            base = guessed(src.s.st)
            bs, raised = transform(src, how, unit)
            failures(chk, 'indexes', name, I, base, raised, bs)
            for b in bs:
                check(chk, name, src, how, unit, b, most_common(src.t))
    # Operations
    for when, n_, unit, ops_ in (('every minute', 7, '2m', ('min', 'max', 'sum', 'avg')), ('every minute', 8, '3m', ('max', 'avg', 'min')),
                                 ('with a gap', 10, '2m', ('sum', 'min')), ('with a gap', 10, '1m', ('sum', 'max', 'avg')), ('with a gap', 14, '10m', ('sum', 'min')), ('every minute', 4, '20s', ('min', 'max', 'sum', 'avg')), ('variable', 8, '3m', ('sum', 'max', 'min'))):
        n2 = len(WHEN[when](n_))
        for flip in (False, True):
            order = {l: [((3 * i + 2 * j) % n2 if not flip else n2 - 1 - i) for i in range(n2)] for j, l in enumerate('ab')}
            src = Src(chk, I, 'points', times=WHEN[when](n_), labels=('a', 'b'), order=order, loss0=True)
            src.order = order
            name = 'aggregate({}, {}) of {} at {}{}'.format(unit, '+'.join(ops_), src.name, when, ', falling' if flip else '')
            with chk.guard('values', name):
                base = guessed(src.s.st)
                bs, raised = transform(src, 'aggregate', unit, operations=src.s.list(*[kv(x) for x in ops_]))
                failures(chk, 'values', name, I, base, raised, bs)
                for b in bs:
                    check(chk, name, src, 'aggregate', unit, b, most_common(src.t), ops_)
    # Arguments of the transformations
    for cls, how in (('Resampler', 'resample'), ('Aggregator', 'aggregate')):
        for when, n_, unit, kw, k2, *kind_ in (('every minute', 7, '2m', dict(validity=30), dict(v=30)), ('every minute', 7, '2m', dict(validity=120), dict(v=120)),
                                       ('with a gap', 11, '1m', dict(force_data_loss=0), dict(force_loss=0)), ('with a gap', 11, '1m', dict(force_data_loss=0.5), dict(force_loss=0.5)),
                                       ('with a gap', 11, '1m', dict(fill_with=0), dict(fill=0)), ('with a gap', 11, '1m', dict(fill_with=7), dict(fill=7)),
                                       ('every minute', 9, '2m', dict(start=T0 + 120, end=T0 + 360), dict(ivs=[(T0 + 120, T0 + 240), (T0 + 240, T0 + 360)])),
                                       ('every minute', 9, '2m', dict(start=T0 + 120), dict(ivs=[(T0 + 120, T0 + 240), (T0 + 240, T0 + 360), (T0 + 360, T0 + 480)]), 'dt')):
            if how == 'resample' and 'fill_with' in kw:
                continue
            src = Src(chk, I, 'points', times=WHEN[when](n_), labels=('a', 'b'), loss0=True)
            name = '{}({}).process({}) of {} at {}'.format(cls, unit, ', '.join('{}={}'.format(*x) for x in kw.items()), src.name, when) + ' as dates' * len(kind_)
            kw = {x: kv(y) for x, y in kw.items()}
            if kind_:
                kw = {x: av(('o', '=@', next(iter(y))[1], 'dt', frozenset(['tz=UTC']))) for x, y in kw.items()}
            with chk.guard('values', name):
                s = src.s
                m = s.method(s.new(TR + cls, kv(unit)), 'process')
                base = guessed(s.st)
                bs, raised = branches(s, m, src.ser, **kw)
                failures(chk, 'values', name, I, base, raised, bs)
                for b in bs:
                    check(chk, name, src, how, unit, b, **dict(dict(v=most_common(src.t)), **k2))
    # Calendar units, across daylight saving changes
    day = lambda *a: datetime.datetime(*a, tzinfo=zoneinfo.ZoneInfo(ROME)).timestamp()
    for tz, t0, hours, n_, unit in ((ROME, day(2019, 3, 30), 6, 14, '1D'), (ROME, day(2019, 10, 26), 6, 14, '1D'), (None, day(2019, 3, 30) + 3600, 6, 14, '1D'),
                                    (ROME, day(2019, 3, 29, 23), 1, 6, '1h'), (ROME, day(2019, 2, 27), 240, 9, '1M')):
        src = Src(chk, I, 'points', times=[t0 + 3600 * hours * i for i in range(n_)], labels=('a',), loss0=True, tz=tz)
        name = 'aggregate({}) of {} every {} hours from {}'.format(unit, src.name, hours, datetime.datetime.fromtimestamp(t0, datetime.timezone.utc).isoformat())
        with chk.guard('values', name):
            base = guessed(src.s.st)
            bs, raised = transform(src, 'aggregate', unit)
            failures(chk, 'values', name, I, base, raised, bs)
            for b in bs:
                check(chk, name, src, 'aggregate', unit, b, most_common(src.t), tz=tz)
