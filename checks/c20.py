"""C20: an explicit zero is never treated as a missing argument."""
from checks.detect import *
from checks.c24 import storage, text, tok
from checks import fs
from checks.ops import *

TRN = 'timeseria.transformations.'
SHIFT = T0


def end_of(st, item):
    ob = one(st, item)
    if ob is None or 'end' not in ob.fields:
        return None
    c = one(st, ob.fields['end'])
    for a in (c.fields.get('coordinates', EMPTY) if c is not None else ()):
        if a[0] == 't':
            ok, t = V.one_const(a[1][0])
            return t if ok else None
    return None


def seen(b, val, shift=0):
    """What a result is, with the times moved by an amount."""
    if val is not None:
        for a in val:
            if a[0] == 'k':
                return ('value', a[1])
    its = items_of(b.st, val)
    if its is None:
        ob = one(b.st, val)
        if ob is None or '_data' not in ob.fields and 'coordinates' not in ob.fields and 'start' not in ob.fields:
            return None
        its = [val]
    out = []
    for it in its:
        d, ix, t, e = data_of(b.st, it), indexes_of(b.st, it), time_of(b.st, it), end_of(b.st, it)
        if t is None:
            return None
        out.append((t - shift, None if e is None else e - shift, d or {}, ix or {}))
    return out


def differ(a, c):
    """What differs among two results: None if nothing, '?' if it cannot be told."""
    if a is None or c is None:
        return '?'
    if isinstance(a, tuple) or isinstance(c, tuple):
        return None if a == c else '{} and {}'.format(a, c)
    if [x[:2] for x in a] != [x[:2] for x in c]:
        return 'items at {} and at {}'.format([x[:2] for x in a], [x[:2] for x in c])
    unknown = None
    for x, y in zip(a, c):
        for p, q in ((x[2], y[2]), (x[3], y[3])):
            if set(p) != set(q):
                return 'at {}: {} and {}'.format(x[0], sorted(p), sorted(q))
            for l in p:
                if p[l] == q[l]:
                    continue
                e = [X.of(z) for z in q[l]]
                if len(e) != 1 or e[0] is None:
                    unknown = '?' if any(z[0] in ('n', 'top', 'o') for z in p[l] | q[l]) else 'at {}, "{}": {} and {}'.format(x[0], l, shown(p[l]), shown(q[l]))
                    continue
                m = match(p[l], E(e[0]) if not isinstance(e[0], E) else e[0])
                if m is False:
                    return 'at {}, "{}": {} and {}'.format(x[0], l, shown(p[l]), shown(q[l]))
                if m is None:
                    unknown = '?'
    return unknown


def pair(chk, I, rule, name, f, origin, base=SHIFT):
    """The same around the epoch and elsewhere: f(s, t) gives the outcomes with the times moved by t."""
    with chk.guard(rule, name):
        rs = []
        for t in (origin, origin + base):
            s = Scn(I)
            bs, raised = f(s, t)
            rs.append([seen(b, b.val, t) for b in bs] if bs else [('raises', sorted({I.exc_name(e, r.st) for r in raised for e in r.val}))])
        if len(rs[0]) != 1 or len(rs[1]) != 1:
            chk.undecided(rule, name, '{} and {} outcomes'.format(len(rs[0]), len(rs[1])))
            return
        d = differ(rs[0][0], rs[1][0])
        if d == '?':
            chk.undecided(rule, name, 'not comparable')
        else:
            chk.ok(rule, name, d is None, 'around the epoch, and elsewhere: {}'.format(d))


def whens(n_):
    return {k_: [x - T0 for x in f(n_)] for k_, f in WHEN.items()}


def epoch(chk, I, deep):
    """Nothing is special in an item, a slot or a bound at the epoch."""
    for how, cls in (('aggregate', 'Aggregator'), ('resample', 'Resampler')):
        for when, n_, unit, u in (('every minute', 6, '2m', 120), ('every minute, from :30', 7, '2m', 120), ('with a gap', 10, '2m', 120), ('variable', 8, '2m', 120),
                                  ('with a hole', 8, '2m', 120)) + ((('every 90 seconds', 7, '2m', 120), ('every minute', 9, '3m', 180)) if deep else ()):
            ts = whens(n_)[when]
            # The first, one in the middle and the last item, and the boundaries, at the epoch
            for at in sorted({ts[0], ts[n_ // 2], ts[-1], u, u * 2, (ts[-1] // u) * u}):
                if at % 30:
                    continue
                for tz in (None,) + ((ROME,) if when == 'every minute' else ()):
                    def f(s, t):
                        src = Src(chk, I, 'points', times=[x - at + t for x in ts], s=s, loss0=True, tz=tz)
                        return transform(src, how, unit)
                    pair(chk, I, 'epoch', '{}({}) of points {}{}, with the epoch at {} s'.format(how, unit, when, ' (%s)' % tz if tz else '', at), f, 0, 3600 * 24 * 7)
            # Explicit bounds
            if when in ('every minute', 'with a gap'):
                for lo, hi in ((0, u * 3), (-u, u * 2), (-2 * u, 0), (0, 0), (None, 0), (0, None)):
                    def f(s, t):
                        src = Src(chk, I, 'points', times=[x - 3 * u + t for x in ts + [ts[-1] + 60 * (i + 1) for i in range(9)]], s=s, loss0=True)
                        kw = {a: kv(float(x + t) if a == 'start' else x + t) for a, x in (('start', lo), ('end', hi)) if x is not None}
                        return branches(s, s.method(s.new(TRN + cls, kv(unit)), 'process'), src.ser, **kw)
                    pair(chk, I, 'epoch', '{}({}).process of points {}, start={}, end={}'.format(cls, unit, when, lo, hi), f, 0, 3600 * 24 * 7)
    for form in ('points', 'slots', 'variable'):
        step = STEP.get(form, 60)
        ts = [x - T0 for x in TIMES[form](4)]
        for at in ts[:1] + ts[2:]:
            for op in OPS:
                if form not in op.forms or op.method in ('filter', 'duplicate') or op.order:
                    continue
                def f(s, t):
                    src = Src(chk, I, form, times=[x - at + t for x in ts], s=s)
                    return call(src, op)
                pair(chk, I, 'epoch', '{} of {}, with the epoch at {} s'.format(op.name, form, at), f, 0)
            for lo, hi in ((0, None), (None, 0), (0, step * 2), (-step, 0), (0, 0), (-step, step)):
                for typ in (int, float):
                    def f(s, t):
                        src = Src(chk, I, form, times=[x - at + t for x in ts], s=s)
                        return branches(s, s.method(src.ser, 'slice'), **{a: kv(typ(x + t)) for a, x in (('from_t', lo), ('to_t', hi)) if x is not None})
                    pair(chk, I, 'epoch', 'slice(from_t={}, to_t={}) as {} of {}, with the epoch at {} s'.format(lo, hi, typ.__name__, form, at), f, 0)
            for typ in (int, float):
                def f(s, t):
                    src = Src(chk, I, form, times=[x - at + t for x in ts], s=s)
                    return branches(s, s.method(src.ser, 'get'), at_t=kv(typ(t)))
                pair(chk, I, 'epoch', 'get(at_t={}) of {}, with the epoch at {} s'.format(typ(0), form, at), f, 0)


def created(chk, I):
    """Items at the epoch, with values, losses and indexes set to zero."""
    for cls, data_ in (('TimePoint', False), ('DataTimePoint', True)):
        for how in ('t', 'positional'):
            for t in (0, 0.0):
                name = '{}({}{})'.format(cls, 't=' if how == 't' else '', t)
                with chk.guard('item', name):
                    s = Scn(I)
                    kw = dict(data=s.dict({"a": kv(0)})) if data_ else {}
                    for b in accepted(chk, 'item', name, s, s.cls(DS + cls), *([kv(t)] if how == 'positional' else []), **dict(kw, **({'t': kv(t)} if how == 't' else {})))[0]:
                        chk.ok('item', name, time_of(b.st, b.val) == 0, 'the time is {}'.format(time_of(b.st, b.val)))
    for cls in ('DataPoint', 'DataTimePoint', 'DataTimeSlot'):
        for zero in (0, 0.0):
            for what in ('data_loss', 'indexes', 'value', 'list value'):
                name = '{} with {} {}'.format(cls, what, zero)
                with chk.guard('item', name):
                    s = Scn(I)
                    kw = {}
                    if cls == 'DataTimeSlot':
                        kw = dict(start=s.new(DS + 'TimePoint', kv(0)), end=s.new(DS + 'TimePoint', kv(3600)))
                    elif cls == 'DataTimePoint':
                        kw = dict(t=kv(0))
                    args = [kv(0)] if cls == 'DataPoint' else []
                    z = kv(zero)
                    kw['data'] = s.list(z) if what == 'list value' else z if what == 'value' and cls == 'x' else s.dict({"a": z})
                    if what == 'data_loss':
                        kw['data_loss'] = z
                    elif what == 'indexes':
                        kw['data_indexes'] = s.dict({"data_loss": z, "anomaly": z})
                    for b in accepted(chk, 'item', name, s, s.cls(DS + cls), *args, **kw)[0]:
                        ix, d = indexes_of(b.st, b.val), data_of(b.st, b.val)
                        want = {'data_loss': z} if what == 'data_loss' else {'data_loss': z, 'anomaly': z} if what == 'indexes' else {}
                        chk.ok('item', name, ix is not None and all(ix.get(a) == x for a, x in want.items()), 'indexes are {}'.format(ix))
                        chk.ok('item', name, d is not None and list(d.values()) == [z], 'data are {}'.format(d))
                        if what in ('data_loss', 'indexes'):
                            s.st = b.st
                            chk.ok('item', name, s.attr(b.val, 'data_loss') == z, 'data_loss is {}'.format(V.show(s.attr(b.val, 'data_loss'))))


def interpolators(chk, I):
    """The first position is as any other, and so is the epoch."""
    for cls in ('LinearInterpolator', 'UniformInterpolator'):
        for form in ('points', 'variable'):
            for at in (30, 59.0, 1):
                def values(t0, first, pos, search=False):
                    s = Scn(I)
                    ts = [x - T0 + t0 for x in TIMES[form](3)]
                    src = Src(chk, I, form, times=[ts[0] - 60 * (first - i) for i in range(first)] + ts, s=s)
                    kw = {} if search else dict(prev_i=kv(pos), next_i=kv(pos + 1))
                    bs, raised = branches(s, s.method(s.new('timeseria.interpolators.' + cls, src.ser), 'evaluate'), kv(t0 + (pos - first) * 60 + at if not search else t0 + at), **kw)
                    out = []
                    for b in bs:
                        d = one(b.st, b.val)
                        out.append(None if d is None or d.kind != 'dict' else {k_[1]: v for k_, v in d.kv.items()})
                    return src, out, raised
                for t0 in (T0, 0, -60, -at):
                    con = '{}.evaluate(prev_i=0, next_i=1) of {} from {}, {} s after the first'.format(cls, form, t0, at)
                    with chk.guard('position', con):
                        src, got, raised = values(t0, 0, 0)
                        _, ref, _ = values(T0, 0, 0, search=True)
                        ref1 = values(T0, 2, 2)[1]
                        if len(got) != 1 or len(ref) != 1 or len(ref1) != 1 or got[0] is None:
                            chk.viol('position', con, 'fails: {}'.format(describe(I, [], raised))) if not got and ref1 else chk.undecided('position', con, 'not known')
                            continue
                        d = differ([(0, 0, got[0], {})], [(0, 0, ref[0], {})])
                        chk.ok('position', con, d is None, 'with positions, and searching for them: {}'.format(d))
                        moved = {l: E(X.of(next(iter(v)))) for l, v in ref1[0].items() if len(v) == 1 and X.of(next(iter(v))) is not None}
                        chk.ok('position', con, len(moved) == len(got[0]) and all(X.symbols(moved[l].i) == {x.replace('v0', 'v2').replace('v1', 'v3') for x in X.symbols(X.of(next(iter(got[0][l]))))} for l in moved),
                               'as the first, and as the third: {} and {}'.format({l: shown(v) for l, v in got[0].items()}, {l: str(v) for l, v in moved.items()}))
                    con = '{}.evaluate() of {} from {}, {} s after the first'.format(cls, form, t0, at)
                    with chk.guard('epoch', con):
                        got, ref = values(t0, 0, 0, search=True)[1], values(T0, 0, 0, search=True)[1]
                        if len(got) != 1 or len(ref) != 1:
                            chk.undecided('epoch', con, 'not known')
                            continue
                        d = differ([(0, 0, got[0], {})], [(0, 0, ref[0], {})])
                        chk.ok('epoch', con, d is None, 'around the epoch, and elsewhere: {}'.format(d))


def expect(chk, I, rule, name, f, spec):
    with chk.guard(rule, name):
        s = Scn(I)
        (bs, raised), src = f(s)
        if raised or not bs:
            chk.viol(rule, name, 'fails: {}'.format(describe(I, [], raised)))
            return
        want = spec(src)
        for b in bs:
            its = items_of(b.st, b.val if b.val != VNONE else src.ser)
            if its is None:
                chk.undecided(rule, name, 'items not known')
                continue
            if len(its) != len(want):
                chk.viol(rule, name, '{} items, {} expected'.format(len(its), len(want)))
                continue
            bad = []
            for (i, exp), it in zip(want, its):
                d = data_of(b.st, it) or {}
                bad += ['item {}: "{}" is {}, {} expected'.format(i, l, shown(d.get(l, EMPTY)), exp[l]) for l in exp if match(d.get(l, EMPTY), exp[l]) is not True]
            chk.ok(rule, name, not bad, '; '.join(bad[:3]))


def operations(chk, I):
    Z = lambda l: E.of(0)
    for form in ('points', 'slots'):
        for kind in ('dict', 'list'):
            for zero in (0, 0.0):
                def run_(method, args, order=None):
                    def f(s):
                        src = Src(chk, I, form, 4, kind, ('a', 'b'), s=s, order=order and {l: order for l in (('a', 'b') if kind == 'dict' else ('0', '1'))})
                        return branches(s, s.method(src.ser, method), **args(s, src)), src
                    return f
                zeros = lambda s, src: s.dict({l: kv(zero) for l in src.names})
                first = lambda s, src: s.dict({src.names[0]: kv(zero), src.names[1]: kv(2.0)})
                base = '{} {}'.format(form, kind)
                expect(chk, I, 'operation', 'offset({}) of {}'.format(zero, base), run_('offset', lambda s, src: dict(value=kv(zero))), sp_map(lambda src, i, l: src.v(i, l)))
                expect(chk, I, 'operation', 'offset(dict of {}) of {}'.format(zero, base), run_('offset', lambda s, src: dict(value=zeros(s, src))), sp_map(lambda src, i, l: src.v(i, l)))
                expect(chk, I, 'operation', 'rescale({}) of {}'.format(zero, base), run_('rescale', lambda s, src: dict(value=kv(zero))), sp_map(lambda src, i, l: E.of(0)))
                expect(chk, I, 'operation', 'rescale(dict of {}) of {}'.format(zero, base), run_('rescale', lambda s, src: dict(value=zeros(s, src))), sp_map(lambda src, i, l: E.of(0)))
                expect(chk, I, 'operation', 'rescale({} and 2) of {}'.format(zero, base), run_('rescale', lambda s, src: dict(value=first(s, src))),
                       sp_map(lambda src, i, l: E.of(0) if l == src.names[0] else src.v(i, l) * 2))
                expect(chk, I, 'operation', 'offset({} and 2) of {}'.format(zero, base), run_('offset', lambda s, src: dict(value=first(s, src))),
                       sp_map(lambda src, i, l: src.v(i, l) if l == src.names[0] else src.v(i, l) + 2))
                expect(chk, I, 'operation', 'integral(c={}) of {}'.format(zero, base), run_('integral', lambda s, src: dict(c=kv(zero))), lambda src: sp_integral(src, c=Z))
                expect(chk, I, 'operation', 'integral(c=dict of {}) of {}'.format(zero, base), run_('integral', lambda s, src: dict(c=zeros(s, src))), lambda src: sp_integral(src, c=Z))
                expect(chk, I, 'operation', 'integral(c={} and 2) of {}'.format(zero, base), run_('integral', lambda s, src: dict(c=first(s, src))),
                       lambda src: sp_integral(src, c=lambda l: E.of(0 if l == src.names[0] else 2)))
                for m, normalize, suffix in (('integral', True, '_integral'), ('csum', False, '_csum')):
                    expect(chk, I, 'operation', '{}(offset=dict of {}) of {}'.format(m, zero, base), run_(m, lambda s, src: dict(offset=zeros(s, src))),
                           lambda src: sp_integral(src, normalize, offset=Z, suffix=suffix))
                    expect(chk, I, 'operation', '{}(offset={} and 2) of {}'.format(m, zero, base), run_(m, lambda s, src: dict(offset=first(s, src))),
                           lambda src: sp_integral(src, normalize, offset=lambda l: E.of(0 if l == src.names[0] else 2), suffix=suffix))
                for lo, hi in ((zero, 3), (-2, zero), (zero, 1)):
                    expect(chk, I, 'operation', 'normalize([{}, {}]) of {}'.format(lo, hi, base), run_('normalize', lambda s, src: dict(range=s.list(kv(lo), kv(hi))), [1, 3, 0, 2]),
                           lambda src: sp_normalize(src, lo, hi))
                for lo, hi in ((zero, 3), (-2, zero)):
                    expect(chk, I, 'operation', 'normalize(source_range=[{}, {}]) of {}'.format(lo, hi, base),
                           run_('normalize', lambda s, src: dict(source_range=s.dict({l: s.list(kv(lo), kv(hi)) for l in src.names}))),
                           lambda src: sp_normalize(src, source=lambda l: (E.of(lo), E.of(hi))))


def filled(chk, I):
    """Filling and forcing with zero are the same as with any other number, but for the number."""
    for unit, ts in (('2m', [0, 60, 120, 180, 240, 300, 780, 840, 900, 960, 1020, 1080]), ('1m', [0, 30, 60, 90, 120, 150, 390, 420, 450, 480, 510])):
        for ops_ in (None, ('avg',), ('min', 'max'), ('sum', 'avg')):
            for zero, other in ((0, 7), (0.0, 7.0)):
                name = 'aggregate({}) with {} and fill_with={}'.format(unit, ops_ or 'the default operation', zero)
                with chk.guard('transformation', name):
                    rs = []
                    for x in (zero, other, None):
                        s = Scn(I)
                        src = Src(chk, I, 'points', times=[T0 + t for t in ts], s=s, loss0=True, order={l: list(range(len(ts))) for l in ('a', 'b')})
                        kw = dict(operations=s.list(*[kv(o_) for o_ in ops_])) if ops_ else {}
                        bs, raised = branches(s, s.method(s.new(TRN + 'Aggregator', kv(unit), **kw), 'process'), src.ser, **({} if x is None else dict(fill_with=kv(x))))
                        rs.append([seen(b, b.val) for b in bs])
                    if any(len(r) != 1 or r[0] is None for r in rs):
                        chk.undecided('transformation', name, 'not known')
                        continue
                    z, o_, n_ = [r[0] for r in rs]
                    some = 0
                    for x, y, w in zip(z, o_, n_):
                        for l in w[2]:
                            if y[2].get(l) == kv(other) and w[2].get(l) != kv(other):
                                some += 1
                                chk.ok('transformation', name, x[2].get(l) == kv(zero), 'the slot at {} has "{}" set to {}'.format(x[0], l, shown(x[2].get(l, EMPTY))))
                            else:
                                chk.ok('transformation', name, x[2].get(l) == y[2].get(l) or differ([(0, 0, {l: x[2].get(l, EMPTY)}, {})], [(0, 0, {l: y[2].get(l, EMPTY)}, {})]) is None,
                                       'the slot at {} has "{}" set to {}'.format(x[0], l, shown(x[2].get(l, EMPTY))))
                    if not some:
                        chk.undecided('transformation', name, 'nothing filled')
    for how, cls in (('aggregate', 'Aggregator'), ('resample', 'Resampler')):
        for zero in (0, 0.0):
            for when, n_ in (('every minute', 8), ('with a gap', 10), ('with a hole', 8)):
                name = '{} of points {} with force_data_loss={}'.format(how, when, zero)
                with chk.guard('transformation', name):
                    s = Scn(I)
                    src = Src(chk, I, 'points', times=WHEN[when](n_), s=s, loss0=True)
                    for b in accepted(chk, 'transformation', name, s, s.method(s.new(TRN + cls, kv('2m')), 'process'), src.ser, force_data_loss=kv(zero))[0]:
                        its = seen(b, b.val)
                        if its is None:
                            chk.undecided('transformation', name, 'not known')
                            continue
                        bad = [x[0] for x in its if x[3].get('data_loss') != kv(zero)]
                        chk.ok('transformation', name, its and not bad, 'the data losses at {} are not {}'.format(bad[:3], zero))


def positions_(chk, I):
    """Positions."""
    for form in ('points', 'slots'):
        def at(name, f, want):
            con = '{} of {}'.format(name, form)
            with chk.guard('position', con):
                s = Scn(I)
                src = Src(chk, I, form, 4, s=s)
                bs, raised = f(s, src)
                if raised or not bs:
                    chk.viol('position', con, 'fails: {}'.format(describe(I, [], raised)))
                    return
                for b in bs:
                    got = seen(b, b.val)
                    if got is None:
                        chk.undecided('position', con, 'not known')
                    elif isinstance(got, tuple):
                        chk.ok('position', con, got[1] == want, 'gives {}'.format(got[1]))
                    else:
                        chk.ok('position', con, [x[0] for x in got] == [src.t[i] for i in want], 'gives the items at {}'.format([x[0] - src.t[0] for x in got]))
        m = lambda name, *args, **kw: (lambda s, src: branches(s, s.method(src.ser, name), *[kv(a) for a in args], **{a: kv(x) for a, x in kw.items()}))
        at('slice(from_i=0)', m('slice', from_i=0), [0, 1, 2, 3])
        at('slice(to_i=0)', m('slice', to_i=0), [])
        at('slice(from_i=0, to_i=0)', m('slice', from_i=0, to_i=0), [])
        at('slice(from_i=0, to_i=2)', m('slice', from_i=0, to_i=2), [0, 1])
        at('slice(from_i=-2, to_i=0)', m('slice', from_i=-2, to_i=0), [])
        at('get(at_i=0)', m('get', at_i=0), [0])
        at('pop(0)', lambda s, src: branches(s, s.method(src.ser, 'pop'), kv(0)), [0])
        at('view(0, 2), materialised', lambda s, src: branches(s, s.method(src.ser, 'slice'), from_i=kv(0), to_i=kv(2)), [0, 1])
        at('view(from_i=0, to_i=0)', lambda s, src: branches(s, s.probe('length'), s.do(s.method(src.ser, 'view'), from_i=kv(0), to_i=kv(0))), 0)
        at('view(to_i=0)', lambda s, src: branches(s, s.probe('length'), s.do(s.method(src.ser, 'view'), to_i=kv(0))), 0)
        at('view(from_i=0)', lambda s, src: branches(s, s.probe('length'), s.do(s.method(src.ser, 'view'), from_i=kv(0))), 4)
        at('index(item 0, 0)', lambda s, src: branches(s, s.method(src.ser, 'index'), src.items[0], kv(0)), 0)
        at('index(item 0, 0, 1)', lambda s, src: branches(s, s.method(src.ser, 'index'), src.items[0], kv(0), kv(1)), 0)
        con = 'index(item 1, 0, 0) of {}'.format(form)
        with chk.guard('position', con):
            s = Scn(I)
            src = Src(chk, I, form, 4, s=s)
            refused(chk, 'position', con, s, s.method(src.ser, 'index'), src.items[1], kv(0), kv(0))


class Under(object):
    """A check whose rules are all one."""

    def __init__(self, chk, rule):
        self.chk, self.as_ = chk, rule

    def __getattr__(self, name):
        return getattr(self.chk, name)

    def rule(self, *args):
        pass

    def ok(self, rule, *args, **kw):
        return self.chk.ok(self.as_, *args, **kw)

    def viol(self, rule, *args, **kw):
        return self.chk.viol(self.as_, *args, **kw)

    def undecided(self, rule, *args, **kw):
        return self.chk.undecided(self.as_, *args, **kw)

    def guard(self, rule, *args, **kw):
        return self.chk.guard(self.as_, *args, **kw)


def storages(chk):
    I = chk.interp(probe=fs.PROBE)
    fs.install(I)
    I.exact_loop = I.exact_while = 40
    names = 'abc'

    def get(con, lines, n_, want, init=(), times=None, labels='ab', kind='storage', **kw):
        """want: the positions of the lines which are expected, or None for a refusal."""
        with chk.guard('storage', con):
            s = Scn(I)
            st = storage(s, lines(I), **{a: (s.list(*[kv(y) for y in x]) if isinstance(x, list) else x) for a, x in dict(init).items()})
            if want is None:
                refused(chk, 'storage', con, s, s.method(st, 'get'), **{a: kv(x) for a, x in kw.items()})
                return
            bs, raised = branches(s, s.method(st, 'get'), **{a: kv(x) for a, x in kw.items()})
            if not want and not bs:
                chk.ok('storage', con)
                return
            if not bs:
                chk.viol('storage', con, 'fails: {}'.format(describe(I, [], raised)))
                return
            for b in bs:
                its = items_of(b.st, b.val)
                if its is None:
                    chk.undecided('storage', con, 'items not known')
                    continue
                got = [time_of(b.st, it) for it in its]
                chk.ok('storage', con, got == [times[i] for i in want], 'items at {} instead of {}'.format(got, [times[i] for i in want]))
                for it, i in zip(its, want):
                    d = data_of(b.st, it) or {}
                    vals = list(d.values())
                    chk.ok('storage', con, len(vals) == len(labels) and all(match(x, S('v{}{}'.format(i, l))) for x, l in zip(vals, labels)),
                           'item {} has the values {}'.format(i, [shown(x) for x in vals]))

    for header in (True, False):
        base = 'a file with{} header'.format('' if header else ' no')
        for form, step in (('points', 60), ('slots', 3600)):
            force = dict(force_points=True) if form == 'points' else dict(force_slots=True, force_slot_unit='1h')
            for at in (0, 2, 4):
                ts = [step * (i - at) for i in range(5)]
                get('{}, {} with the epoch at the line {}'.format(base, form, at), lambda I: text(I, ts, 2, header=header), 5, list(range(5)), times=ts, **force)
            ts = [T0 + step * i for i in range(5)]
            ls = lambda I: text(I, ts, 2, header=header)
            get('{}, {}, limit=0'.format(base, form), ls, 5, [], times=ts, limit=0, **force)
            for kw in (dict(start=0), dict(end=0), dict(start=0, end=0), dict(start=0.0)):
                get('{}, {}, get({}), which is not supported'.format(base, form, kw), ls, 5, None, times=ts, **dict(force, **kw))
            get('{}, {}, timestamp_column=0'.format(base, form), ls, 5, list(range(5)), [('timestamp_column', 0)], times=ts, **force)
            rev = lambda I: [','.join([f[1], f[0], f[2]]) + chr(10) for f in (l.strip().split(',') for l in text(I, ts, 2, header=header))]
            get('{}, {}, data_labels=[0] and timestamp_column=1'.format(base, form), rev, 5, list(range(5)), [('timestamp_column', 1), ('data_labels', [0])], times=ts, labels='a', **force)
        for kw in (dict(timestamp_column=0, time_column=0, time_format='%H:%M'), dict(timestamp_column=0, date_column=1, date_format='%Y-%m-%d'), dict(timestamp_column=1, time_column=0, time_format='%H:%M'),
                   dict(timestamp_column=1, date_column=0, date_format='%Y-%m-%d'), dict(time_column=0), dict(date_column=0)):
            con = 'CSVFileStorage({})'.format(kw)
            with chk.guard('storage', con):
                s = Scn(I)
                refused(chk, 'storage', con, s, s.cls('timeseria.storages.CSVFileStorage'), kv('/data/f.csv'), **{a: kv(x) for a, x in kw.items()})
    days = ['1970-02-{:02d}'.format(i + 1) for i in range(4)]
    ts = [86400 * (31 + i) for i in range(4)]
    for header in (True,):
        lines = lambda I: ([','.join(['day', 'a', 'b']) + chr(10)] if header else []) + [','.join([days[i], tok(I, 'v{}a'.format(i)), tok(I, 'v{}b'.format(i))]) + chr(10) for i in range(4)]
        for kw in (dict(date_column=0, date_format='%Y-%m-%d'),):
            get('a file with days, {}, {}'.format('with header' if header else 'no header', kw), lines, 4, list(range(4)), list(kw.items()), times=ts, force_points=True)
        hours = ['{:02d}:00'.format(i) for i in range(4)]
        both = lambda I: ([','.join(['hour', 'day', 'a', 'b']) + chr(10)] if header else []) + [','.join([hours[i], days[0], tok(I, 'v{}a'.format(i)), tok(I, 'v{}b'.format(i))]) + chr(10) for i in range(4)]
        hs = [86400 * 31 + 3600 * i for i in range(4)]
        get('a file with hours and days, {}, time_column=0'.format('with header' if header else 'no header'), both, 4, list(range(4)),
            [('time_column', 0), ('time_format', '%H:%M'), ('date_column', 1), ('date_format', '%Y-%m-%d')], times=hs, force_points=True)


ZEROS = [
    (0, ['absent', None, 0.0, 0.5, None, 'absent', None, 'absent']),
    (0.0, [None, None, 'absent', 'absent', 0.001, 'absent', None, None]),
]


def models(chk):
    from checks import c14, c16, c37
    I = chk.interp(probe=PROBE_DETECT)
    install_detect(I)
    I.exact_loop = I.exact_while = 12
    u = Under(chk, 'model')
    try:
        c14.fits(u, I, False, [x for x in c14.CASES if x[0].endswith('PeriodicAverageReconstructor') or x[0].endswith('AverageForecaster') and not x[1]][:3], ZEROS, c14.HOPELESS[2:])
        c14.evaluations(u, I, False, ZEROS)
        c14.indexes(u, I, False, ZEROS)
        for form in ('points', 'slots'):
            con = 'BackFiller.evaluate(limit=0) of {}'.format(form)
            with chk.guard('model', con):
                s = Scn(I)
                src = Walk(chk, I, form, 6, labels=('a',), s=s)
                refused(chk, 'model', con, s, s.method(s.new(PR + 'BackFiller', window=kv(1)), 'evaluate'), src.ser, limit=kv(0))
        for q, form, labels in (('Echo', 'points', 'a'), ('Echo', 'slots', 'ab')):
            for bounds in [b for b in c16.BOUNDS if 0 in [x for x in b[1] if not isinstance(x, str)]] + [('0, 0', (0, 0), (0, 0))][:0]:
                c16.case(u, I, q, form, labels, bounds=bounds, kind='lin')
                c16.case(u, I, q, form, labels, bounds=bounds, kind='lin', threshold=0)
            for th in (0, 0.0):
                c16.case(u, I, q, form, labels, bounds=c16.BOUNDS[3], threshold=th)
        for vals in ([0.5, 0.6, 0.4, 0.0, 0.4, 0.7], [0, 0.0, 1, 1, 0], ['absent', 0.0, 0, None, 1.0]):
            for th in (0, 0.0):
                c37.case(u, I, vals, threshold=th)
                c37.case(u, I, vals, threshold=th, gap=0, persistence=1)
        for vals in ([1.0, 0.2, 1.0, 1.0, 0.2, 1.0], [1.0, 1.0, 0.2, 0.2, 1.0], [0.2, 1.0, 0.2, 1.0, 0.2]):
            for p in (0, 1, 2):
                c37.case(u, I, vals, gap=0, persistence=p)
            c37.case(u, I, vals, persistence=0)
    finally:
        forget()


PROBE_ZERO = """
def length(x):
    return len(x)
"""


def run(chk):
    chk.rule('epoch', 'the same items, slots and bounds around the epoch and elsewhere give the same result', 200)
    chk.rule('item', 'items at the epoch, and zeros as values, data losses and indexes, are as given', 30)
    chk.rule('operation', 'an argument set to zero counts as such', 80)
    chk.rule('transformation', 'filling and forcing the data loss with zero', 40)
    chk.rule('position', 'position zero', 20)
    chk.rule('storage', 'columns, limits and bounds set to zero', 20)
    chk.rule('model', 'limits, thresholds, bounds and gaps set to zero', 20)
    chk.assumptions.append('The offset of integrals and sums documented as "defaulted to zero": zero is the same as not setting it.')
    I = chk.interp(probe=PROBE_ZERO)
    I.exact_loop = 24
    try:
        created(chk, I)
        positions_(chk, I)
        interpolators(chk, I)
        operations(chk, I)
        filled(chk, I)
        storages(chk)
        models(chk)
        epoch(chk, I, chk.tier != 'quick')
    finally:
        X.RANK.clear()
