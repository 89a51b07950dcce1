"""C07: resolution, time zone and what is detected always describe the current items."""
from tsa.build import *
from tsa.rules import *
from checks.c06 import observe, spec_of, NODE

G = '=t'


def expected(times):
    if len(times) < 2:
        return 'none', None
    d = [b - a for a, b in zip(times, times[1:])]
    if all(x == d[0] for x in d):
        return 'unit', d[0]
    return 'variable', None


def kind_of(I, st, v):
    """The kind of a resolution value, and the tags of the differences it is computed from."""
    kinds, tags = set(), set()
    for a in v:
        if a == NONE:
            kinds.add('none')
        elif a[0] == 'k' and a[1] == 'variable':
            kinds.add('variable')
        elif a[0] == 'r' and st.get(a[1]).label().endswith('Unit'):
            kinds.add('unit')
            for f, x in st.get(a[1]).fields.items():
                tags |= {t for t in V.tagsof(x, st) if t.startswith('Δ:')}
        else:
            kinds.add('?')
    return kinds, tags


def get(I, st, ser, name):
    s = Branch(I, st.copy())
    return I._run(lambda: I.getattr(ser, name, s.st, I._scn_node(NODE)))


def run(chk):
    chk.rule('resolution', 'after an accepted change the resolution is that of the items in the series: undefined, constant (and which one) or variable', 60)
    chk.rule('after', 'and it is so after appending another item to the result', 40)
    chk.rule('detected', 'the detected sampling interval and the guessed resolution are computed on the items in the series', 10)
    chk.rule('labels', 'items are then checked against the data of the items in the series', 4)
    chk.rule('empty', 'an emptied series is as a new one', 6)
    chk.rule('tz', 'the time zone is that of the items in the series', 6)
    I = chk.interp()

    def check_res(rule, name, st, ser, times, where=''):
        want, d = expected(times)
        seen = set()
        alltags = set()
        res, raised = get(I, st, ser, 'resolution')
        for r, e in raised:
            chk.viol(rule, name, 'the resolution cannot be read: {}'.format(I.exc_name(e, r)))
        for r, v in res:
            kk, tags = kind_of(I, r, v)
            seen |= kk
            alltags |= tags
        if '?' in seen or not seen:
            chk.undecided(rule, name, 'resolution not known')
            return
        chk.ok(rule, name, seen == {want}, 'the items are at {}, but the resolution is {} instead of {}'.format(
            ', '.join(map(str, times)) or 'no times', ' or '.join(sorted(seen)), want))
        if want == 'unit' and alltags:
            chk.ok(rule, name, alltags == {'Δ:{:g}'.format(d)}, 'the items are at {}, but the resolution is that of items at a distance of {} instead of {}'.format(
                ', '.join(map(str, times)), ', '.join(t[2:] for t in sorted(alltags)), d))

    def change(name, times, method, args, after):
        """A change of a series of points at the times given, which gives the ones in after."""
        with chk.guard('resolution', name):
            s = Scn(I)
            ser = series(s, [point(s, r, group=G) for r in times])
            # what is computed only once is computed now
            for p in ('resolution', 'tz'):
                s.attr(ser, p)
            bs, raised = branches(s, s.attr(ser, method), *args(s, ser))
            if not bs:
                chk.undecided('resolution', name, 'refused: {}'.format(describe(I, [], raised)))
                return
            for b in bs:
                its = items_of(b.st, ser)
                if its is None or len(its) != len(after):
                    chk.undecided('resolution', name, 'items not known')
                    continue
                check_res('resolution', name, b.st, ser, after)
                # go on
                last = after[-1] if after else 0
                for nxt in (last + 1, last + 3):
                    x = Branch(I, b.st.copy())
                    cs, cr = branches(x, x.attr(ser, 'append'), point(x, nxt, group=G))
                    chk.ok('after', name, bool(cs), 'a valid item is then refused: {}'.format(describe(I, [], cr)))
                    for c in cs:
                        check_res('after', name + ', then append', c.st, ser, after + (nxt,))

    for times in ((), (1,), (1, 2), (1, 2, 3), (1, 2, 4), (1, 3, 4), (1, 2, 3, 4), (1, 2, 4, 5)):
        nm = 'points at {}'.format(', '.join(map(str, times)) or 'no times')
        last = times[-1] if times else 0
        for nxt in (last + 1, last + 2):
            change('{}: append at {}'.format(nm, nxt), times, 'append', lambda s, ser: [point(s, nxt, group=G)], times + (nxt,))
            change('{}: insert last at {}'.format(nm, nxt), times, 'insert', lambda s, ser: [kv(len(times)), point(s, nxt, group=G)], times + (nxt,))
        if times:
            for prv in (0, -1):
                change('{}: insert first at {}'.format(nm, prv), times, 'insert', lambda s, ser: [kv(0), point(s, prv, group=G)], (prv,) + times)
            change('{}: pop'.format(nm), times, 'pop', lambda s, ser: [], times[:-1])
            for i in range(len(times)):
                change('{}: pop({})'.format(nm, i), times, 'pop', lambda s, ser: [kv(i)], times[:i] + times[i + 1:])
            change('{}: pop(-1)'.format(nm), times, 'pop', lambda s, ser: [kv(-1)], times[:-1])
            change('{}: remove the first'.format(nm), times, 'remove', lambda s, ser: [items_of(s.st, ser)[0]], times[1:])
        for i, a in enumerate(times[:-1]):
            if times[i + 1] - a > 1:
                change('{}: insert at {}'.format(nm, a + 1), times, 'insert', lambda s, ser: [kv(i + 1), point(s, a + 1, group=G)], times[:i + 1] + (a + 1,) + times[i + 1:])
        change('{}: clear'.format(nm), times, 'clear', lambda s, ser: [], ())

    # Slots keep their unit, until there are some
    for n_ in (1, 2, 3):
        for m, args, left in (('pop', [], n_ - 1), ('pop', [kv(0)], n_ - 1), ('clear', [], 0)):
            name = '{} slots: {}({})'.format(n_, m, ', '.join(str(next(iter(a))[1]) for a in args))
            with chk.guard('empty' if left == 0 else 'resolution', name):
                s = Scn(I)
                u = unit(s)
                ser = series(s, [slot(s, i, u=u, group=G, tz=kv('Europe/Rome')) for i in range(n_)])
                bs, raised = branches(s, s.attr(ser, m), *args)
                for b in bs:
                    if left:
                        res, _ = get(I, b.st, ser, 'resolution')
                        kk = set().union(*[kind_of(I, r, v)[0] for r, v in res])
                        chk.ok('resolution', name, kk == {'unit'}, 'the resolution is {} instead of the unit'.format(kk))
                        x = Branch(I, b.st.copy())
                        its = items_of(b.st, ser)
                        pos = n_ if args == [kv(0)] else n_ - 1
                        accepted(chk, 'after', name, x, x.attr(ser, 'append'), slot(x, pos, u=unit(x), group=G, tz=kv('Europe/Rome')))
                        x = Branch(I, b.st.copy())
                        refused(chk, 'after', name + ', another unit', x, x.attr(ser, 'append'), slot(x, pos, u=unit(x, '1D'), group=G, tz=kv('Europe/Rome')))
                    else:
                        fresh = Scn(I)
                        fser = series(fresh, [])
                        want = observe(I, fresh.st, fser)
                        got = observe(I, b.st, ser)
                        for key in want:
                            chk.ok('empty', name, got[key] == want[key], 'the {} of the emptied series is {} instead of {}'.format(key, got[key], want[key]))
                        for what, mk in (('a slot of another unit', lambda x: slot(x, 9, u=unit(x, '1D'), group=G)), ('a slot on another time zone', lambda x: slot(x, 9, u=unit(x), group=G)),
                                         ('a point', lambda x: point(x, 0, group=G)), ('other labels', lambda x: point(x, 0, group=G, labels=('c',)))):
                            x = Branch(I, b.st.copy())
                            it = mk(x)
                            cs, cr = accepted(chk, 'empty', '{}, then {}'.format(name, what), x, x.attr(ser, 'append'), it)
                            for c in cs:
                                if what.startswith('a slot'):
                                    res, _ = get(I, c.st, ser, 'resolution')
                                    for r, v in res:
                                        us = spec_of(r, v)
                                        want_u = spec_of(r, r.get(next(iter(it))[1]).fields['_unit'])
                                        chk.ok('empty', '{}, then {}'.format(name, what), us == want_u, 'the resolution is {} instead of {}'.format(us, want_u))
                                    res, _ = get(I, c.st, ser, 'tz')
                                    for r, v in res:
                                        want_z = spec_of(r, r.get(next(iter(it))[1]).fields['tz'])
                                        chk.ok('tz', '{}, then {}'.format(name, what), spec_of(r, v) == want_z, 'the time zone is {} instead of {}'.format(spec_of(r, v), want_z))

    # Data labels
    for m, args in (('pop', [kv(0)]), ('remove', None), ('clear', [])):
        name = 'the first item is gone with {}'.format(m)
        with chk.guard('labels', name):
            s = Scn(I)
            ser = series(s, [point(s, 1, group=G), point(s, 2, group=G)])
            a = args if args is not None else [items_of(s.st, ser)[0]]
            bs, _ = branches(s, s.attr(ser, m), *a)
            for b in bs:
                x = Branch(I, b.st.copy())
                if m != 'clear':
                    cs, _ = branches(x, x.attr(ser, 'rename_data_label'), kv('a'), kv('z'))
                    for c in cs:
                        y = Branch(I, c.st.copy())
                        accepted(chk, 'labels', name + ', then labels are renamed', y, y.attr(ser, 'append'), point(y, 9, group=G, labels=('z', 'b')))
                        y = Branch(I, c.st.copy())
                        refused(chk, 'labels', name + ', then labels are renamed, old ones', y, y.attr(ser, 'append'), point(y, 9, group=G, labels=('a', 'b')))
                else:
                    accepted(chk, 'labels', name, x, x.attr(ser, 'append'), point(x, 9, group=G, labels=('x',)))
    name = 'an item inserted as first'
    with chk.guard('labels', name):
        s = Scn(I)
        ser = series(s, [point(s, 1, group=G), point(s, 2, group=G)])
        bs, _ = branches(s, s.attr(ser, 'insert'), kv(0), point(s, 0, group=G))
        for b in bs:
            for c in branches(b, b.attr(ser, 'pop'), )[0]:
                for d in branches(c, c.attr(ser, 'pop'), )[0]:
                    accepted(chk, 'labels', name, d, d.attr(ser, 'append'), point(d, 5, group=G))

    # Time zone of the series and of its items
    for what in ('points', 'slots', 'nothing'):
        name = 'change_tz of {}'.format(what)
        with chk.guard('tz', name):
            s = Scn(I)
            u = unit(s)
            ser = series(s, [point(s, r, group=G) if what == 'points' else slot(s, r, u=u, group=G) for r in (1, 2) if what != 'nothing'])
            s.attr(ser, 'tz')
            bs, raised = branches(s, s.attr(ser, 'change_tz'), kv('Europe/Rome'))
            chk.ok('tz', name, bool(bs) and not raised, 'refused: ' + describe(I, [], raised))
            for b in bs:
                for st, v in get(I, b.st, ser, 'tz')[0]:
                    sp = spec_of(st, v)
                    for i, it in enumerate(items_of(st, ser)):
                        got = set().union(*[spec_of(r, w) for r, w in get(I, st, it, 'tz')[0]])
                        chk.ok('tz', name, got == sp, 'the time zone of the series is {} but the one of an item is {}'.format(sp, got))
                    chk.ok('tz', name, any('Europe/Rome' in str(x) for x in sp), 'the time zone is {}'.format(sp))
    name = 'points of one time zone, then of another'
    with chk.guard('tz', name):
        s = Scn(I)
        ser = series(s, [point(s, 1, group=G, tz=kv('Europe/Rome'))])
        for st, v in get(I, s.st, ser, 'tz')[0]:
            chk.ok('tz', name, any('Europe/Rome' in str(x) for x in spec_of(st, v)), 'the time zone of the only item is not given: {}'.format(spec_of(st, v)))
            x = Branch(I, st)
            for b in branches(x, x.attr(ser, 'append'), point(x, 2, group=G, tz=kv('America/New_York')))[0]:
                for st2, v2 in get(I, b.st, ser, 'tz')[0]:
                    chk.ok('tz', name, not any('Rome' in str(x) or 'New_York' in str(x) for x in spec_of(st2, v2)), 'the time zone is {}, which is not the one of all the items'.format(spec_of(st2, v2)))

    # Histories of changes on items of different time zones, with reads in between: as if the series was new
    ZONES = ('Europe/Rome', 'America/New_York', 'UTC')
    HIST = []
    for z in ZONES:
        for y in ZONES:
            if y != z:
                HIST += [([z], [('pop',), ('append', y)]), ([z], [('clear',), ('append', y)]), ([z], [('append', y), ('pop',)]), ([z, y], [('pop', 0)]), ([z, y], [('pop',)]),
                         ([z], [('insert', 0, y)]), ([z], [('insert', 1, y), ('pop', 0)]), ([z], [('remove',), ('append', y)]), ([y, z, z], [('pop', 0), ('append', z)])]
    for zones, ops, reads in [(z, o, r) for z, o in HIST for r in (1, 2)]:
        name = 'points on {}, then {}, read {}'.format(' and '.join(zones), ', '.join(map(str, ops)), 'before' if reads == 1 else 'every time')
        with chk.guard('tz', name):
            s = Scn(I)
            ser = series(s, [point(s, i + 1, group=G, tz=kv(z)) for i, z in enumerate(zones)])
            now = list(zones)
            todo = [Branch(I, s.st)]
            pos = 10
            for op in ops:
                nxt = []
                pos += 1
                m = op[0]
                now = now + [op[1]] if m == 'append' else now[:op[1]] + [op[2]] + now[op[1]:] if m == 'insert' else [] if m == 'clear' else now[1:] if m == 'remove' or op[1:] == (0,) else now[:-1]
                for x in todo:
                    for st, v in get(I, x.st, ser, 'tz')[0] if pos <= 10 + reads else [(x.st, None)]:
                        b = Branch(I, st)
                        if m == 'append':
                            args = [point(b, pos, group=G, tz=kv(op[1]))]
                        elif m == 'insert':
                            args = [kv(op[1]), point(b, -pos if op[1] == 0 else pos, group=G, tz=kv(op[2]))]
                        elif m == 'remove':
                            args = [items_of(b.st, ser)[0]]
                        else:
                            args = [kv(a) for a in op[1:]]
                        nxt += branches(b, b.attr(ser, m), *args)[0]
                todo = nxt
            if not todo:
                chk.undecided('tz', name, 'no outcome')
            fresh = Scn(I)
            fser = series(fresh, [point(fresh, i + 1, group=G, tz=kv(z)) for i, z in enumerate(now)])
            want = set().union(*[spec_of(r, v) for r, v in get(I, fresh.st, fser, 'tz')[0]])
            for x in todo:
                got = set().union(*[spec_of(r, v) for r, v in get(I, x.st, ser, 'tz')[0]])
                chk.ok('tz', name, got == want, 'the items of the series are on {}, but its time zone is {} and not {}'.format(', '.join(now) or 'none', got, want))

    # What is detected on the items
    def detect(I_, st, args, kwargs, node, atom=None):
        its = items_of(st, args[0])
        num_ = av(('n', 'int', '+', frozenset(['det:' + ','.join(str(rank_of(st, i)) for i in its or ())])))
        conf = 'confidence' in kwargs or len(args) > 1
        return [(st, av(('t', (num_, num_))) if conf else num_)]

    def rank_of(st, it):
        for a in it:
            if a[0] == 'r':
                for c in st.get(a[1]).fields.get('coordinates', ()):
                    if c[0] == 't' and c[1]:
                        for x in c[1][0]:
                            if x[0] == 'o':
                                return x[2]
        return '?'
    I.overrides['timeseria.utilities.detect_sampling_interval'] = detect
    for m, args, after in (('append', lambda s: [point(s, 9, group=G)], '1,2,4,9'), ('insert', lambda s: [kv(2), point(s, 3, group=G)], '1,2,3,4'),
                           ('insert', lambda s: [kv(0), point(s, -3, group=G)], '-3,1,2,4'), ('pop', lambda s: [kv(0)], None)):
        for prop in ('_autodetected_sampling_interval', '_autodetected_sampling_interval_confidence', 'guess_resolution'):
            name = '{} after {}'.format(prop, m)
            with chk.guard('detected', name):
                s = Scn(I)
                times = (1, 2, 4) if after else (1, 2, 4, 7)
                ser = series(s, [point(s, r, group=G) for r in times])

                def read(st):
                    x = Branch(I, st.copy())
                    if prop == 'guess_resolution':
                        res, raised = x.run(x.attr(ser, prop))
                    else:
                        res, raised = get(I, st, ser, prop)
                    tags = set()
                    for r, v in res:
                        tags |= {t for t in V.tagsof(v, r) if t.startswith('det:')}
                        for oid in reach(r, v):
                            for f in r.get(oid).fields.values():
                                tags |= {t for t in V.tagsof(f, r) if t.startswith('det:')}
                    return res, tags
                res, tags = read(s.st)
                if not any(t == 'det:' + ','.join(map(str, times)) for t in tags):
                    chk.undecided('detected', name, 'not known what is detected on: {}'.format(tags))
                    continue
                want = 'det:' + (after or '2,4,7')
                for r, v in res:
                    x = Branch(I, r.copy())
                    for b in branches(x, x.attr(ser, m), *args(x))[0]:
                        _, tags = read(b.st)
                        if not tags:
                            chk.undecided('detected', name, 'not known what is detected on')
                        else:
                            chk.ok('detected', name, tags == {want}, 'detected on the items at {} instead of those at {}'.format(' or '.join(t[4:] for t in sorted(tags)), want[4:]))
    I.overrides.clear()

    chk.rule('value', 'the resolution of a series of points is the distance between its first two points')
    # 7) The resolution is the distance between the points, whatever it is
    from tsa.models import parse_spec, span_seconds, AT
    for d in (1, 2.5, 0.5, 1.05, 0.05, 100.05, 0.000005, 59, 60, 90, 600, 3600, 5400, 10.01, 3600.5, 86400, 31536000, 600.05, 3600.05, 60.05):
        for build, via in (('list', 'the constructor'), ('append', 'append')):
            name = 'points every {} s, added with {}'.format(d, via)
            with chk.guard('value', name):
                s = Scn(I)
                pts = [s.new(DS + 'DataTimePoint', t=kv(x), data=s.dict({'a': av(num('float'))})) for x in (0, d)]
                ser = s.new(DS + 'TimeSeries', *(pts if build == 'list' else pts[:1]))
                if build == 'append':
                    s.do(s.method(ser, 'append'), pts[1])
                res, raised = get(I, s.st, ser, 'resolution')
                for r, v in res:
                    o = r.get(next(iter(v))[1]) if len(v) == 1 and next(iter(v))[0] == 'r' else None
                    c = parse_spec(o.fields.get('%spec')) if o is not None else None
                    got = span_seconds(c) if c else None
                    if got is None and o is None or got is None and not V.one_const(o.fields.get('%spec') or EMPTY)[0]:
                        chk.undecided('value', name, 'not known: {}'.format(V.show(v, r)))
                    else:
                        chk.ok('value', name, got is not None and abs(got - d) < 5e-7, 'the resolution is {}'.format(V.one_const(o.fields.get('%spec'))[1]))
