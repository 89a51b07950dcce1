"""C06: a refused change leaves the series exactly as it was."""
from tsa.build import *
from tsa.rules import *

IGNORE = {('*', '_length'), ('DataTimeSlot', '_unit'), ('TimeSlot', '_unit'), ('*', '_guessed_resolution'),
          ('*', '_TimeSeries__autodetected_sampling_interval'), ('*', '_TimeSeries__autodetected_sampling_interval_confidence')}


def spec_of(st, val):
    """What a resolution or a time zone is, comparable between states."""
    out = set()
    for a in val:
        if a[0] == 'r':
            ob = st.get(a[1])
            out.add((ob.label(),) + tuple(sorted((f, V.show(v, st)) for f, v in ob.fields.items())))
        else:
            out.add(V.show(av(a), st))
    return out


def observe(I, st, ser):
    """The resolution and time zone a user sees (all outcomes)."""
    out = {}
    for name in ('resolution', 'tz', 'item_type'):
        s = Branch(I, st.copy())
        res, raised = I._run(lambda: I.getattr(ser, name, s.st, I._scn_node(NODE)))
        vals = set()
        for st2, v in res:
            vals |= spec_of(st2, v)
        for st2, e in raised:
            vals.add('raises ' + str(I.exc_name(e, st2)))
        out[name] = vals
    return out


def follow(I, st, ser, mk, method='append'):
    """What appending a valid item gives: (accepted for sure, observation)."""
    s = Branch(I, st.copy())
    item = mk(s)
    bs, raised = branches(s, s.attr(ser, method), item)
    obs = []
    for b in bs:
        x = observe(I, b.st, ser)
        obs.append(tuple((key, frozenset(v)) for key, v in sorted(x.items())))
    return bool(bs), bool(raised), frozenset(obs), [I.exc_name(next(iter(r.val)), r.st) for r in raised]


import ast
NODE = ast.Pass(lineno=0, col_offset=0)


def run(chk):
    chk.rule('unchanged', 'on every path on which the change is refused nothing reachable from the series is different', 80)
    chk.rule('same', 'after a refused change the resolution, time zone and item type are as before', 80)
    chk.rule('append-after', 'after a refused change a valid item is accepted, with the same result as if the refused call had never happened', 60)
    chk.rule('self-test', 'the comparison reports a change', 1)
    I = chk.interp()

    with chk.guard('self-test', 'self-test'):
        s = Scn(I)
        ser = series(s, [point(s, 1), point(s, 2)])
        st = s.st.copy()
        I.write_field(st, s.oid(ser), '_tz', kv('UTC'), NODE)
        assert changed(s.st, st, ser, IGNORE)
        chk.ok('self-test', 'an attribute set is reported')

    def judge(name, s, ser, raised, nxt):
        before = observe(I, s.st, ser)
        ref = follow(I, s.st, ser, nxt)
        for r in raised:
            exc = I.exc_name(next(iter(r.val)), r.st)
            diff = changed(s.st, r.st, ser, IGNORE)
            chk.ok('unchanged', name, not diff, 'refused with {}, but the series is changed: {}'.format(exc, '; '.join('{}: {}'.format(*d) for d in diff[:4])))
            after = observe(I, r.st, ser)
            for key in before:
                chk.ok('same', name, after[key] == before[key], 'refused with {}, but the {} is {} instead of {}'.format(
                    exc, key, ', '.join(map(str, sorted(after[key], key=str))), ', '.join(map(str, sorted(before[key], key=str)))))
            got = follow(I, r.st, ser, nxt)
            chk.ok('append-after', name, got == ref, 'refused with {}, but then appending a valid item {} (as if it had not happened: {})'.format(
                exc, summary(got), summary(ref)))

    def summary(f):
        return '{}{}'.format('is accepted' if f[0] else 'is not accepted', ' or raises ' + ', '.join(map(str, f[3])) if f[1] else '') + ' ' + \
            '; '.join(sorted(str([(kk, sorted(map(str, v))) for kk, v in x if kk != 'item_type']) for x in f[2]))[:200]

    def case(name, mk, args, method='append', nxt=None, cfg=None, keep=False):
        with chk.guard('unchanged', name):
            s = Scn(I)
            ser, nxt_ = mk(s)
            a = args(s, ser)
            kw = {}
            if isinstance(a, tuple):
                a, kw = a
            bs, raised = branches(s, s.attr(ser, method), *a, **kw)
            if not raised:
                if keep:
                    chk.ok('unchanged', name)
                else:
                    chk.undecided('unchanged', name, 'not refused')
            judge(name, s, ser, raised, nxt or nxt_)

    G = '=t'
    for n_ in (0, 1, 2, 3):
        for var in ((False, True) if n_ == 3 else (False,)):
            times = {0: (), 1: (4,), 2: (4, 5), 3: (4, 5, 8) if var else (4, 5, 6)}[n_]
            last = times[-1] if times else 0

            def pts(s, times=times, last=last, **kw):
                ser = series(s, [point(s, r, group=G, **kw) for r in times])
                return ser, lambda x: point(x, last + 1, group=G, **kw)

            def slots(s, n_=n_, **kw):
                u = unit(s)
                ser = series(s, [slot(s, 4 + i, u=u, group=G, **kw) for i in range(n_)])
                return ser, lambda x: slot(x, 4 + n_, u=unit(x), group=G, **kw)

            what = '{} points{}'.format(n_, ' (variable)' if var else '')
            if n_ > 0:
                case('append to {}: earlier'.format(what), pts, lambda s, ser: [point(s, 1, group=G)])
                case('append to {}: the same time'.format(what), pts, lambda s, ser: [point(s, last, group=G)])
                for d in (1, 5):
                    case('append to {}: next, with other labels ({})'.format(what, d), pts, lambda s, ser: [point(s, last + d, group=G, labels=('a', 'c'))])
                    case('append to {}: next, with other data ({})'.format(what, d), pts, lambda s, ser: [point(s, last + d, group=G, kind='list')])
                    case('append to {}: next, with less data ({})'.format(what, d), lambda s: pts(s, kind='list'), lambda s, ser: [point(s, last + d, group=G, kind='list', labels='a')])
                    case('append to {}: next, without data ({})'.format(what, d), pts, lambda s, ser: [point(s, last + d, group=G, cls='TimePoint')])
                case('append to {}: a slot'.format(what), pts, lambda s, ser: [slot(s, last + 1, u=unit(s), group=G)])
                case('append to {}: a slot on another time zone'.format(what), pts, lambda s, ser: [slot(s, last + 1, u=unit(s), group=G, tz=kv('Europe/Rome'))])
                for i in (0, 1, n_, -1):
                    case('insert({}) in {}: out of order'.format(i, what), pts, lambda s, ser: [kv(i), point(s, 20 if i == 0 else 1, group=G)], 'insert', keep=True)
                    case('insert({}) in {}: with other labels'.format(i, what), pts,
                         lambda s, ser: [kv(i), point(s, {0: 1, n_: 20}.get(i, 4.5 if i == 1 or n_ == 2 else 5.5 if n_ == 3 else 3), group=G, labels=('a', 'c'))], 'insert')
                    case('insert({}) in {}: a slot'.format(i, what), pts, lambda s, ser: [kv(i), slot(s, 1 if i == 0 else 20, u=unit(s), group=G)], 'insert')
                case('insert(99) in {}'.format(what), pts, lambda s, ser: [kv(99), point(s, 20, group=G)], 'insert', keep=True)
                case('pop(99) of {}'.format(what), pts, lambda s, ser: [kv(99)], 'pop')
                case('pop(-99) of {}'.format(what), pts, lambda s, ser: [kv(-99)], 'pop')
                case('remove what is not there from {}'.format(what), pts, lambda s, ser: [point(s, 30, group=G)], 'remove')
                case('rename a label which is not there in {}'.format(what), pts, lambda s, ser: [kv('zz'), kv('c')], 'rename_data_label')
                case('rename a label of list data in {}'.format(what), lambda s: pts(s, kind='list'), lambda s, ser: [kv('a'), kv('c')], 'rename_data_label')
            else:
                case('pop of {}'.format(what), pts, lambda s, ser: [], 'pop')
            case('append to {}: a number'.format(what), pts, lambda s, ser: [o(30, G)])
            case('append to {}: a generic point'.format(what), pts, lambda s, ser: [gpoint(s, 30, group=G)])
            case('insert in {}: a number'.format(what), pts, lambda s, ser: [kv(0), o(1, G)], 'insert')

            what = '{} slots'.format(n_)
            if n_ > 0 and not var:
                L = 4 + n_
                case('append to {}: after a gap'.format(what), slots, lambda s, ser: [slot(s, L + 1, u=unit(s), group=G)])
                case('append to {}: before'.format(what), slots, lambda s, ser: [slot(s, 1, u=unit(s), group=G)])
                case('append to {}: of another unit'.format(what), slots, lambda s, ser: [slot(s, L, u=unit(s, '1D'), group=G)])
                case('append to {}: on another time zone'.format(what), slots, lambda s, ser: [slot(s, L, u=unit(s), tz=kv('Europe/Rome'), group=G)])
                case('append to {}: with other labels'.format(what), slots, lambda s, ser: [slot(s, L, u=unit(s), labels=('a', 'c'), group=G)])
                case('append to {}: without data'.format(what), slots, lambda s, ser: [slot(s, L, u=unit(s), cls='TimeSlot', group=G)])
                case('append to {}: a point'.format(what), slots, lambda s, ser: [point(s, L, group=G)])
                for i in (0, n_):
                    r = 3 if i == 0 else L
                    case('insert({}) in {}: after a gap'.format(i, what), slots, lambda s, ser: [kv(i), slot(s, r + (-1 if i == 0 else 1), u=unit(s), group=G)], 'insert')
                    case('insert({}) in {}: of another unit'.format(i, what), slots, lambda s, ser: [kv(i), slot(s, r, u=unit(s, '1D'), group=G)], 'insert')
                    case('insert({}) in {}: with other labels'.format(i, what), slots, lambda s, ser: [kv(i), slot(s, r, u=unit(s), labels=('a', 'c'), group=G)], 'insert')
                if n_ > 1:
                    case('insert(1) in {}'.format(what), slots, lambda s, ser: [kv(1), slot(s, 4, u=unit(s), group=G)], 'insert')
                    case('pop(1) of {}'.format(what), slots, lambda s, ser: [kv(1)], 'pop', keep=(n_ == 1))
                case('remove from {}'.format(what), slots, lambda s, ser: [items_of(s.st, ser)[0]], 'remove')
            if not var:
                case('append to {}: a number'.format(what), slots, lambda s, ser: [o(30, G)])

    # Disabled operations
    for m, args in (('extend', lambda s, ser: [s.list(point(s, 9, group=G))]), ('sort', lambda s, ser: []), ('reverse', lambda s, ser: []),
                    ('__iadd__', lambda s, ser: [s.list(point(s, 9, group=G))]), ('__imul__', lambda s, ser: [kv(2)]),
                    ('__setitem__', lambda s, ser: [kv(0), point(s, 1, group=G)]), ('__delitem__', lambda s, ser: [kv(0)])):
        def mk(s):
            ser = series(s, [point(s, r, group=G) for r in (4, 5, 6)])
            return ser, lambda x: point(x, 7, group=G)
        case('{}'.format(m), mk, args, m)

    # A time zone which does not exist
    def no_such_zone(I_, st, args, kwargs, node):
        I_.raise_builtin(st, 'Exception', 'no such time zone', node)
        return []
    I.ext_overrides['propertime.utils.timezonize'] = no_such_zone
    for what in ('points', 'slots'):
        def mk(s, what=what):
            if what == 'points':
                ser = series(s, [point(s, r, group=G) for r in (4, 5, 6)])
                return ser, lambda x: point(x, 7, group=G)
            u = unit(s)
            ser = series(s, [slot(s, r, u=u, group=G) for r in (4, 5, 6)])
            return ser, lambda x: slot(x, 7, u=unit(x), group=G)
        case('change_tz of {} to a time zone which does not exist'.format(what), mk, lambda s, ser: [kv('Nowhere')], 'change_tz')
        case('as_tz of {} to a time zone which does not exist'.format(what), mk, lambda s, ser: [kv('Nowhere')], 'as_tz')
    del I.ext_overrides['propertime.utils.timezonize']
