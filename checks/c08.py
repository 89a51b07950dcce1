"""C08: slicing and access by position or time have exact boundaries."""
from tsa.build import *
from tsa.rules import *

G = '=t'


def rank_of(st, it):
    """The position in time of an item (of its start, for slots)."""
    for a in it:
        if a[0] == 'r':
            ob = st.get(a[1])
            f = ob.fields
            if 'start' in f:
                return rank_of(st, f['start'])
            for c in f.get('coordinates', ()):
                if c[0] == 't' and c[1]:
                    for x in c[1][0]:
                        if x[0] == 'o':
                            return x[2]
    return '?'


def ranks_of(st, ser):
    its = items_of(st, ser)
    return None if its is None else [rank_of(st, i) for i in its]


def give(rank, form):
    return o(rank, G, typ={'t': 'float', 'int': 'int', 'dt': 'dt'}[form])


def show_list(x):
    return '[{}]'.format(', '.join('{:g}'.format(i) if not isinstance(i, str) else i for i in x))


class Cases(object):

    def __init__(self, chk, I):
        self.chk = chk
        self.I = I

    def check_slice(self, rule, name, s, ser, times, fv, args, kw, want, where='', cls=None):
        """A slice: the items whose times are in want, and in that order."""
        chk = self.chk
        with chk.guard(rule, name):
            bs, raised = branches(s, fv, *args, **kw)
            base = guessed(s.st)
            sure = [b for b in bs if not (guessed(b.st) - base)]
            if not bs and raised or [r for r in raised if not (guessed(r.st) - base)]:
                chk.viol(rule, name, 'refused: {}'.format(describe(self.I, [], raised)))
                return
            for b in bs:
                got = ranks_of(b.st, b.val) if any(a[0] == 'r' for a in b.val) else None
                if got is None and b.val and all(a[0] in ('k', 'n', 'o', 's') for a in b.val):
                    chk.viol(rule, name, 'the result is {} instead of a series'.format(V.show(b.val, b.st)))
                elif got is None or '?' in got:
                    chk.undecided(rule, name, 'items not known')
                elif got != want and guessed(b.st) - base:
                    chk.undecided(rule, name, 'after decisions on unknown values')
                else:
                    chk.ok(rule, name, got == want, 'the items are at {}, but the ones in the slice are at {} instead of {}'.format(show_list(times), show_list(got), show_list(want)))
                    if cls is not None:
                        chk.ok(rule, name, b.st.get(next(iter(b.val))[1]).label() == cls, 'the slice is a {}'.format(b.st.get(next(iter(b.val))[1]).label()))
            if not bs:
                chk.undecided(rule, name, 'no outcome')

    def check_get(self, rule, name, s, ser, times, fv, args, kw, want):
        """An item: the one at the time given, or an error for None."""
        chk = self.chk
        with chk.guard(rule, name):
            bs, raised = branches(s, fv, *args, **kw)
            base = guessed(s.st)
            if want is None:
                sure = [b for b in bs if not (guessed(b.st) - base)] if raised else bs
                if sure:
                    got = [rank_of(b.st, b.val) for b in sure]
                    chk.viol(rule, name, 'the items are at {} and there is not one to get, but the result is {}'.format(
                        show_list(times), ', '.join('the item at {}'.format(g) if g != '?' else V.show(b.val, b.st) for g, b in zip(got, sure))))
                elif bs:
                    chk.undecided(rule, name, 'may complete')
                else:
                    chk.ok(rule, name, bool(raised))
                return
            bad = [r for r in raised if not (guessed(r.st) - base)] if bs else raised
            if bad:
                chk.viol(rule, name, 'the items are at {}, and getting the one at {} is refused: {}'.format(show_list(times), want, describe(self.I, [], bad)))
                return
            for b in bs:
                got = [rank_of(b.st, av(a)) for a in b.val]
                if '?' in got and not any(a[0] == 'k' for a in b.val):
                    chk.undecided(rule, name, 'result not known')
                elif got != [want] and guessed(b.st) - base:
                    chk.undecided(rule, name, 'after decisions on unknown values')
                else:
                    chk.ok(rule, name, got == [want], 'the items are at {}, but getting the one at {} gives {}'.format(
                        show_list(times), want, ' or '.join('the item at {}'.format(g) if g != '?' else V.show(b.val, b.st) for g in got)))


def run(chk):
    chk.rule('slice-t', 'slicing by time gives exactly the items from the start and before the end (slots must end by the end)', 300)
    chk.rule('slice-i', 'slicing by position gives exactly the items from the start and before the end', 300)
    chk.rule('get-i', 'access by position gives the item in that position or raises', 60)
    chk.rule('get-t', 'access by time gives the item at that time or raises', 60)
    chk.rule('mixed', 'ambiguous bounds and positions are refused', 10)
    chk.rule('all', 'without bounds the slice has all the items', 4)
    chk.rule('unchanged', 'slicing and getting does not change the series', 6)
    I = chk.interp()
    C = Cases(chk, I)

    def make(what, times, cls='TimeSeries'):
        s = Scn(I)
        if what == 'points':
            its = [point(s, r, group=G) for r in times]
        elif what == 'points with no data':
            its = [point(s, r, group=G, cls='TimePoint') for r in times]
        elif what == 'generic points':
            its = [gpoint(s, r, cls='DataPoint', group=G) for r in times]
        elif what == 'generic slots':
            its = [gslot(s, r, cls='DataSlot', group=G) for r in times]
        elif what == 'slots with no data':
            u = unit(s)
            its = [slot(s, r, u=u, cls='TimeSlot', group=G) for r in times]
        else:
            u = unit(s)
            its = [slot(s, r, u=u, group=G) for r in times]
        return s, series(s, its, cls=cls)

    def bracket(s, ser, a, b):
        return av(('slice', a, b, NONE1))
    NONE1 = av(NONE)

    def in_slice(r, a, b, slots):
        if a is not None and r < a:
            return False
        if b is not None and (r + 1 > b if slots else r >= b):
            return False
        return True

    # By time
    layouts = [('points', (1, 3, 5)), ('points', (1, 2, 3, 4)), ('points', (2,)), ('slots', (1, 2, 3)), ('slots', (2,)), ('points with no data', (1, 3)), ('slots with no data', (1, 2)), ('points', ())]
    if chk.tier == 'thorough':
        layouts += [('points', (1, 2, 4, 7)), ('slots', (1, 2, 3, 4)), ('points', (1, 3, 5, 6, 7)), ('points with no data', (1, 3, 4))]
    for what, times in layouts:
        slots = what.startswith('slots')
        s0, ser = make(what, times)
        lo, hi = (min(times), max(times)) if times else (1, 2)
        step = 0.5 if slots else 1
        bounds = [None]
        x = lo - 1
        while x <= hi + 2:
            bounds.append(x)
            x += step
        if len(bounds) > 10 and chk.tier != 'thorough':
            bounds = [b for b in bounds if b is None or lo - 1 < b < hi + 2]
        for form in ('t', 'int', 'dt'):
            for call in ('slice', 'operation', 'brackets'):
                if form == 'int' and call == 'brackets':
                    continue
                if form != 't' and call == 'operation':
                    continue
                if what.endswith('no data') and (form, call) not in (('t', 'slice'), ('dt', 'brackets')):
                    continue
                for a in bounds:
                    for b in bounds:
                        if a is None and b is None:
                            continue
                        if form == 'int' and a is not None and b is not None and chk.tier != 'thorough' and a - b not in (0, 1, -1, -2):
                            continue
                        s = s0.fork()
                        want = [r for r in times if in_slice(r, a, b, slots)]
                        va = NONE1 if a is None else give(a, form)
                        vb = NONE1 if b is None else give(b, form)
                        key = 'dt' if form == 'dt' else 't'
                        name = '{} at {}: {} from {} to {}'.format(what, show_list(times), {'slice': 'slice({})', 'operation': 'Slice()({})', 'brackets': '[{}]'}[call].format(
                            {'t': 'float', 'int': 'int', 'dt': 'datetime'}[form]), a, b)
                        if call == 'brackets':
                            fv, args, kw = s.attr(ser, '__getitem__'), [bracket(s, ser, va, vb)], {}
                        else:
                            kw = {}
                            if a is not None:
                                kw['from_' + key] = va
                            if b is not None:
                                kw['to_' + key] = vb
                            if call == 'slice':
                                fv, args = s.attr(ser, 'slice'), []
                            else:
                                fv, args = s.new(OP + 'Slice'), [ser]
                                if not times:
                                    continue
                        if not times and call == 'slice':
                            continue    # operations refuse empty series
                        if not times:
                            continue
                        C.check_slice('slice-t', name, s, ser, times, fv, args, kw, want, cls='TimeSeries')

    # By position
    for what, n_, cls in (('points', 4, 'TimeSeries'), ('points', 1, 'TimeSeries'), ('slots', 3, 'TimeSeries'), ('generic points', 3, 'Series'), ('generic slots', 3, 'Series'), ('points with no data', 2, 'TimeSeries')):
        times = tuple(range(1, n_ + 1))
        s0, ser = make(what, times, cls=cls)
        bounds = [None] + list(range(-n_ - 1, n_ + 2))
        for call in ('slice', 'brackets'):
            for a in bounds:
                for b in bounds:
                    if a is None and b is None:
                        continue
                    s = s0.fork()
                    # Positions before the first one, counting from the end, are before the first one
                    want = [times[i] for i in range(n_) if (a is None or i >= (a if a >= 0 else n_ + a)) and (b is None or i < (b if b >= 0 else n_ + b))]
                    name = '{} {}: {} from {} to {}'.format(n_, what, 'slice' if call == 'slice' else 'brackets', a, b)
                    if call == 'brackets':
                        fv, args, kw = s.attr(ser, '__getitem__'), [av(('slice', kv(a), kv(b), NONE1))], {}
                    else:
                        fv, args, kw = s.attr(ser, 'slice'), [], {}
                        if a is not None:
                            kw['from_i'] = kv(a)
                        if b is not None:
                            kw['to_i'] = kv(b)
                    C.check_slice('slice-i', name, s, ser, times, fv, args, kw, want, cls=cls)
        # No bounds
        s = s0.fork()
        C.check_slice('all', '{} {}: slice()'.format(n_, what), s, ser, times, s.attr(ser, 'slice'), [], {}, list(times), cls=cls)
        # Positions
        for i in range(-n_ - 2, n_ + 2):
            want = times[i] if -n_ <= i < n_ else None
            for call in ('brackets', 'get', 'operation'):
                s = s0.fork()
                name = '{} {}: {} at {}'.format(n_, what, call, i)
                if call == 'brackets':
                    C.check_get('get-i', name, s, ser, times, s.attr(ser, '__getitem__'), [kv(i)], {}, want)
                elif call == 'get':
                    if cls == 'Series':
                        C.check_get('get-i', name, s, ser, times, s.attr(ser, 'get'), [], dict(at_i=kv(i)), want)
                    else:
                        C.check_get('get-i', name, s, ser, times, s.attr(ser, 'get'), [], dict(at_i=kv(i)), want)
                else:
                    C.check_get('get-i', name, s, ser, times, s.new(OP + 'Get'), [ser], dict(at_i=kv(i)), want)
    for cls in ('TimeSeries', 'Series'):
        for i in (-1, 0, 1):
            s = Scn(I)
            ser = series(s, [], cls=cls)
            C.check_get('get-i', 'empty {}: brackets at {}'.format(cls, i), s, ser, (), s.attr(ser, '__getitem__'), [kv(i)], {}, None)
            C.check_get('get-i', 'empty {}: get at {}'.format(cls, i), s, ser, (), s.attr(ser, 'get'), [], dict(at_i=kv(i)), None)

    # By time
    for what, times in (('points', (1, 3, 5)), ('slots', (1, 2, 3)), ('points with no data', (1, 3)), ('points', (2,))):
        s0, ser = make(what, times)
        for form in ('t', 'int', 'dt'):
            x = min(times) - 1
            while x <= max(times) + 1:
                want = x if x in times else None
                for call in ('get', 'brackets'):
                    if call == 'brackets' and form == 'int':
                        continue
                    s = s0.fork()
                    name = '{} at {}: {}({}) at {:g}'.format(what, show_list(times), call, {'t': 'float', 'int': 'int', 'dt': 'datetime'}[form], x)
                    if call == 'get':
                        C.check_get('get-t', name, s, ser, times, s.attr(ser, 'get'), [], {'at_dt' if form == 'dt' else 'at_t': give(x, form)}, want)
                    else:
                        C.check_get('get-t', name, s, ser, times, s.attr(ser, '__getitem__'), [give(x, form)], {}, want)
                x += 0.5

    # Ambiguous bounds
    s0, ser = make('points', (1, 3, 5))
    bad = [('slice', dict(from_i=kv(0), from_t=give(1, 't'))), ('slice', dict(from_i=kv(0), from_dt=give(1, 'dt'))), ('slice', dict(from_t=give(1, 't'), from_dt=give(3, 'dt'))),
           ('slice', dict(to_i=kv(0), to_t=give(1, 't'))), ('slice', dict(to_i=kv(1), to_dt=give(1, 'dt'))), ('slice', dict(to_t=give(1, 't'), to_dt=give(3, 'dt'))),
           ('slice', dict(from_i=kv(0), to_t=give(1, 't'))), ('slice', dict(from_i=kv(0), to_dt=give(1, 'dt'))), ('slice', dict(from_t=give(1, 't'), to_i=kv(2))),
           ('slice', dict(from_dt=give(1, 'dt'), to_i=kv(2))),
           ('slice', dict(from_i=kv('0'))), ('slice', dict(to_i=kv(1.0))), ('slice', dict(from_t=give(1, 'dt'))), ('slice', dict(to_t=kv('1'))), ('slice', dict(from_dt=give(1, 't'))), ('slice', dict(to_dt=give(1, 'int'))),
           ('get', dict(at_i=kv(0), at_t=give(1, 't'))), ('get', dict(at_i=kv(0), at_dt=give(1, 'dt'))), ('get', dict(at_t=give(1, 't'), at_dt=give(1, 'dt'))),
           ('get', dict()), ('get', dict(at_i=kv('0'))), ('get', dict(at_t=kv('0'))), ('get', dict(at_dt=give(1, 't')))]
    for m, kw in bad:
        name = '{}({})'.format(m, ', '.join('{}={}'.format(key, V.show(v, s0.st)) for key, v in kw.items()))
        with chk.guard('mixed', name):
            s = s0.fork()
            refused(chk, 'mixed', name, s, s.attr(ser, m), **kw)

    for step in (2, -1, 0):
        name = 'slicing with a step of {}'.format(step)
        with chk.guard('mixed', name):
            s = s0.fork()
            refused(chk, 'mixed', name, s, s.attr(ser, '__getitem__'), av(('slice', kv(0), kv(3), kv(step))))
    for what in ('generic points', 'generic slots'):
        for key in ('from_t', 'to_t', 'from_dt', 'to_dt'):
            name = 'slicing {} with {}'.format(what, key)
            with chk.guard('mixed', name):
                s, ser = make(what, (1, 2, 3), cls='Series')
                refused(chk, 'mixed', name, s, s.new(OP + 'Slice'), ser, **{key: give(2, 't' if key.endswith('_t') else 'dt')})

    # The series stays as it was
    for what, times in (('points', (1, 3, 5)), ('slots', (1, 2, 3))):
        s0, ser = make(what, times)
        for m, kw in (('slice', dict(from_t=give(2, 't'))), ('slice', dict(to_i=kv(2))), ('slice', {}), ('get', dict(at_i=kv(1))), ('get', dict(at_t=give(9, 't')))):
            name = '{}: {}({})'.format(what, m, ', '.join(kw))
            with chk.guard('unchanged', name):
                s = s0.fork()
                bs, raised = branches(s, s.attr(ser, m), **kw)
                for b in bs + raised:
                    diff = changed(s.st, b.st, ser)
                    chk.ok('unchanged', name, not diff, 'the series is changed: {}'.format(diff[:3]))
                    if b in bs and m == 'slice':
                        # and stays so when the slice changes
                        for c in branches(b, b.attr(b.val, 'pop'))[0]:
                            chk.ok('unchanged', name, ranks_of(c.st, ser) == list(times), 'removing an item from the slice removes it from the series')
