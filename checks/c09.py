"""C09: a series view behaves as the slice of the series it covers."""
from tsa.build import *
from tsa.rules import *
from checks.c08 import Cases, rank_of, ranks_of, give, show_list

G = '=t'
PROBE = '''
def length(v):
    return len(v)

def truth(v):
    return bool(v)

def iterate(v):
    return [x for x in v]

def by_list(v):
    return list(v)

def twice(v):
    a = [x for x in v]
    b = [x for x in v]
    return a, b

def partial(v):
    out = []
    for x in v:
        break
    for x in v:
        out.append(x)
    return out

def nested(v):
    out = []
    for x in v:
        for y in v:
            out.append((x, y))
    return out

def interleaved(v):
    out = []
    for x in v:
        out.append(x)
        len(v)
        v[0]
        for y in v:
            break
    return out

def enumerated(v):
    return [x for i, x in enumerate(v) if v[i] is x]

def positions(v):
    return [v[i] for i in range(len(v))]

def negatives(v):
    return [v[-i] for i in range(len(v), 0, -1)]

def backwards(v):
    return [x for x in reversed(v)][::-1]
'''


def run(chk):
    chk.rule('len', 'the length of a view is the number of the items it covers', 20)
    chk.rule('bool', 'a view is true if it covers any item', 20)
    chk.rule('iter', 'iterating gives the items covered, in order, also more than once and nested', 100)
    chk.rule('index', 'positions, negative ones included, are those of the items covered and the others are refused', 60)
    chk.rule('slice', 'slices of a view are those of the items covered', 60)
    chk.rule('get-t', 'access by time is only to the items covered', 10)
    chk.rule('contains', 'the items in a view are the ones covered', 10)
    chk.rule('materialize', 'materialising gives a new series of copies of the items covered', 10)
    chk.rule('unchanged', 'reading through a view does not change the series', 60)
    chk.rule('follow', 'changes at the end of the series do not change the view', 4)
    I = chk.interp(probe=PROBE)
    C = Cases(chk, I)

    def outcome(rule, name, s, ser, fv, args, kw, conv, want, msg):
        with chk.guard(rule, name):
            bs, raised = branches(s, fv, *args, **kw)
            base = guessed(s.st)
            bad = raised if not bs else [r for r in raised if not (guessed(r.st) - base)]
            if bad:
                chk.viol(rule, name, 'refused: {}'.format(describe(I, [], bad)))
                return
            for b in bs:
                got = conv(b)
                if b.val and all(a[0] == 'k' for a in b.val) and got is None:
                    chk.viol(rule, name, msg.format(V.show(b.val, b.st)))
                elif got is None:
                    chk.undecided(rule, name, 'not known: {}'.format(V.show(b.val, b.st)))
                elif got != want and guessed(b.st) - base:
                    chk.undecided(rule, name, 'after decisions on unknown values')
                else:
                    chk.ok(rule, name, got == want, msg.format(got))
                diff = changed(s.st, b.st, ser)
                chk.ok('unchanged', name, not diff, 'the series is changed: {}'.format(diff[:2]))

    def const(b):
        ok, c = V.one_const(b.val)
        return c if ok else None

    def listed(b):
        """The times of the items of a list (of tuples, ..)"""
        def flat(st, v):
            if len(v) != 1:
                return None
            a = next(iter(v))
            if a[0] == 't':
                return tuple(flat(st, x) for x in a[1])
            if a[0] == 'r' and st.get(a[1]).kind == 'list' or a[0] == 'r' and st.get(a[1]).items is not None:
                return [flat(st, x) for x in st.get(a[1]).items or ()] if st.get(a[1]).items is not None else None
            return rank_of(st, v)
        return flat(b.st, b.val)

    def unknown(x):
        return x is None or x == '?' or isinstance(x, (list, tuple)) and any(unknown(i) for i in x)

    def listed_or_none(b):
        x = listed(b)
        return None if unknown(x) else x

    layouts = [('points', (1, 3, 5, 7)), ('slots', (1, 2, 3)), ('points', (2,)), ('points', ())]
    for what, times in layouts:
        n_ = len(times)
        s0 = Scn(I)
        u = unit(s0)
        ser = series(s0, [point(s0, r, group=G) if what == 'points' else slot(s0, r, u=u, group=G) for r in times])
        bounds = [None] + list(range(-n_, n_ + 1)) if n_ > 1 else [None, 0, 1, -1, 2]
        if chk.tier == 'thorough':
            bounds += [-n_ - 1, n_ + 1, n_ + 2]
        seen = set()
        for a in bounds:
            for b in bounds:
                i, j, _ = slice(a, b).indices(n_)
                j = max(i, j)
                cover = list(times[i:j])
                m = len(cover)
                full = (i, j) not in seen       # the rest is only tried once for each interval
                seen.add((i, j))
                v0 = s0.fork()
                label = '{} at {}, view from {} to {}'.format(what, show_list(times), a, b)
                empty = n_ > 0 and m == 0
                with chk.guard('len', label):
                    kw = {}
                    if a is not None:
                        kw['from_i'] = kv(a)
                    if b is not None:
                        kw['to_i'] = kv(b)
                    view = v0.do(v0.attr(ser, 'view'), **kw)
                    outcome('len', label, v0, ser, v0.probe('length'), [view], {}, const, m, 'the view covers {} items'.format(m) + ', but its length is {}')
                    outcome('bool', 'an empty view of a non-empty series' if empty else label, v0, ser, v0.probe('truth'), [view], {}, const, m > 0,
                            'the view covers {} items'.format(m) + ', but its truth value is {}')
                    outcome('iter', label + ': iterate', v0, ser, v0.probe('iterate'), [view], {}, listed_or_none, cover, 'the view covers the items at {}'.format(show_list(cover)) + ', but iterating gives the ones at {}')
                    for pos in range(-m - 2, m + 2):
                        want = cover[pos] if -m <= pos < m else None
                        nm = '{}: [{}]'.format(label, pos)
                        if empty and pos < 0:
                            nm = 'a negative position of an empty view of a non-empty series'
                        C.check_get('index', nm, v0, ser, cover, v0.attr(view, '__getitem__'), [kv(pos)], {}, want)
                    if not full:
                        continue
                    for f in ('by_list', 'partial', 'interleaved', 'enumerated', 'positions', 'negatives', 'backwards'):
                        if m == 0 and f == 'interleaved':
                            continue
                        outcome('iter', label + ': ' + f, v0, ser, v0.probe(f), [view], {}, listed_or_none, cover,
                                'the view covers the items at {}'.format(show_list(cover)) + ', but they are the ones at {}')
                    outcome('iter', label + ': twice', v0, ser, v0.probe('twice'), [view], {}, listed_or_none, (cover, cover), 'iterating twice on the items at {}'.format(show_list(cover)) + ' gives {}')
                    outcome('iter', label + ': nested', v0, ser, v0.probe('nested'), [view], {}, listed_or_none, [(x, y) for x in cover for y in cover],
                            'iterating on the items at {} in a nested way'.format(show_list(cover)) + ' gives {}')
                    # Slices by position and time
                    for c in [None] + list(range(-m - 1, m + 2)):
                        for d in [None] + list(range(-m - 1, m + 2)):
                            if c is None and d is None or not n_:    # (operations refuse empty series)
                                continue
                            if empty and (c is not None and c < 0 or d is not None and d < 0):
                                continue
                            want = cover[slice(c, d)]
                            s = v0.fork()
                            C.check_slice('slice', '{}: [{}:{}]'.format(label, c, d), s, ser, cover, s.attr(view, '__getitem__'), [av(('slice', kv(c), kv(d), av(NONE)))], {}, want)
                    if m:
                        lo, hi = cover[0] - 1, cover[-1] + 2
                        for c in range(lo, hi + 1):
                            for d in {c, c + 1, c + 2, hi}:
                                s = v0.fork()
                                want = [r for r in cover if r >= c and (r < d if what == 'points' else r + 1 <= d)]
                                for form in ('t', 'dt'):
                                    C.check_slice('slice', '{}: [{}:{}] as {}'.format(label, c, d, form), s, ser, cover, s.attr(view, '__getitem__'), [av(('slice', give(c, form), give(d, form), av(NONE)))], {}, want)
                                s = v0.fork()
                                want = [r for r in cover if r >= c and (r < d if what == 'points' else r + 1 <= d)]
                                C.check_slice('slice', '{}: from time {} to {}'.format(label, c, d), s, ser, cover, s.attr(view, 'slice'), [], dict(from_t=give(c, 't'), to_t=give(d, 't')), want)
                        s = v0.fork()
                        for r in times:
                            C.check_get('get-t', '{}: at time {}'.format(label, r), s, ser, cover, s.attr(view, 'get'), [], dict(at_t=give(r, 't')), r if r in cover else None)
                            for form in ('t', 'dt'):
                                C.check_get('get-t', '{}: [time {} as {}]'.format(label, r, form), s, ser, cover, s.attr(view, '__getitem__'), [give(r, form)], {}, r if r in cover else None)
                    for k_, it in enumerate(items_of(v0.st, ser)):
                        outcome('contains', '{}: the item at {}'.format(label, times[k_]), v0, ser, v0.attr(view, '__contains__'), [it], {}, const, times[k_] in cover, 'the items in the view are at {}'.format(show_list(cover)) + ', but whether it is one of them is {}')
                    # Materialisation
                    for mth in ('materialize', 'duplicate'):
                        nm = '{}: {}'.format(label, mth)
                        outcome('materialize', nm, v0, ser, v0.attr(view, mth), [], {}, lambda b: ranks_of(b.st, b.val) if not unknown(ranks_of(b.st, b.val)) else None, cover,
                                'the view covers the items at {}'.format(show_list(cover)) + ', but the ones in the series are at {}')
                        for c in branches(v0, v0.attr(view, mth))[0]:
                            its = items_of(c.st, c.val) or ()
                            for f, conv, want in (('length', const, m), ('truth', const, m > 0), ('iterate', listed_or_none, cover), ('backwards', listed_or_none, cover), ('negatives', listed_or_none, cover)):
                                outcome('materialize', '{}, then {}'.format(nm, f), c, ser, c.probe(f), [c.val], {}, conv, want, 'the view covers the items at {}'.format(show_list(cover)) + ', but the materialised series gives {}')
                            for x in its[:1]:
                                outcome('materialize', '{}, then contains'.format(nm), c, ser, c.attr(c.val, '__contains__'), [x], {}, const, True, 'whether the first item is in the materialised series is {}')
                            orig = [x for x in items_of(c.st, ser)]
                            chk.ok('materialize', nm, not any(x == y for x in its for y in orig), 'the items are those of the series, and not copies')
                            for x in its:
                                shared = set(reach(c.st, x)) & set().union(*[set(reach(c.st, y)) for y in orig])
                                shared = [q for q in shared if c.st.get(q).kind in ('list', 'dict') or c.st.get(q).label() in ('TimePoint', 'DataTimePoint', 'DataTimeSlot')]
                                chk.ok('materialize', nm, not shared, 'the copies share objects with the items of the series')

    # The series grows
    for what in ('points', 'slots'):
        nm = 'a view of {} to which one is appended'.format(what)
        with chk.guard('follow', nm):
            s = Scn(I)
            u = unit(s)
            mk = lambda x, r: point(x, r, group=G) if what == 'points' else slot(x, r, u=unit(x), group=G)
            ser = series(s, [mk(s, r) for r in (1, 2, 3)])
            for a, b in ((None, None), (1, None), (None, -1), (0, 2)):
                cover = [1, 2, 3][slice(a, b)]
                v0 = s.fork()
                view = v0.do(v0.attr(ser, 'view'), **{key: kv(x) for key, x in (('from_i', a), ('to_i', b)) if x is not None})
                for c in branches(v0, v0.attr(ser, 'append'), mk(v0, 4))[0]:
                    outcome('follow', nm + ', from {} to {}'.format(a, b), c, ser, c.probe('iterate'), [view], {}, listed_or_none, cover, 'the view covered the items at {}'.format(show_list(cover)) + ', now {}')
                    outcome('follow', nm + ', from {} to {}'.format(a, b), c, ser, c.probe('length'), [view], {}, const, len(cover), 'the length is now {}')
