"""C15: reconstruction changes only the gaps, and marks every element."""
from checks.mods import *

UNDER = {1.0: (0.0, None, 0.999, 'absent'), 0.5: (0.0, 'absent', 0.4999, None), 0.25: (None, 0.2499, 0.0, 'absent'), 0.0: (None, 'absent'), 1: (0, 0.999, None, 'absent')}
OVER = {1.0: (1.0, 1), 0.5: (0.5, 1.0, 0.75), 0.25: (0.25, 0.26, 1.0), 0.0: (0.0, 1.0, 0.001), 1: (1, 1.0)}


def layouts(n_, deep, sides=False):
    """Which of the elements are gaps: all of the possible layouts."""
    for k in range(2 ** n_):
        gaps = [bool(k >> i & 1) for i in range(n_)]
        if sides and (gaps[0] or gaps[-1]):
            continue
        yield k, gaps


def losses(gaps, thr, k):
    u, o_ = UNDER[thr], OVER[thr]
    return [o_[(i + k) % len(o_)] if g else u[(i + k) % len(u)] for i, g in enumerate(gaps)]


def runs(gaps):
    out, start = [], None
    for i, g in enumerate(list(gaps) + [False]):
        if g and start is None:
            start = i
        elif not g and start is not None:
            out.append((start, i - 1))
            start = None
    return out


def counted(i, src, l):
    return E.of(100.0 + i)


def linear(gaps, src):
    where = {}
    for a, b in runs(gaps):
        for i in range(a, b + 1):
            where[i] = (a - 1, b + 1)
    def value(i, src, l):
        p, q = where[i]
        return src.v(p, l) + (src.v(q, l) - src.v(p, l)) / (src.t[q] - src.t[p]) * (src.t[i] - src.t[p])
    return value


def periodic(gaps, src, fit):
    """Average of the values at the same position of the period, moved by the average difference at the sides of the gap."""
    def avg(i):
        js = [j for j in range(fit.n) if (fit.t[j] - src.t[i]) % (2 * (fit.t[1] - fit.t[0])) == 0]
        return sum((fit.v(j, fit.names[0]) for j in js), E.of(0)) / len(js)
    where = {}
    for a, b in runs(gaps):
        for i in range(a, b + 1):
            where[i] = (a - 1, b + 1)
    def value(i, src, l):
        p, q = where[i]
        return avg(i) + ((src.v(p, l) - avg(p)) + (src.v(q, l) - avg(q))) / 2
    return value


def look(chk, name, src, st, its, gaps, value):
    if its is None:
        chk.undecided('gaps', name, 'items not known')
        return
    chk.ok('elements', name, [time_of(st, it) for it in its] == src.t, 'elements at {} instead of {}'.format([time_of(st, it) for it in its], src.t))
    if len(its) != src.n:
        return
    bad, marks, ixs, kept = [], [], [], []
    for i, it in enumerate(its):
        d, ix = data_of(st, it), indexes_of(st, it)
        ob = one(st, it)
        raw = one(st, ob.fields.get('_data', EMPTY)) if ob is not None else None
        if d is None or ix is None or raw is None:
            chk.undecided('gaps', name, 'data of item {} not known'.format(i))
            return
        if set(d) != set(src.names) or raw.kind != src.kind:
            (bad if gaps[i] else kept).append('item {} with a {} of {}'.format(i, raw.kind, sorted(d)))
            continue
        for l in src.names:
            e = value(i, src, l) if gaps[i] else src.v(i, l)
            m = match(d[l], e)
            if m is None:
                chk.undecided('gaps', name, 'item {}: {}'.format(i, V.show(d[l], st)))
            elif not m:
                (bad if gaps[i] else kept).append('item {}, "{}": {} instead of {}'.format(i, l, shown(d[l]), X.show(e.i)))
        r = ix.pop('data_reconstructed', EMPTY)
        if not (r and r <= (kv(1) | kv(1.0) | kv(True) if gaps[i] else kv(0) | kv(0.0) | kv(False))):
            marks.append('item {} {}: {}'.format(i, 'reconstructed' if gaps[i] else 'not reconstructed', 'no index' if not r else V.show(r)))
        was = indexes_of(src.s.st, src.items[i])
        was.pop('data_reconstructed', None)
        if ix != was:
            ixs.append('item {}: {} instead of {}'.format(i, {x: V.show(v) for x, v in ix.items()}, {x: V.show(v) for x, v in was.items()}))
    chk.ok('gaps', name, not bad, '; '.join(bad[:2]))
    chk.ok('others', name, not kept, '; '.join(kept[:2]))
    chk.ok('marks', name, not marks, '; '.join(marks[:2]))
    chk.ok('indexes', name, not ixs, '; '.join(ixs[:2]))


def run(chk):
    I = chk.interp(probe=PROBE)
    deep = chk.tier != 'quick'
    chk.rule('gaps', 'an element whose data loss is at or above the threshold gets the value predicted for its position, as an expression, in the same kind of data', 60)
    chk.rule('others', 'an element whose data loss is below the threshold, None or not there keeps its data', 60)
    chk.rule('marks', 'every element has the data_reconstructed index, which is 1 where the data was reconstructed and 0 elsewhere', 60)
    chk.rule('indexes', 'the other data indexes are as before', 60)
    chk.rule('elements', 'the elements of the result are at the times of those of the series', 60)
    chk.rule('form', 'in place gives nothing back, otherwise a series is given back and the original is as before', 60)
    cases = [(q, form, labels, kind) for q in ('Filler', 'ListFiller') for form, labels, kind in
             (('points', 'a', 'dict'), ('slots', 'ab', 'dict'), ('points', 'ab', 'list'), ('days', 'a', 'dict'))]
    cases += [('LinearInterpolationReconstructor', 'points', 'ab', 'dict'), ('LinearInterpolationReconstructor', 'slots', 'a', 'dict'), ('LinearInterpolationReconstructor', 'points', 'ab', 'list'),
              ('PeriodicAverageReconstructor', 'points', 'a', 'dict'), ('PeriodicAverageReconstructor', 'slots', 'a', 'dict')]
    chk.rule('sides', 'a gap with no element before or after it is refused by reconstructors which need both', 10)
    for q in ('LinearInterpolationReconstructor', 'PeriodicAverageReconstructor'):
        for form in ('points', 'slots'):
            for gaps in ('1000', '0001', '1100', '0011', '1001', '1111', '1010', '0101'):
                ls = [1.0 if g == '1' else 0.0 for g in gaps]
                for inplace in (False, True):
                    name = '{}.apply of {} with gaps {}{}'.format(q, form, gaps, ', in place' if inplace else '')
                    with chk.guard('sides', name):
                        s = Scn(I)
                        m = s.new(MO + 'reconstructors.' + q)
                        if q.startswith('Periodic'):
                            fitted_state(s, m, Src(chk, I, form, 6, labels=('a',), prefix='f', s=s, loss0=True).ser, periodicity=kv(2))
                        src = Src(chk, I, form, 4, labels=('a',), s=s, losses=ls)
                        refused(chk, 'sides', name, s, s.method(m, 'apply'), src.ser, inplace=kv(inplace))
    thresholds = (1.0, 0.5, 0.0) if not deep else (1.0, 0.5, 0.25, 0.0, 1)
    for q, form, labels, kind in cases:
        toy = 'Filler' in q
        n_ = (4 if toy else 5) + (1 if deep else 0)
        for inplace in (False, True):
            for k, gaps in layouts(n_, deep, sides=not toy):
                thr = thresholds[(k + inplace) % len(thresholds)]
                name = '{}.apply of {} {}, losses {}, threshold {}{}'.format(q, form, kind, losses(gaps, thr, k), thr, ', in place' if inplace else '')
                with chk.guard('gaps', name):
                    s = Scn(I)
                    m = s.new((PR if toy else MO + 'reconstructors.') + q)
                    fit = None
                    if q.startswith('Periodic'):
                        fit = Src(chk, I, form, 6, labels=tuple(labels), kind=kind, prefix='f', s=s, loss0=True)
                        fitted_state(s, m, fit.ser, periodicity=kv(2))
                    src = Src(chk, I, form, n_, labels=tuple(labels), kind=kind, s=s, losses=losses(gaps, thr, k), indexes=('data_loss', 'ix' if k % 3 else 'data_reconstructed'))
                    kw = {}
                    if thr != 1.0 or k % 2:
                        kw['data_loss_threshold'] = kv(thr)
                    if inplace:
                        kw['inplace'] = kv(True)
                    base = guessed(s.st)
                    bs, raised = branches(s, s.method(m, 'apply'), src.ser, **kw)
                    sure = [r for r in raised if not guessed(r.st) - base]
                    if sure or not bs:
                        chk.viol('gaps', name, 'fails: {}'.format(describe(I, [], sure or raised)))
                        continue
                    value = counted if toy else linear(gaps, src) if fit is None else periodic(gaps, src, fit)
                    for b in bs:
                        if inplace:
                            chk.ok('form', name, b.val == VNONE, 'gives {}'.format(V.show(b.val, b.st)))
                            look(chk, name, src, b.st, items_of(b.st, src.ser), gaps, value)
                        else:
                            ch = changed(s.st, b.st, src.ser)
                            chk.ok('form', name, not ch, 'changes the original: {}'.format(ch[:2]))
                            look(chk, name, src, b.st, items_of(b.st, b.val), gaps, value)
