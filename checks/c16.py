"""C16: the anomaly index stays at its bounds outside of the chosen range."""
import math
from checks.detect import *

BASES = [('Echo', 'points', 'a'), ('Echo', 'slots', 'ab'), ('Backer', 'points', 'a'), ('Echo', 'points', 'ab')]
# What is given as bounds, and what it means given the errors
BOUNDS = [
    ('3.5, 4', (3.5, 4.0), lambda es: (3.5, 4.0)),
    ('2.5, 5.5', (2.5, 5.5), lambda es: (2.5, 5.5)),
    ('0, 4', (0, 4), lambda es: (0, 4)),
    ('3, 5', (3.0, 5.0), lambda es: (3.0, 5.0)),
    ('6, 7', (6.0, 7.0), lambda es: (6.0, 7.0)),
    ('avg_err, max_err', ('avg_err', 'max_err'), lambda es: (sum(es) / len(es), max(es))),
    ('max_err, 6.0', ('max_err', 6.0), lambda es: (max(es), 6.0)),
    ('0.25_sigma, 1_sigma', ('0.25_sigma', '1_sigma'), lambda es: (0.25 * STDEV, STDEV)),
    ('0.5sig, 2sig', ('0.5sig', '2sig'), lambda es: (0.5 * STDEV, 2 * STDEV)),
    ('adherence/2, adherence/17', ('adherence/2', 'adherence/17'), lambda es: (1.0, 4.0)),
    ('1, adherence/10', (1.0, 'adherence/10'), lambda es: (1.0, 3.0)),
]
# In units of the actual value
RELATIVE = [
    ('0.2, 0.5', (0.2, 0.5), lambda es: (0.2, 0.5)),
    ('avg_err, max_err', ('avg_err', 'max_err'), lambda es: (sum(es) / len(es), max(es))),
    ('0.55, 0.57', (0.55, 0.57), lambda es: (0.55, 0.57)),
]
TOL = 1e-9


def reference(kind, x, lo, hi):
    if x <= lo:
        return 0.0
    if x >= hi:
        return 1.0
    y, y0, y1 = pdf(x), pdf(lo), pdf(hi)
    if kind == 'lin':
        return 1 - (y - y1) / (y0 - y1)
    if kind == 'log':
        return (math.log10(y) - math.log10(y0)) / (math.log10(y1) - math.log10(y0))
    return x * 3 + y * 5 + lo * 7 + hi * 11 + y0 * 13 + y1 * 17


COMBINE = {'max': max, 'min': min, 'avg': lambda xs: sum(xs) / len(xs), 'combine': lambda xs: xs[0] * 3 + xs[1] * 5}


def given(s, bounds, form):
    vals = [kv(b) for b in bounds]
    return s.list(*vals) if form == 'list' else s.tuple(*vals)


def near(a, b):
    return a is not None and abs(a - b) <= TOL * max(1.0, abs(b))


def close(chk, rule, name, got, exp):
    if got is None:
        chk.undecided(rule, name, 'value not known')
        return
    chk.ok(rule, name, near(got, exp), 'is {:.6g} instead of {:.6g}'.format(got, exp))


def errors_of(metric, src, base, w=1):
    """The absolute values of the errors of each label, by position, those of the fit, and the signed ones."""
    f = ERR[metric]
    out = {}
    for l in src.labels:
        out[l] = {i: f(float(src.num(i, l)), float(src.num(i - w, l))) for i in range(w, src.n)}
    return out


def apply(s, I, m, ser, **kw):
    return branches(s, s.method(m, 'apply'), ser, **kw)


def expected(src, metric, kind, bounds, strategy, threshold, first, last):
    errs = errors_of(metric, src, None)
    out = {}
    for i in range(1, src.n):
        xs = []
        for l in src.labels:
            lo, hi = bounds([abs(errs[l][j]) for j in range(first, last + 1)])
            a = reference(kind, abs(errs[l][i]), lo, hi)
            if threshold is not None:
                a = 0 if a < threshold else 1
            xs.append(a)
        out[i] = xs[0] if len(xs) == 1 else COMBINE[strategy](xs)
    return out


def case(chk, I, q, form, labels, metric='E', kind='log', bounds=BOUNDS[3], strategy=None, threshold=None, how='list', pre=False, n_=6, verbose=False, store=True, details=None):
    what = []
    if kind != 'log':
        what.append('index_type=' + kind)
    what.append('index_bounds={} of {}'.format(how, bounds[0]))
    if strategy:
        what.append('multivariate_index_strategy=' + strategy)
    if threshold is not None:
        what.append('threshold={}'.format(threshold))
    if pre:
        what.append('preprocessed')
    if not store:
        what.append('no errors stored')
    if details:
        what.append('details={}'.format(details))
    name = '{} detector ({}) of {} {}, apply({})'.format(q, metric, form, labels, ', '.join(what))
    with chk.guard('index', name):
        s = Scn(I)
        src = Walk(chk, I, form, n_, labels=tuple(labels), s=s)
        m = detector(s, q, src.ser, metric, **({} if store else dict(store_errors=kv(False))))
        ser = src.ser
        if pre:
            ser = s.do(s.method(m, 'preprocess'), ser)
        kw = dict(index_bounds=given(s, bounds[1], how))
        if kind == 'custom':
            kw['index_type'] = s.probe('custom')
        elif kind != 'log':
            kw['index_type'] = kv(kind)
        if strategy == 'combine':
            kw['multivariate_index_strategy'] = s.probe('combine')
        elif strategy:
            kw['multivariate_index_strategy'] = kv(strategy)
        if threshold is not None:
            kw['threshold'] = kv(threshold)
        if details:
            kw['details'] = kv(True) if details is True else s.list(*[kv(x) for x in details])
        bs, raised = apply(s, I, m, ser, **kw)
        if not bs:
            chk.viol('index', name, 'fails: {}'.format(describe(I, [], raised)))
            return
        # The errors known to the detector start from the window, or from right after it
        for b in bs:
            ps = positions(b, src)
            if ps is None:
                chk.undecided('index', name, 'items not known')
                continue
            must = set(range(2, n_ - 1 if q == 'Backer' else n_))
            missing = must - {i for i, _ in ps}
            chk.ok('items', name, not missing and [i for i, _ in ps] == sorted({i for i, _ in ps}), 'items in the results: {}'.format([i for i, _ in ps]))
            alts = [expected(src, metric, kind, bounds[2], strategy or 'max', threshold, first, n_ - 2 if q == 'Backer' else n_ - 1) for first in (2, 1)]
            for i, it in ps:
                ix = indexes_of(b.st, it)
                if ix is None:
                    chk.undecided('index', name, 'indexes not known')
                    continue
                if 'anomaly' not in ix:
                    chk.viol('index', '{}, element {}'.format(name, i), 'no anomaly index')
                    continue
                got = numeric(ix['anomaly'])
                exp = [e[i] for e in alts]
                close(chk, 'index', '{}, element {}'.format(name, i), got, next((e for e in exp if near(got, e)), exp[0]))
                d = data_of(b.st, it)
                if d is None:
                    chk.undecided('data', name, 'data not known')
                    continue
                exp = {l: src.v(i, l) for l in labels}
                for l in labels if details else ():
                    p = src.v(i - 1, l)
                    x = {'E': lambda a, c: a - c, 'PE': lambda a, c: (a - c) / a, 'AE': ae, 'APE': ape}[metric](src.v(i, l), p)
                    if X.value(x.i) < 0:
                        x = fn('abs', x)
                    if details is True or 'pred' in details:
                        exp[l + '_pred'] = p
                    if details is True or 'err' in details:
                        exp[l + '_err'] = x
                    if details is True or 'adh' in details:
                        exp[l + '_adh'] = E.of(1) / (x * x + 1)
                bad = ['labels are {}'.format(sorted(d))] if set(d) != set(exp) else []
                bad += ['"{}" is {}'.format(l, shown(d[l])[:80]) for l in exp if l in d and match(d[l], exp[l]) is False]
                chk.ok('data', '{}, element {}'.format(name, i), not bad, '; '.join(bad))


def settings(chk, I):
    for q, labels in (('Echo', 'a'), ('Echo', 'ab')):
        for name, kw in [('index_type="WRONG"', lambda s: dict(index_type=kv('WRONG'))), ('index_type="LOG"', lambda s: dict(index_type=kv('LOG'))),
                         ('index_type=1', lambda s: dict(index_type=kv(1))), ('index_type=None', lambda s: dict(index_type=VNONE)),
                         ('multivariate_index_strategy="mean"', lambda s: dict(multivariate_index_strategy=kv('mean'))),
                         ('multivariate_index_strategy="MAX"', lambda s: dict(multivariate_index_strategy=kv('MAX'))),
                         ('index_bounds=["average", "max_err"]', lambda s: dict(index_bounds=s.list(kv('average'), kv('max_err')))),
                         ('index_bounds=["avg_err", "max"]', lambda s: dict(index_bounds=s.list(kv('avg_err'), kv('max')))),
                         ('index_bounds=[2.5, "3"]', lambda s: dict(index_bounds=s.list(kv(2.5), kv('3')))),
                         ('details="pred"', lambda s: dict(details=kv('pred')))]:
            for lo, hi in ((3.0, 5.0), (6.0, 7.0)):
                con = '{} detector of {}, apply({}), index from {}'.format(q, labels, name, lo)
                with chk.guard('refused', con):
                    s = Scn(I)
                    src = Walk(chk, I, 'points', 6, labels=tuple(labels), s=s)
                    m = detector(s, q, src.ser)
                    args = dict(dict(index_bounds=s.list(kv(lo), kv(hi))), **kw(s))
                    bs, raised = refused(chk, 'refused', con, s, s.method(m, 'apply'), src.ser, **args)
                    bad = [s.I.exc_name(e, r.st) for r in raised for e in r.val]
                    legal = ('ValueError', 'NotImplementedError') + (('TypeError',) if 'details' in name or name[-1] in '1e' else ())
                    chk.ok('how', con, all(x in legal for x in bad) and not any('object is not' in describe(I, [], [r]) for r in raised), 'raises {}'.format(describe(I, [], raised)))


    for name in ('avg_err', 'max_err'):
        for how in ('list', 'tuple'):
            con = 'Echo detector with no errors stored, apply(index_bounds={} with "{}")'.format(how, name)
            with chk.guard('refused', con):
                s = Scn(I)
                src = Walk(chk, I, 'points', 6, labels=('a',), s=s)
                m = detector(s, 'Echo', src.ser, store_errors=kv(False))
                bs, raised = refused(chk, 'refused', con, s, s.method(m, 'apply'), src.ser, index_bounds=(s.list if how == 'list' else s.tuple)(kv(name), kv(9.0)))
                bad = [s.I.exc_name(e, r.st) for r in raised for e in r.val]
                chk.ok('how', con, all(x in ('ValueError', 'NotImplementedError') for x in bad), 'raises {}'.format(describe(I, [], raised)))


def run(chk):
    I = chk.interp(probe=PROBE_DETECT)
    install_detect(I)
    I.exact_loop = 12
    chk.assumptions.append('Errors in one order, centered in zero; a toy distribution of the errors, decreasing with their absolute value; a model which predicts the last value.')
    chk.rule('index', 'an error at or below the lower bound gives 0, at or above the upper one 1, and in the middle what its type tells, below and above a threshold 0 and 1, and those of more labels are combined as requested', 300)
    chk.rule('items', 'the results have all the elements for which a prediction can be made, in order', 40)
    chk.rule('data', 'the results have the original values, and the details requested only', 150)
    chk.rule('refused', 'unknown settings are refused', 20)
    chk.rule('how', 'and with an explanation', 20)
    try:
        for q, form, labels in BASES:
            for bounds in BOUNDS:
                for kind in ('log', 'lin', 'custom'):
                    if kind == 'custom' and bounds not in (BOUNDS[0], BOUNDS[3], BOUNDS[9]):
                        continue
                    case(chk, I, q, form, labels, kind=kind, bounds=bounds)
            for metric in ('AE', 'PE', 'APE'):
                for bounds in (BOUNDS[:4] if metric == 'AE' else RELATIVE):
                    case(chk, I, q, form, labels, metric=metric, bounds=bounds, kind='lin')
            for th in (0, 0.0, 0.25, 0.5, 1, 1.0):
                for bounds in (BOUNDS[3], BOUNDS[0]):
                    case(chk, I, q, form, labels, threshold=th, bounds=bounds, kind='lin')
            case(chk, I, q, form, labels, bounds=BOUNDS[3], threshold=0.5, kind='log')
            for bounds in (BOUNDS[3], BOUNDS[5], BOUNDS[7], BOUNDS[9]):
                case(chk, I, q, form, labels, bounds=bounds, how='tuple')
            case(chk, I, q, form, labels, pre=True)
            for bounds in (BOUNDS[3], BOUNDS[7]):
                case(chk, I, q, form, labels, bounds=bounds, store=False)
            for details in (True, ['pred'], ['err'], ['adh'], ['pred', 'adh']):
                case(chk, I, q, form, labels, details=details)
                case(chk, I, q, form, labels, details=details, bounds=BOUNDS[0], metric='PE', kind='lin')
            if len(labels) > 1:
                for strategy in COMBINE:
                    for kind in ('log', 'lin'):
                        for th in (None, 0.5):
                            case(chk, I, q, form, labels, strategy=strategy, kind=kind, threshold=th)
        settings(chk, I)
    finally:
        forget()
