"""C14: elements with too much data loss never enter a fit, an evaluation of a reconstructor or an anomaly index."""
from checks.detect import *
from checks.c12 import Calls
from checks.c17 import samples

# The limit given (or the default one), and the data losses
PATTERNS = [
    (None, [0.0, 0.5, 1.0, 0.0, 0.99, 0.0, 0.2, 0.0]),
    (None, ['absent', 0.0, 0.0, 1.0, 1.0, 'absent', 0.0, 0.0]),
    (None, [None, 0.0, None, 1.0, 0.0, 0.0, 0.0, None]),
    (0.5, [0.0, 0.5, 0.49, 0.0, 0.0, 0.51, 0.0, 0.0]),
    (0.5, [1.0, 0.0, 0.0, 0.2, 0.0, 0.0, 0.0, 0.5]),
    (0.5, ['absent', None, 0.4, 0.1, 0.5, 0.0, None, 0.3]),
    (0.2, [0.0, 0.1, 0.1, 0.1, 0.3, 0.1, 0.1, 0.1]),
    (None, [0.9999, 0.996, 0.0, 1.0, 0.0, 0.9951, 0.0, 0.0]),
    (0.5, [0.4999, 0.0, 0.4996, 0.0, 0.5, 0.0, 0.495, 0.0]),
    (0, [None, 'absent', 'absent', None, 0.0, None, None, 'absent']),
    (0.0, ['absent', None, None, 0.1, None, None, 'absent', 0.0]),
    ('none', [0.0, 1.0, 0.5, 1.0, 0.0, 0.3, 1.0, 0.0]),
]
HOPELESS = [(None, [1.0] * 8), (0.5, [0.5, 0.6, 0.7, 1.0, 0.5, 0.5, 0.9, 1.0]), (0, [0.0] * 8), (0.0, [0.5] * 8)]


def lossy(limit, losses):
    """The positions of what is to be excluded."""
    if limit == 'none':
        return set()
    lim = 1.0 if limit is None else limit
    return {i for i, x in enumerate(losses) if x not in ('absent', None) and x >= lim}


def given(limit, name='data_loss_limit'):
    return {} if limit is None else {name: VNONE if limit == 'none' else kv(limit)}


def syms(val, out):
    for a in val:
        if a[0] in ('t',):
            for v in a[1]:
                syms(v, out)
        e = X.of(a)
        if e is not None:
            out |= X.symbols(e)


def symbols_in(st, vals):
    """The symbols of all the values reachable from some others."""
    out = set()
    for val in vals:
        syms(val, out)
        for oid in reach(st, val):
            ob = st.get(oid)
            for c in ob.children():
                syms(c, out)
    return out


class Learnt(object):
    """What external libraries are given to learn from."""

    def __init__(self):
        self.vals = []

    def on_ext(self, I, st, dotted, args, kwargs, node):
        if dotted.endswith('.fit') and dotted.split('.')[0] in ('keras', 'tensorflow'):
            self.vals.append((st, list(args) + list(kwargs.values())))


CASES = [
    ('forecasters.PeriodicAverageForecaster', {}, dict(periodicity=2)),
    ('forecasters.PeriodicAverageForecaster', {}, dict(periodicity=3)),
    ('forecasters.PeriodicAverageForecaster', dict(window=2), dict(periodicity=2)),
    ('reconstructors.PeriodicAverageReconstructor', {}, dict(periodicity=2)),
    ('reconstructors.PeriodicAverageReconstructor', {}, dict(periodicity=3)),
    ('forecasters.LSTMForecaster', dict(window=1), dict(normalize=False)),
    ('forecasters.LSTMForecaster', dict(window=2), dict(normalize=False)),
    ('forecasters.LSTMForecaster', dict(window=1), dict(normalize=True)),
    ('forecasters.LSTMForecaster', dict(window=2, features=('values', 'diffs')), dict(normalize=False)),
    ('forecasters.LSTMForecaster', dict(window=2), dict(normalize=False, target='a', with_context=True)),
]


def make(s, q, kw):
    return s.new(MO + q, **{a: (s.list(*[kv(x) for x in b]) if isinstance(b, tuple) else kv(b)) for a, b in kw.items()})


def fits(chk, I, deep, cases=CASES, patterns=PATTERNS, hopeless=HOPELESS):
    for q, init, args in cases:
        for form, labels in (('points', 'a'), ('slots', 'ab')) if 'Reconstructor' not in q else (('points', 'a'), ('slots', 'a')):
            if args.get('with_context'):
                labels = 'ab'
            name0 = '{}({}).fit({}) on {} {}'.format(q.split('.')[1], init, args, form, labels)
            for limit, losses in patterns:
                name = '{}, limit {}, losses {}'.format(name0, limit, losses)
                with chk.guard('excluded', name):
                    s = Scn(I)
                    src = Walk(chk, I, form, len(losses), labels=tuple(labels), s=s, losses=losses)
                    m = make(s, q, init)
                    mon = Learnt()
                    I.monitors.append(mon)
                    try:
                        bs, raised = branches(s, s.method(m, 'fit'), src.ser, **dict({a: kv(b) for a, b in args.items()}, **given(limit)))
                    finally:
                        I.monitors.remove(mon)
                    if not bs:
                        chk.viol('excluded', name, 'fails: {}'.format(describe(I, [], raised)))
                        continue
                    out = lossy(limit, losses)
                    for b in bs:
                        got = symbols_in(b.st, [m])
                        for st, vals in mon.vals:
                            got |= symbols_in(st, vals)
                        use = set(range(len(losses))) - out
                        if 'LSTM' in q:
                            w = init['window']
                            use = {j for i in range(w, len(losses)) if not set(range(i - w, i + 1)) & out for j in range(i - w, i + 1)}
                        bad = sorted((i, l) for i in out for l in labels if src.sym(i, l) in got)
                        chk.ok('excluded', name, not bad, 'learns from {}'.format(bad))
                        if 'LSTM' in q and not mon.vals:
                            chk.undecided('included', name, 'no fit found')
                            continue
                        # The first and last value of each label are all what tells a value in the middle, for a diff
                        bad = sorted((i, l) for i in use for l in labels if src.sym(i, l) not in got)
                        if 'LSTM' in q and args.get('with_context'):
                            bad = [x for x in bad if x[1] == 'a']
                        chk.ok('included', name, not bad, 'does not learn from {}'.format(bad))
                        if 'Periodic' in q:
                            averages(chk, name, b, m, src, labels, use, args['periodicity'])
            for limit, losses in hopeless:
                name = '{}, limit {}, losses {}'.format(name0, limit, losses)
                with chk.guard('hopeless', name):
                    s = Scn(I)
                    src = Walk(chk, I, form, len(losses), labels=tuple(labels), s=s, losses=losses)
                    m = make(s, q, init)
                    refused(chk, 'hopeless', name, s, s.method(m, 'fit'), src.ser, **dict({a: kv(b) for a, b in args.items()}, **given(limit)))


def averages(chk, name, b, m, src, labels, use, period):
    """The averages, wherever they are kept: all those expected are there."""
    got = set()
    for oid in reach(b.st, m):
        for c in b.st.get(oid).children():
            for a in c:
                e = X.of(a)
                if e is not None and X.symbols(e):
                    got.add(e)
    for l in labels:
        for p in range(period):
            es = [src.v(i, l) for i in sorted(use) if (src.t[i] // src.step) % period == p]
            if es:
                exp = avg_(es)
                chk.ok('averages', '{}, "{}" {}'.format(name, l, p), any(X.equal(e, exp.i) for e in got), 'there is not the average of those below the limit, {}'.format(X.show(exp.i)[:80]))


def evaluations(chk, I, deep, patterns=PATTERNS):
    for w, ks in ((1, [1]), (1, [1, 2]), (1, [2]), (2, [1])):
        for form in ('points', 'slots'):
            for limit, losses in patterns:
                if limit == 'none':
                    continue
                name = 'BackFiller(window={}).evaluate(steps={}) of {}, limit {}, losses {}'.format(w, ks, form, limit, losses)
                out = lossy(limit, losses)
                n_ = len(losses)
                exps = []
                for which in (0, 1):
                    exp = []
                    for k_ in ks:
                        ps = [i for i in samples(n_, k_, w)[which] if not set(range(i - w, i + k_ + w)) & out]
                        exp.append((ps, [(i - 1, j) for i in ps for j in range(i, i + k_)]))
                    exps.append(exp)
                with chk.guard('evaluated', name):
                    s = Scn(I)
                    src = Walk(chk, I, form, n_, labels=('a',), s=s, losses=losses)
                    m = s.new(PR + 'BackFiller', window=kv(w))
                    bs, raised = branches(s, s.method(m, 'evaluate'), src.ser, steps=s.list(*[kv(k_) for k_ in ks]), metrics=s.list(kv('MAE')), **given(limit, 'data_loss_threshold'))
                    none = [not all(ps for ps, _ in exp) for exp in exps]
                    if not bs:
                        if any(none) and all(s.I.exc_name(e, r.st) == 'NotEnoughDataError' for r in raised for e in r.val):
                            chk.ok('evaluated', name)
                        else:
                            chk.viol('evaluated', name, 'fails: {}'.format(describe(I, [], raised)))
                        continue
                    for b in bs:
                        got = keyed(b.st, b.val)
                        if got is None or 'MAE' not in got:
                            chk.undecided('evaluated', name, 'scores not known')
                            continue
                        rs = []
                        for exp, no in zip(exps, none):
                            if not no:
                                rs.append(match(got['MAE'], avg_([mae([src.v(j, 'a') for _, j in e], [src.v(i, 'a') for i, _ in e]) for _, e in exp])))
                        chk.ok('evaluated', name, any(rs), 'the score is {}'.format(shown(got['MAE'])[:120]))


def indexes(chk, I, deep, patterns=PATTERNS):
    for q, form, labels in (('Echo', 'points', 'a'), ('Echo', 'slots', 'ab'), ('Backer', 'points', 'a'), ('Backer', 'slots', 'a')):
        for w in (1, 2):
            for limit, losses in patterns:
                if limit == 'none':
                    continue
                for pre in ((False, True) if w == 1 else (False,)):
                    name = '{} detector, window {}, on {} {}, limit {}, losses {}{}'.format(q, w, form, labels, limit, losses, ', preprocessed' if pre else '')
                    out = lossy(limit, losses)
                    n_ = len(losses)
                    with chk.guard('indexed', name):
                        s = Scn(I)
                        fs = Walk(chk, I, form, n_, labels=tuple(labels), s=s)
                        m = s.new(AD, model_class=s.cls(PR + q), window=kv(w))
                        fitted_state(s, m, fs.ser, error_metric=kv('E'))
                        src = Walk(chk, I, form, n_, labels=tuple(labels), s=s, losses=losses)
                        ser = s.do(s.method(m, 'preprocess'), src.ser) if pre else src.ser
                        bs, raised = branches(s, s.method(m, 'apply'), ser, index_bounds=s.list(kv(3.0), kv(5.0)), **given(limit, 'data_loss_threshold'))
                        if not bs:
                            chk.viol('indexed', name, 'fails: {}'.format(describe(I, [], raised)))
                            continue
                        for b in bs:
                            ps = positions(b, src)
                            if ps is None:
                                chk.undecided('indexed', name, 'items not known')
                                continue
                            chk.ok('all', name, set(range(w + 1, n_ - w if q == 'Backer' else n_)) <= {i for i, _ in ps}, 'the results have only the elements {}'.format([i for i, _ in ps]))
                            for i, it in ps:
                                ix = indexes_of(b.st, it)
                                around = set(range(i - w, i + w + 1 if q == 'Backer' else i + 1))
                                if ix is None:
                                    chk.undecided('indexed', name, 'indexes not known')
                                    continue
                                chk.ok('indexed', '{}, element {}'.format(name, i), ('anomaly' in ix) == (not around & out),
                                       'has {} anomaly index'.format('an' if 'anomaly' in ix else 'no'))


def run(chk):
    I = chk.interp(probe=PROBE_DETECT)
    install_detect(I)
    I.exact_loop = 12
    chk.assumptions.append('Keras learns from all of what its fit is given, and from nothing else.')
    deep = chk.tier != 'quick'
    chk.rule('excluded', 'nothing of what is at or above the limit is in the model, or handed to Keras', 100)
    chk.rule('included', 'all what is strictly below, or with no data loss, is', 100)
    chk.rule('averages', 'the averages are those of what is below the limit', 100)
    chk.rule('hopeless', 'a fit with nothing below the limit fails', 50)
    chk.rule('evaluated', 'the evaluation of a reconstructor is on all and only the areas, with their windows, which are below the limit', 40)
    chk.rule('indexed', 'elements which are, with their window, below the limit have an anomaly index, all others have not', 300)
    chk.rule('all', 'and are all in the results', 50)
    try:
        fits(chk, I, deep)
        evaluations(chk, I, deep)
        indexes(chk, I, deep)
    finally:
        forget()
