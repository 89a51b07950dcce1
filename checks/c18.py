"""C18: evaluations never let a model see what it has to predict."""
from checks.evals import *
from checks.c12 import Calls
import re

AD = MO + 'anomaly_detectors.'


def seen_in(val):
    """The symbols in a value, or None."""
    out = set()
    for a in val:
        e = X.of(a)
        if e is None:
            return None
        out |= X.symbols(e)
    return out


def where(sym_, prefix='v'):
    """(position, label) of a symbol of the series."""
    m = re.match(prefix + r'(\d+)([a-z])$', sym_)
    return (int(m.group(1)), m.group(2)) if m else None


def leaks(val, i, target=None):
    """What a prediction for the element i has which it must not. With context, the other labels of that element are fine."""
    syms = seen_in(val)
    if syms is None:
        return None
    out = []
    for s_ in sorted(syms):
        w = where(s_)
        if w and w[0] >= i and not (w[0] == i and target and w[1] not in target):
            out.append(s_)
    return out


def judge(chk, rule, name, val, i, target=None, something=True):
    bad = leaks(val, i, target)
    if bad is None:
        chk.undecided(rule, name, 'prediction not known: {}'.format(V.show(val)))
    else:
        chk.ok(rule, name, not bad, 'the prediction for the element {} depends on {} of the series'.format(i, ', '.join('{} of the element {}'.format(*reversed(where(x))) for x in bad[:3])))
        if something and not bad:
            syms = seen_in(val)
            if target and len(target) < 2:
                ctx = [x for x in syms if where(x) and where(x)[0] == i]
                chk.ok('context', name, bool(ctx), 'the prediction with context has no context data')


def model(s, q, src, labels, **kw):
    m = s.new(PR + q if q in ('Echo', 'Summer', 'AttrEcho') else MO + 'forecasters.' + q, **{a: kv(b) for a, b in kw.pop('init', {}).items()})
    if q != 'AttrEcho':
        bs, raised = branches(s, s.method(m, 'fit'), src.ser, **{a: kv(b) for a, b in kw.items()})
        if not bs:
            raise Failed('the fit cannot complete: {}'.format(describe(s.I, [], raised)))
        s.st = bs[0].st
    return m


def evaluated(chk, rule, name, s, m, src, labels, target):
    bs, raised = branches(s, s.method(m, 'evaluate'), src.ser, return_results_series=kv(True), error_metrics=s.list(kv('MSE')))
    if not bs:
        chk.viol(rule, name, 'fails: {}'.format(describe(s.I, [], raised)))
        return
    for b in bs:
        got = keyed(b.st, b.val)
        its = items_of(b.st, got['series']) if got and 'series' in got else None
        if its is None:
            chk.undecided(rule, name, 'results not known')
            continue
        n_pred = 0
        for it in its:
            d = data_of(b.st, it)
            i = src.t.index(time_of(b.st, it))
            for l in labels:
                if l + '_pred' in d:
                    n_pred += 1
                    judge(chk, rule, '{}, element {}'.format(name, i), d[l + '_pred'], i, target)
        chk.ok(rule, name, n_pred > 0, 'nothing is predicted')


def forecasters(chk, I, deep):
    n_ = 6 if deep else 5
    cases = [('Summer', 'points', 'a', dict(init=dict(window=1)), 1, None), ('Summer', 'slots', 'ab', dict(init=dict(window=2)), 2, None), ('AttrEcho', 'points', 'a', {}, 1, None),
             ('Summer', 'points', 'ab', dict(init=dict(window=1), target='a', with_context=True), 1, 'a'), ('Summer', 'slots', 'abc', dict(init=dict(window=2), target='b', with_context=True), 2, 'b'),
             ('Summer', 'days', 'ab', dict(init=dict(window=3, form='lists'), target='b', with_context=True), 3, 'b'),
             ('Echo', 'points', 'a', dict(init=dict(window=0)), 0, None),
             ('PeriodicAverageForecaster', 'points', 'a', dict(periodicity=2), 2, None), ('PeriodicAverageForecaster', 'slots', 'ab', dict(periodicity=2), 2, None)]
    for q, form, labels, kw, w, target in cases:
        name = '{}.evaluate of {} {}, window {}{}'.format(q, form, ','.join(labels), w, ', target {} with context'.format(target) if target else '')
        with chk.guard('evaluate', name):
            s = Scn(I)
            m = model(s, q, Positive(chk, I, form, 6, labels=tuple(labels), s=s, prefix='f'), labels, **kw)
            src = Positive(chk, I, form, n_, labels=tuple(labels), s=s)
            evaluated(chk, 'evaluate', name, s, m, src, labels, target)


def detectors(chk, I, deep):
    for q, form, labels, w, context in [('Summer', 'points', 'a', 1, False), ('Summer', 'slots', 'ab', 2, False), ('Summer', 'points', 'ab', 1, True), ('Summer', 'points', 'abc', 2, True),
                                        ('PeriodicAverage', 'points', 'a', 2, False), ('PeriodicAverage', 'slots', 'ab', 2, False)]:
        name = 'detector based on {} on {} {}, window {}{}'.format(q, form, ','.join(labels), w, ' with context' if context else '')
        with chk.guard('detectors', name):
            n_ = 6 if len(labels) < 3 else 5
            s = Scn(I)
            src = Positive(chk, I, form, n_, labels=tuple(labels), s=s)
            if q == 'Summer':
                m = s.new(AD + 'ModelBasedAnomalyDetector', s.cls(PR + q), kv(w))
                args = dict(error_metric=kv('E'), with_context=kv(context))
            else:
                m = s.new(AD + 'PeriodicAverageAnomalyDetector')
                args = dict(error_metric=kv('E'), periodicity=kv(2))
            if q != 'Summer':
                src = Positive(chk, I, form, n_, labels=tuple(labels), s=s, prefix='f')
            bs, raised = branches(s, s.method(m, 'fit'), src.ser, **args)
            if not bs:
                chk.viol('detectors', name, 'fails: {}'.format(describe(I, [], raised)))
                continue
            b0 = bs[0]
            if q == 'Summer':
                d = data_dict(b0.st, m)
                got = keyed(b0.st, d.get('predicted_values', EMPTY)) or {}
                for l in labels:
                    ob = one(b0.st, got.get(l, EMPTY))
                    if ob is None or not ob.items:
                        chk.undecided('detectors', name, 'predicted values not known')
                        continue
                    for j, v in enumerate(ob.items):
                        i = n_ - len(ob.items) + j
                        judge(chk, 'detectors', '{}, fit, element {}'.format(name, i), v, i, l if context else None)
            # On another series
            s.st = b0.st
            other = Positive(chk, I, form, n_, labels=tuple(labels), s=s, prefix='v')
            if context and q == 'Summer' and len(labels) > 2 and not deep:
                continue
            bs, raised = branches(s, s.method(m, 'preprocess'), other.ser)
            for b in bs[:2]:
                ser = one(b.st, b.val)
                got = keyed(b.st, ser.fields.get('predictions', EMPTY)) if ser is not None else None
                if got is None:
                    chk.undecided('detectors', name, 'predictions not known')
                    continue
                for i, v in got.items():
                    for l, x in (keyed(b.st, v) or {}).items():
                        judge(chk, 'detectors', '{}, preprocess, element {}'.format(name, i), x, i, l if context else None)
            bs, raised = branches(s, s.method(m, 'apply'), other.ser, details=s.list(kv('pred')), index_bounds=s.list(kv(1.0), kv(2.0)))
            for b in bs[:3]:
                its = items_of(b.st, b.val)
                if not its:
                    chk.undecided('detectors', name, 'applied series not known')
                    continue
                for it in its:
                    i = src.t.index(time_of(b.st, it))
                    dd = data_of(b.st, it)
                    for l in labels:
                        if l + '_pred' in dd:
                            judge(chk, 'detectors', '{}, apply, element {}'.format(name, i), dd[l + '_pred'], i, l if context else None)


def rows(st, val):
    """A value of nested lists as such, of values."""
    ob = one(st, val)
    if ob is None or ob.kind == 'dict' or ob.items is None:
        return val
    return [rows(st, x) for x in ob.items]


def flat(r):
    return [y for x in r for y in flat(x)] if isinstance(r, list) else [r]


def lstm(chk, I, deep):
    """What is handed to Keras: for fitting, features and targets; for predicting, features."""
    n_ = 5
    for form, labels, window, features, target in [('points', 'a', 1, ['values'], None), ('points', 'ab', 2, ['values', 'diffs'], None), ('slots', 'ab', 2, ['values', 'hours'], None),
                                                   ('points', 'ab', 1, ['values'], 'a'), ('points', 'abc', 2, ['values', 'diffs'], 'b'), ('slots', 'ab', 2, ['values', 'diffs'], 'b')]:
        name = 'LSTMForecaster on {} {}, window {}, features {}{}'.format(form, ','.join(labels), window, features, ', target {} with context'.format(target) if target else '')
        with chk.guard('lstm', name):
            s = Scn(I)
            src = Positive(chk, I, form, n_, labels=tuple(labels), s=s)
            m = s.new(MO + 'forecasters.LSTMForecaster', window=kv(window), features=s.list(*[kv(x) for x in features]))
            kw = dict(normalize=kv(False))
            if target:
                kw.update(target=kv(target), with_context=kv(True))
            calls = Calls()
            I.monitors.append(calls)
            try:
                bs, raised = branches(s, s.method(m, 'fit'), src.ser, **kw)
            finally:
                I.monitors.remove(calls)
            if not bs:
                chk.viol('lstm', name, 'fails: {}'.format(describe(I, [], raised)))
                continue
            sets = [(rows(st, a[0]), rows(st, a[1])) for d, st, a, k_ in calls.calls if d.endswith('Sequential().fit') and len(a) > 1]
            if not sets:
                chk.undecided('lstm', name, 'no fit found')
                continue
            xs, ys = sets[-1]
            if not isinstance(xs, list) or not isinstance(ys, list) or len(xs) != len(ys):
                chk.undecided('lstm', name, 'arrays not known')
                continue
            for x, y in zip(xs, ys):
                target_syms = set()
                for v in flat(y):
                    target_syms |= seen_in(v) or set()
                at = {where(t)[0] for t in target_syms if where(t)}
                if len(at) != 1:
                    chk.undecided('lstm', name, 'targets not known')
                    continue
                i = at.pop()
                for v in flat(x):
                    if seen_in(v) is not None:
                        judge(chk, 'lstm', '{}, fit, element {}'.format(name, i), v, i, target, something=False)
            # Evaluating
            s.st = bs[0].st
            evaluated(chk, 'lstm', name + ', evaluate', s, m, src, labels, target)


def rounds(chk, I, deep):
    for n_, r in [(6, 2), (6, 3), (7, 3), (8, 4), (5, 5), (9, 4)] + ([(10, 3), (11, 5), (9, 2)] if deep else []):
        for q, kw in (('Rounds', {}), ('Updates', {}), ('Updates', dict(window=kv(2)))):
            name = '{}{}.cross_validate(rounds={}) of {} elements'.format(q, ' with a window' if kw else '', r, n_)
            with chk.guard('rounds', name):
                s = Scn(I)
                src = Src(chk, I, 'points', n_, labels=('a',), s=s, loss0=True)
                m = s.new(PR + q, **kw)
                bs, raised = branches(s, s.method(m, 'cross_validate'), src.ser, rounds=kv(r))
                if not bs:
                    chk.viol('rounds', name, 'fails: {}'.format(describe(I, [], raised)))
                    continue
                for b in bs:
                    f = fields(b.st, m)
                    lists = [one(b.st, f.get(x, EMPTY)) for x in ('fits', 'updates', 'evaluations')]
                    if any(o_ is None or o_.items is None for o_ in lists):
                        chk.undecided('rounds', name, 'rounds not known')
                        continue
                    fits, ups, evs = [[seen_in(v) for v in o_.items] for o_ in lists]
                    chk.ok('rounds', name, len(fits) == len(evs) == r, '{} fits and {} evaluations instead of {}'.format(len(fits), len(evs), r))
                    for k_, (x, u, e) in enumerate(zip(fits, ups, evs)):
                        if x is None or u is None or e is None:
                            chk.undecided('rounds', name, 'elements not known')
                            continue
                        both = sorted((x | u) & e)
                        chk.ok('rounds', '{}, round {}'.format(name, k_ + 1), not both and bool(x) and bool(e), '{} both fitted and evaluated'.format(', '.join(both)) if both else 'nothing fitted or evaluated')


def run(chk):
    I = chk.interp(probe=PROBE_EVAL)
    install(I)
    deep = chk.tier != 'quick'
    chk.assumptions.append('Models whose predictions are the sum of everything they are given show what they have seen; for neural networks, what is handed to Keras is looked at.')
    chk.rule('evaluate', 'evaluating a forecaster, the prediction for an element depends on elements before it only (but for the context, which is of the same element)', 25)
    chk.rule('detectors', 'fitting, preprocessing for and applying an anomaly detector based on a forecaster, the prediction for an element depends on elements before it only (but for the context)', 40)
    chk.rule('context', 'with context, the other labels of the element are given', 10)
    chk.rule('lstm', 'what is handed to the neural network for an element, in the fit and in the evaluation, is of elements before it only (but for the context)', 60)
    chk.rule('rounds', 'in each round of cross validation, no element is used for both the fit and the evaluation', 40)
    try:
        forecasters(chk, I, deep)
        detectors(chk, I, deep)
        lstm(chk, I, deep)
        rounds(chk, I, deep)
    finally:
        forget()
