"""C17: each requested error metric is computed by its own formula, or refused."""
from checks.evals import *
from itertools import combinations


def requests(deep):
    ms = list(METRICS)
    out = [[m] for m in ms] + [ms, list(reversed(ms))]
    out += [list(p) for p in combinations(ms, 2)] if deep else [['MAE', 'RMSE'], ['HAPE', 'MAPE'], ['MALE', 'HAE'], ['HALE', 'MSE'], ['MAPE', 'MAE', 'MALE']]
    return out


def same(chk, rule, name, got, exp):
    """A dictionary of values is the one expected."""
    if got is None:
        chk.undecided(rule, name, 'result not known')
        return
    if set(got) != set(exp):
        chk.viol(rule, name, 'scores {} instead of {}'.format(sorted(got), sorted(exp)))
        return
    bad = []
    for x in exp:
        r = match(got[x], exp[x])
        if r is None:
            chk.undecided(rule, name, '"{}": {}'.format(x, V.show(got[x])))
            return
        if not r:
            bad.append('"{}" is {} instead of {}'.format(x, shown(got[x])[:90], X.show(exp[x].i)[:90]))
    chk.ok(rule, name, not bad, '; '.join(bad[:2]))


def seen(st, m):
    return 'worked' in fields(st, m)


def fitted(s, I, q, src, **kw):
    m = s.new(PR + q, **{a: kv(b) for a, b in kw.items()})
    bs, raised = branches(s, s.method(m, 'fit'), src.ser)
    s.st = bs[0].st
    return m


def forecasters(chk, I, deep):
    for form, labels, n_, w, q, kw in [('points', 'a', 4, 1, 'Echo', {}), ('slots', 'ab', 4, 2, 'Echo', dict(form='lists')), ('points', 'a', 4, 2, 'Echo', dict(form='list')), ('points', 'ab', 3, 1, 'AttrEcho', None)]:
        for req in requests(deep) + ['auto', 'minimized'] if q == 'Echo' else [list(METRICS), 'auto']:
            for series_ in ((False, True) if req in ('auto',) or len(req) != 2 or deep else (False,)):
                name = '{}({}).evaluate({}{}) of {} {}'.format(q, kw, req, ', results series' if series_ else '', form, labels)
                with chk.guard('scores', name):
                    s = Scn(I)
                    src = Positive(chk, I, form, n_, labels=tuple(labels), s=s)
                    if q == 'Echo':
                        m = fitted(s, I, q, src, window=w, **dict(kw, **({'minimized': 'MALE'} if req == 'minimized' else {})))
                    else:
                        m = s.new(PR + q)
                    args = {}
                    if not isinstance(req, str):
                        args['error_metrics'] = s.list(*[kv(x) for x in req])
                    punctual = []
                    if series_:
                        punctual = {0: ['E'], 1: ['PE'], 2: ['LE'], 3: ['E', 'PE', 'LE']}[len(req) % 4] if not isinstance(req, str) else []
                        args['return_results_series'] = kv(True)
                        if punctual:
                            args['punctual_error_metrics'] = s.list(*[kv(x) for x in punctual])
                    ms = ['RMSE', 'MAE'] if req == 'auto' else ['MALE'] if req == 'minimized' else req
                    base = guessed(s.st)
                    bs, raised = branches(s, s.method(m, 'evaluate'), src.ser, **args)
                    sure = [r for r in raised if not guessed(r.st) - base]
                    if sure or not bs:
                        chk.viol('scores', name, 'fails: {}'.format(describe(I, [], sure or raised)))
                        continue
                    pos = range(w, n_)
                    exp, per = {}, {i: {} for i in pos}
                    for l in labels:
                        a, p = [src.v(i, l) for i in pos], [src.v(i - 1, l) for i in pos]
                        for x in ms:
                            exp['{}_{}'.format(l, x)] = METRICS[x](a, p)
                        for i in pos:
                            x, y = src.v(i, l), src.v(i - 1, l)
                            per[i][l], per[i][l + '_pred'] = x, y
                            for mm in ms:
                                if mm in BESIDES:
                                    per[i]['{}_{}'.format(l, BESIDES[mm][0])] = BESIDES[mm][1](x, y)
                            for mm in punctual:
                                per[i]['{}_{}'.format(l, mm)] = PUNCTUAL[mm](x, y)
                    for b in bs:
                        got = keyed(b.st, b.val)
                        res = got.pop('series', None) if got else None
                        same(chk, 'scores', name, got, exp)
                        if series_:
                            its = items_of(b.st, res) if res else None
                            if its is None:
                                chk.undecided('series', name, 'results series not known') if res else chk.viol('series', name, 'no results series')
                                continue
                            times = [time_of(b.st, it) for it in its]
                            if times != src.t[w:]:
                                chk.viol('series', name, 'elements at {} instead of {}'.format(times, src.t[w:]))
                                continue
                            for i, it in zip(pos, its):
                                same(chk, 'series', '{} item {}'.format(name, i), data_of(b.st, it), per[i])
    # Refusals
    for req, pun in [(['WRONG'], None), (['MSE', 'WRONG'], None), (['mse'], None), (['E'], None), (['AE'], None), (['RMSLE'], None), (['MSLE'], None), (['MAE'], ['WRONG']), (['MAE'], ['E', 'AE']), (['MAE'], ['MAE']), ('auto', ['RMSE'])]:
        name = 'evaluate({}, {})'.format(req, pun)
        with chk.guard('refused', name):
            s = Scn(I)
            src = Positive(chk, I, 'points', 4, labels=('a',), s=s)
            m = fitted(s, I, 'Echo', src)
            args = {} if req == 'auto' else dict(error_metrics=s.list(*[kv(x) for x in req]))
            if pun:
                args['punctual_error_metrics'] = s.list(*[kv(x) for x in pun])
            bs, raised = refused(chk, 'refused', name, s, s.method(m, 'evaluate'), src.ser, **args)
            chk.ok('refused first', name, not any(seen(r.st, m) for r in raised), 'predictions are made before refusing')


def samples(n_, k, w):
    """The positions from which a reconstructor is evaluated: those with the window on both sides, or not up to the end."""
    return [[i for i in range(w, n_) if i + k + w < n_], [i for i in range(w, n_) if i + k + w <= n_]]


def reconstructors(chk, I, deep):
    ms = {'RMSE': rmse, 'MAE': mae, 'MAPE': mape}
    reqs = [[m] for m in ms] + [['RMSE', 'MAE'], ['MAPE', 'MAE'], ['MAPE', 'RMSE'], list(ms)]
    for form, n_, w, steps in [('points', 5, 1, [1, 2]), ('points', 5, 1, 2), ('slots', 5, 1, [2]), ('points', 6, 2, [1]), ('points', 7, 1, 'auto'), ('points', 4, 0, [1, 2])]:
        for req in (reqs + [None] if steps == [1, 2] or deep else [reqs[-1], None]):
            for details in (False, True):
                for limit in (None, 1):
                    name = 'BackFiller(window={}).evaluate(steps={}, metrics={}, details={}, limit={}) of {} {}'.format(w, steps, req, details, limit, n_, form)
                    with chk.guard('reconstructors', name):
                        s = Scn(I)
                        src = Positive(chk, I, form, n_, labels=('a',), s=s)
                        m = s.new(PR + 'BackFiller', window=kv(w))
                        args = dict(details=kv(details), limit=kv(limit), steps=kv(steps) if not isinstance(steps, list) else s.list(*[kv(x) for x in steps]))
                        if req:
                            args['metrics'] = s.list(*[kv(x) for x in req])
                        base = guessed(s.st)
                        bs, raised = branches(s, s.method(m, 'evaluate'), src.ser, **args)
                        sure = [r for r in raised if not guessed(r.st) - base]
                        if sure or not bs:
                            chk.viol('reconstructors', name, 'fails: {}'.format(describe(I, [], sure or raised)))
                            continue
                        ks = steps if isinstance(steps, list) else [1, 2, 3] if steps == 'auto' else list(range(1, steps + 1))
                        exps = []
                        for which in (0, 1):
                            exp = {}
                            for x in req or ['RMSE', 'MAE']:
                                each = []
                                for k_ in ks:
                                    ps = samples(n_, k_, w)[which][:limit]
                                    a = [src.v(j, 'a') for i in ps for j in range(i, i + k_)]
                                    p = [src.v(i - 1, 'a') for i in ps for j in range(i, i + k_)]
                                    if w == 0:
                                        p = [src.v((i - 1) % n_, 'a') for i in ps for j in range(i, i + k_)]
                                    each.append(ms[x](a, p))
                                    if details:
                                        exp['{}_{}_steps'.format(x, k_)] = each[-1]
                                exp[x] = avg_(each)
                            exps.append(exp)
                        for b in bs:
                            got = keyed(b.st, b.val)
                            fits = [e for e in exps if got and set(got) == set(e) and all(match(got[x], e[x]) for x in e)]
                            same(chk, 'reconstructors', name, got, fits[0] if fits else exps[0])
    for req in (['WRONG'], ['RMSE', 'WRONG'], ['mae'], ['MSE'], ['HAE']):
        name = 'BackFiller.evaluate(metrics={})'.format(req)
        with chk.guard('refused', name):
            s = Scn(I)
            src = Positive(chk, I, 'points', 5, labels=('a',), s=s)
            m = s.new(PR + 'BackFiller')
            bs, raised = refused(chk, 'refused', name, s, s.method(m, 'evaluate'), src.ser, metrics=s.list(*[kv(x) for x in req]), steps=s.list(kv(1)))
            chk.ok('refused first', name, not any(seen(r.st, m) for r in raised), 'predictions are made before refusing')


ERRORS = {'E': PUNCTUAL['E'], 'AE': ae, 'PE': PUNCTUAL['PE'], 'APE': ape}


def detectors(chk, I, deep):
    AD = MO + 'anomaly_detectors.ModelBasedAnomalyDetector'
    for q, form, labels in (('Echo', 'points', 'a'), ('Echo', 'slots', 'ab'), ('BackFiller', 'points', 'a')):
        for metric in list(ERRORS) + [None]:
            name = 'detector based on {}, fit({}) on {} {}'.format(q, metric, form, labels)
            if q == 'BackFiller':
                continue    # models with no fit cannot be used by detectors
            with chk.guard('errors', name):
                s = Scn(I)
                src = Positive(chk, I, form, 6, labels=tuple(labels), s=s)
                m = s.new(AD, model_class=s.cls(PR + q))
                args = {} if metric is None else dict(error_metric=kv(metric))
                bs, raised = branches(s, s.method(m, 'fit'), src.ser, **args)
                if not bs:
                    chk.viol('errors', name, 'fails: {}'.format(describe(I, [], raised)))
                    continue
                for b in bs:
                    d = data_dict(b.st, m)
                    for what, f in (('actual_values', lambda x, y: x), ('predicted_values', lambda x, y: y), ('prediction_errors', ERRORS[metric or 'PE'])):
                        got = keyed(b.st, d.get(what, EMPTY)) if d else None
                        if got is None or set(got) != set(labels):
                            chk.viol('errors', name, '{} are {}'.format(what, got and sorted(got)))
                            continue
                        for l in labels:
                            ob = one(b.st, got[l])
                            if ob is None or ob.items is None:
                                chk.undecided('errors', name, '{} not known'.format(what))
                                continue
                            # From the window, or from right after it
                            exps = [[f(src.v(i, l), src.v(i - 1, l)) for i in range(k_, src.n)] for k_ in (2, 1)]
                            exp = exps[0] if len(ob.items) == len(exps[0]) else exps[1]
                            same(chk, 'errors', '{}, {}'.format(name, what), dict(enumerate(ob.items)), dict(enumerate(exp)))
    for metric in ('WRONG', 'SLE', 'MAE', 'e', 'RMSE'):
        name = 'detector, fit({})'.format(metric)
        with chk.guard('refused', name):
            s = Scn(I)
            src = Positive(chk, I, 'points', 6, labels=('a',), s=s)
            m = s.new(AD, model_class=s.cls(PR + 'Echo'))
            bs, raised = refused(chk, 'refused', name, s, s.method(m, 'fit'), src.ser, error_metric=kv(metric))
            inner = [r for r in raised if 'model' in fields(r.st, m) and seen(r.st, fields(r.st, m)['model'])]
            chk.ok('refused first', name, not inner, 'predictions are made before refusing')


def rounds(chk, I, deep):
    for n_, r, scale in [(6, 3, None), (6, 2, 3.0), (7, 3, None), (5, 2, None)]:
        for q in ('Rounds', 'Updates'):
            name = '{}.cross_validate(rounds={}{}) of {}'.format(q, r, ', evaluate_scale={}'.format(scale) if scale else '', n_)
            with chk.guard('rounds', name):
                s = Scn(I)
                src = Positive(chk, I, 'points', n_, labels=('a',), s=s)
                m = s.new(PR + q)
                kw = dict(evaluate_scale=kv(scale)) if scale else {}
                bs, raised = branches(s, s.method(m, 'cross_validate'), src.ser, rounds=kv(r), **kw)
                if not bs:
                    chk.viol('rounds', name, 'fails: {}'.format(describe(I, [], raised)))
                    continue
                each = n_ // r
                sums = [sum((src.v(j, 'a') for j in range(i * each, (i + 1) * each)), E.of(0)) for i in range(r)]
                exp = {}
                for x, f in (('ONE', scale or 1), ('TWO', 2)):
                    es = [e * f for e in sums]
                    exp[x + '_avg'], exp[x + '_stdev'] = avg_(es), stdev(es)
                for b in bs:
                    same(chk, 'rounds', name, keyed(b.st, b.val), exp)


def run(chk):
    I = chk.interp(probe=PROBE_EVAL)
    install(I)
    chk.assumptions.append('Positive values, in one order (in which no two errors are equal); the functions of scikit-learn and of the statistics module compute what their name tells.')
    deep = chk.tier != 'quick'
    chk.rule('scores', 'the scores of a forecaster are those requested, under their names, each being the formula of its metric on actual and predicted values', 40)
    chk.rule('series', 'the results series has for each element the predicted value and the errors requested, by their formulas', 40)
    chk.rule('refused', 'a metric which is not supported is refused', 15)
    chk.rule('refused first', 'and with no prediction made before', 15)
    chk.rule('reconstructors', 'the scores of a reconstructor are those requested, by their formulas, for each number of steps and as their average', 30)
    chk.rule('errors', 'the errors on which an anomaly detector is based are computed by the formula of their metric', 20)
    chk.rule('rounds', 'cross validation gives mean and standard deviation, over the rounds, of each of the scores of the model', 6)
    try:
        forecasters(chk, I, deep)
        reconstructors(chk, I, deep)
        detectors(chk, I, deep)
        rounds(chk, I, deep)
    finally:
        forget()
