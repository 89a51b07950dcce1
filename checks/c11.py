"""C11: a model is fitted only once its fit has succeeded, and nothing but a fit changes what was learnt."""
from checks.mods import *
from checks.c10 import methods, WORK

ODD = {
    'PeriodicAverageForecaster': [dict(periodicity=kv('wrong')), dict(data_loss_limit=kv(0.0), periodicity=kv(2))],
    'PeriodicAverageReconstructor': [dict(offset_method=kv('wrong')), dict(periodicity=kv('wrong'))],
    'LSTMForecaster': [dict(minimize_error_metric=kv('wrong')), dict(target=kv('wrong')), dict(with_context=kv(True)), dict(target=kv('a'), with_context=kv(True))],
    'PeriodicAverageAnomalyDetector': [dict(error_metric=kv('wrong')), dict(with_context=kv(True)), dict(error_distribution=kv('auto'), periodicity=kv(2))],
    'LSTMAnomalyDetector': [dict(with_context=kv(True)), dict(error_metric=kv('AE'))],
}


def fitted_flag(st, m):
    return fields(st, m).get('fitted', EMPTY)


def learnt(st0, st1, m):
    """The changes in a model, but for those of the flag."""
    return [c for c in changed(st0, st1, m) if c[0] != '.fitted']


def run(chk):
    I = chk.interp(probe=PROBE)
    chk.assumptions.append('Series at known times and with unknown values; a call to an external library may fail, wherever it is.')
    r1 = chk.rule('fit-fails', 'wherever a fit fails, the model is not reported as fitted', floor=30)
    r2 = chk.rule('fit-completes', 'a model is reported as fitted after a fit which completes, and not before', floor=9)
    r3 = chk.rule('re-fit', 'if the fit of a fitted model fails, either nothing has changed or the model is not fitted any more', floor=9)
    r4 = chk.rule('learnt', 'predict, apply, evaluate and forecast never change what was learnt, nor the flag', floor=20)
    r5 = chk.rule('probe', 'creating a model, asking for its identifier or for what it implements never sets it as fitted', floor=10)
    r6 = chk.rule('cross-validation', 'a model is not fitted after a cross validation', floor=3)
    for q in bundled(I) + [PR + 'Learner']:
        name = short(q)
        ms = methods(I, q)
        if 'fit' in ms and 'evaluate' in ms and 'ARIMA' not in name:
            for rounds in (2, 3):
                con = '{}.cross_validate(rounds={})'.format(name, rounds)
                with chk.guard(r6, con):
                    s = Scn(I)
                    m = s.new(q)
                    src = Src(chk, I, 'points', 12, labels=('a',), s=s, loss0=True)
                    bs, raised = branches(s, s.method(m, 'cross_validate'), src.ser, rounds=kv(rounds), **{'fit_' + a: b for a, b in fit_args(I, q).items()})
                    for b in bs:
                        chk.ok(r6, con, fitted_flag(b.st, m) == kv(False), 'fitted is {} after it'.format(V.show(fitted_flag(b.st, m))))
        with chk.guard(r5, name):
            s = Scn(I)
            m = s.new(q)
            flag = fitted_flag(s.st, m)
            chk.ok(r5, name + '()', flag == kv(False), 'fitted is {}'.format(V.show(flag)))
            for meth in ('_is_fit_implemented', '_is_parametric'):
                bs, raised = branches(s, s.method(m, meth))
                for b in bs + raised:
                    ch = changed(s.st, b.st, m)
                    chk.ok(r5, '{}.{}'.format(name, meth), not ch, 'changes {}'.format(ch[:3]))
        if 'fit' not in ms:
            continue
        cases = [('a', {}, {}), ('a', dict(loss0=True), fit_args(I, q)), ('ab', dict(loss0=True), fit_args(I, q))]
        heavy = 'AnomalyDetector' in q
        if heavy:
            cases = cases[1:2]
        n_ = 5 if heavy else 6
        cases += [(l, dict(loss0=True), x) for x in ODD.get(name, []) for l in (('a', 'ab') if not heavy else ('a',))]
        if q == PR + 'Learner':
            cases += [('a', {}, dict(fail=kv(True)))]
        for labels, kw, args in cases:
            con = '{}.fit({}) of {}{}'.format(name, ', '.join('{}={}'.format(a, V.show(b)) for a, b in args.items()), ','.join(labels), '' if kw else ' with data losses')
            with chk.guard(r1, con):
                s = Scn(I)
                m = s.new(q)
                src = Src(chk, I, 'points', n_, labels=tuple(labels), s=s, **kw)
                fv = s.method(m, 'fit')
                I.implicit_all = True
                try:
                    bs, raised = branches(s, fv, src.ser, **args)
                finally:
                    I.implicit_all = False
                bad = [r for r in raised if fitted_flag(r.st, m) != kv(False)]
                if raised:
                    chk.ok(r1, con, not bad, 'fitted after: {}'.format(describe(I, [], bad)))
                for b in bs:
                    chk.ok(r2, con, fitted_flag(b.st, m) == kv(True), 'fitted is {} after the fit'.format(V.show(fitted_flag(b.st, m))))
        for labels in ('a', 'ab') if not heavy else ('a',):
            with chk.guard(r3, name):
                s = Scn(I)
                m = s.new(q)
                args = fit_args(I, q)
                src = Src(chk, I, 'points', n_, labels=tuple(labels), s=s, loss0=True)
                fv = s.method(m, 'fit')
                bs, raised = branches(s, fv, src.ser, **args)
                if not bs:
                    continue
                s.st = bs[0].st
                # Another fit, which fails
                other = [(Src(chk, I, 'slots', 6, labels=('a', 'b'), s=s, loss0=True, prefix='w').ser, args), (Src(chk, I, 'slots', 6, labels=('a',), s=s, loss0=True, prefix='w').ser, args),
                         (VNONE, {}), (s.new(DS + 'TimeSeries'), {})]
                for ser, kw in other + [(src.ser, x) for x in ODD.get(name, [])] + ([(src.ser, dict(fail=kv(True)))] if q == PR + 'Learner' else []):
                    con = '{}, another fit({})'.format(name, ', '.join('{}={}'.format(a, V.show(b)) for a, b in kw.items()))
                    s1 = s.fork()
                    I.implicit_all = True
                    try:
                        bs, raised = branches(s1, s1.method(m, 'fit'), ser, **kw)
                    finally:
                        I.implicit_all = False
                    bad = [r for r in raised if fitted_flag(r.st, m) != kv(False) and learnt(s1.st, r.st, m)]
                    if raised:
                        chk.ok(r3, con, not bad, bad and '{}, leaving the model fitted but changed: {}'.format(describe(I, [], bad[:1]), learnt(s1.st, bad[0].st, m)[:3]))
                for meth in [x for x in ms if x != 'fit'] + (['forecast'] if MO + 'forecasters.Forecaster' in ancestors(I, q) else []):
                    con = '{}.{}'.format(name, meth)
                    s1 = s.fork()
                    fv = s1.method(m, meth)
                    bs, raised = branches(s1, fv, src.ser, **model_args(I, q, meth))
                    for b in bs + raised:
                        ch = changed(s1.st, b.st, m, ignore=[('*', 'worked')])
                        chk.ok(r4, con, not ch, 'changes {}'.format(ch[:3]))
