"""C10: models refuse to work when they are not fitted, or when given the wrong series."""
from checks.mods import *

WORK = ('predict', 'apply', 'evaluate')


def methods(I, q):
    """The methods of a model which are not disabled."""
    out = []
    st = I.start()
    for meth in ('fit',) + WORK:
        for c in ancestors(I, q):
            if (c, meth) in DISABLED or c == MODEL:
                break
            if meth in st.get(('C', c)).fields:
                out.append(meth)
                break
    return out


DISABLED = {(MO + 'anomaly_detectors.AnomalyDetector', m) for m in ('predict', 'evaluate', 'cross_validate')}


def refused_as(chk, rule, name, s, m, meth, exc, *args, **kw):
    """The call is refused with one of the exceptions given, with nothing done on the model."""
    s = s.fork()
    before = s.st
    fv = s.method(m, meth)
    bs, raised = branches(s, fv, *args, **kw)
    if bs:
        sure = [b for b in bs if not guessed(b.st) - guessed(before)]
        if sure or not raised:
            chk.viol(rule, name, 'accepted')
        else:
            chk.undecided(rule, name, 'may be accepted, after decisions on unknown values at {}'.format(sorted(guessed(bs[0].st) - guessed(before))))
        return
    if not raised:
        chk.undecided(rule, name, 'no outcome')
        return
    for r in raised:
        e = next(iter(r.val))
        x = s.I.exc_name(e, r.st)
        if x == 'NotImplementedError' and never(s, m, meth, *args, **kw):
            continue
        if exc and x not in exc:
            chk.viol(rule, name, 'refused with {} only: {}'.format(x, describe(s.I, [], [r])))
            return
        ch = changed(before, r.st, m)
        if ch:
            chk.viol(rule, name, 'refused, but with changes in the model: {}'.format(ch[:3]))
            return
    chk.ok(rule, name)


def never(s, m, meth, *args, **kw):
    """The method is not implemented: refused as such also by the model when fitted."""
    s = s.fork()
    learn(s, m)
    bs, raised = branches(s, s.method(m, meth), *args, **kw)
    return not bs and bool(raised) and all(s.I.exc_name(e, r.st) == 'NotImplementedError' for r in raised for e in r.val)


def wrong_objects(s, src, I):
    """What is not a time series to work on."""
    yield 'a list', s.list(*src.items)
    yield 'None', VNONE
    yield 'an item', src.items[0]
    yield 'a series which is not a time one', s.new(DS + 'Series', kv(1), kv(2), kv(3))
    yield 'an empty time series', s.new(DS + 'TimeSeries')
    yield 'a variable resolution time series', Src(src.chk, I, 'variable', 5, labels=src.labels, s=s).ser


def different(chk, s, labels):
    """Series which are not like those of the fit, by resolution or by labels."""
    more = tuple(labels) + ('zz',)
    I = s.I
    yield 'another resolution', Src(chk, I, 'points', labels=labels, s=s, times=[T0 + 120 * i for i in range(6)]).ser
    yield 'a sub-multiple of the resolution', Src(chk, I, 'points', labels=labels, s=s, times=[T0 + 30 * i for i in range(6)]).ser
    yield 'slots of another resolution', Src(chk, I, 'slots', 6, labels=labels, s=s).ser
    yield 'slots of a calendar resolution', Src(chk, I, 'days', 6, labels=labels, s=s).ser
    yield 'one label more', Src(chk, I, 'points', 6, labels=more, s=s).ser
    yield 'other labels', Src(chk, I, 'points', 6, labels=more[1:], s=s).ser
    yield 'one item with other labels', Src(chk, I, 'points', 1, labels=more[1:], s=s).ser
    yield 'one item with a label more', Src(chk, I, 'points', 1, labels=more, s=s).ser
    yield 'one slot of another resolution', Src(chk, I, 'slots', 1, labels=labels, s=s).ser
    if len(labels) > 1:
        yield 'one label less', Src(chk, I, 'points', 6, labels=labels[1:], s=s).ser


def run(chk):
    I = chk.interp(probe=PROBE)
    chk.assumptions.append('Series at known times and with unknown values; external libraries return unknown objects.')
    r1 = chk.rule('unfitted', 'predict, apply, evaluate, forecast and save of a model not fitted raise NotFittedError, changing nothing', floor=20)
    r2 = chk.rule('not-a-time-series', 'fit, predict, apply and evaluate refuse what is not a non-empty, constant resolution time series', floor=60)
    r3 = chk.rule('resolution-labels', 'predict, apply and evaluate refuse series of another resolution or with other labels than those of the fit', floor=60)
    r4 = chk.rule('context', 'context data is refused by models fitted without and required by those fitted with', floor=3)
    r5 = chk.rule('accepted', 'the series of the fit, or one like it, is accepted', floor=8)
    own = [PR + 'Learner', PR + 'Set', PR + 'Coded']
    for q in bundled(I) + own:
        name = short(q)
        ms = methods(I, q)
        with chk.guard(r1, name):
            src = Src(chk, I, 'points', 6, labels=('a',))
            s = src.s
            m = s.new(q)
            fits = 'fit' in ms
            if fits:
                for meth in [x for x in ms if x != 'fit'] + ['save'] + (['forecast'] if MO + 'forecasters.Forecaster' in ancestors(I, q) else []):
                    with chk.guard(r1, '{}.{}'.format(name, meth)):
                        refused_as(chk, r1, '{}.{}'.format(name, meth), s, m, meth, ('NotFittedError',), *([kv('path')] if meth == 'save' else [src.ser]),
                                   **model_args(I, q, meth))
            for what, obj in wrong_objects(s, src, I):
                for meth in ms:
                    s1 = s.fork()
                    with chk.guard(r2, '{}.{} of {}'.format(name, meth, what)):
                        if fits and meth != 'fit':
                            learn(s1, m)
                        refused_as(chk, r2, '{}.{} of {}'.format(name, meth, what), s1, m, meth, ('TypeError', 'ValueError'), obj, **model_args(I, q, meth))
        if not fits and q != PR + 'Set':
            continue
        for labels in (('a',), ('a', 'b')):
            with chk.guard(r3, name):
                s1 = Scn(I)
                m = s1.new(q)
                if fits:
                    fs = Src(chk, I, 'points', 6, labels=labels, s=s1)
                    bs, raised = branches(s1, s1.method(m, 'fit'), fs.ser, **fit_args(I, q))
                    if not bs:
                        chk.ok(r3, '{} fitted on {}'.format(name, labels), len(labels) > 1, 'cannot be fitted: {}'.format(describe(I, [], raised)))
                        continue
                    s1.st = bs[0].st
                elif labels != ('a',):
                    continue
                for what, ser in different(chk, s1, labels):
                    for meth in ms:
                        if meth != 'fit':
                            con = '{}.{} of a series with {} (labels of the fit: {})'.format(name, meth, what, ','.join(labels))
                            with chk.guard(r3, con):
                                refused_as(chk, r3, con, s1, m, meth, ('TypeError', 'ValueError'), ser, **model_args(I, q, meth))
    for q in own:
        for meth in WORK:
            con = '{}.{}'.format(short(q), meth)
            for form, tz in (('points', None), ('points', ROME), ('slots', None), ('days', None)):
                if q == PR + 'Set' and form != 'points':
                    continue
                with chk.guard(r5, con):
                    s = Scn(I)
                    m = s.new(q)
                    fs = Src(chk, I, form, 6, labels=('a',), s=s, tz=tz)
                    if q == PR + 'Learner':
                        fitted_state(s, m, fs.ser)
                    ser = Src(chk, I, form, 4, labels=('a',), s=s, tz=tz).ser
                    accepted(chk, r5, '{} of {}'.format(con, form), s, s.method(m, meth), ser)
                    accepted(chk, r5, '{} of a view of {}'.format(con, form), s, s.method(m, meth), s.do(s.method(ser, 'view'), from_i=kv(0), to_i=kv(2)))
    # Context
    for meth in ('predict', 'apply'):
        con = 'Learner.' + meth
        with chk.guard(r4, con):
            s = Scn(I)
            m = s.new(PR + 'Learner')
            fs = Src(chk, I, 'points', 6, labels=('a', 'b'), s=s)
            fitted_state(s, m, fs.ser)
            ctx = s.dict({'b': kv(1.0)})
            if meth == 'predict':
                refused_as(chk, r4, con + ' with context data, not fitted with', s, m, meth, ('ValueError',), fs.ser, context_data=ctx)
            d = s.obj(m).fields['data']
            ob = s.obj(d)
            s.st.put(s.oid(d), ob.upd(kv={**ob.kv, V.k('context_data_labels'): s.list(kv('b')), V.k('target_data_labels'): s.list(kv('a'))}))
            refused_as(chk, r4, con + ' with no context data, fitted with', s, m, meth, ('ValueError',), fs.ser)
            if meth == 'predict':
                refused_as(chk, r4, con + ' with context_data=None, fitted with', s, m, meth, ('ValueError',), fs.ser, context_data=VNONE)
                refused_as(chk, r4, con + ' with empty context data, fitted with', s, m, meth, ('ValueError',), fs.ser, context_data=s.dict({}))
            accepted(chk, r4, con + ' with context data, fitted with', s, s.method(m, meth), fs.ser, context_data=ctx)
    for q in bundled(I):
        if q.endswith('LSTMForecaster'):
            with chk.guard(r4, short(q)):
                s = Scn(I)
                m = s.new(q)
                fs = Src(chk, I, 'points', 6, labels=('a', 'b'), s=s)
                b = fitted_state(s, m, fs.ser, target=kv('a'), with_context=kv(True))
                for meth in ('predict', 'apply', 'forecast'):
                    refused_as(chk, r4, '{}.{} with no context data, fitted with'.format(short(q), meth), s, m, meth, ('ValueError',), fs.ser)
                    refused_as(chk, r4, '{}.{} with context_data=None, fitted with'.format(short(q), meth), s, m, meth, ('ValueError',), fs.ser, context_data=VNONE)



def learn(s, m):
    """Sets a model as fitted on points every minute of label a."""
    ob = s.obj(m)
    s.st.put(s.oid(m), ob.upd(fields=dict(ob.fields, fitted=kv(True))))
    d = s.obj(m).fields['data']
    od = s.obj(d)
    s.st.put(s.oid(d), od.upd(kv={**od.kv, V.k('resolution'): s.new(UN + 'TimeUnit', kv('1m')), V.k('data_labels'): s.list(kv('a'))}))
