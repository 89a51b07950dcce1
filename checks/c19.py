"""C19: operations, transformations and predictions keep no state between calls."""
from checks.mods import *
from checks.ops import *
from checks.c10 import methods, MO
from checks.c20 import Under
from checks import evals, detect


def kept(s0, st, given):
    """What existed before a call, is not part of what it was given, and is now different."""
    own = set()
    for a in given:
        own |= set(reach(s0, a))
    out = []
    for oid in sorted(set(s0.heap) | set(st.heap), key=repr):
        o = s0.get(oid)
        if o is None or oid in own or (oid[0] == 'D' and tuple(oid[1:]) in own):
            continue
        p = st.get(oid)
        if p is o or p == o:
            continue
        if p is None:
            continue
        what = sorted(f for f in set(o.fields) | set(p.fields) if o.fields.get(f) != p.fields.get(f))
        kind = {'class': 'the class ', 'module': 'the module ', 'env': 'the function '}.get(o.kind, '')
        name = oid[1] if isinstance(oid, tuple) and len(oid) > 1 and isinstance(oid[1], str) else o.label() if o.kind == 'inst' else o.kind
        out.append('{}{}{}'.format(kind, name, ': ' + ', '.join(what) if what else ' (its content)'))
    return out


def check(chk, rule, con, s0, outs, given):
    """No outcome, also when failing, leaves anything behind."""
    if not outs:
        chk.undecided(rule, con, 'no outcome')
        return
    bad = []
    for b in outs:
        bad += kept(s0, b.st, given)
    chk.ok(rule, con, not bad, 'changes {}'.format('; '.join(sorted(set(bad))[:3])))


def operations(chk, I):
    for op in OPS:
        for src in sources(chk, I, op, 3 if not op.order else 4):
            for inplace in (None, True):
                if inplace and op.inplace is None:
                    continue
                con = '{} of {}{}'.format(op.name, src.name, ' in place' if inplace else '')
                with chk.guard('operations', con):
                    s1 = src.s.fork()
                    bs, raised = call(src, op, **({} if inplace is None else dict(inplace=inplace)))
                    check(chk, 'operations', con, src.s0, bs + raised, [src.ser] + list(src.args))
                    src.s.st = s1.st
    for name in ('max', 'min', 'avg', 'sum', 'select', 'merge', 'get'):
        for form in ('points', 'slots'):
            for label in (None, 'a'):
                con = '{} of {}{}'.format(name, form, '' if label is None else ' for a label')
                if label and name in ('select', 'merge', 'get'):
                    continue
                with chk.guard('operations', con):
                    s = Scn(I)
                    src = Src(chk, I, form, 3, s=s)
                    args = {'select': [kv('a=1')], 'get': [kv(1)], 'merge': [Src(chk, I, form, 3, labels=('c',), s=s, prefix='w').ser] if name == 'merge' else []}.get(name, [])
                    s0 = s.st
                    bs, raised = branches(s, s.attr(av(('mod', 'timeseria.operations')), name), src.ser, *args, **({} if label is None else dict(data_label=kv(label))))
                    check(chk, 'operations', con, s0, bs + raised, [src.ser] + args)


def transformed(chk, I):
    T = 'timeseria.transformations.'
    for src, how, unit, _ in transformations(chk, I, chk.tier != 'quick'):
        for kw in ({}, dict(ops=('avg', 'sum'))) if chk.tier == 'quick' else ({}, dict(ops=('min', 'max')), dict(ops=('avg', 'sum'))):
            if kw and how == 'resample':
                continue
            con = '{}({}{}) of {} {}'.format(how, unit, ', operations={}'.format(kw['ops']) if kw else '', src.n, src.when)
            with chk.guard('transformations', con):
                s = src.s
                s1 = s.fork()
                extra = dict(operations=s.list(*[s.attr(av(('mod', 'timeseria.operations')), o) for o in kw['ops']])) if kw else {}
                t = s.new(T + ('Resampler' if how == 'resample' else 'Aggregator'), kv(unit), **extra)
                s0 = s.st
                bs, raised = branches(s, s.method(t, 'process'), src.ser)
                check(chk, 'transformations', con, s0, bs + raised, [src.ser])
                # Used again, on the same and on another series, it gives what it gave
                for b in bs[:1]:
                    s2 = s.fork()
                    s2.st = b.st
                    again, r2 = branches(s2, s2.method(t, 'process'), src.ser)
                    x = [shown_items(b.st, b.val)]
                    y = [shown_items(c.st, c.val) for c in again]
                    chk.ok('again', con, bool(y) and all(z == x[0] for z in y), 'the second time gives {}, the first {}'.format(y[:1], x[0])[:300])
                s.st = s1.st


def shown_items(st, val):
    out = []
    for it in items_of(st, val):
        out.append((time_of(st, it), {k_: shown(v) for k_, v in (data_of(st, it) or {}).items()}, {k_: shown(v) for k_, v in (indexes_of(st, it) or {}).items()}))
    return out


APPLY = {
    'AnomalyDetector': [{}, dict(threshold=0.5), dict(index_type='linear'), dict(details=True), dict(inplace=True), dict(index_bounds=['avg_err', '1.5max_err'])],
    'Forecaster': [{}, dict(steps=2), dict(inplace=True)],
    'Reconstructor': [{}, dict(inplace=True), dict(data_loss_threshold=0.5)],
}
EVALUATE = {
    'AnomalyDetector': [],
    'Forecaster': [{}, dict(error_metrics=['MAE']), dict(return_evaluation_series=True), dict(steps=1)],
    'Reconstructor': [{}, dict(error_metrics=['MAE']), dict(steps=[1])],
}


def value(s, v):
    return s.list(*[kv(x) for x in v]) if isinstance(v, list) else kv(v)


def models(chk, I, quals, forms=('points',)):
    for q in quals:
        for form in forms:
            name = short(q) + ('' if form == 'points' else ' of ' + form)
            with chk.guard('models', name):
                s = Scn(I)
                src = Src(chk, I, form, 7, labels=('a',), s=s, loss0=True, full=() if 'LSTM' in q else (3,))
                m = s.new(q)
                ms = methods(I, q)
                if 'fit' in ms:
                    fitted_state(s, m, src.ser, **fit_args(I, q))
                anc = ancestors(I, q)
                base = next((x for x in ('AnomalyDetector', 'Forecaster', 'Reconstructor') if any(c.endswith('.' + x) for c in anc)), None)
                calls = []
                for meth in ms:
                    if meth == 'predict':
                        calls.append((meth, model_args(I, q, meth)))
                    elif meth == 'apply':
                        calls += [(meth, {k_: value(s, v) for k_, v in kw.items()}) for kw in (APPLY.get(base, [{}]) if chk.tier != 'quick' or 'ARIMA' not in q else [{}])]
                    elif meth == 'evaluate':
                        calls += [(meth, {k_: value(s, v) for k_, v in kw.items()}) for kw in EVALUATE.get(base, [{}])]
                if base == 'Forecaster':
                    calls.append(('forecast', dict(steps=kv(2))))
                if base == 'AnomalyDetector':
                    calls.append(('inspect', None))
                for n_, (meth, kw) in enumerate(calls):
                    con = '{}.{}({})'.format(name, meth, ', '.join('{}={}'.format(a, V.show(b, s.st)) for a, b in (kw or {}).items()))
                    with chk.guard('models', con):
                        s1 = s.fork()
                        fv = s1.method(m, meth)
                        s0 = s1.st
                        bs, raised = branches(s1, fv, *([] if kw is None else [src.ser]), **(kw or {}))
                        check(chk, 'models', con, s0, bs + raised, [src.ser] + list((kw or {}).values()))


def run(chk):
    chk.rule('operations', 'an operation leaves nothing behind in operations, modules, classes and default arguments', 100)
    chk.rule('transformations', 'nor does a transformation, in itself either', 14)
    chk.rule('again', 'which if used again gives the same', 14)
    chk.rule('models', 'nor the predict, apply, evaluate, forecast and inspect of a model', 50)
    I = chk.interp(probe=PROBE)
    operations(chk, I)
    transformed(chk, I)
    models(chk, I, bundled(I) + [PR + x for x in ('Filler', 'ListFiller')])
    if chk.tier != 'quick':
        models(chk, I, bundled(I), ('slots',))
