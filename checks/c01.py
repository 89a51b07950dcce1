"""C01: calls which are not in-place leave the series and the arguments as they were."""
from checks.mods import *
from checks.c10 import methods
from checks.c12 import cases
from checks.c19 import APPLY, EVALUATE, value
from tsa.scenario import _node

# What is meant to change the series
MUTATORS = {'append', 'insert', 'remove', 'pop', 'clear', 'extend', 'sort', 'reverse', 'change_tz', 'rename_data_label', 'remove_data_label',
            'remove_data_index', 'remove_data_loss'}
ARGS = {
    'as_tz': lambda s: [((kv(ROME),), {})], 'filter': lambda s: [((kv('a'),), {})], 'select': lambda s: [((kv('a=1'),), {})],
    'get': lambda s: [((), {'at_i': kv(1)}), ((), {'at_t': kv(T0)})], 'slice': lambda s: [((), {'from_i': kv(1)}), ((), {'from_t': kv(T0 + 1), 'to_t': kv(T0 + 9999)})],
    'view': lambda s: [((), {'from_i': kv(0), 'to_i': kv(2)})], 'index': lambda s: None, 'count': lambda s: None,
    'mavg': lambda s: None, 'rescale': lambda s: None, 'offset': lambda s: None, 'merge': lambda s: None, 'resample': lambda s: None, 'aggregate': lambda s: None,
    'save': lambda s: [((kv('/nowhere/x.csv'),), {}), ((kv('/nowhere/x.csv'),), {'overwrite': kv(True)})],
    'to_csv': lambda s: [((kv('/nowhere/x.csv'),), {})],
    'guess_resolution': lambda s: [((), {}), ((), {'confidence': kv(True)})],
    'from_dict': lambda s: None, 'from_json': lambda s: None, 'from_csv': lambda s: None, 'from_df': lambda s: None, 'load': lambda s: None,
    'plot': lambda s: None,
}


def ignorable(I, st, ser):
    """The private attributes of a series which only store what was detected (its resolution and alike), not what it is made of."""
    ob = one(st, ser)
    keep = ('_tz',)
    return lambda path, what: path.startswith('._') and path.count('.') == 1 and '[' not in path and path[1:] not in keep and what.startswith('unset')


def check_unchanged(chk, rule, name, st0, b, val, what='the series'):
    skip = ignorable(b.I, st0, val)
    d = [x for x in changed(st0, b.st, val) if not skip(*x)]
    chk.ok(rule, name, not d, '{} is changed: {}'.format(what, '; '.join('{} ({})'.format(p, w[:80]) for p, w in d[:3])))


def public_methods(I):
    """The public methods of a time series, from its classes."""
    out = {}
    for c in I.mro(('cls', DS + 'TimeSeries')):
        if c[0] != 'cls':
            continue
        for x in I.classes[c[1]].node.body:
            if x.__class__.__name__ == 'FunctionDef' and (not x.name.startswith('_') or x.name in ('__repr__', '__str__', '__len__', '__iter__', '__contains__', '__hash__')):
                if any(getattr(d, 'id', '') in ('classmethod', 'staticmethod') or getattr(d, 'attr', '') == 'setter' for d in x.decorator_list):
                    continue
                out.setdefault(x.name, any(getattr(d, 'id', '') == 'property' for d in x.decorator_list))
    return out


def run(chk):
    chk.rule('operations', 'an operation which is not in place leaves the series, its items and the arguments as they were', 60)
    chk.rule('transformations', 'resampling and aggregating leave the series, its items and the arguments as they were', 10)
    chk.rule('methods', 'every public method and attribute of a series which is not meant to change it leaves it as it was', 60)
    chk.rule('models', 'fitting, predicting with, applying, evaluating and cross validating a model, if not in place, leave the series and the arguments as they were', 150)
    I = chk.interp(probe=PROBE)
    models(chk, I)
    for op in OPS:
        for src in sources(chk, I, op, 4):
            name = '{} of {}'.format(op.name, src.name)
            with chk.guard('operations', name):
                bs, raised = call(src, op, inplace=False if op.inplace is True else None)
                for b in bs + raised:
                    check_unchanged(chk, 'operations', name, src.s0, b, src.ser)
                    for a in src.args:
                        if any(x[0] == 'r' for x in a):
                            check_unchanged(chk, 'operations', name, src.s0, b, a, 'an argument')
    for form in CONST:
        A = Src(chk, I, form, 3, prefix='u')
        B = Src(chk, I, form, 3, labels=('c',), prefix='w', s=A.s)
        name = 'merge of {}'.format(form)
        with chk.guard('operations', name):
            s = B.s
            m = s.method(A.ser, 'merge')
            bs, raised = branches(s, m, B.ser)
            for b in bs + raised:
                check_unchanged(chk, 'operations', name, s.st, b, A.ser)
                check_unchanged(chk, 'operations', name, s.st, b, B.ser)
    for src, how, unit, kw in transformations(chk, I, loss0=False):
        name = '{}({}) of {} at {}'.format(how, unit, src.name, src.when)
        with chk.guard('transformations', name):
            ops_ = [{}] if how == 'resample' else [{}, dict(operations=src.s.list(*[src.s.attr(av(('mod', 'timeseria.operations')), x) for x in ('min', 'max')]))]
            for kw in ops_:
                bs, raised = transform(src, how, unit, **kw)
                for b in bs + raised:
                    check_unchanged(chk, 'transformations', name, src.s0, b, src.ser)
                    for a in src.args:
                        if any(x[0] == 'r' for x in a):
                            check_unchanged(chk, 'transformations', name, src.s0, b, a, 'an argument')
    with chk.guard('methods', 'public methods'):
        for m, prop in sorted(public_methods(I).items()):
            if m in MUTATORS or m in [op.method for op in OPS if op.inplace is not None]:
                continue
            for form in ('points', 'variable', 'slots'):
                for kind in ('dict', 'list'):
                    src = Src(chk, I, form, 3, kind)
                    variants = ARGS.get(m, lambda s: [((), {})])(src.s)
                    for args, kw in variants or []:
                        name = '{}({}) of {}'.format(m, ','.join([V.show(a) for a in args] + ['{}={}'.format(x, V.show(y)) for x, y in kw.items()]), src.name)
                        with chk.guard('methods', name):
                            s = src.s.fork()
                            if prop:
                                res, ra = I._run(lambda: I.getattr(src.ser, m, s.st.copy(), I._scn_node(_node())))
                                bs = [Branch(I, st) for st, v in res] + [Branch(I, st) for st, e in ra]
                            else:
                                fv = s.method(src.ser, m)
                                bs, raised = branches(s, fv, *args, **kw)
                                bs = bs + raised
                            if not bs:
                                chk.undecided('methods', name, 'no outcome')
                            for b in bs:
                                check_unchanged(chk, 'methods', name, s.st, b, src.ser)


def models(chk, I):
    todo = []
    for q in bundled(I) + [PR + x for x in ('Learner', 'Filler', 'ListFiller')]:
        for n_, (what, labels, init, args) in enumerate(cases(I, q)):
            for form in ('points', 'slots') if 'ARIMA' not in q and (not n_ or chk.tier != 'quick') else ('points',):
                todo.append((q, what, labels, init, args, form))
    todo.append((MO + 'anomaly_detectors.ModelBasedAnomalyDetector', 'given the model', 'a', dict(model_class=av(('cls', MO + 'forecasters.PeriodicAverageForecaster'))), dict(periodicity=kv(2)), 'points'))
    for q, what, labels, init, args, form in todo:
        con = '{}{} on {}'.format(short(q), ' ' + what if what else '', form)
        with chk.guard('models', con):
            one_model(chk, I, q, con, labels, init, args, form)


def one_model(chk, I, q, con, labels, init, args, form):
    s = Scn(I)
    if init == 'features':
        init = dict(features=s.list(kv('values'), kv('diffs'), kv('hours')))
    m = s.new(q, **init)
    ms = methods(I, q)
    anc = ancestors(I, q)
    base = next((x for x in ('AnomalyDetector', 'Forecaster', 'Reconstructor') if any(c.endswith('.' + x) for c in anc)), None)
    labels = tuple(labels)
    src = Src(chk, I, form, 7, labels=labels, s=s, losses=[0.0] * 7, indexes=('data_loss', 'ix'), full=(3,) if base == 'Reconstructor' else ())
    lossy = Src(chk, I, form, 7, labels=labels, s=s, prefix='l', losses=[0.0, 0.0, None, 1.0, 0.25, 0.0, 0.0], indexes=('data_loss', 'ix'))
    if 'fit' in ms and 'evaluate' in ms and 'ARIMA' not in q and (chk.tier != 'quick' or not (' of ' in con or ' with ' in con)):
        long_ = Src(chk, I, form, 9, labels=labels, s=s, prefix='g', losses=[0.0] * 9)
        kw = dict(rounds=kv(2), **{'fit_' + a: b for a, b in args.items()})
        with chk.guard('models', con + ', cross_validate'):
            s1 = s.fork()
            look(chk, con + ', cross_validate', s1, s1.method(m, 'cross_validate'), [long_.ser], kw)
    if 'fit' in ms:
        for ser, of in ((src, ''), (lossy, ' of data with losses')):
            s1 = s.fork()
            look(chk, con + ', fit' + of, s1, s1.method(m, 'fit'), [ser.ser], dict(args))
        fitted_state(s, m, src.ser, **args)
    calls = []
    context = {}
    if 'context' in con:
        context = dict(context_data=s.dict({'b': av(num('float', '-0+', X.tag(X.sym('context'))))}))
    for meth in ms:
        if meth == 'predict':
            calls.append((meth, dict(model_args(I, q, meth), **context)))
            if base == 'Forecaster':
                calls.append((meth, dict(context, steps=kv(2))))
        elif meth == 'apply':
            calls += [(meth, {k_: value(s, v) for k_, v in kw.items()}) for kw in APPLY.get(base, [{}]) if not kw.get('inplace')]
            if context and base == 'Forecaster':
                calls.append((meth, dict(context)))
        elif meth == 'evaluate':
            calls += [(meth, {k_: value(s, v) for k_, v in kw.items()}) for kw in EVALUATE.get(base, [{}])]
    if base == 'Forecaster':
        calls.append(('forecast', dict(steps=kv(2))))
    if base == 'AnomalyDetector' and 'preprocess' in dir_(I, q):
        calls.append(('preprocess', {}))
    for n_, (meth, kw) in enumerate(calls):
        for ser, of in ((src, ''), (lossy, ' of data with losses')):
            name = '{}, {}({}){}'.format(con, meth, ', '.join('{}={}'.format(a, V.show(b, s.st)) for a, b in kw.items()), of)
            if meth == 'apply' and 'ARIMA' in q and (kw or chk.tier == 'quick'):
                continue
            if chk.tier == 'quick' and (calls[n_ - 1][0] == meth and n_ if ' of ' in name.split(',')[0] or ' with ' in name.split(',')[0] else of and meth not in ('apply', 'evaluate', 'predict')):
                continue
            with chk.guard('models', name):
                s1 = s.fork()
                look(chk, name, s1, s1.method(m, meth), [ser.ser], kw)
    if base == 'Forecaster' and 'predict' in ms:
        # Exactly as long as what is needed
        for k in (1, 2, 3):
            name = '{}, predict of the last {}'.format(con, k)
            with chk.guard('models', name):
                s1 = s.fork()
                view = s1.do(s1.method(src.ser, 'slice'), from_i=kv(7 - k))
                s2 = s1.fork()
                look(chk, name, s2, s2.method(m, 'predict'), [view], context)
                look(chk, name + ' of the original', s2, s2.method(m, 'predict'), [view], context, src.ser)


def dir_(I, q):
    return {x.name for c in I.classes[q].mro if c[0] == 'cls' for x in I.classes[c[1]].node.body if x.__class__.__name__ == 'FunctionDef'}


def look(chk, name, s, fv, args, kw, more=None):
    s0 = s.st
    bs, raised = branches(s, fv, *args, **kw)
    if not bs and not raised:
        chk.undecided('models', name, 'no outcome')
    for b in bs + raised:
        for a in args + ([more] if more is not None else []):
            check_unchanged(chk, 'models', name, s0, b, a)
        for k_, a in kw.items():
            if any(x[0] == 'r' for x in a):
                check_unchanged(chk, 'models', name, s0, b, a, 'the argument ' + k_)
