"""C12: a model which was saved and loaded works as the one which was saved."""
from checks.mods import *
from checks.c10 import methods
from checks import fs

PATH = '/data/model'


def types(v):
    return {a[2] if a[0] == 'k' else a[1] if a[0] == 'n' else 'str' if a[0] == 's' else a[0] for a in v or ()}


def iso(st1, v1, st2, v2, seen=None, depth=0):
    """The difference between two values of two states, if any: objects are compared by their content."""
    seen = {} if seen is None else seen
    if depth > 60:
        return None
    r1 = [a for a in v1 if a[0] == 'r']
    r2 = [a for a in v2 if a[0] == 'r']
    t1 = [a for a in v1 if a[0] in ('t', 'tt', 'bm')]
    t2 = [a for a in v2 if a[0] in ('t', 'tt', 'bm')]
    p1 = frozenset(a for a in v1 if a[0] not in ('r', 't', 'tt', 'bm'))
    p2 = frozenset(a for a in v2 if a[0] not in ('r', 't', 'tt', 'bm'))
    if p1 != p2:
        if len(p1) == len(p2) == 1 and not r1 and not r2 and X.of(next(iter(p1))) is not None and X.of(next(iter(p2))) is not None:
            if X.equal(X.of(next(iter(p1))), X.of(next(iter(p2)))):
                return None
        return '{} instead of {}'.format(V.show(v2, st2), V.show(v1, st1))
    if len(r1) != len(r2) or len(t1) != len(t2):
        return '{} instead of {}'.format(V.show(v2, st2), V.show(v1, st1))
    for a, b in zip(sorted(t1, key=repr), sorted(t2, key=repr)):
        if a[0] != b[0]:
            return 'another kind of value'
        xs, ys = (a[1], b[1]) if a[0] == 't' else ((a[1],), (b[1],)) if a[0] == 'tt' else ((av(a[1]),), (av(b[1]),))
        if a[0] == 'bm' and a[2:] != b[2:]:
            return 'another method'
        if len(xs) != len(ys):
            return '{} elements instead of {}'.format(len(ys), len(xs))
        for x, y in zip(xs, ys):
            d = iso(st1, x, st2, y, seen, depth + 1)
            if d:
                return d
    if len(r1) != 1:
        if sorted(a[1] for a in r1) == sorted(a[1] for a in r2) and st1 is st2:
            return None
    for a, b in zip(sorted(r1), sorted(r2)):
        if seen.get(a[1]) == b[1]:
            continue
        seen[a[1]] = b[1]
        o1, o2 = st1.get(a[1]), st2.get(b[1])
        if o1 is o2:
            continue
        if o1 is None or o2 is None or (o1.kind, o1.label()) != (o2.kind, o2.label()):
            return '{} instead of {}'.format(V.show(av(b), st2), V.show(av(a), st1))
        if o1.kind in ('class', 'module', 'env'):
            continue
        if set(o1.fields) != set(o2.fields):
            return 'attributes {} instead of {}'.format(sorted(o2.fields), sorted(o1.fields))
        for f in o1.fields:
            d = iso(st1, o1.fields[f], st2, o2.fields[f], seen, depth + 1)
            if d:
                return '.{}: {}'.format(f, d)
        if (o1.items is None) != (o2.items is None):
            return 'another number of items'
        if o1.items is not None:
            if len(o1.items) != len(o2.items):
                return '{} items instead of {}'.format(len(o2.items), len(o1.items))
            for i, (x, y) in enumerate(zip(o1.items, o2.items)):
                d = iso(st1, x, st2, y, seen, depth + 1)
                if d:
                    return '[{}]: {}'.format(i, d)
        elif o1.elem is not None and o2.elem is not None:
            d = iso(st1, o1.elem, st2, o2.elem, seen, depth + 1)
            if d:
                return '[..]: {}'.format(d)
        if set(o1.kv) != set(o2.kv):
            return 'keys {} instead of {}'.format(*[sorted('{}'.format(V.show(av(k_)) if isinstance(k_, tuple) else k_) for k_ in x) for x in (o2.kv, o1.kv)])
        for k_ in o1.kv:
            d = iso(st1, o1.kv[k_], st2, o2.kv[k_], seen, depth + 1)
            if d:
                return '[{}]: {}'.format(k_[1], d)
        if types(o1.kelem) != types(o2.kelem):
            return 'keys of other types'
        for x, y in ((o1.velem, o2.velem),):
            if x is not None and y is not None:
                d = iso(st1, x, st2, y, seen, depth + 1)
                if d:
                    return '[..]: {}'.format(d)
    return None


class Calls(object):
    """What is asked to the external libraries."""

    def __init__(self):
        self.calls = []

    def on_ext(self, I, st, dotted, args, kwargs, node):
        if dotted.split('.')[0] in ('logging', 'warnings') or '.logger' in dotted:
            return
        self.calls.append((dotted, st, tuple(args), tuple(sorted(kwargs.items()))))


def outcomes(I, s, fv, args, kw):
    c = Calls()
    I.monitors.append(c)
    try:
        bs, raised = branches(s.fork(), fv, *args, **kw)
    finally:
        I.monitors.remove(c)
    return bs, raised, c.calls


def compare(I, a, b):
    """The difference between what two models do, if any."""
    (bs1, r1, c1), (bs2, r2, c2) = a, b
    e1 = sorted(I.exc_name(next(iter(r.val)), r.st) for r in r1)
    e2 = sorted(I.exc_name(next(iter(r.val)), r.st) for r in r2)
    if bs1 and not bs2:
        return describe(I, [], r2)
    if e1 != e2 or len(bs1) != len(bs2):
        return '{} instead of {}'.format(describe(I, bs2, r2), describe(I, bs1, r1))
    for x, y in zip(bs1, bs2):
        d = iso(x.st, x.val, y.st, y.val)
        if d:
            return 'gives {}'.format(d)
    if [x[0] for x in c1] != [x[0] for x in c2]:
        return 'other calls: {}'.format([(x[0], y[0]) for x, y in zip(c1, c2) if x[0] != y[0]][:2] or (len(c1), len(c2)))
    for x, y in zip(c1, c2):
        for p, q in zip(x[2], y[2]):
            d = iso(x[1], p, y[1], q)
            if d:
                return 'calls {} with {}'.format(x[0], d)
        if [p[0] for p in x[3]] != [q[0] for q in y[3]]:
            return 'calls {} with other arguments'.format(x[0])
        for p, q in zip(x[3], y[3]):
            d = iso(x[1], p[1], y[1], q[1])
            if d:
                return 'calls {} with {}={}'.format(x[0], p[0], d)
    return None


LOSSY = ('Reconstructor',)

KEEPER = """
class Keeper(Forecaster):
    window = 1

    @Forecaster.fit_function
    def fit(self, series):
        self.data['none'] = None
        self.data['flags'] = [True, False]
        self.data['number'] = series[0].data['a']
        self.data['nested'] = {'a': {'b': [series[1].data['a'], {'c': 'text'}]}}

    @Forecaster.predict_function
    def predict(self, series, steps=1):
        if self.data['none'] is None and self.data['flags'][0]:
            return {'a': self.data['number'] + self.data['nested']['a']['b'][0]}
        return {'a': self.data['nested']['a']['b'][1]['c']}

    @Forecaster.apply_function
    def apply(self, series):
        return [self.data['resolution'] == series.resolution, str(self.data['resolution']), series[-1].dt + self.data['resolution'], self.data['data_labels'], self.id == self.data['id']]

    @Forecaster.evaluate_function
    def evaluate(self, series):
        return {'a': self.data['nested']['a']['b'][1]['c']}
"""

# (form, other arguments of the series)
FORMS = (('points', {}), ('slots', {}), ('slots', dict(unit='1D', tz='Europe/Rome')), ('slots', dict(unit='1M')), ('points', dict(step=0.5)), ('points', dict(step=86400)), ('points', dict(step=1.0)),
         ('slots', dict(unit='15m')), ('points', dict(step=5400)), ('slots', dict(unit='1Y', tz='America/New_York')))


def cases(I, q):
    """(name, labels, arguments of the init, arguments of the fit, fit which may fail)"""
    name = short(q)
    fa = fit_args(I, q)
    out = [('', 'a', {}, fa)]
    if name == 'PeriodicAverageForecaster':
        out += [('of two labels', 'ab', {}, fa), ('with a window', 'a', dict(window=kv(2)), fa), ('affected by DST', 'a', {}, dict(fa, dst_affected=kv(True)))]
    elif name == 'PeriodicAverageReconstructor':
        out += [('affected by DST', 'a', {}, dict(fa, dst_affected=kv(True))), ('with offsets of the extremes', 'a', {}, dict(fa, offset_method=kv('extremes')))]
    elif name == 'LSTMForecaster':
        out += [('of two labels', 'ab', {}, fa), ('with a window of 2', 'a', dict(window=kv(2)), fa), ('with two features', 'a', 'features', fa), ('not normalized', 'a', {}, dict(normalize=kv(False))),
                ('of one target', 'ab', {}, dict(target=kv('a'))), ('with context', 'ab', {}, dict(target=kv('a'), with_context=kv(True)))]
    elif name == 'PeriodicAverageAnomalyDetector':
        out += [('of absolute errors', 'a', {}, dict(fa, error_metric=kv('AE'))), ('of two labels', 'ab', {}, fa), ('with a fixed distribution', 'a', {}, dict(fa, error_distribution=kv('norm')))]
    elif name == 'LSTMAnomalyDetector':
        out += [('with context', 'ab', {}, dict(with_context=kv(True)))]
    return out


def make(chk, I, q, con, labels, init, form, kw, s):
    if init == 'features':
        init = dict(features=s.list(kv('values'), kv('diffs'), kv('hours')))
    m = s.new(q, **init)
    n_ = 7
    full = (3, 4) if 'Reconstructor' in short(q) and 'Anomaly' not in q else ()
    return m, init, Src(chk, I, form, n_, labels=tuple(labels), s=s, loss0=True, full=full, **source_kw(kw, n_))


def starts(unit, tz, n_):
    """The starts of slots of a calendar unit."""
    import datetime, zoneinfo
    z = zoneinfo.ZoneInfo(tz)
    out = []
    for i in range(n_):
        d = {'1D': lambda: datetime.datetime(2023, 3, 23 + i, tzinfo=z), '1M': lambda: datetime.datetime(2023, 1 + i, 1, tzinfo=z),
             '1Y': lambda: datetime.datetime(2019 + i, 1, 1, tzinfo=z)}
        out.append(int(d[unit]().timestamp()) if unit in d else T0 + i * {'15m': 900}[unit])
    return out


def run(chk):
    chk.rule('saved', 'a fitted model is saved and loaded back, or the save is refused', 20)
    chk.rule('learnt', 'everything which was learnt is loaded back, with the same types', 15)
    chk.rule('same', 'a loaded model does the same as the one which was saved', 40)
    chk.rule('enforced', 'a loaded model refuses series of another resolution or with other data labels', 20)
    I = chk.interp(probe=PROBE + fs.PROBE + KEEPER)
    fs.install(I)
    I.exact_loop = I.exact_while = 40
    chk.assumptions.append('Series at known times and with unknown values. Keras and Prophet models are loaded back as they were saved.')
    models = bundled(I) + [PR + 'Learner', PR + 'Set', PR + 'Keeper']
    todo = []
    for q in models:
        for what, labels, init, args in cases(I, q):
            todo.append((q, what, labels, init, args, FORMS[0]))
        for f in FORMS[1:] if q.endswith('Keeper') or 'PeriodicAverageForecaster' in q or 'PeriodicAverageReconstructor' in q and 'Anomaly' not in q else FORMS[1:3]:
            todo.append((q, '', 'a', {}, fit_args(I, q), f))
    # Anomaly detectors with the model given
    todo.append((MO + 'anomaly_detectors.ModelBasedAnomalyDetector', 'given the model', 'a', dict(model_class=av(('cls', MO + 'forecasters.PeriodicAverageForecaster'))), dict(periodicity=kv(2)), FORMS[0]))
    for q, what, labels, init, args, (form, kw) in todo:
        con = '{}{} on {}'.format(short(q), ' ' + what if what else '', form) + ''.join(' {}={}'.format(a, b) for a, b in kw.items())
        with chk.guard('saved', con):
            one_case(chk, I, q, con, labels, init, args, form, kw)


def one_case(chk, I, q, con, labels, init, args, form, kw):
    s = Scn(I)
    m, init, src = make(chk, I, q, con, labels, init, form, kw, s)
    ms = methods(I, q)
    if 'fit' in ms:
        bs, raised = branches(s, s.method(m, 'fit'), src.ser, **args)
        if not bs:
            # There is nothing to save
            return
        s.st = min(bs, key=lambda b: len(guessed(b.st))).st
    fv = s.method(m, 'save')
    bs, raised = branches(s, fv, kv(PATH))
    if not bs:
        e = sorted({I.exc_name(next(iter(r.val)), r.st) for r in raised})
        chk.ok('saved', con, set(e) <= {'TypeError', 'NotImplementedError', 'ValueError'} and not any(fs.effects(r) for r in raised), 'the save fails with {}, after {}'.format(e, [fs.effects(r) for r in raised][:1]))
        return
    s.st = bs[0].st
    load = s.method(s.cls(q), 'load')
    given = {k_: v for k_, v in init.items() if k_ == 'model_class'}
    bs, raised = accepted(chk, 'saved', con, s, load, kv(PATH), what_='the load fails', **given)
    if not bs:
        return
    if len(bs) > 1:
        chk.undecided('saved', con, 'the load may complete in more than one way')
        return
    s.st, loaded = bs[0].st, bs[0].val
    o = one(s.st, loaded)
    if o is None or o.cls is None or o.cls[1] != q:
        chk.viol('saved', con, 'the load gives {}'.format(V.show(loaded, s.st)))
        return
    a, b = (fields(s.st, x).get('data', EMPTY) for x in (m, loaded))
    d = iso(s.st, a, s.st, b)
    chk.ok('learnt', con, not d, 'what was learnt is loaded as {}'.format(d))
    for meth in [x for x in ms if x != 'fit'] + (['forecast'] if MO + 'forecasters.Forecaster' in ancestors(I, q) else []):
        if meth == 'apply' and 'LSTM' in q and 'context' in con:
            continue
        margs = model_args(I, q, meth)
        if meth == 'predict' and margs:
            margs = dict(from_i=kv(3), to_i=kv(4))
        if meth == 'predict' and 'with context' in con:
            margs = dict(context_data=s.dict({'b': av(num('float', '-0+', X.tag(X.sym('context'))))}))
        if meth == 'apply' and 'AnomalyDetector' not in q and 'Forecaster' in q:
            margs = dict(steps=kv(2)) if q.startswith(MO) else {}
        x = outcomes(I, s, s.method(m, meth), [src.ser], margs)
        y = outcomes(I, s, s.method(loaded, meth), [src.ser], margs)
        name = '{}, {}'.format(con, meth)
        if not x[0] and not x[1]:
            chk.undecided('same', name, 'no outcome')
            continue
        d = compare(I, x, y)
        chk.ok('same', name, not d, d)
    if q.endswith('Set'):
        return
    wrong = {'another resolution': Src(chk, I, 'points', 7, labels=tuple(labels), s=s, loss0=True, prefix='w', times=[T0 + 7 * i for i in range(7)]).ser,
             'other labels': Src(chk, I, form, 7, labels=tuple('xy'[:len(labels)]), s=s, loss0=True, prefix='z', **source_kw(kw, 7)).ser,
             'one more label': Src(chk, I, form, 7, labels=tuple(labels) + ('c',), s=s, loss0=True, prefix='y', **source_kw(kw, 7)).ser}
    for what, ser in wrong.items():
        for meth in [x for x in ms if x != 'fit']:
            bs, raised = branches(s, s.method(loaded, meth), ser, **model_args(I, q, meth))
            name = '{}, {} with {}'.format(con, meth, what)
            if not bs and not raised:
                chk.undecided('enforced', name, 'no outcome')
            else:
                bad = [r for r in raised if I.exc_name(next(iter(r.val)), r.st) != 'ValueError']
                chk.ok('enforced', name, not bs and not bad, 'not refused: ' + describe(I, bs, bad))


def source_kw(kw, n_):
    kw = dict(kw)
    step = kw.pop('step', None)
    if step:
        kw['times'] = [T0 + step * i for i in range(n_)]
    elif kw.get('unit'):
        kw['times'] = starts(kw['unit'], kw.get('tz', 'UTC'), n_)
    return kw

