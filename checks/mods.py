"""The models of the repository, and those of the checks, with the series they work on."""
from checks.ops import *

MO = 'timeseria.models.'
MODEL = MO + 'base.Model'
ABSTRACT = ('Model', 'Forecaster', 'Reconstructor', 'AnomalyDetector', 'ModelBasedAnomalyDetector')

PROBE = """
from timeseria.models.base import Model
from timeseria.models.forecasters import Forecaster
from timeseria.models.reconstructors import Reconstructor
from timeseria.datastructures import TimeSeries, Series, DataTimePoint, DataPoint, Point
from timeseria.units import TimeUnit

class Learner(Forecaster):
    window = 1

    @Forecaster.fit_function
    def fit(self, series, fail=False):
        self.data['learnt'] = 1
        if fail:
            raise ValueError('This fit fails')
        return 'fitted'

    @Forecaster.predict_function
    def predict(self, series, steps=1, context_data=None):
        self.worked = True
        return {label: 1.0 for label in series.data_labels()}

    @Forecaster.evaluate_function
    def evaluate(self, series):
        self.worked = True
        return {}

class Coded(Forecaster):
    window = 1

    @Forecaster.predict_function
    def predict(self, series, steps=1, context_data=None):
        self.worked = True
        return {label: 1.0 for label in series.data_labels()}

    @Forecaster.apply_function
    def apply(self, series):
        self.worked = True
        return series

    @Forecaster.evaluate_function
    def evaluate(self, series):
        self.worked = True
        return {}

class Set(Coded):

    def __init__(self):
        self.data = {'a': 1, 'resolution': TimeUnit('1m'), 'data_labels': ['a']}
        super(Set, self).__init__()

class Filler(Reconstructor):
    window = 1

    @Reconstructor.predict_function
    def predict(self, series, from_i, to_i):
        return {label: [100.0 + i for i in range(from_i, to_i + 1)] for label in series.data_labels()}

class ListFiller(Reconstructor):
    window = 1

    @Reconstructor.predict_function
    def predict(self, series, from_i, to_i):
        return [{label: 100.0 + i for label in series.data_labels()} for i in range(from_i, to_i + 1)]
"""
PR = 'timeseria.probe__.'


def ancestors(I, q):
    return [a[1] for a in I.classes[q].mro if a[0] == 'cls']


def bundled(I):
    """The concrete models of the repository."""
    out = []
    for q in sorted(I.classes):
        if q.startswith(MO) and q.count('.') == 3:
            name = q.rsplit('.', 1)[1]
            if not name.startswith('_') and name not in ABSTRACT and MODEL in ancestors(I, q):
                out.append(q)
    return out


def short(q):
    return q.rsplit('.', 1)[1]


def fit_args(I, q):
    """Arguments which make a fit work with no detection of what cannot be known."""
    if 'PeriodicAverage' in q:
        return dict(periodicity=kv(2))
    return {}


def fitted_state(s, m, ser, **kw):
    """A fitted model: a completed fit."""
    bs, raised = branches(s, s.method(m, 'fit'), ser, **kw)
    if not bs:
        raise Failed('the fit cannot complete: {}'.format(describe(s.I, [], raised)))
    b = min(bs, key=lambda b: len(guessed(b.st)))
    s.st = b.st
    return b


def model_args(I, q, meth, n_=6):
    """Arguments of the methods, besides the series."""
    if meth == 'predict' and any('Reconstructor' in c for c in ancestors(I, q)) and 'AnomalyDetector' not in q:
        return dict(from_i=kv(2), to_i=kv(3))
    return {}


def fields(st, m):
    for a in m:
        if a[0] == 'r':
            return st.get(a[1]).fields


def data_dict(st, m):
    """{key: value} of the data of a model."""
    d = one(st, fields(st, m).get('data', EMPTY))
    return None if d is None or d.kind != 'dict' else {k_[1]: v for k_, v in d.kv.items() if k_[0] == 'k'}
