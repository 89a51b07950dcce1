"""Toy models whose predictions tell what they have seen, and the error metrics as expressions."""
from checks.mods import *
from tsa.state import Obj

PROBE_EVAL = PROBE + """
class Echo(Forecaster):
    # Predicts the last value, in one of the forms which predictions can have

    def __init__(self, window=1, form='dict', minimized=None):
        self.data = {'window': window}
        if minimized:
            self.data['minimized_error_metric'] = minimized
        self.form = form
        super(Echo, self).__init__()

    @property
    def window(self):
        return self.data['window']

    @Forecaster.fit_function
    def fit(self, series, verbose=False):
        self.data['seen'] = 1

    @Forecaster.predict_function
    def predict(self, series, steps=1, context_data=None):
        self.worked = True
        out = {label: series[-1].data[label] for label in series.data_labels()}
        if self.form == 'lists':
            return {label: [out[label]] for label in out}
        if self.form == 'list':
            return [out]
        return out

class AttrEcho(Forecaster):
    window = 1

    @Forecaster.predict_function
    def predict(self, series, steps=1, context_data=None):
        self.worked = True
        return {label: series[-1].data[label] for label in series.data_labels()}

class Summer(Forecaster):
    # The sum of everything which is given to it

    def __init__(self, window=1, form='dict'):
        self.data = {'window': window}
        self.form = form
        super(Summer, self).__init__()

    @property
    def window(self):
        return self.data['window']

    @Forecaster.fit_function
    def fit(self, series, target='all', with_context=False, verbose=False):
        labels = series.data_labels()
        self.data['target_data_labels'] = labels if target == 'all' else [target]
        self.data['context_data_labels'] = [label for label in labels if label not in self.data['target_data_labels']] if with_context else None

    @Forecaster.predict_function
    def predict(self, series, steps=1, context_data=None):
        self.worked = True
        out = {}
        for label in self.data['target_data_labels']:
            total = 0
            for item in series:
                total = total + item.data[label]
            total = total + series[-1].data[label]
            if context_data:
                for context_label in context_data:
                    total = total + context_data[context_label] * 1000
            out[label] = total
        return out if self.form == 'dict' else {label: [out[label]] for label in out}

class BackFiller(Reconstructor):
    window = 1

    def __init__(self, window=1):
        self.window = window
        super(BackFiller, self).__init__()

    @Reconstructor.predict_function
    def predict(self, series, from_i, to_i):
        self.worked = True
        return {label: [series[from_i - 1].data[label] for i in range(from_i, to_i + 1)] for label in series.data_labels()}

class Rounds(Model):
    # Keeps what is used to fit and to evaluate

    def __init__(self, update=False, window=None):
        self.fits = []
        self.updates = []
        self.evaluations = []
        if window:
            self.window = window
        super(Rounds, self).__init__()

    def total(self, series):
        total = 0
        for item in series:
            for label in series.data_labels():
                total = total + item.data[label]
        return total

    @Model.fit_function
    def fit(self, series):
        self.fits.append(self.total(series))
        self.updates.append(0)

    @Model.evaluate_function
    def evaluate(self, series, scale=1):
        self.evaluations.append(self.total(series))
        return {'ONE': self.total(series) * scale, 'TWO': self.total(series) * 2}

class Updates(Rounds):

    def fit_update(self, series):
        self.updates[-1] = self.total(series)
"""


def install(I):
    """The metrics of scikit-learn and the statistics, as expressions."""
    def items(val, st, node):
        for plan, s in I.models.iteration(val, st, node):
            if plan[0] != 'exact':
                return None
            out = [X.of(next(iter(v))) if len(v) == 1 else None for v in plan[1]]
            return None if None in out else [E(e) for e in out]

    def pairs(f):
        def call(I_, st, args, kwargs, node):
            vals = list(args) + [kwargs[x] for x in ('y_true', 'y_pred') if x in kwargs]
            a, b = (items(vals[0], st, node), items(vals[1], st, node)) if len(vals) == 2 else (None, None)
            if not a or not b or len(a) != len(b):
                return None
            return [(st, number(f(a, b)))]
        return call

    def stats(f):
        def call(I_, st, args, kwargs, node):
            a = items(args[0], st, node) if args else None
            return [(st, number(f(a)))] if a else None
        return call
    I.ext_overrides['sklearn.metrics.mean_squared_error'] = pairs(mse)
    I.ext_overrides['sklearn.metrics.mean_absolute_error'] = pairs(mae)
    I.ext_overrides['sklearn.metrics.mean_absolute_percentage_error'] = pairs(mape)
    def weighted(I_, st, args, kwargs, node):
        # A neural network: each output is a combination of all the inputs
        def leaves(v):
            ob = one(st, v)
            if ob is not None and ob.kind != 'dict' and ob.items is not None:
                return [y for x in ob.items for y in leaves(x)]
            return [X.of(next(iter(v))) if len(v) == 1 else None]
        es = leaves(args[0]) if args else [None]
        if None in es:
            return None
        tot = E.of(0)
        for i, e in enumerate(es):
            tot = tot + E(e) * ((i + 1) ** 2 + 0.375 * i)
        row = I_.alloc(st, Obj('list', items=[number(tot)] * 4), node, 'row')
        return [(st, av(I_.alloc(st, Obj('list', items=[av(row)]), node, 'yhat')))]

    I.ext_overrides['numpy.array'] = lambda I_, st, args, kwargs, node: [(st, args[0])] if args else None
    I.ext_overrides['keras.models.Sequential().predict'] = weighted
    I.ext_overrides['statistics.mean'] = stats(lambda a: avg_(a))
    I.ext_overrides['statistics.fmean'] = stats(lambda a: avg_(a))
    I.ext_overrides['statistics.stdev'] = stats(stdev)


def number(e):
    return av(num('float', '-0+', X.tag(e.i)))


def fn(name, e):
    return E(X.fn(name, e.i))


def avg_(es):
    return sum(es, E.of(0)) / len(es)


def mse(a, p):
    return avg_([(x - y) * (x - y) for x, y in zip(a, p)])


def rmse(a, p):
    return fn('sqrt', mse(a, p))


def ae(x, y):
    return fn('abs', x - y)


def ape(x, y):
    return fn('abs', (x - y) / x)


def ale(x, y):
    return fn('abs', fn('log', x / y))


def mae(a, p):
    return avg_([ae(x, y) for x, y in zip(a, p)])


def mape(a, p):
    return avg_([ape(x, y) for x, y in zip(a, p)])


def male(a, p):
    return avg_([ale(x, y) for x, y in zip(a, p)])


def highest(f):
    def g(a, p):
        es = [f(x, y) for x, y in zip(a, p)]
        return max(es, key=lambda e: X.value(e.i))
    return g


def stdev(es):
    """Not the formula, a symbol of what it is computed on."""
    return E(X.sym('stdev({})'.format(sorted(X.show(e.i) for e in es))))


METRICS = {'MSE': mse, 'RMSE': rmse, 'MAE': mae, 'HAE': highest(ae), 'MAPE': mape, 'HAPE': highest(ape), 'MALE': male, 'HALE': highest(ale)}
PUNCTUAL = {'E': lambda x, y: x - y, 'PE': lambda x, y: (x - y) / x, 'LE': lambda x, y: fn('log', x / y)}
BESIDES = {'MAE': ('AE', ae), 'MAPE': ('APE', ape), 'MALE': ('ALE', ale)}
# One order of the values, in which no two errors are the same
VALUES = [3.0, 4.1, 9.7, 5.3, 8.9, 6.1, 7.7, 2.3, 4.9]


class Positive(Src):
    """A series of positive values, whose order is known."""

    def __init__(self, *args, **kwargs):
        Src.__init__(self, *args, **dict(dict(loss0=True), **kwargs))

    def atom(self, i, l, order=None):
        s_ = self.sym(i, l)
        X.POS.add(s_)
        X.VAL[s_] = VALUES[i] + (0.35 * i * i if l == 'b' else 0)
        return av(num('float', '+', {'i:{}{}'.format(self.prefix, i), 'label:' + l} | X.tag(X.sym(s_))))


def forget():
    X.POS.clear()
    X.VAL.clear()
    X.TIES = False


def keyed(st, val):
    """{key: value} of a dictionary with known keys."""
    d = one(st, val)
    if d is None or d.kind != 'dict' or d.kelem or any(kk[0] != 'k' for kk in d.kv):
        return None
    return {kk[1]: v for kk, v in d.kv.items()}
