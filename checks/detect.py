"""Anomaly detectors on toy models, with a toy distribution of the errors: pdf(x) = 1/(1 + x^2)."""
from checks.evals import *

AD = MO + 'anomaly_detectors.ModelBasedAnomalyDetector'

PROBE_DETECT = PROBE_EVAL + """
class Backer(BackFiller):
    @Reconstructor.fit_function
    def fit(self, series, verbose=False):
        self.data['seen'] = 1

def custom(x, y, x_start, x_end, y_start, y_end):
    return x * 3 + y * 5 + x_start * 7 + x_end * 11 + y_start * 13 + y_end * 17

def combine(indexes):
    return indexes[0] * 3 + indexes[1] * 5
"""

VALS = {'a': [3, 4, 9.5, 5.5, 9, 6.5, 6.75, 10.25, 8], 'b': [8, 8.5, 6, 7, 7, 11, 5.5, 7.5, 12]}
STDEV = 4.125


def pdf(x):
    return 1 / (1 + x * x)


class Walk(Positive):
    """A series whose errors, one step ahead, are in a known order."""

    def atom(self, i, l, order=None):
        s_ = self.sym(i, l)
        X.POS.add(s_)
        X.VAL[s_] = VALS[l][i]
        return av(num('float', '+', {'i:{}{}'.format(self.prefix, i), 'label:' + l} | X.tag(X.sym(s_))))

    def num(self, i, l):
        return VALS[l][i]


def install_detect(I):
    X.TIES = True
    install(I)

    def density(I_, st, args, kwargs, node):
        e = X.of(next(iter(args[0]))) if args and len(args[0]) == 1 else None
        return None if e is None else [(st, number(E.of(1) / (E.of(1) + E(e) * E(e))))]

    def bisect(I_, st, args, kwargs, node):
        out = []
        for b in I_.call(args[0], [kv(0.0)], {}, st, node):
            s, v = b[0], b[1]
            e = X.of(next(iter(v))) if len(v) == 1 else None
            if e is None:
                return None
            out.append((s, number(fn('sqrt', E.of(1) / (E.of(1) - E(e)) - 1))))
        return out

    def params(I_, st, args, kwargs, node):
        d = I_.alloc(st, Obj('dict', kv={V.k('loc'): kv(0.0), V.k('scale'): kv(1.0)}), node, 'params')
        return [(st, av(I_.alloc(st, Obj('dict', kv={V.k('gennorm'): av(d)}), node, 'best')))]

    def summary(I_, st, args, kwargs, node):
        d = I_.alloc(st, Obj('dict', kv={V.k('ks_pvalue'): kv(0.5)}), node, 'stats')
        return [(st, av(I_.alloc(st, Obj('dict', kv={V.k('gennorm'): av(d)}), node, 'summary')))]
    I.ext_overrides['scipy.stats.gennorm.pdf'] = density
    I.ext_overrides['scipy.optimize.bisect'] = bisect
    for f in ('fitter.fitter.Fitter', 'fitter.Fitter'):
        I.ext_overrides[f + '().get_best'] = params
        I.ext_overrides[f + '().summary().transpose().to_dict'] = summary
    I.ext_overrides['statistics.stdev'] = lambda I_, st, args, kwargs, node: [(st, kv(STDEV))]


def detector(s, q, ser, metric='E', **kw):
    """A fitted detector."""
    m = s.new(AD, model_class=s.cls(PR + q))
    fitted_state(s, m, ser, error_metric=kv(metric), **kw)
    return m


ERR = {'E': lambda x, y: x - y, 'AE': lambda x, y: abs(x - y), 'PE': lambda x, y: (x - y) / x, 'APE': lambda x, y: abs((x - y) / x)}


def numeric(val):
    """The number which is a value, if known."""
    if len(val) != 1:
        return None
    a = next(iter(val))
    e = X.of(a)
    return None if e is None else X.value(e)


def positions(b, src):
    """[(position in the source, item)] of the items of a result, or None."""
    its = items_of(b.st, b.val)
    if its is None:
        return None
    out = []
    for it in its:
        t = time_of(b.st, it)
        if t not in src.t:
            return None
        out.append((src.t.index(t), it))
    return out
