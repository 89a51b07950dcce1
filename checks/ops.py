"""Cases of operations and transformations, with what their results have to be. Used by C01-C03, C25, C30-C32, C34-C36."""
from tsa.build import *
from tsa.rules import *
from tsa.scenario import _node
from tsa import expr as X
from tsa.expr import E, S

T0 = 3600 * 1000
TIMES = {
    'points': lambda n_: [T0 + 60 * i for i in range(n_)],
    'variable': lambda n_: [T0, T0 + 60, T0 + 120, T0 + 300, T0 + 420, T0 + 480, T0 + 600][:n_],
    'slots': lambda n_: [T0 + 3600 * i for i in range(n_)],
    'days': lambda n_: [86400 * (200 + i) for i in range(n_)],
}
UNITS = {'slots': '1h', 'days': '1D'}
STEP = {'points': 60, 'slots': 3600}
ROME = 'Europe/Rome'


class Src(object):
    """A series at known times with symbolic values and indexes."""

    def __init__(self, chk, I, form='points', n_=4, kind='dict', labels=('a', 'b'), tz=None, indexes=('data_loss', 'ix'), order=None,
                 times=None, prefix='v', origin='source', s=None, loss0=False, none=(), missing=(), unit=None, full=(), losses=None, zero=()):
        self.chk, self.I, self.form, self.kind, self.labels, self.tz, self.indexes, self.prefix = chk, I, form, kind, tuple(labels), tz, tuple(indexes), prefix
        self.t = times or TIMES[form](n_)
        self.n = len(self.t)
        self.s = s = s or Scn(I)
        self.names = list(self.labels) if kind == 'dict' else [str(i) for i in range(len(self.labels))]
        self.order = order
        self.full = tuple(full)
        self.losses = losses
        self.zero = tuple(zero)
        self.loss0, self.none, self.absent = loss0, tuple(none), tuple(none) + tuple(missing)
        items = []
        for i, t in enumerate(self.t):
            vals = [self.atom(i, l, order) for l in self.names]
            dat = s.dict(dict(zip(self.names, vals))) if kind == 'dict' else s.list(*vals)
            ix = s.dict({x: self.index_atom(i, x) for x in self.indexes if (x == 'data_loss' or i not in missing) and not (x == 'data_loss' and losses and losses[i] == 'absent')})
            kw = dict(data=dat, data_indexes=ix)
            tzkw = {} if tz is None else dict(tz=kv(tz))
            if unit or form in UNITS:
                start = s.new(DS + 'TimePoint', t=kv(t), **tzkw)
                kw['unit'] = s.new(UN + 'TimeUnit', kv(unit or UNITS[form]))
                items.append(s.new(DS + 'DataTimeSlot', start=start, **kw))
            else:
                items.append(s.new(DS + 'DataTimePoint', t=kv(t), **dict(kw, **tzkw)))
        self.items = items
        self.ser = series(s, items)
        self.name = '{}{} {} {}'.format(form, '' if tz is None else ' (%s)' % tz, self.n, kind if kind == 'list' else 'dict(%s)' % ','.join(self.labels))

    def atom(self, i, l, order=None):
        sym_ = self.sym(i, l)
        if order is not None:
            X.RANK[sym_] = order[l][i] if isinstance(order, dict) else order[i]
        else:
            X.RANK.pop(sym_, None)
        return av(num('float', '-0+', {'i:{}{}'.format(self.prefix, i), 'label:' + l} | X.tag(X.sym(sym_))))

    def sym(self, i, l):
        return '{}{}{}'.format(self.prefix, i, l)

    def v(self, i, l):
        return S(self.sym(i, l))

    def index_atom(self, i, x):
        if x == 'data_loss' and self.losses:
            return VNONE if self.losses[i] is None else kv(self.losses[i])
        if self.loss0 and x == 'data_loss':
            return kv(1.0 if i in self.full else 0.0)
        if i in self.none:
            return VNONE
        if i in self.zero:
            return kv(0.0)
        return av(num('float', '+', {'x:{}:{}{}'.format(x, self.prefix, i)} | X.tag(X.sym('{}{}#{}'.format(self.prefix, i, x)))))

    def ix(self, i, x):
        if i in self.zero:
            return E.of(0.0)
        return S('{}{}#{}'.format(self.prefix, i, x))

    @property
    def step(self):
        return STEP.get(self.form)

    def dt(self, i):
        return self.t[i] - self.t[i - 1]


def arg_dict(s, labels, prefix):
    """Symbolic arguments, one for each label."""
    return s.dict({l: av(num('float', '-0+', {'label:' + l} | X.tag(X.sym(prefix + l)))) for l in labels})


def arg_num(name):
    return av(num('float', '-0+', {'arg'} | X.tag(X.sym(name))))


# ---------------------------------------------------------------- specifications
# A specification gives the items of the result: [(position of the source item, {label: value})]

def suffixed(src, suffix):
    return {l: (l + suffix if src.kind == 'dict' else l) for l in src.names}


def sp_derivative(src, normalize=True, suffix='_derivative'):
    sx = suffixed(src, suffix)
    out = []
    for i in range(src.n):
        d = {}
        for l in src.names:
            v = lambda j: src.v(j, l)
            if i == 0:
                x = v(1) - v(0)
                d_ = src.t[1] - src.t[0]
            elif i == src.n - 1:
                x = v(i) - v(i - 1)
                d_ = src.t[i] - src.t[i - 1]
            elif normalize and src.form == 'variable':
                x = ((v(i) - v(i - 1)) / src.dt(i) + (v(i + 1) - v(i)) / src.dt(i + 1)) / 2
                d_ = 1
            else:
                x = ((v(i) - v(i - 1)) + (v(i + 1) - v(i))) / 2
                d_ = src.step
            d[sx[l]] = x / d_ if normalize else x
        out.append((i, d))
    return out


def sp_diff(src):
    sx = suffixed(src, '_diff')
    return [(i, {sx[l]: src.v(i, l) - src.v(i - 1, l) for l in src.names}) for i in range(1, src.n)]


def sp_integral(src, normalize=True, c=None, offset=None, suffix='_integral'):
    sx = suffixed(src, suffix)
    out = []
    last, right = {}, {}
    c = offset if offset is not None else c
    if offset is not None:
        out.append((-1, {sx[l]: offset(l) for l in src.names}))
    for i in range(src.n):
        d = {}
        for l in src.names:
            if not normalize:
                x = src.v(i, l)
            elif i == 0:
                x = E.of(0)
                right[l] = src.v(0, l)
            else:
                right[l] = src.v(i - 1, l) * 2 - right[l]
                x = right[l] * (src.dt(i) if src.form == 'variable' else src.step)
            last[l] = last[l] + x if l in last else (x + c(l) if c is not None else x)
            d[sx[l]] = last[l]
        out.append((i, d))
    return out


def sp_map(f):
    return lambda src: [(i, {l: f(src, i, l) for l in src.names}) for i in range(src.n)]


def sp_normalize(src, lo=None, hi=None, source=None):
    out = []
    for i in range(src.n):
        d = {}
        for l in src.names:
            if source:
                m, M = source(l)
            else:
                r = src.order[l] if isinstance(src.order, dict) else src.order
                m, M = src.v(r.index(min(r)), l), src.v(r.index(max(r)), l)
            x = (src.v(i, l) - m) / (M - m)
            d[l] = x * (hi - lo) + lo if lo is not None else x
        out.append((i, d))
    return out


def sp_mavg(window):
    def f(src):
        sx = suffixed(src, '_mavg_{}'.format(window))
        out = []
        for i in range(window - 1, src.n):
            d = {}
            for l in src.names:
                x = E.of(0)
                for j in range(i - window + 1, i + 1):
                    x = x + src.v(j, l)
                d[sx[l]] = x / window
            out.append((i, d))
        return out
    return f


def sp_filter(*keep):
    return lambda src: [(i, {l: src.v(i, l) for l in keep}) for i in range(src.n)]


def sp_slice(lo, hi):
    return lambda src: [(i, {l: src.v(i, l) for l in src.names}) for i in range(lo, hi)]


class Op(object):

    def __init__(self, name, method, spec, args=lambda s, src: ((), {}), inplace=True, kinds=('dict', 'list'), forms=('points', 'variable', 'slots'),
                 order=False, refuse_inplace=False, indexes=True, items='new', labels=('a', 'b')):
        self.name, self.method, self.spec, self.args, self.inplace = name, method, spec, args, inplace
        self.kinds, self.forms, self.order, self.refuse_inplace, self.indexes, self.items, self.labels = kinds, forms, order, refuse_inplace, indexes, items, labels


def only(**kw):
    return lambda s, src: ((), {a: kv(b) for a, b in kw.items()})


def per_label(prefix, name, skip=()):
    def f(s, src):
        return (), {name: arg_dict(s, [l for l in src.names if l not in skip], prefix)}
    return f


def number(sym_, name):
    return lambda s, src: ((), {name: arg_num(sym_)})


def rng(lo, hi):
    return lambda s, src: ((), dict(range=s.list(kv(lo), kv(hi))))


def source_range(s, src):
    return (), dict(source_range=s.dict({l: s.list(*[av(num('float', '-0+', {'label:' + l} | X.tag(X.sym(p + l)))) for p in ('m', 'M')]) for l in src.names}))


CONST = ('points', 'slots')
OPS = [
    Op('derivative()', 'derivative', sp_derivative),
    Op('derivative(normalize=False)', 'derivative', lambda src: sp_derivative(src, False, '_diff'), only(normalize=False)),
    Op('diff()', 'diff', sp_diff, inplace=False, refuse_inplace=True, forms=CONST),
    Op('integral()', 'integral', sp_integral),
    Op('integral(normalize=False)', 'integral', lambda src: sp_integral(src, False, suffix='_csum'), only(normalize=False)),
    Op('integral(c=number)', 'integral', lambda src: sp_integral(src, c=lambda l: S('c')), number('c', 'c')),
    Op('integral(c=dict)', 'integral', lambda src: sp_integral(src, c=lambda l: S('c' + l)), per_label('c', 'c')),
    Op('integral(offset=number)', 'integral', lambda src: sp_integral(src, offset=lambda l: S('f')),
       lambda s, src: ((), dict(offset=av(num('float', '+', X.tag(X.sym('f')))))), inplace=False, refuse_inplace=True, forms=CONST),
    Op('integral(offset=dict)', 'integral', lambda src: sp_integral(src, offset=lambda l: S('f' + l)), per_label('f', 'offset'),
       inplace=False, refuse_inplace=True, forms=CONST),
    Op('csum()', 'csum', lambda src: sp_integral(src, False, suffix='_csum'), forms=CONST),
    Op('csum(offset=number)', 'csum', lambda src: sp_integral(src, False, offset=lambda l: S('f'), suffix='_csum'),
       lambda s, src: ((), dict(offset=av(num('float', '+', X.tag(X.sym('f')))))), inplace=False, refuse_inplace=True, forms=CONST),
    Op('csum(offset=dict)', 'csum', lambda src: sp_integral(src, False, offset=lambda l: S('f' + l), suffix='_csum'), per_label('f', 'offset'),
       inplace=False, refuse_inplace=True, forms=CONST),
    Op('normalize()', 'normalize', sp_normalize, order=True),
    Op('normalize([2,5])', 'normalize', lambda src: sp_normalize(src, 2, 5), rng(2, 5), order=True),
    Op('normalize([0,3])', 'normalize', lambda src: sp_normalize(src, 0, 3), rng(0, 3), order=True),
    Op('normalize([-1,1])', 'normalize', lambda src: sp_normalize(src, -1, 1), rng(-1, 1), order=True),
    Op('normalize([-2,0])', 'normalize', lambda src: sp_normalize(src, -2, 0), rng(-2, 0), order=True),
    Op('normalize(source_range)', 'normalize', lambda src: sp_normalize(src, source=lambda l: (S('m' + l), S('M' + l))), source_range),
    Op('rescale(number)', 'rescale', sp_map(lambda src, i, l: src.v(i, l) * S('k')), number('k', 'value')),
    Op('rescale(dict)', 'rescale', sp_map(lambda src, i, l: src.v(i, l) * S('k' + l)), per_label('k', 'value')),
    Op('rescale(partial dict)', 'rescale', sp_map(lambda src, i, l: src.v(i, l) * S('k' + l) if l != src.names[0] else src.v(i, l)),
       lambda s, src: per_label('k', 'value', src.names[:1])(s, src)),
    Op('offset(number)', 'offset', sp_map(lambda src, i, l: src.v(i, l) + S('k')), number('k', 'value')),
    Op('offset(dict)', 'offset', sp_map(lambda src, i, l: src.v(i, l) + S('k' + l)), per_label('k', 'value')),
    Op('offset(partial dict)', 'offset', sp_map(lambda src, i, l: src.v(i, l) + S('k' + l) if l != src.names[0] else src.v(i, l)),
       lambda s, src: per_label('k', 'value', src.names[:1])(s, src)),
    Op('mavg(1)', 'mavg', sp_mavg(1), only(window=1), inplace=False, refuse_inplace=True, indexes=False),
    Op('mavg(2)', 'mavg', sp_mavg(2), only(window=2), inplace=False, refuse_inplace=True, indexes=False),
    Op('mavg(3)', 'mavg', sp_mavg(3), only(window=3), inplace=False, refuse_inplace=True, indexes=False),
    Op('filter(a)', 'filter', sp_filter('a'), lambda s, src: ((kv('a'),), {}), inplace=None, kinds=('dict',)),
    Op('filter(b)', 'filter', sp_filter('b'), lambda s, src: ((kv('b'),), {}), inplace=None, kinds=('dict',)),
    Op('filter(b, a)', 'filter', sp_filter('a', 'b'), lambda s, src: ((kv('b'), kv('a')), {}), inplace=None, kinds=('dict',)),
    Op('slice(1, 3)', 'slice', sp_slice(1, 3), only(from_i=1, to_i=3), inplace=None, items='shared'),
    Op('duplicate()', 'duplicate', lambda src: sp_slice(0, src.n)(src), inplace=None),
]

ORDERS = [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1]]


def sources(chk, I, op, n_=4, tz=None, deep=False):
    """The sources on which to try an operation."""
    for form in op.forms:
        for kind in op.kinds:
            for labels in ((('a', 'b'), ('b', 'a'), ('a', 'b', 'c')) if kind == 'dict' else (('a', 'b'),)):
                if labels != ('a', 'b') and (form != 'points' and not deep):
                    continue
                if op.order:
                    for r in ORDERS if labels == ('a', 'b') and form == 'points' or deep else ORDERS[2:3]:
                        names = labels if kind == 'dict' else ('0', '1')
                        order = {l: [r[(i + j) % 4] for i in range(4)] for j, l in enumerate(names)}
                        yield Src(chk, I, form, 4, kind, labels, tz=tz, order=order)
                else:
                    yield Src(chk, I, form, n_, kind, labels, tz=tz)


def call(src, op, inplace=None):
    """The outcomes of an operation."""
    s = src.s
    args, kw = op.args(s, src)
    if inplace is not None:
        kw = dict(kw, inplace=kv(inplace))
    src.args = list(args) + list(kw.values())
    m = s.method(src.ser, op.method)
    src.s0 = s.st
    return branches(s, m, *args, **kw)


# ---------------------------------------------------------------- looking at the results

def one(st, val):
    rs = [a for a in val if a[0] == 'r']
    return st.get(rs[0][1]) if len(rs) == 1 and len(val) == 1 else None


def data_of(st, item):
    """{label: value} of an item, or None."""
    ob = one(st, item)
    if ob is None:
        return None
    d = one(st, ob.fields.get('_data', EMPTY))
    if d is None:
        return None
    if d.kind == 'dict':
        if d.kelem or any(kk[0] != 'k' for kk in d.kv):
            return None
        return {kk[1]: v for kk, v in d.kv.items()}
    if d.items is None:
        return None
    return {str(i): v for i, v in enumerate(d.items)}


def indexes_of(st, item):
    ob = one(st, item)
    d = one(st, ob.fields.get('_data_indexes', EMPTY)) if ob is not None else None
    if d is None or d.kind != 'dict' or d.kelem:
        return None
    return {kk[1]: v for kk, v in d.kv.items()}


def match(val, exp):
    """Is the value the expected expression: True, False, None (not known)."""
    rs = []
    for a in val:
        if a == UNB:
            rs.append(False)
            continue
        e = X.of(a)
        if e is None or exp.i is None:
            rs.append(False if a[0] not in ('n', 'top', 'exti', 'o') else None)
        else:
            rs.append(X.equal(e, exp.i))
    if rs and all(r is True for r in rs):
        return True
    if not rs or all(r is False for r in rs):
        return False
    return None


def shown(val):
    out = []
    for a in sorted(val, key=repr):
        e = X.of(a)
        out.append(X.show(e) if e is not None else V.show(av(a)))
    return '|'.join(out)


def time_of(st, item):
    """The start of an item, if known."""
    ob = one(st, item)
    if ob is None:
        return None
    if 'start' in ob.fields:
        ob = one(st, ob.fields['start'])
        if ob is None:
            return None
    c = ob.fields.get('coordinates', EMPTY)
    for a in c:
        if a[0] == 't' and len(c) == 1:
            ok, t = V.one_const(a[1][0])
            return t if ok else None
    return None


# ---------------------------------------------------------------- transformations

WHEN = {
    'every minute': lambda n_: [T0 + 60 * i for i in range(n_)],
    'every minute, from :30': lambda n_: [T0 + 30 + 60 * i for i in range(n_)],
    'every minute, from :50': lambda n_: [T0 + 50 + 60 * i for i in range(n_)],
    'every minute, from :27': lambda n_: [T0 + 27 + 60 * i for i in range(n_)],
    'every 90 seconds': lambda n_: [T0 + 90 * i for i in range(n_)],
    'with a gap': lambda n_: [T0 + 60 * i for i in range(n_) if i not in (3, 4, 5)],
    'with a hole': lambda n_: [T0 + 60 * i for i in range(n_) if i != 4],
    'variable': lambda n_: [T0 + x for x in (0, 60, 130, 170, 245, 300, 365, 420, 480, 540, 660)[:n_]],
}


def transformations(chk, I, deep=False, **kw):
    """Series and units to resample and aggregate."""
    cases = [('every minute', 6, '2m', ('aggregate', 'resample')), ('every minute', 5, '1m', ('aggregate', 'resample')),
             ('every minute, from :30', 7, '2m', ('aggregate', 'resample')), ('every 90 seconds', 5, '1m', ('resample',)),
             ('with a gap', 10, '2m', ('aggregate', 'resample')), ('with a gap', 9, '1m', ('resample',)), ('with a hole', 8, '2m', ('aggregate', 'resample')),
             ('variable', 8, '2m', ('aggregate', 'resample'))]
    if deep:
        cases += [('every minute', 10, '3m', ('aggregate', 'resample')), ('every minute', 11, '5m', ('aggregate', 'resample')),
                  ('every 90 seconds', 7, '2m', ('aggregate', 'resample')), ('with a gap', 11, '3m', ('aggregate', 'resample')),
                  ('variable', 11, '3m', ('aggregate', 'resample')), ('variable', 8, '1m', ('aggregate', 'resample'))]
    for when, n_, unit, hows in cases:
        for how in hows:
            src = Src(chk, I, 'points', times=WHEN[when](n_), **dict(dict(loss0=True), **kw))
            src.when = when
            yield src, how, unit, {}


def transform(src, how, unit, **kw):
    s = src.s
    m = s.method(src.ser, how)
    src.args = [kv(unit)] + list(kw.values())
    src.s0 = s.st
    return branches(s, m, kv(unit), **kw)
