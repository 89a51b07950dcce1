"""Abstract series: items known by the order of their timestamps only, any data, any data loss."""
from .scenario import *
from .scenario import _node


def data(s, kind='dict', labels=('a', 'b'), tags=(), typ='float', signs='-0+'):
    if kind == 'dict':
        return s.dict({l: n(typ, signs, set(tags) | {'label:' + l} if tags is not None else ()) for l in labels})
    if kind == 'list':
        return s.list(*[n(typ, signs, set(tags) | {'label:' + str(i)} if tags is not None else ()) for i, l in enumerate(labels)])
    if kind == 'num':
        return n(typ, signs)
    raise ValueError(kind)


def loss(tags=()):
    return n('float', '0+', set(tags))


def point(s, rank, kind='dict', labels=('a', 'b'), cls='DataTimePoint', group='t', tags=(), **kw):
    kw.setdefault('t', o(rank, group))
    if cls.startswith('Data'):
        kw.setdefault('data', data(s, kind, labels, tags))
    return s.new(DS + cls, **kw)


def unit(s, name='1h'):
    return s.new(UN + 'TimeUnit', kv(name))


def slot(s, rank, end=None, kind='dict', labels=('a', 'b'), cls='DataTimeSlot', group='t', u=None, tz=None, tags=(), **kw):
    tzkw = {} if tz is None else {'tz': tz}
    start = s.new(DS + 'TimePoint', o(rank, group), **tzkw)
    end = s.new(DS + 'TimePoint', o(rank + 1 if end is None else end, group), **tzkw)
    if cls.startswith('Data'):
        kw.setdefault('data', data(s, kind, labels, tags))
    if u is not None:
        kw['unit'] = u
    return s.new(DS + cls, start=start, end=end, **kw)


def gpoint(s, rank, cls='Point', kind='dict', labels=('a', 'b'), group='t', **kw):
    if cls.startswith('Data'):
        kw.setdefault('data', data(s, kind, labels))
    return s.new(DS + cls, o(rank, group), **kw)


def gslot(s, rank, end=None, cls='Slot', kind='dict', labels=('a', 'b'), group='t', u=None, **kw):
    start = s.new(DS + 'Point', o(rank, group))
    end = s.new(DS + 'Point', o(rank + 1 if end is None else end, group))
    if cls.startswith('Data'):
        kw.setdefault('data', data(s, kind, labels))
    return s.new(DS + cls, start=start, end=end, unit=u if u is not None else s.new(UN + 'Unit', kv(1)), **kw)


def series(s, items, cls='TimeSeries', res=None):
    """A series of the items given. With res, the outcome whose resolution is variable or constant, otherwise any of them."""
    bs, raised = branches(s, s.cls(DS + cls), *items)
    if not bs:
        raise Failed('a valid series cannot be created: {}'.format(
            [(s.I.exc_name(e, st), s.I.exc_msg(e, st)) for st, e in [(b.st, next(iter(b.val))) for b in raised]][:3]))
    if res is not None:
        want = []
        for b in bs:
            r = b.obj(b.val).fields.get('_resolution', EMPTY)
            isvar = any(a == ('k', 'variable', 'str') or a[:2] == ('k', 'variable') for a in r)
            if (res == 'variable') == isvar and r:
                want.append(b)
        if want:
            bs = want
    b = bs[0]
    s.st = b.st
    return b.val


def items_of(st, val):
    """The exact items of a series, or None."""
    for a in val:
        if a[0] == 'r':
            ob = st.get(a[1])
            if ob is not None:
                return ob.items
    return None
