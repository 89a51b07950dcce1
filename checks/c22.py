"""C22: what is written is what is read: a saved series loads back."""
from tsa.build import *
from tsa.rules import *
from checks.ops import *
from checks.mods import short
from checks import fs
from tsa.models import parse_spec
from tsa.scenario import _node

PROBE = fs.PROBE + """
import timeseria.datastructures as ds__

class MySeries(ds__.TimeSeries):
    pass
"""
PR = 'timeseria.probe__.'
NY = 'America/New_York'
DAY = 86400
# Midnights in Rome around the changes of time
SPRING = [1616281200 + DAY * i for i in range(8)] + [1616281200 + DAY * 7 + DAY - 3600 + DAY * i for i in range(3)]
MONTHS = [1546300800, 1548979200, 1551398400, 1554076800, 1556668800, 1559347200, 1561939200]
YEARS = [1514764800, 1546300800, 1577836800, 1609459200]


def cases(deep):
    two = dict(labels=('a', 'b'))
    for tz in (None, 'UTC', ROME, NY):
        yield 'points', dict(form='points', n_=4, tz=tz, **two)
        yield 'slots of one hour', dict(form='slots', n_=4, tz=tz, **two)
    for n_ in (1, 2, 13):
        yield '{} points'.format(n_), dict(form='points', n_=n_, tz=ROME, **two)
        yield '{} slots'.format(n_), dict(form='slots', n_=n_, tz=ROME, **two)
    yield 'points with a variable resolution', dict(form='variable', n_=6, tz=ROME, **two)
    yield 'points at fractions of seconds', dict(form='points', times=[T0 + 0.25 * i for i in range(1, 5)], **two)
    yield 'points before 1970', dict(form='points', times=[-T0 + 60 * i for i in range(4)], **two)
    yield 'points one day from each other', dict(form='points', times=[DAY * i for i in range(200, 204)], **two)
    yield 'points one hour from each other', dict(form='points', times=[T0 + 3600 * i for i in range(4)], **two)
    for unit, step in (('15m', 900), ('10m', 600), ('1m', 60), ('90m', 5400), ('45s', 45), ('24h', DAY)):
        yield 'slots of ' + unit, dict(form='points', unit=unit, times=[T0 + step * i for i in range(4)], tz=ROME, **two)
    yield 'slots of one day', dict(form='points', unit='1D', times=[DAY * i for i in range(200, 204)], **two)
    yield 'slots of one day across a change of time', dict(form='points', unit='1D', times=SPRING[5:9], tz=ROME, **two)
    yield 'slots of one week', dict(form='points', unit='1W', times=[DAY * 7 * i for i in range(200, 204)], **two)
    yield 'slots of one month', dict(form='points', unit='1M', times=MONTHS, **two)
    yield 'one slot of one month', dict(form='points', unit='1M', times=MONTHS[:1], **two)
    yield 'slots of one year', dict(form='points', unit='1Y', times=YEARS, **two)
    for form in ('points', 'slots'):
        yield form + ' with one label', dict(form=form, n_=3, labels=('value',))
        yield form + ' with labels not in order', dict(form=form, n_=3, labels=('zeta', 'alpha', 'mid'))
        yield form + ' with labels with spaces', dict(form=form, n_=3, labels=('a b', 'Temp. C'))
        yield form + ' without indexes', dict(form=form, n_=3, indexes=(), **two)
        yield form + ' with one index', dict(form=form, n_=3, indexes=('data_loss',), **two)
        yield form + ' with many indexes', dict(form=form, n_=3, indexes=('zz', 'data_loss', 'anomaly', 'data_reconstructed', 'forecast'), **two)
        yield form + ' with indexes which are None', dict(form=form, n_=4, none=(1, 3), **two)
        yield form + ' with indexes which are all None', dict(form=form, n_=3, none=(0, 1, 2), **two)
        yield form + ' with an index only on some items', dict(form=form, n_=4, missing=(0, 2), **two)
        yield form + ' with an index only on the last item', dict(form=form, n_=3, missing=(0, 1), **two)
        yield form + ' with data as list', dict(form=form, n_=3, kind='list', **two)
        yield form + ' with data as list without indexes', dict(form=form, n_=3, kind='list', indexes=(), **two)


def text_of(v):
    for a in v:
        if a == ('ext', 'pytz.UTC'):
            return 'UTC'
        if a[0] == 'ext' and a[1].startswith('pytz.timezone:'):
            return a[1][14:]
    return None


def compare(chk, name, src, b, val, tz, cls, rules=('items', 'data', 'indexes', 'tz')):
    """The series read with that written. tz: None if it does not matter"""
    rules = dict(zip(('items', 'data', 'indexes', 'tz'), rules))
    its = items_of(b.st, val)
    ob = one(b.st, val)
    if its is None or ob is None:
        chk.undecided(rules['items'], name, 'the items are not known')
        return
    if ob.cls[1] != cls:
        chk.viol(rules['items'], name, 'gives a {}'.format(ob.label()))
        return
    chk.ok(rules['items'], name, len(its) == src.n, '{} items instead of {}'.format(len(its), src.n))
    slots = src.s.obj(src.items[0]).label() == 'DataTimeSlot'
    for i, it in enumerate(its[:src.n]):
        where = '{}, item {}'.format(name, i)
        io = one(b.st, it)
        chk.ok(rules['items'], where, io is not None and io.label() == ('DataTimeSlot' if slots else 'DataTimePoint'), 'is a {}'.format(io and io.label()))
        if io is None:
            continue
        t = time_of(b.st, it)
        if t is None:
            chk.undecided(rules['items'], where, 'time not known')
        else:
            chk.ok(rules['items'], where, t == src.t[i], 'at {} instead of {}'.format(t, src.t[i]))
        if slots:
            u = one(b.st, io.fields.get('_unit', EMPTY))
            w = one(src.s.st, one(src.s.st, src.items[i]).fields['_unit'])
            gs, ws = u and parse_spec(u.fields.get('%spec')), parse_spec(w.fields.get('%spec'))
            if gs is None:
                chk.undecided(rules['items'], where, 'unit not known')
            else:
                chk.ok(rules['items'], where, gs == ws, 'has a unit of {} instead of {}'.format(V.show(u.fields['%spec']), V.show(w.fields['%spec'])))
            ends = [time_of(x, y) for x, y in ((b.st, io.fields['end']), (src.s.st, one(src.s.st, src.items[i]).fields['end']))]
            if None in ends:
                chk.undecided(rules['items'], where, 'end not known')
            else:
                chk.ok(rules['items'], where, ends[0] == ends[1], 'ends at {} instead of {}'.format(*ends))
        d = data_of(b.st, it)
        if d is None:
            chk.undecided(rules['data'], where, 'data not known')
        else:
            bad = None
            if set(d) != set(src.names):
                bad = 'labels {} instead of {}'.format(sorted(d), sorted(src.names))
            else:
                for l in src.names:
                    m = match(d[l], src.v(i, l))
                    if m is None:
                        bad = ''
                    elif not m:
                        bad = '"{}" is {} instead of {}'.format(l, shown(d[l]), X.show(src.v(i, l).i))
                        break
            if bad == '':
                chk.undecided(rules['data'], where, 'values not known')
            else:
                chk.ok(rules['data'], where, bad is None, bad)
        ix = indexes_of(b.st, it)
        if ix is None:
            chk.undecided(rules['indexes'], where, 'indexes not known')
        else:
            bad = None
            extra = {x for x in set(ix) - set(src.indexes) if ix[x] != VNONE}
            if extra:
                bad = 'with indexes {}'.format(sorted(extra))
            for x in src.indexes:
                v = ix.get(x, VNONE)
                absent = i in src.none or (i in src.absent and x != 'data_loss')
                m = v == VNONE if absent else match(v, src.ix(i, x))
                if not m:
                    bad = 'index "{}" is {} instead of {}'.format(x, shown(v), 'None' if absent else X.show(src.ix(i, x).i))
            chk.ok(rules['indexes'], where, bad is None, bad)
        if tz is not None:
            v = io.fields.get('tz') if slots else io.fields.get('_tz', av(('ext', 'pytz.UTC')))
            chk.ok(rules['tz'], where, text_of(v or EMPTY) == tz, 'is on {}'.format(V.show(v or EMPTY)))
    if tz is not None:
        x = Branch(b.I, b.st.copy())
        for r, v in b.I._run(lambda: b.I.getattr(val, 'tz', x.st, b.I._scn_node(_node())))[0]:
            chk.ok(rules['tz'], name, text_of(v) == tz, 'the series is on {}'.format(V.show(v)))


def setup(I):
    fs.install(I)
    I.exact_loop = I.exact_while = 60
    I.maxk = 40


def run(chk):
    chk.rule('items', 'a saved series loads back with the same items: same type, at the same times, with the same unit, in a series of the class load was called on', 200)
    chk.rule('data', 'with the same labels and values', 200)
    chk.rule('indexes', 'with the same data indexes', 200)
    chk.rule('tz', 'with the same time zone', 100)
    chk.rule('storage', 'what a storage has put is what the same storage gets', 20)
    I = chk.interp(probe=PROBE)
    setup(I)
    for what, kw in cases(chk.tier != 'quick'):
        kw = dict(kw)
        name = '{}{}'.format(what, '' if kw.get('tz') is None else ' on ' + kw['tz'])
        with chk.guard('items', name):
            s = Scn(I)
            src = Src(chk, I, kw.pop('form'), s=s, **kw)
            bs, _ = accepted(chk, 'items', 'save of ' + name, s, s.method(src.ser, 'save'), kv('/data/f.csv'))
            for b in bs:
                s.st = b.st
                for x in accepted(chk, 'items', 'load of ' + name, s, s.method(s.cls(DS + 'TimeSeries'), 'load'), kv('/data/f.csv'))[0]:
                    compare(chk, name, src, x, x.val, kw.get('tz') or 'UTC', DS + 'TimeSeries')
    # Load is of the class it is called on, whatever class was saved
    for form in ('points', 'slots'):
        for saved in (DS + 'TimeSeries', PR + 'MySeries'):
            for loaded in (DS + 'TimeSeries', PR + 'MySeries'):
                name = '{} of {} as {}'.format(form, short(saved), short(loaded))
                with chk.guard('items', name):
                    s = Scn(I)
                    src = Src(chk, I, form, 3, s=s, tz=ROME)
                    ser = s.new(saved, *src.items)
                    for b in accepted(chk, 'items', 'save of ' + name, s, s.method(ser, 'save'), kv('/data/f.csv'))[0]:
                        s.st = b.st
                        for x in accepted(chk, 'items', 'load of ' + name, s, s.method(s.cls(loaded), 'load'), kv('/data/f.csv'))[0]:
                            compare(chk, name, src, x, x.val, ROME, loaded)
    # The storage, with its settings
    for form in ('points', 'slots'):
        for kw, gkw, tz in ((dict(), dict(), 'UTC'), (dict(tz=ROME), dict(), ROME), (dict(), dict(force_tz=ROME), ROME), (dict(separator=';'), dict(), 'UTC'),
                            (dict(separator='\t'), dict(), 'UTC'), (dict(timestamp_column='epoch'), dict(), 'UTC'), (dict(timestamp_format='epoch'), dict(), 'UTC'),
                            (dict(skip_errors=True), dict(), 'UTC'), (dict(sort=True), dict(), 'UTC'), (dict(comment_chars=['#']), dict(), 'UTC'),
                            (dict(data_type='dict'), dict(), 'UTC')):
            if kw.get('data_type'):
                kw = dict(data_type=av(('ext', 'builtins.dict')))
            name = 'storage of {} with {}'.format(form, dict({a: V.show(x) if isinstance(x, frozenset) else x for a, x in kw.items()}, **gkw))
            with chk.guard('storage', name):
                s = Scn(I)
                src = Src(chk, I, form, 4, s=s)
                lift = {a: s.list(*[kv(y) for y in x]) if isinstance(x, list) else x if isinstance(x, frozenset) else kv(x) for a, x in kw.items()}
                st = s.new('timeseria.storages.CSVFileStorage', kv('/data/f.csv'), **lift)
                g = {a: kv(x) for a, x in gkw.items()}
                if form == 'slots':
                    g.update(force_slots=kv(True), force_slot_unit=kv('1h'))
                else:
                    g.update(force_points=kv(True))
                for b in accepted(chk, 'storage', 'put in ' + name, s, s.method(st, 'put'), src.ser)[0]:
                    s.st = b.st
                    for rnd in ('', ', again'):
                        nxt = None
                        for x in accepted(chk, 'storage', 'get from ' + name + rnd, s, s.method(st, 'get'), **g)[0]:
                            compare(chk, name + rnd, src, x, x.val, tz, DS + 'TimeSeries', ('storage',) * 4)
                            nxt = nxt or x.st
                        if nxt is None:
                            break
                        s.st = nxt
