"""C37: anomaly events are exactly the persistent ensembles of anomalous elements."""
from itertools import product
from checks.mods import *

AN = MO + 'anomaly_detectors.AnomalyDetector'


def events(flags, persistence, gap):
    """The elements which are part of an event, by definition."""
    n_ = len(flags)
    out = [0] * n_
    i = 0
    while i < n_:
        if not flags[i]:
            i += 1
            continue
        last = i
        j = i + 1
        while j < n_ and j - last <= gap + 1:
            if flags[j]:
                last = j
            j += 1
        # From i to last, with no more than gap elements which are not anomalous in a row
        if last - i + 1 >= persistence:
            out[i:last + 1] = [1] * (last - i + 1)
        i = last + 1
    return out


class Indexed(Src):

    def __init__(self, chk, I, vals, form='points', **kw):
        self.vals = vals
        Src.__init__(self, chk, I, form, len(vals), labels=('a',), indexes=('anomaly', 'ix'), **kw)
        for it, v in zip(self.items, vals):
            if v == 'absent':
                st = self.s.st
                d = next(iter(one(st, it).fields['_data_indexes']))
                ob = st.get(d[1])
                self.s.st.put(d[1], ob.upd(kv={k_: x for k_, x in ob.kv.items() if k_ != V.k('anomaly')}))

    def index_atom(self, i, x):
        if x == 'anomaly':
            v = self.vals[i]
            return VNONE if v in (None, 'absent') else kv(v)
        return Src.index_atom(self, i, x)


def case(chk, I, vals, threshold=None, persistence=None, gap=None, replace=False, inplace=False, form='points'):
    kw = {}
    if threshold is not None:
        kw['index_treshold'] = kv(threshold)
    if persistence is not None:
        kw['min_persistence'] = kv(persistence)
    if gap is not None:
        kw['max_gap'] = kv(gap)
    if replace:
        kw['replace_index'] = kv(True)
    if inplace:
        kw['inplace'] = kv(True)
    name = 'mark_events({}) of {} with indexes {}'.format(', '.join('{}={}'.format(k_, V.show(v)) for k_, v in kw.items()), form, vals)
    with chk.guard('events', name):
        s = Scn(I)
        src = Indexed(chk, I, vals, form, s=s)
        before = s.st
        bs, raised = branches(s, s.attr(s.cls(AN), 'mark_events'), src.ser, **kw)
        if raised:
            chk.viol('events', name, 'fails: {}'.format(describe(I, [], raised)))
            return
        th = 1.0 if threshold is None else threshold
        flags = [v not in (None, 'absent') and v >= th for v in vals]
        exp = events(flags, 2 if persistence is None else persistence, 2 if gap is None else gap)
        for b in bs:
            its = items_of(b.st, src.ser if inplace else b.val)
            if its is None or len(its) != len(vals):
                chk.undecided('events', name, 'items not known')
                continue
            got, rest = [], []
            for i, it in enumerate(its):
                ix = indexes_of(b.st, it) or {}
                x = 'anomaly' if replace else 'anomaly_event'
                ok, v = V.one_const(ix.get(x, EMPTY))
                got.append(v if ok else '?')
                names = set(ix) - {'anomaly', 'anomaly_event'}
                if names != {'ix'} or match(ix['ix'], src.ix(i, 'ix')) is False:
                    rest.append('indexes of element {} are {}'.format(i, sorted(ix)))
                if replace and 'anomaly_event' in ix:
                    rest.append('element {} still has the index of the event'.format(i))
                if not replace:
                    ok, v = V.one_const(ix.get('anomaly', kv('absent')))
                    if not ok or v != vals[i]:
                        rest.append('the anomaly index of element {} is {}'.format(i, V.show(ix.get('anomaly', EMPTY))))
                d = data_of(b.st, it)
                if time_of(b.st, it) != src.t[i] or d is None or set(d) != {'a'} or match(d['a'], src.v(i, 'a')) is False:
                    rest.append('element {} is changed'.format(i))
            if '?' in got:
                chk.undecided('events', name, 'indexes not known')
            else:
                chk.ok('events', name, got == exp, 'marks {} instead of {}'.format(got, exp))
            chk.ok('others', name, not rest, '; '.join(rest[:2]))
            if not inplace:
                chk.ok('source', name, not changed(before, b.st, src.ser), 'the series itself is changed')


def run(chk):
    I = chk.interp(probe=PROBE)
    I.exact_loop = I.exact_while = 12
    chk.rule('events', 'the elements marked are all and only those of the persistent ensembles of anomalous elements', 300)
    chk.rule('others', 'and nothing else is changed in the elements', 300)
    chk.rule('source', 'nor, if not in place, in the series', 250)
    deep = chk.tier != 'quick'
    for n_ in (1, 2, 3, 4, 5, 6) + ((7, 8) if deep else ()):
        for fl in product((0, 1), repeat=n_):
            vals = [1.0 if f else 0.25 for f in fl]
            case(chk, I, vals)
            if n_ in (3, 5) or deep:
                for p, g in ((1, 0), (1, 1), (2, 0), (2, 1), (3, 1), (3, 2)):
                    case(chk, I, vals, persistence=p, gap=g)
    for vals in ([1.0, 1.0, 0.2, 0.2, 0.2, 1.0, 1.0], [0.2, 1.0, 1.0, 0.2, 0.2, 0.2, 0.2], [1.0, 0.2, 1.0, 0.2, 0.2, 0.2, 1.0, 1.0], [0.2] * 3 + [1.0] * 4):
        for form in ('points', 'slots'):
            case(chk, I, vals, form=form)
            case(chk, I, vals, form=form, replace=True)
            case(chk, I, vals, form=form, inplace=True)
            case(chk, I, vals, form=form, replace=True, inplace=True)
    for vals in ([0.5, 0.6, 0.4, 0.4, 0.4, 0.7], [0.49, 0.5, 0.5, 0.1, 0.1, 0.1], [0, 0.0, 1, 1, 0]):
        for th in (0.5, 0.6, 0.0, 0):
            case(chk, I, vals, threshold=th)
    for vals in (['absent', 1.0, 1.0], [1.0, 'absent', 1.0, 0.2], [1.0, None, None, None, 1.0, 1.0], [1.0, 1.0, 'absent', 'absent', 'absent'], ['absent'] * 3, [None, 'absent', 1.0]):
        case(chk, I, vals)
        case(chk, I, vals, replace=True)
