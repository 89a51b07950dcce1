"""C25: derived series keep the data indexes and the time zone of their source."""
from checks.ops import *


def tz_of(st, item):
    def tz(point):
        v = one(st, point).fields.get('_tz', EMPTY)
        return V.join(v - {UNB}, UTC) if UNB in v or not v or v == VNONE else v
    UTC = av(('ext', 'pytz.UTC'))
    ob = one(st, item)
    if 'start' in ob.fields:
        return (ob.fields.get('tz', EMPTY), tz(ob.fields['start']), tz(ob.fields['end']))
    return (tz(item),)


def run(chk):
    chk.rule('indexes', 'each item of a derived series has the data indexes, with their values, of the item it is derived from', 60)
    chk.rule('tz', 'and its time zone', 60)
    chk.rule('unit', 'slots keep their unit', 10)
    chk.rule('transformed', 'resampled and aggregated items have a data loss, every index of the source computed from that index only, and the time zone of the source', 20)
    I = chk.interp()
    ZONES = {None: 'pytz.UTC', ROME: 'pytz.timezone:' + ROME}
    for op in OPS:
        if not op.indexes:
            continue
        for tz in (None, ROME):
            for indexes in (('data_loss', 'ix'), (), ('ix',), ('data_loss', 'data_reconstructed', 'anomaly')):
                for form in op.forms:
                    if indexes != ('data_loss', 'ix') and (tz or form == 'variable'):
                        continue
                    for kind in op.kinds:
                        order = {l: [0, 1, 2] for l in (('a', 'b') if kind == 'dict' else ('0', '1'))} if op.order else None
                        src = Src(chk, I, form, 3, kind, tz=tz, indexes=indexes, order=order)
                        name = '{} of {}, indexes ({})'.format(op.name, src.name, ', '.join(indexes))
                        with chk.guard('indexes', name):
                            bs, raised = call(src, op)
                            spec = op.spec(src)
                            for b in bs:
                                its = items_of(b.st, b.val)
                                if its is None:
                                    chk.undecided('indexes', name, 'items not known')
                                    continue
                                if len(its) != len(spec):
                                    chk.viol('indexes', name, '{} items instead of {}'.format(len(its), len(spec)))
                                    continue
                                bad, badtz, badu = [], [], []
                                for (i, _), it in zip(spec, its):
                                    if i >= 0:
                                        got = indexes_of(b.st, it)
                                        if got != indexes_of(src.s0, src.items[i]):
                                            bad.append('item {}: {} instead of {}'.format(i, got and {x: V.show(v) for x, v in got.items()}, list(src.indexes)))
                                    j = max(i, 0)
                                    if tz_of(b.st, it) != tz_of(src.s0, src.items[j]):
                                        badtz.append('item {}: {} instead of {}'.format(i, [V.show(x) for x in tz_of(b.st, it)], [V.show(x) for x in tz_of(src.s0, src.items[j])]))
                                    if form in UNITS:
                                        s = Branch(I, b.st.copy())
                                        u = s.attr(it, 'unit')
                                        uo = one(s.st, u)
                                        if uo is None or uo.fields.get('%spec') != kv(UNITS[form]):
                                            badu.append('item {}: {}'.format(i, V.show(u, s.st)))
                                chk.ok('indexes', name, not bad, '; '.join(bad[:2]))
                                chk.ok('tz', name, not badtz, '; '.join(badtz[:2]))
                                if form in UNITS:
                                    chk.ok('unit', name, not badu, '; '.join(badu[:2]))
                                s = Branch(I, b.st.copy())
                                z = s.attr(b.val, 'tz')
                                chk.ok('tz', name, z == av(('ext', ZONES[tz])) , 'the series is on {}'.format(V.show(z, s.st)))
    for tz in (None, ROME):
        for indexes in (('data_loss', 'ix', 'iy'), (), ('ix',), ('data_loss', 'data_reconstructed', 'anomaly', 'forecast')):
            for src, how, unit, kw in transformations(chk, I, tz=tz, indexes=indexes):
                if (tz or indexes != ('data_loss', 'ix', 'iy')) and src.when not in ('every minute', 'with a gap'):
                    continue
                name = '{}({}) of {} at {}, indexes ({})'.format(how, unit, src.name, src.when, ', '.join(indexes))
                with chk.guard('transformed', name):
                    bs, raised = transform(src, how, unit)
                    for b in bs:
                        its = items_of(b.st, b.val)
                        if its is None:
                            chk.undecided('transformed', name, 'items not known')
                            continue
                        bad = []
                        for it in its:
                            d = indexes_of(b.st, it)
                            if d is None or set(d) != set(indexes) | {'data_loss'}:
                                bad.append('indexes {}'.format(d and sorted(d)))
                                continue
                            for x, v in d.items():
                                if x == 'data_loss':
                                    if v == VNONE or not v:
                                        bad.append('no data loss')
                                    continue
                                from_ = {t.split(':')[1] for a in v if a[0] == 'n' for t in a[3] if t.startswith('x:')}
                                if from_ - {x}:
                                    bad.append('{} from {}'.format(x, sorted(from_)))
                                if not from_ and not any(a == NONE for a in v):
                                    bad.append('{} is {}'.format(x, V.show(v)))
                                if v == VNONE and src.when == 'every minute':
                                    bad.append('{} is None'.format(x))
                            z = tz_of(b.st, it)
                            if any(y != av(('ext', ZONES[tz])) for y in z):
                                bad.append('on {}'.format([V.show(y) for y in z]))
                        chk.ok('transformed', name, not bad and len(its) > 0, '; '.join(bad[:2]) or 'no items')
