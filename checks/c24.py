"""C24: malformed lines are never dropped unless asked to."""
from tsa.build import *
from tsa.rules import *
from checks.ops import *
from checks import fs

F = '/data/f.csv'
H = 3600


def tok(I, name):
    """The text of a value."""
    a = num('float', '-0+', X.tag(X.sym(name)))
    return I.models.token(a)


def text(I, times, cols=2, header=True, bad=None, sep=','):
    """The lines of a file. bad: {position: function of the fields giving the line}"""
    out = []
    if header:
        out.append(sep.join(['epoch'] + ['abcd'[j] for j in range(cols)]) + '\n')
    for i, t in enumerate(times):
        fields = [str(t)] + [tok(I, 'v{}{}'.format(i, 'abcd'[j])) for j in range(cols)]
        if bad and i in bad:
            fields = bad[i](fields)
        out.append(sep.join(fields) + '\n')
    return out


BAD = {
    'a timestamp which is not one': lambda f: ['yesterday'] + f[1:],
    'no timestamp': lambda f: [''] + f[1:],
    'a value which is not a number': lambda f: f[:-1] + ['broken'],
    'a first value which is not a number': lambda f: f[:1] + ['broken'] + f[2:],
    'an empty value': lambda f: f[:-1] + [''],
    'a value which is a placeholder for no data': lambda f: f[:-1] + ['N.A.'],
    'a missing value': lambda f: f[:-1],
}
ISO = {
    'a date which does not exist': lambda f: ['1970-02-30T00:00:00Z'] + f[1:],
    'half a timestamp': lambda f: ['1970-02-11'] + f[1:],
}


def iso(t):
    import datetime
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')


def storage(s, lines, **kw):
    ob = s.obj(fs.global_of(s, 'FILES'))
    val = s.list(*[kv(l) for l in lines])
    s.st.put(s.oid(fs.global_of(s, 'FILES')), ob.upd(kv={**ob.kv, V.k(F): val}))
    return s.new('timeseria.storages.CSVFileStorage', kv(F), **{a: kv(x) if not isinstance(x, frozenset) else x for a, x in kw.items()})


def check_items(chk, rule, name, b, val, want, cols, slots):
    """want: [(time, position of the line)]"""
    its = items_of(b.st, val)
    if its is None:
        chk.undecided(rule, name, 'items not known')
        return
    got = []
    for it in its:
        d = data_of(b.st, it)
        got.append((time_of(b.st, it), d, indexes_of(b.st, it)))
    if any(g[0] is None or g[1] is None for g in got):
        chk.undecided(rule, name, 'times or data not known')
        return
    chk.ok(rule, name, [g[0] for g in got] == [t for t, _ in want], 'items at {} instead of {}'.format([g[0] for g in got], [t for t, _ in want]))
    for (t, d, ix), (wt, i) in zip(got, want):
        if t != wt or i is None:
            continue
        for j in range(cols):
            l = 'abcd'[j]
            m = match(d.get(l, EMPTY), S('v{}{}'.format(i, l)))
            if m is None:
                chk.undecided(rule, name, 'value not known')
            else:
                chk.ok(rule, name, m, 'the item at {} has {} instead of {}'.format(t, shown(d.get(l, EMPTY)), 'v{}{}'.format(i, l)))


def run(chk):
    chk.rule('raised', 'a malformed line raises an error', 40)
    chk.rule('skipped', 'with skip_errors, just the malformed line is left out', 40)
    chk.rule('read', 'a well formed file gives one item for each line, with its values', 20)
    chk.rule('order', 'lines which cannot be added after the previous ones raise an error, or are left out with skip_errors', 12)
    I = chk.interp(probe=fs.PROBE)
    fs.install(I)
    I.exact_loop = I.exact_while = 40
    for form, step in (('points', 60), ('slots', H)):
        gkw = dict(force_points=kv(True)) if form == 'points' else dict(force_slots=kv(True), force_slot_unit=kv('1h'))
        for stamps in ('epoch', 'iso8601'):
            times = [T0 + step * i for i in range(5)]
            as_text = times if stamps == 'epoch' else [iso(t) for t in times]
            for cols in (2, 1):
                # Well formed
                for kw in (dict(), dict(skip_errors=True), dict(timestamp_format=stamps)):
                    name = '{} with {} timestamps and {} columns, {}'.format(form, stamps, cols, kw)
                    with chk.guard('read', name):
                        s = Scn(I)
                        st = storage(s, text(I, as_text, cols), **kw)
                        for b in accepted(chk, 'read', name, s, s.method(st, 'get'), **gkw)[0]:
                            check_items(chk, 'read', name, b, b.val, list(zip(times, range(5))), cols, form == 'slots')
                for what, f in list(BAD.items()) + (list(ISO.items()) if stamps == 'iso8601' else []):
                    if cols == 1 and what == 'a missing value':
                        continue
                    for at in ((0, 2, 4) if chk.tier != 'quick' or cols == 2 else (2,)):
                        for skip in (False, True):
                            name = '{} with {} timestamps and {} columns, line {} with {}{}'.format(form, stamps, cols, at, what, ', skipping' if skip else '')
                            rule = 'skipped' if skip else 'raised'
                            if form == 'slots' and skip and at == 2:
                                want = [(t, None if i == 2 else i) for i, t in enumerate(times)]     # filled, by interpolation
                            else:
                                want = [(t, i) for i, t in enumerate(times) if i != at]
                            with chk.guard(rule, name):
                                s = Scn(I)
                                st = storage(s, text(I, as_text, cols, bad={at: f}), skip_errors=skip, **({} if at else dict(timestamp_format=stamps)))
                                if not skip:
                                    bs, raised = branches(s, s.method(st, 'get'), **gkw)
                                    if bs:
                                        chk.viol(rule, name, 'the line is silently dropped, or read as something else')
                                    else:
                                        chk.ok(rule, name)
                                else:
                                    for b in accepted(chk, rule, name, s, s.method(st, 'get'), **gkw)[0]:
                                        check_items(chk, rule, name, b, b.val, want, cols, form == 'slots')
        # Lines which are well formed, but cannot be added
        for what, rows, keep in (('a duplicate', [0, 1, 1, 2, 3], [0, 1, 3, 4]), ('one before the previous', [0, 1, 3, 2, 4], [0, 1, 2, 4]), ('one before the first', [1, 2, 3, 0, 4], [0, 1, 2, 4])):
            for skip in (False, True):
                name = '{} with {}{}'.format(form, what, ', skipping' if skip else '')
                with chk.guard('order', name):
                    s = Scn(I)
                    ts = [T0 + step * i for i in rows]
                    st = storage(s, text(I, ts, 2), skip_errors=skip)
                    if not skip:
                        bs, raised = branches(s, s.method(st, 'get'), **gkw)
                        chk.ok('order', name, not bs, 'the line is silently dropped, or read as something else')
                    else:
                        want = [(ts[i], i) for i in keep]
                        if form == 'slots':
                            full, prev = [], None
                            for t, i in want:
                                while prev is not None and prev + H < t:
                                    prev += H
                                    full.append((prev, None))
                                full.append((t, i))
                                prev = t
                            want = full
                        for b in accepted(chk, 'order', name, s, s.method(st, 'get'), **gkw)[0]:
                            check_items(chk, 'order', name, b, b.val, want, 2, form == 'slots')
