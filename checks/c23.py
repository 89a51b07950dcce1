"""C23: an existing file is never destroyed by a series which cannot be stored."""
from tsa.build import *
from tsa.rules import *
from checks.ops import *
from checks import fs

ENTRIES = ('save', 'to_csv', 'put')
F = '/data/f.csv'


def entry(s, how, ser):
    """(function, arguments before the named ones) to store a series in the file."""
    if how == 'put':
        st = s.new('timeseria.storages.CSVFileStorage', kv(F))
        return s.method(st, 'put'), [ser]
    return s.method(ser, how), [kv(F)]


def bad_series(s, I):
    """Series which cannot be stored: {name: (value, has the methods of time series)}"""
    out = {}
    out['an empty time series'] = (s.new(DS + 'TimeSeries'), True)
    out['a time series emptied'] = None
    out['points without data'] = (s.new(DS + 'TimeSeries', *[s.new(DS + 'TimePoint', t=kv(T0 + 60 * i)) for i in range(3)]), True)
    slots = [s.new(DS + 'TimeSlot', start=s.new(DS + 'TimePoint', t=kv(T0 + 3600 * i)), unit=s.new(UN + 'TimeUnit', kv('1h'))) for i in range(3)]
    out['slots without data'] = (s.new(DS + 'TimeSeries', *slots), True)
    out['a series of points not in time'] = (s.new(DS + 'Series', *[s.new(DS + 'DataPoint', kv(i), data=s.dict({'a': av(num('float'))})) for i in range(3)]), False)
    out['a series of numbers'] = (s.new(DS + 'Series', kv(1), kv(2)), False)
    out['an empty series'] = (s.new(DS + 'Series'), False)
    out['a list'] = (s.list(kv(1), kv(2)), False)
    out['None'] = (VNONE, False)
    ser = s.new(DS + 'TimeSeries', s.new(DS + 'DataTimePoint', t=kv(T0), data=s.dict({'a': av(num('float'))})))
    s.do(s.method(ser, 'pop'))
    out['a time series emptied'] = (ser, True)
    return out


def existing(s):
    fs.existing(s, F)
    return len(fs.log(s))


def untouched(chk, rule, name, st_of, since):
    for b in st_of:
        if '?' == b.I.exc_name(next(iter(b.val)), b.st) and False:
            continue
        e = fs.effects(b, since)
        if e is None:
            chk.undecided(rule, name, 'what is done on files is not known')
        else:
            chk.ok(rule, name, not e and fs.content(b, F) == ['something which was there'], 'the existing file is touched: {}'.format(', '.join(' '.join(str(y) for y in x) for x in e[:2]) or 'changed'))


def run(chk):
    chk.rule('refused', 'storing on an existing file without asking to overwrite is refused, and the file is not touched', 12)
    chk.rule('unstorable', 'a series which cannot be stored is refused before the existing file is touched, also when overwriting', 30)
    chk.rule('replaced', 'a series which can be stored replaces the whole content of the file, if asked to', 6)
    I = chk.interp(probe=fs.PROBE)
    fs.install(I)
    I.exact_loop = I.exact_while = 40
    for how in ENTRIES:
        for form in ('points', 'slots'):
            for over in ('not set', False, True):
                name = '{} of {} with overwrite {}'.format(how, form, over)
                with chk.guard('refused', name):
                    s = Scn(I)
                    src = Src(chk, I, form, 3, s=s)
                    fv, args = entry(s, how, src.ser)
                    since = existing(s)
                    kw = {} if over == 'not set' else {'overwrite': kv(over)}
                    if over is True:
                        bs, raised = accepted(chk, 'replaced', name, s, fv, *args, **kw)
                        for b in bs:
                            c = fs.content(b, F)
                            chk.ok('replaced', name, c is not None and len(c) > 3 and 'something which was there' not in c, 'the file has {}'.format(c and c[:2]))
                    else:
                        bs, raised = branches(s, fv, *args, **kw)
                        chk.ok('refused', name, not bs, 'not refused')
                        untouched(chk, 'refused', name, raised + bs, since)
        for what in bad_series(Scn(I), I):
            for over in (False, True):
                name = '{} of {} with overwrite {}'.format(how, what, over)
                with chk.guard('unstorable', name):
                    s = Scn(I)
                    ser, ts = bad_series(s, I)[what]
                    if how != 'put' and not ts:
                        continue
                    fv, args = entry(s, how, ser)
                    since = existing(s)
                    bs, raised = branches(s, fv, *args, overwrite=kv(over))
                    chk.ok('unstorable', name, not bs, 'not refused')
                    untouched(chk, 'unstorable', name, raised + bs, since)
