"""C03: in-place calls work on the series given and return nothing, the others return something else."""
from checks.mods import *


def run(chk):
    chk.rule('in-place', 'a call in place returns nothing, and the values are in the very items of the series given', 20)
    chk.rule('not-in-place', 'a call which is not in place, also when not said, always returns a new series', 60)
    chk.rule('not-supported', 'where in-place is not supported the call is refused, deliberately, with the series as it was', 20)
    chk.rule('models', 'a forecaster or reconstructor applied in place returns nothing and works on the series given; otherwise, also when not said, it returns a new series', 30)
    I = chk.interp(probe=PROBE)
    models(chk, I)
    for op in OPS:
        for src in sources(chk, I, op, 3 if not op.order else 4):
            name = '{} of {}'.format(op.name, src.name)
            base = guessed(src.s.st)
            if op.inplace:
                with chk.guard('in-place', name):
                    bs, raised = call(src, op, inplace=True)
                    for r in raised:
                        if not guessed(r.st) - base:
                            chk.viol('in-place', name, 'fails: {}'.format(describe(I, [], [r])))
                    for b in bs:
                        its = items_of(b.st, src.ser)
                        if b.val != VNONE:
                            chk.viol('in-place', name, 'returns {}'.format(V.show(b.val, b.st)))
                        elif its != items_of(src.s0, src.ser):
                            chk.viol('in-place', name, 'the items of the series are not the ones given')
                        else:
                            same = [i for i, it in enumerate(its) if data_of(b.st, it) == data_of(src.s0, it)]
                            chk.ok('in-place', name, len(same) < len(its), 'nothing is done on the items of the series')
            for inplace in (None, False):
                if op.inplace is None and inplace is not None:
                    continue
                n2 = name + ('' if inplace is None else ' with inplace=False')
                with chk.guard('not-in-place', n2):
                    bs, raised = call(src, op, inplace=inplace)
                    for r in raised:
                        if not guessed(r.st) - base:
                            chk.viol('not-in-place', n2, 'fails: {}'.format(describe(I, [], [r])))
                    for b in bs:
                        ob = one(b.st, b.val)
                        if VNONE <= b.val:
                            chk.viol('not-in-place', n2, 'returns nothing')
                        elif ob is None:
                            chk.undecided('not-in-place', n2, V.show(b.val, b.st))
                        else:
                            chk.ok('not-in-place', n2, b.oid(b.val) != b.oid(src.ser) and ob.cls == one(b.st, src.ser).cls,
                                   'returns {}'.format('the series given' if b.oid(b.val) == b.oid(src.ser) else V.show(b.val, b.st)))
            if op.refuse_inplace:
                with chk.guard('not-supported', name):
                    bs, raised = call(src, op, inplace=True)
                    for b in bs:
                        if not guessed(b.st) - base:
                            chk.viol('not-supported', name, 'accepted in place')
                        else:
                            chk.undecided('not-supported', name, 'may be accepted')
                    for r in raised:
                        d = [x for x in changed(src.s0, r.st, src.ser) if not x[1].startswith('unset')]
                        n_ = I.exc_name(next(iter(r.val)), r.st)
                        if n_ in ACCIDENTS + ('TypeError', 'KeyError'):
                            chk.viol('not-supported', name, 'refused by accident: {}'.format(describe(I, [], [r])))
                        else:
                            chk.ok('not-supported', name, not d, 'refused, but the series is changed: {}'.format(d[:2]))


def models(chk, I):
    cases = [PR + 'Learner', PR + 'Filler', PR + 'ListFiller', MO + 'forecasters.PeriodicAverageForecaster', MO + 'reconstructors.PeriodicAverageReconstructor',
             MO + 'reconstructors.LinearInterpolationReconstructor']
    for q in cases:
        fc = any(a.endswith('.Forecaster') for a in ancestors(I, q))
        for form in ('points', 'slots'):
            for steps in ((1, 2) if fc and 'Learner' not in q else (1,) if fc else (None,)):
                for gaps in ((0, 0, 0, 0, 0),) if fc else ((0, 1, 0, 0, 0), (0, 0, 1, 1, 0), (0, 0, 0, 0, 0)):
                    for inplace in (None, False, True):
                        name = '{}.apply of {}{}{}{}'.format(short(q), form, '' if fc else ' with gaps {}'.format(gaps), '' if steps is None else ', {} steps'.format(steps),
                                                            '' if inplace is None else ', inplace={}'.format(inplace))
                        with chk.guard('models', name):
                            s = Scn(I)
                            m = s.new(q)
                            if 'Averag' in q:
                                fitted_state(s, m, Src(chk, I, form, 6, labels=('a',), prefix='f', s=s, loss0=True).ser, periodicity=kv(2))
                            elif 'Learner' in q:
                                fitted_state(s, m, Src(chk, I, form, 6, labels=('a',), prefix='f', s=s, loss0=True).ser)
                            src = Src(chk, I, form, 5, labels=('a',), s=s, losses=[float(x) for x in gaps])
                            kw = {} if steps is None else dict(steps=kv(steps))
                            if inplace is not None:
                                kw['inplace'] = kv(inplace)
                            base = guessed(s.st)
                            bs, raised = branches(s, s.method(m, 'apply'), src.ser, **kw)
                            sure = [r for r in raised if not guessed(r.st) - base]
                            if sure or not bs:
                                chk.viol('models', name, 'fails: {}'.format(describe(I, [], sure or raised)))
                                continue
                            was = items_of(s.st, src.ser)
                            for b in bs:
                                if not inplace:
                                    ob = one(b.st, b.val)
                                    if VNONE <= b.val:
                                        chk.viol('models', name, 'returns nothing')
                                    elif ob is None:
                                        chk.undecided('models', name, V.show(b.val, b.st))
                                    elif b.oid(b.val) == b.oid(src.ser):
                                        chk.viol('models', name, 'returns the series given')
                                    else:
                                        its = items_of(b.st, b.val)
                                        chk.ok('models', name, ob.cls == one(b.st, src.ser).cls and its is not None and len(its) == 5 + (steps or 0) and items_of(b.st, src.ser) == was,
                                               'returns {} of {} items, the series given has now {} items'.format(ob.cls, its and len(its), len(items_of(b.st, src.ser) or [])))
                                    continue
                                its = items_of(b.st, src.ser)
                                if b.val != VNONE:
                                    chk.viol('models', name, 'returns {}'.format(V.show(b.val, b.st)))
                                elif its is None or its[:5] != was or len(its) != 5 + (steps or 0):
                                    chk.viol('models', name, 'the series given is not worked on: {} items'.format(its and len(its)))
                                else:
                                    marks = [(indexes_of(b.st, it) or {}).get('data_reconstructed', EMPTY) for it in its]
                                    done = fc or all(bool(g) == bool(r and r <= kv(1) | kv(1.0) | kv(True)) for g, r in zip(gaps, marks))
                                    chk.ok('models', name, done, 'the items of the series given are not the ones reconstructed')
