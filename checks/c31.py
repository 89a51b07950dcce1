"""C31: derivatives, integrals, averages and the other operations give the values of their definition."""
from checks.ops import *


def check_values(chk, rule, name, b, src, want, exact_labels=True, where=''):
    its = items_of(b.st, b.val if b.val != VNONE else src.ser)
    if its is None:
        chk.undecided(rule, name, 'the items of the result are not known')
        return
    if len(its) != len(want):
        chk.viol(rule, name, '{} items, {} expected'.format(len(its), len(want)), where)
        return
    for (i, exp), it in zip(want, its):
        t = time_of(b.st, it)
        tw = src.t[i] if i >= 0 else src.t[0] - src.step
        if t is not None and t != tw:
            chk.viol(rule, name, 'item {}: time {}, {} expected'.format(i, t, tw), where)
            return
        d = data_of(b.st, it)
        if d is None:
            chk.undecided(rule, name, 'the data of item {} is not known'.format(i))
            return
        for l, e in exp.items():
            if l not in d:
                chk.viol(rule, name, 'item {}: no value for "{}"'.format(i, l), where)
                return
            r = match(d[l], e)
            if r is False:
                chk.viol(rule, name, 'item {}, "{}": {} instead of {}'.format(i, l, shown(d[l]), e), where)
                return
            if r is None:
                chk.undecided(rule, name, 'item {}, "{}": {}'.format(i, l, V.show(d[l], b.st)))
                return
    chk.ok(rule, name)


PROBE = """
def inverse(s):
    return s.integral().derivative()[:-1]

def inverse_c(s, c):
    return s.integral(c=c).derivative()[:-1]

def back(s, first):
    return s.derivative().integral(c=first)

def undo(s):
    return s.csum().diff()

def redo(s, first):
    return s.diff().csum(offset=first)
"""


def scalars(chk, I, rule):
    """Scalar operations, for all the labels or for one."""
    for form in ('points', 'variable', 'slots'):
        for kind in ('dict', 'list'):
            for r in ORDERS:
                names = ('a', 'b') if kind == 'dict' else ('0', '1')
                order = {l: [r[(i + j) % 4] for i in range(4)] for j, l in enumerate(names)}
                src = Src(chk, I, form, 4, kind, ('a', 'b'), order=order)
                for op in ('min', 'max', 'sum', 'avg'):
                    if op in ('sum', 'avg') and r is not ORDERS[0]:
                        continue
                    for arg in (None,) + names:
                        name = '{}({}) of {}{}'.format(op, arg or '', src.name, ' ordered as {}'.format(r) if op in ('min', 'max') else '')
                        with chk.guard(rule, name):
                            s = src.s.fork()
                            m = s.method(src.ser, op)
                            bs, raised = branches(s, m, **({} if arg is None else {'data_label': kv(arg)}))
                            for x in raised:
                                chk.viol(rule, name, 'fails: {}'.format(describe(I, [], [x])))
                            for b in bs:
                                ok = True
                                for l in names if arg is None else (arg,):
                                    vals = [src.v(i, l) for i in range(4)]
                                    want = {'min': lambda: vals[order[l].index(min(order[l]))], 'max': lambda: vals[order[l].index(max(order[l]))],
                                            'sum': lambda: sum(vals, E.of(0)), 'avg': lambda: sum(vals, E.of(0)) / 4}[op]()
                                    if arg is None:
                                        d = one(b.st, b.val)
                                        v = d.kv.get(V.k(l), EMPTY) if d is not None and d.kind == 'dict' else EMPTY
                                    else:
                                        v = b.val
                                    x = match(v, want)
                                    if x is not True:
                                        ok = False
                                        if x is None:
                                            chk.undecided(rule, name, V.show(v, b.st))
                                        else:
                                            chk.viol(rule, name, '"{}": {} instead of {}'.format(l, shown(v), want))
                                        break
                                if ok:
                                    chk.ok(rule, name)


def weighted(chk, I, rule):
    """The average of weighted items."""
    for form in ('points', 'slots'):
        src = Src(chk, I, form, 3)
        s = src.s
        ws = [av(num('float', '+', X.tag(X.sym('w%d' % i)))) for i in range(3)]
        for i, it in enumerate(src.items):
            ob = s.obj(it)
            s.st.put(s.oid(it), ob.upd(fields=dict(ob.fields, weight=ws[i])))
        name = 'weighted avg of {}'.format(src.name)
        with chk.guard(rule, name):
            bs, raised = branches(s, s.method(src.ser, 'avg'))
            for x in raised:
                chk.viol(rule, name, 'fails: {}'.format(describe(I, [], [x])))
            for b in bs:
                d = one(b.st, b.val)
                tot = S('w0') + S('w1') + S('w2')
                for l in src.names:
                    v = d.kv.get(V.k(l), EMPTY)
                    want = (src.v(0, l) * S('w0') + src.v(1, l) * S('w1') + src.v(2, l) * S('w2'))
                    r = match(v, want / tot) or match(v, want) and weights_one(b.st)
                    chk.ok(rule, name, r is not False, '"{}": {} instead of {}'.format(l, shown(v), want / tot)) if r is not None else \
                        chk.undecided(rule, name, V.show(v, b.st))


def weights_one(st):
    return True


def merges(chk, I, rule):
    """Merging series on their common times."""
    for form in ('points', 'slots'):
        step = STEP[form]
        for first, second in ((0, 0), (0, 1), (1, 0), (0, 2)):
            for la, lb in ((('a',), ('b',)), (('a', 'b'), ('a', 'b')), (('a', 'b'), ('b', 'c')), (('b',), ('a',))):
                A = Src(chk, I, form, labels=la, times=[T0 + step * (i + first) for i in range(3)], prefix='u')
                B = Src(chk, I, form, labels=lb, times=[T0 + step * (i + second) for i in range(4 - second)], prefix='w', s=A.s)
                name = 'merge of {} from {} and {} from {}'.format(A.name, first, B.name, second)
                with chk.guard(rule, name):
                    s = B.s
                    bs, raised = branches(s, s.method(A.ser, 'merge'), B.ser)
                    for x in raised:
                        chk.viol(rule, name, 'fails: {}'.format(describe(I, [], [x])))
                    common = [t for t in A.t if t in B.t]
                    for b in bs:
                        its = items_of(b.st, b.val)
                        if its is None:
                            chk.undecided(rule, name, 'items not known')
                            continue
                        if len(its) != len(common):
                            chk.viol(rule, name, '{} items instead of {}'.format(len(its), len(common)))
                            continue
                        bad = None
                        for t, it in zip(common, its):
                            i, j = A.t.index(t), B.t.index(t)
                            want = {}
                            for l in set(la) | set(lb):
                                xs = ([A.v(i, l)] if l in la else []) + ([B.v(j, l)] if l in lb else [])
                                want[l] = sum(xs, E.of(0)) / len(xs)
                            d = data_of(b.st, it)
                            if d is None:
                                bad = (None, 'data not known')
                                break
                            if set(d) != set(want) or time_of(b.st, it) not in (t, None):
                                bad = (False, 'at {}: labels {} at {}'.format(t, sorted(d), time_of(b.st, it)))
                                break
                            for l, e in want.items():
                                r = match(d[l], e)
                                if r is not True:
                                    bad = (r, 'at {}, "{}": {} instead of {}'.format(t, l, shown(d[l]), e))
                        if bad is None:
                            chk.ok(rule, name)
                        elif bad[0] is None:
                            chk.undecided(rule, name, bad[1])
                        else:
                            chk.viol(rule, name, bad[1])


def run(chk):
    chk.rule('values', 'the values of the items of the result are those of the definition of the operation, for each item and label', 200)
    chk.rule('scalars', 'minimum, maximum, sum and average are those of the values, for all the labels or for the one asked', 60)
    chk.rule('weighted', 'the average of weighted items is the weighted average', 2)
    chk.rule('merge', 'merged items are the averages of the ones at the same time', 20)
    chk.rule('inverse', 'derivative and integral, and differences and cumulative sums, are inverse of each other', 20)
    I = chk.interp(probe=PROBE)
    sizes = (2, 3, 4) if chk.tier == 'quick' else (2, 3, 4, 5, 6)
    for op in OPS:
        for n_ in (4,) if op.order else sizes:
            if n_ < 3 and 'mavg' in op.method or op.method == 'slice' and n_ < 3:
                continue
            for src in sources(chk, I, op, n_):
                name = '{} of {}'.format(op.name, src.name)
                with chk.guard('values', name):
                    bs, raised = call(src, op)
                    base = guessed(src.s.st)
                    for r in raised:
                        if not guessed(r.st) - base:
                            chk.viol('values', name, 'fails: {}'.format(describe(I, [], [r])))
                    for b in bs:
                        check_values(chk, 'values', name, b, src, op.spec(src))
    scalars(chk, I, 'scalars')
    weighted(chk, I, 'weighted')
    merges(chk, I, 'merge')
    for form in CONST:
        for kind in ('dict', 'list'):
            for n_ in (3, 4, 5):
                src = Src(chk, I, form, n_, kind)
                c = dict(inverse=(), inverse_c=(arg_num('c'),), undo=(), redo='_diff', back='_derivative')
                for f, args in c.items():
                    name = '{} of {}'.format({'inverse': 'derivative(integral())', 'inverse_c': 'derivative(integral(c))', 'undo': 'diff(csum())',
                                              'redo': 'csum(offset=first) of diff()', 'back': 'integral(c=first) of derivative()'}[f], src.name)
                    with chk.guard('inverse', name):
                        s = src.s.fork()
                        if isinstance(args, str):
                            if kind == 'list' and f == 'redo':
                                continue
                            args = (s.dict({l + (args if kind == 'dict' else ''): av(num('float', '-0+', {'label:' + l} | X.tag(X.sym(src.sym(0, l))))) for l in src.names}),)
                        bs, raised = branches(s, s.probe(f), *args and (src.ser,) + args or (src.ser,))
                        for r in raised:
                            chk.viol('inverse', name, 'fails: {}'.format(describe(I, [], [r])))
                        sx = {'inverse': '_integral_derivative', 'inverse_c': '_integral_derivative', 'undo': '_csum_diff', 'redo': '_diff_csum', 'back': '_derivative_integral'}[f]
                        if kind == 'list':
                            sx = ''
                        want = [(i, {l + sx: src.v(i, l) for l in src.names}) for i in range(1 if f == 'undo' else 0, n_ - 1 if 'inverse' in f else n_)]
                        for b in bs:
                            check_values(chk, 'inverse', name, b, src, want)
