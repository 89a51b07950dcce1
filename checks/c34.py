"""C34: what is computed for a data label depends on that label only."""
from checks.ops import *


def labels_in(val):
    out = set()
    for a in val:
        if a[0] in ('n', 'o', 's', 'exti', 'top'):
            out |= {t[6:] for t in a[-1] if t.startswith('label:')}
    return out


def check_labels(chk, rule, name, d, want, own=lambda l: l, allow=()):
    """The data has the labels wanted and each value comes from its own label only."""
    if d is None:
        chk.undecided(rule, name, 'data not known')
        return False
    extra = set(d) - set(want) - set(allow)
    missing = set(want) - set(d)
    if extra or missing:
        chk.viol(rule, name, 'labels {} instead of {}'.format(sorted(d), sorted(want)))
        return False
    for l in want:
        got = labels_in(d[l])
        if got - {own(l)}:
            chk.viol(rule, name, '"{}" is computed from the values of "{}"'.format(l, '", "'.join(sorted(got - {own(l)}))))
            return False
        if own(l) not in got and not any(a[0] == 'top' for a in d[l]):
            chk.viol(rule, name, '"{}" is not computed from the values of "{}": {}'.format(l, own(l), shown(d[l])))
            return False
    return True


def run(chk):
    chk.rule('operations', 'each label of the result is one of the series (with the suffix of the operation), and its values come from the values and arguments of that label only', 60)
    chk.rule('in-place', 'the same for the values written by operations in place', 20)
    chk.rule('scalars', 'minimum, maximum, sum and average of a label come from that label only', 20)
    chk.rule('transformations', 'the same for resampled and aggregated values, each operation under its own name', 20)
    I = chk.interp()
    for op in OPS:
        for src in sources(chk, I, op, 3 if not op.order else 4, deep=True):
            name = '{} of {}'.format(op.name, src.name)
            spec = op.spec(src)
            outs = list(spec[-1][1]) if spec else []
            own = {}
            for x in outs:
                cands = [l for l in src.names if x == l or x.startswith(l + '_')] if src.kind == 'dict' else [x]
                own[x] = max(cands, key=len)
            with chk.guard('operations', name):
                bs, raised = call(src, op)
                for b in bs:
                    its = items_of(b.st, b.val)
                    if its is None:
                        chk.undecided('operations', name, 'items not known')
                        continue
                    good = True
                    for (i, _), it in zip(spec, its):
                        d = data_of(b.st, it)
                        if i == -1 or i == 0 and 'integral' in op.name and 'normalize' not in op.name:
                            # The first value is a constant or the argument
                            good = d is not None and set(d) == set(outs) and all(labels_in(v) <= {own[l]} for l, v in d.items())
                            if not good:
                                chk.viol('operations', name, 'first item: {}'.format(d and {l: V.show(v) for l, v in d.items()}))
                        else:
                            good = check_labels(chk, 'operations', name, d, outs, own.get)
                        if not good:
                            break
                    if good:
                        chk.ok('operations', name)
            if op.inplace:
                with chk.guard('in-place', name):
                    bs, raised = call(src, op, inplace=True)
                    for b in bs:
                        good = True
                        for i, it in enumerate(items_of(b.st, src.ser)):
                            if i == 0 and 'integral' in op.name:
                                continue
                            good = good and check_labels(chk, 'in-place', name, data_of(b.st, it), set(outs) | set(src.names),
                                                         lambda l: own.get(l, l))
                        if good:
                            chk.ok('in-place', name)
    for form in ('points', 'slots', 'variable'):
        for kind, labels in (('dict', ('a', 'b')), ('dict', ('b', 'a', 'c')), ('list', ('a', 'b'))):
            src = Src(chk, I, form, 3, kind, labels)
            for op in ('min', 'max', 'sum', 'avg'):
                for arg in [None] + src.names:
                    name = '{}({}) of {}'.format(op, arg or '', src.name)
                    with chk.guard('scalars', name):
                        s = src.s.fork()
                        bs, raised = branches(s, s.method(src.ser, op), **({} if arg is None else {'data_label': kv(arg)}))
                        for b in bs:
                            if arg is None:
                                ob = one(b.st, b.val)
                                d = {kk[1]: v for kk, v in ob.kv.items()} if ob is not None and ob.kind == 'dict' and not ob.kelem else None
                                if check_labels(chk, 'scalars', name, d, src.names):
                                    chk.ok('scalars', name)
                            elif check_labels(chk, 'scalars', name, {arg: b.val}, [arg]):
                                chk.ok('scalars', name)
    for labels in (('a', 'b'), ('b', 'a', 'c'), ('a',)):
        if labels == ('a',) and chk.tier == 'quick':
            continue
        for src, how, unit, kw in transformations(chk, I, labels=labels, deep=chk.tier != 'quick'):
            if labels != ('a', 'b') and src.when not in ('every minute', 'with a gap') and chk.tier == 'quick':
                continue
            for ops_ in ((None, ('avg', 'min'), ('sum', 'max')) if how == 'aggregate' else (None,)):
                name = '{}({}{}) of {} at {}'.format(how, unit, ', ' + '+'.join(ops_) if ops_ else '', src.name, src.when)
                with chk.guard('transformations', name):
                    kw = {}
                    if ops_:
                        kw = dict(operations=src.s.list(*[kv(x) for x in ops_]))
                    bs, raised = transform(src, how, unit, **kw)
                    outs = {l: l for l in src.names} if how == 'resample' else {'{}_{}'.format(l, o_): l for l in src.names for o_ in ops_ or ('avg',)}
                    for b in bs:
                        its = items_of(b.st, b.val)
                        if its is None:
                            chk.undecided('transformations', name, 'items not known')
                            continue
                        if all([check_labels(chk, 'transformations', name, data_of(b.st, it), outs, outs.get) for it in its]):
                            chk.ok('transformations', name, len(its) > 0, 'no items')
