"""C35: operations in place give the same values as the others."""
from checks.ops import *


def run(chk):
    chk.rule('same', 'for each item and label, the value in the series after the operation in place is the one its other form returns, as an expression of the original values', 60)
    chk.rule('others', 'labels which are not a result of the operation keep their values', 20)
    chk.rule('indexes', 'data indexes and times are as before', 20)
    I = chk.interp()
    for op in OPS:
        if not op.inplace:
            continue
        sizes = (4,) if op.order else (2, 3, 4) if chk.tier == 'quick' else (2, 3, 4, 5, 6)
        for n_ in sizes:
            for src in sources(chk, I, op, n_, deep=chk.tier != 'quick'):
                name = '{} of {}'.format(op.name, src.name)
                with chk.guard('same', name):
                    base = guessed(src.s.st)
                    orig = [data_of(src.s.st, it) for it in src.items]
                    bi, ri = call(src, op, inplace=True)
                    bs, rs = call(src, op, inplace=False)
                    if any(not guessed(r.st) - base for r in ri + rs):
                        chk.viol('same', name, 'fails: {}'.format(describe(I, [], ri + rs)))
                        continue
                    refs_ = [[data_of(b.st, it) for it in items_of(b.st, b.val) or []] for b in bs]
                    for b in bi:
                        got = [data_of(b.st, it) for it in items_of(b.st, src.ser)]
                        if not refs_ or any(d is None for d in got) or any(d is None for r in refs_ for d in r):
                            chk.undecided('same', name, 'data not known')
                            continue
                        verdicts = [compare(got, r) for r in refs_]
                        if any(v is True for v in verdicts):
                            chk.ok('same', name)
                        elif any(v is None for v in verdicts):
                            chk.undecided('same', name, 'values not known')
                        else:
                            chk.viol('same', name, str(verdicts[0]))
                        bad = []
                        for i, (o_, d) in enumerate(zip(orig, got)):
                            for l in o_:
                                if not any(l in r[i] for r in refs_ if len(r) > i) and d.get(l) != o_[l]:
                                    bad.append('item {}, "{}": {} instead of {}'.format(i, l, shown(d.get(l, EMPTY)), shown(o_[l])))
                            for l in d:
                                if l not in o_ and not any(l in r[i] for r in refs_ if len(r) > i):
                                    bad.append('item {}: unexpected "{}"'.format(i, l))
                        chk.ok('others', name, not bad, '; '.join(bad[:2]))
                        bad = []
                        for it in src.items:
                            if indexes_of(b.st, it) != indexes_of(src.s0, it) or time_of(b.st, it) != time_of(src.s0, it):
                                bad.append('item at {}: {}'.format(time_of(src.s0, it), indexes_of(b.st, it)))
                        chk.ok('indexes', name, not bad, '; '.join(bad[:2]))


def compare(got, ref):
    if len(got) != len(ref):
        return '{} items instead of {}'.format(len(got), len(ref))
    for i, (g, r) in enumerate(zip(got, ref)):
        for l, v in r.items():
            if l not in g:
                return 'item {}: no "{}"'.format(i, l)
            es = {X.of(a) for a in v}
            if len(es) != 1 or None in es:
                return None
            m = match(g[l], E(next(iter(es))))
            if m is None:
                return None
            if m is False:
                return 'item {}, "{}": {} in place, {} otherwise'.format(i, l, shown(g[l]), shown(v))
    return True
