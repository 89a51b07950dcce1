"""C02: the items of derived series share no mutable data with the ones of their source."""
from checks.ops import *

MUTABLE = ('list', 'dict', 'set')


def shared(st, a, b):
    """The mutable objects which are reachable from two values: lists, dictionaries, points and slots."""
    pa, pb = paths(st, a), paths(st, b)
    out = []
    for oid in pa:
        if oid in pb:
            ob = st.get(oid)
            if ob.kind in MUTABLE or ob.kind == 'inst' and ob.cls[0] == 'cls' and ob.cls[1].startswith(DS):
                out.append('{}: {} of the result is {} of the source'.format(ob.label(), pa[oid], pb[oid]))
    return out


def check_shared(chk, rule, name, b, src, result=None):
    result = b.val if result is None else result
    if not any(a[0] == 'r' for a in result):
        chk.undecided(rule, name, 'not an object: {}'.format(V.show(result, b.st)))
        return
    x = shared(b.st, result, src.ser)
    chk.ok(rule, name, not x, '; '.join(x[:3]))


def run(chk):
    chk.rule('operations', 'no list, dictionary, point or slot is reachable both from the result of an operation and from the series it is computed on', 60)
    chk.rule('duplicate', 'the same for duplicates, time zone conversions and materialised views', 8)
    chk.rule('merge', 'the same for merging', 4)
    chk.rule('transformations', 'the same for resampling and aggregating', 10)
    I = chk.interp()
    for op in OPS:
        if op.items == 'shared':
            continue
        for tz in (None, ROME):
            for src in sources(chk, I, op, 3 if not op.order else 4, tz=tz):
                if src.labels != ('a', 'b') and tz:
                    continue
                name = '{} of {}'.format(op.name, src.name)
                rule = 'duplicate' if op.method == 'duplicate' else 'operations'
                with chk.guard(rule, name):
                    bs, raised = call(src, op)
                    for b in bs:
                        check_shared(chk, rule, name, b, src)
    for form in ('points', 'slots', 'variable'):
        for kind in ('dict', 'list'):
            src = Src(chk, I, form, 3, kind, tz=ROME)
            for m, args in (('as_tz', (kv('UTC'),)), ('as_tz', (kv(ROME),)), ('duplicate', ())):
                name = '{}({}) of {}'.format(m, ','.join(V.show(a) for a in args), src.name)
                with chk.guard('duplicate', name):
                    s = src.s.fork()
                    bs, raised = branches(s, s.method(src.ser, m), *args)
                    for b in bs:
                        check_shared(chk, 'duplicate', name, b, src)
            for lo, hi in ((0, 2), (1, 3)):
                name = 'view({}, {}).materialize() of {}'.format(lo, hi, src.name)
                with chk.guard('duplicate', name):
                    s = src.s.fork()
                    view = s.do(s.method(src.ser, 'view'), from_i=kv(lo), to_i=kv(hi))
                    for meth in ('materialize', 'duplicate'):
                        bs, raised = branches(s, s.method(view, meth))
                        for b in bs:
                            check_shared(chk, 'duplicate', name, b, src)
    for form in CONST:
        A = Src(chk, I, form, 3, prefix='u')
        B = Src(chk, I, form, 3, labels=('c',), prefix='w', s=A.s)
        name = 'merge of {}'.format(form)
        with chk.guard('merge', name):
            bs, raised = branches(B.s, B.s.method(A.ser, 'merge'), B.ser)
            for b in bs:
                check_shared(chk, 'merge', name, b, A)
                check_shared(chk, 'merge', name, b, B)
    for src, how, unit, kw in transformations(chk, I):
        name = '{}({}) of {} at {}'.format(how, unit, src.name, src.when)
        with chk.guard('transformations', name):
            bs, raised = transform(src, how, unit, **kw)
            for b in bs:
                check_shared(chk, 'transformations', name, b, src)
