"""Generic rules over the outcomes of scenarios."""
from .scenario import *
from . import values as V

ACCIDENTS = ('AttributeError', 'NameError', 'UnboundLocalError')


def describe(I, bs, raised):
    out = []
    if bs:
        out.append('completes ({} paths)'.format(len(bs)))
    for r in raised[:3]:
        e = next(iter(r.val))
        out.append('raises {}: {}'.format(I.exc_name(e, r.st), I.exc_msg(e, r.st)))
    return '; '.join(out) or 'no outcome'


def refused(chk, rule, construct, s, fv, *args, **kw):
    """The call must raise: completing normally on a path with no guess is a violation."""
    where = kw.pop('where_', '')
    deliberate = kw.pop('deliberate_', False)
    what = kw.pop('what_', 'accepted, it should be refused')
    bs, raised = branches(s, fv, *args, **kw)
    base = guessed(s.st)
    sure = [b for b in bs if not (guessed(b.st) - base)]
    if sure or (bs and not raised):
        chk.viol(rule, construct, what, where)
    elif bs:
        chk.undecided(rule, construct, 'may complete, after decisions on unknown values at {}'.format(sorted(guessed(bs[0].st) - base)))
    elif not raised:
        chk.undecided(rule, construct, 'no outcome')
    else:
        bad = [r for r in raised if s.I.exc_name(next(iter(r.val)), r.st) in ACCIDENTS] if deliberate else []
        if bad:
            chk.viol(rule, construct, 'refused by accident only: {}'.format(describe(s.I, [], bad)), where)
        else:
            chk.ok(rule, construct)
    return bs, raised


def accepted(chk, rule, construct, s, fv, *args, **kw):
    """The call must complete: raising on a path with no guess is a violation."""
    where = kw.pop('where_', '')
    what = kw.pop('what_', 'refused, it should be accepted')
    bs, raised = branches(s, fv, *args, **kw)
    base = guessed(s.st)
    if bs:
        raised = [r for r in raised if s.I.exc_name(next(iter(r.val)), r.st) != '?']    # of what may fail for reasons which are not seen
    sure = [r for r in raised if not (guessed(r.st) - base)]
    if not bs and raised:
        chk.viol(rule, construct, '{}: {}'.format(what, describe(s.I, [], raised)), where)
    elif sure:
        chk.viol(rule, construct, '{}: {}'.format(what, describe(s.I, [], sure)), where)
    elif not bs:
        chk.undecided(rule, construct, 'no outcome')
    elif raised:
        chk.undecided(rule, construct, 'may raise, after decisions on unknown values at {}'.format(sorted(guessed(raised[0].st) - base)))
    else:
        chk.ok(rule, construct)
    return bs, raised


def snapshot(st, val, skip=()):
    """What is reachable from a value: {object id: Obj}."""
    return {oid: st.get(oid) for oid in reach(st, val)}


def changed(st0, st1, val, ignore=()):
    """The differences in what is reachable from a value, between two states: [(path, what)]."""
    p = paths(st0, val)
    out = []
    for oid, path in p.items():
        a, b = st0.get(oid), st1.get(oid)
        if a is b or a == b:
            continue
        names = set(a.fields) | set(b.fields)
        for f in sorted(names):
            if a.fields.get(f) != b.fields.get(f) and (a.label(), f) not in ignore and ('*', f) not in ignore:
                out.append(('{}.{}'.format(path, f), '{} -> {}'.format(
                    V.show(a.fields[f], st0) if f in a.fields else 'unset', V.show(b.fields[f], st1) if f in b.fields else 'unset')))
        if (a.items, a.elem, a.lo, a.hi) != (b.items, b.elem, b.lo, b.hi):
            out.append((path + '[]', 'items changed'))
        if a.kv != b.kv or a.kelem != b.kelem or a.velem != b.velem:
            ks = [kk for kk in set(a.kv) | set(b.kv) if a.kv.get(kk) != b.kv.get(kk)]
            out.append((path + '[]', 'keys changed: {}'.format(', '.join(sorted(str(kk[1]) for kk in ks)))))
    return out
