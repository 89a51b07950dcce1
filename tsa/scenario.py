"""Scenarios: abstract inputs built by interpreting the constructors of the repository."""
from .values import *
from . import values as V
from .state import Obj, State, join_states
from .interp import Interp, AnalysisError

DS = 'timeseria.datastructures.'
OP = 'timeseria.operations.'
TR = 'timeseria.transformations.'
UN = 'timeseria.units.'


def o(rank, group='t', typ='int', tags=()):
    """A number known only by its position among those of its group."""
    return av(('o', group, rank, typ, frozenset(tags)))


def n(typ='float', signs='-0+', tags=()):
    return av(num(typ, signs, tags))


class Failed(AnalysisError):
    pass


class Scn(object):

    def __init__(self, I):
        self.I = I
        self.st = I.start()
        self.raised = []

    def fork(self):
        s = Scn.__new__(Scn)
        s.I = self.I
        s.st = self.st.copy()
        s.raised = []
        return s

    # -- building

    def cls(self, qual):
        return av(self.I_cls(qual))

    def I_cls(self, qual):
        if qual not in self.I.classes:
            raise AnalysisError('class {} not found'.format(qual))
        return ('cls', qual)

    def run(self, fv, *args, **kw):
        """All outcomes: (results, raised)."""
        return self.I.run_call(fv, list(args), kw, self.st.copy())

    def do(self, fv, *args, **kw):
        """A call which is part of the setup: joins the outcomes (normal ones only) into the state."""
        res, raised = self.I.run_call(fv, list(args), kw, self.st)
        self.raised = raised
        if not res:
            raise Failed('setup call cannot complete: {}'.format(
                [(self.I.exc_name(e, s), self.I.exc_msg(e, s)) for s, e in raised][:4]))
        st, v = res[0]
        for s2, v2 in res[1:]:
            st = join_states(st, s2)
            v = V.join(v, v2)
        self.st = st
        return v

    def new(self, qual, *args, **kw):
        return self.do(self.cls(qual), *args, **kw)

    def method(self, val, name):
        r = self.I._run(lambda: self.I.getattr(val, name, self.st, self.I._scn_node(_node())))
        res, raised = r
        if len(res) != 1:
            raise (AnalysisError if res else Failed)('attribute {} of {}: {} results'.format(name, V.show(val, self.st), len(res)))
        self.st = res[0][0]
        return res[0][1]

    def probe(self, name):
        return self.method(av(('mod', 'timeseria.probe__')), name)

    def attr(self, val, name):
        return self.method(val, name)

    def list(self, *items):
        return self.I.new_list(self.st, self.I._scn_node(_node()), items=items)

    def dict(self, d):
        return self.I.new_dict(self.st, self.I._scn_node(_node()), kvs={V.k(a): b for a, b in d.items()})

    def tuple(self, *items):
        return av(('t', tuple(items)))

    # -- heap

    def oid(self, val):
        rs = [a for a in val if a[0] == 'r']
        if len(rs) != 1:
            raise Failed('not a single object: {}'.format(V.show(val, self.st)))
        return rs[0][1]

    def obj(self, val):
        return self.st.get(self.oid(val))

    def set_origin(self, val, origin, st=None, stop=()):
        """Label everything reachable from a value."""
        st = st or self.st
        for oid in reach(st, val):
            ob = st.get(oid)
            if ob.origin is None and ob.kind in ('inst', 'list', 'dict', 'set') and oid not in stop:
                st.put(oid, ob.upd(origin=origin))


def _node():
    import ast
    return ast.Pass(lineno=0, col_offset=0)


def refs(val, out):
    for a in val:
        t = a[0]
        if t == 'r':
            out.append(a[1])
        elif t == 't':
            for x in a[1]:
                refs(x, out)
        elif t == 'tt':
            refs(a[1], out)
        elif t == 'bm':
            refs((a[1],), out)
        elif t == 'x':
            for x in a[2]:
                refs(x, out)


def reach(st, val):
    """The ids of the objects reachable from a value, in order, with no classes, modules and functions."""
    seen = []
    S = set()
    todo = []
    refs(val, todo)
    while todo:
        oid = todo.pop()
        if oid in S:
            continue
        S.add(oid)
        ob = st.get(oid)
        if ob is None or ob.kind in ('class', 'module', 'env'):
            continue
        seen.append(oid)
        for c in ob.children():
            refs(c, todo)
    return seen


def paths(st, val):
    """oid -> access path, from a value."""
    out = {}
    todo = []

    def push(v, path):
        for a in v:
            t = a[0]
            if t == 'r':
                todo.append((a[1], path))
            elif t == 't':
                for i, x in enumerate(a[1]):
                    push(x, path + '[{}]'.format(i))
            elif t == 'tt':
                push(a[1], path + '[*]')
            elif t == 'bm':
                push((a[1],), path)
    push(val, '')
    while todo:
        oid, path = todo.pop(0)
        if oid in out:
            continue
        ob = st.get(oid)
        if ob is None or ob.kind in ('class', 'module', 'env'):
            continue
        out[oid] = path
        for f, v in sorted(ob.fields.items()):
            push(v, path + '.' + f)
        if ob.items is not None:
            for i, v in enumerate(ob.items):
                push(v, path + '[{}]'.format(i))
        else:
            push(ob.elem, path + '[*]')
        for key, v in ob.kv.items():
            push(v, path + '[{}]'.format(V.show(av(key))))
        push(ob.velem, path + '[*]')
    return out


# ---------------------------------------------------------------- outcomes

class Branch(Scn):
    """One of the outcomes of a call."""

    def __init__(self, I, st, val=None):
        self.I = I
        self.st = st
        self.raised = []
        self.val = val


def branches(s, fv, *args, **kw):
    res, raised = s.run(fv, *args, **kw)
    return [Branch(s.I, st, v) for st, v in res], [Branch(s.I, st, av(e)) for st, e in raised]


def guessed(st):
    """The decisions which were taken on something unknown, if any."""
    return st.ts.get('~top', frozenset())
