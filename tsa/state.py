"""Heap objects and states."""
from .values import *
from . import values as V


class Obj(object):
    """A heap object. Never changed in place: use upd()."""
    __slots__ = ('kind', 'cls', 'fields', 'items', 'elem', 'lo', 'hi', 'kv', 'kelem', 'velem', 'weak', 'origin', '_key', 'opened')

    def __init__(self, kind, cls=None, fields=None, items=None, elem=EMPTY, lo=0, hi=None, kv=None,
                 kelem=EMPTY, velem=EMPTY, weak=False, origin=None, opened=False):
        self.kind = kind          # inst, list, dict, set, class, module, env
        self.cls = cls            # class atom for inst
        self.fields = fields if fields is not None else {}
        self.items = items        # exact tuple of values or None
        self.elem = elem
        self.lo = lo
        self.hi = hi
        self.kv = kv if kv is not None else {}
        self.kelem = kelem
        self.velem = velem
        self.weak = weak
        self.origin = origin
        self.opened = opened      # inst: unknown extra fields
        self._key = None

    def upd(self, **kw):
        new = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(new, s, kw[s] if s in kw else getattr(self, s))
        new._key = None
        return new

    def key(self):
        if self._key is None:
            self._key = (self.kind, self.cls, frozenset(self.fields.items()), self.items, self.elem, self.lo, self.hi,
                         frozenset(self.kv.items()), self.kelem, self.velem, self.weak, self.origin)
        return self._key

    def __eq__(self, other):
        return self is other or (isinstance(other, Obj) and self.key() == other.key())

    def __hash__(self):
        return hash(self.key())

    def children(self):
        for v in self.fields.values():
            yield v
        if self.items is not None:
            for v in self.items:
                yield v
        elif self.elem:
            yield self.elem
        for v in self.kv.values():
            yield v
        if self.kelem:
            yield self.kelem
        if self.velem:
            yield self.velem

    def label(self):
        if self.kind in ('inst', 'class'):
            return (self.cls[1] if self.cls else '?').split('.')[-1]
        return self.kind

    # list payload helpers
    def all_elem(self):
        if self.items is not None:
            return V.join(*self.items) if self.items else EMPTY
        return self.elem

    def min_len(self):
        return len(self.items) if self.items is not None else self.lo

    def max_len(self):
        return len(self.items) if self.items is not None else self.hi

    def all_vals(self):
        return V.join(*[v - {UNB} for v in self.kv.values()], self.velem)

    def all_keys(self):
        return V.join(frozenset(a for a in self.kv.keys()), self.kelem)


def join_maps(a, b, missing=True):
    if a is b:
        return a
    out = dict(a)
    for key, v in b.items():
        if key in out:
            if out[key] is not v and out[key] != v:
                out[key] = V.join(out[key], v)
        else:
            out[key] = v | {UNB} if missing else v
    if missing:
        for key in a:
            if key not in b:
                out[key] = out[key] | {UNB}
    return out


def join_obj(a, b):
    if a is b or a == b:
        return a
    if a.kind != b.kind:
        return Obj('inst', cls=a.cls or b.cls, weak=True, origin=a.origin or b.origin, opened=True)
    weak = a.weak or b.weak
    fields = join_maps(a.fields, b.fields, missing=not weak)
    items = a.items
    elem, lo, hi = a.elem, a.lo, a.hi
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = tuple(V.join(x, y) for x, y in zip(a.items, b.items))
    elif a.items is None and b.items is None:
        elem = V.join(a.elem, b.elem)
        lo = min(a.lo, b.lo)
        hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    else:
        items = None
        elem = V.join(a.all_elem(), b.all_elem())
        lo = min(a.min_len(), b.min_len())
        ah, bh = a.max_len(), b.max_len()
        hi = None if ah is None or bh is None else max(ah, bh)
    ka, kb = a.kv, b.kv
    kv_ = dict(ka)
    for key, v in kb.items():
        if key in kv_:
            kv_[key] = V.join(kv_[key], v)
        else:
            kv_[key] = v | {UNB} | (a.velem if a.kelem else EMPTY)
    for key in ka:
        if key not in kb:
            kv_[key] = kv_[key] | {UNB} | (b.velem if b.kelem else EMPTY)
    return Obj(a.kind, cls=a.cls, fields=fields, items=items, elem=elem, lo=lo, hi=hi, kv=kv_,
               kelem=V.join(a.kelem, b.kelem), velem=V.join(a.velem, b.velem), weak=weak,
               origin=a.origin if a.origin == b.origin else (a.origin or b.origin), opened=a.opened or b.opened)


class Frame(object):
    __slots__ = ('code', 'vars', 'env', 'selfcls', 'call')

    def __init__(self, code, vars, env=None, call=None):
        self.code = code
        self.vars = vars
        self.env = env
        self.call = call

    def copy(self):
        return Frame(self.code, dict(self.vars), self.env, self.call)


class State(object):
    __slots__ = ('frames', 'base', 'heap', 'ts', 'hot')

    def __init__(self, base=None):
        self.frames = []
        self.base = base if base is not None else {}
        self.heap = {}
        self.ts = {}
        self.hot = False

    def copy(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = dict(self.heap)
        # only the top frame is ever written; lower frames can be shared, they are copied when back on top
        s.frames = self.frames[:-1] + [self.frames[-1].copy()] if self.frames else []
        if len(self.frames) > 1:
            s.frames = [f.copy() for f in self.frames]
        s.ts = dict(self.ts)
        s.hot = self.hot
        return s

    def get(self, oid):
        o = self.heap.get(oid)
        if o is None:
            o = self.base.get(oid)
        return o

    def put(self, oid, obj):
        self.heap[oid] = obj

    def tskey(self):
        """Monitor state that is never joined (keys starting with ~ are joined as sets)."""
        return frozenset((key, v) for key, v in self.ts.items() if not key.startswith('~'))

    def same(self, other):
        if self.ts != other.ts:
            return False
        if len(self.frames) != len(other.frames):
            return False
        for a, b in zip(self.frames, other.frames):
            if a.vars != b.vars:
                return False
        if self.heap.keys() != other.heap.keys():
            return False
        for key, o in self.heap.items():
            p = other.heap[key]
            if o is not p and not (o == p):
                return False
        return True

    def fp(self):
        return hash((frozenset(self.ts.items()), tuple(frozenset(f.vars.items()) for f in self.frames),
                     frozenset((key, hash(o)) for key, o in self.heap.items())))


def join_states(a, b):
    """b joined into a copy of a. Both have the same frame stack."""
    s = State.__new__(State)
    s.base = a.base
    s.ts = dict(a.ts)
    for key, v in b.ts.items():
        if key not in s.ts:
            s.ts[key] = v
        elif s.ts[key] != v and isinstance(v, frozenset):
            s.ts[key] = s.ts[key] | v
    s.hot = a.hot or b.hot
    s.frames = []
    for fa, fb in zip(a.frames, b.frames):
        f = Frame(fa.code, join_maps(fa.vars, fb.vars), fa.env, fa.call)
        s.frames.append(f)
    heap = dict(a.heap)
    for key, o in b.heap.items():
        p = heap.get(key)
        if p is None:
            q = a.base.get(key)
            heap[key] = o if q is None else join_obj(q, o)
        elif p is not o:
            heap[key] = join_obj(p, o)
    for key, p in a.heap.items():
        if key not in b.heap:
            q = b.base.get(key)
            if q is not None:
                heap[key] = join_obj(p, q)
    s.heap = heap
    return s
