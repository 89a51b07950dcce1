"""Models of the builtin types and functions, and of the few external libraries that matter."""
import ast
import builtins
import datetime
import re
import string
from .values import *
from . import values as V
from .state import Obj, State, join_states, join_obj
from . import expr as X

PYNUM = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Mod: '%', ast.FloorDiv: '//', ast.Pow: '**',
         ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
FAR = frozenset(['far'])
NEAR = frozenset(['near'])
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '%': 'mod', '//': 'floordiv', '**': 'pow', '|': 'or',
          '&': 'and', '^': 'xor', '<<': 'lshift', '>>': 'rshift', '@': 'matmul'}
CMPD = {'==': ('__eq__', '__eq__'), '!=': ('__ne__', '__ne__'), '<': ('__lt__', '__gt__'), '>': ('__gt__', '__lt__'),
        '<=': ('__le__', '__ge__'), '>=': ('__ge__', '__le__')}
TIMESPAN = {'__init__', 'years', 'months', 'weeks', 'days', 'hours', 'minutes', 'seconds', '__repr__', '__str__', '__radd__',
            '__add__', '__rsub__', '__sub__', '__truediv__', '__rtruediv__', '__mul__', '__rmul__', '__eq__', '_is_composite',
            'is_composite', 'type', 'round', 'floor', 'ceil', 'shift', 'as_seconds', 'is_physical', 'is_calendar', '_is_physical', '_is_calendar'}
NORAISE = ('logging.', 'builtins.print', 'uuid.', 'time.', 'os.path.', 'copy.', 'functools.', 'collections.', 'pytz.UTC', 'propertime.utils.now')
NUMT = ('int', 'float', 'num', 'bool')


def isnum(a):
    return a[0] in 'no' and not (a[0] == 'o' and a[3] == 'dt') or (a[0] == 'k' and a[2] in ('int', 'float', 'bool'))


def isstr(a):
    return a[0] == 's' or (a[0] == 'k' and a[2] == 'str')


def asig(a):
    if a[0] == 'k':
        return V.sign(a[1])
    if a[0] == 'n':
        return a[2]
    if a[0] == 'o' and a[1].startswith('Δ'):
        return V.sign(a[2])
    return '-0+'


def dnum(a):
    """A difference of ordinals of an exact group, when it is not compared with others of its group."""
    if a[0] == 'o' and a[1].startswith('Δ'):
        return ('n', a[3], V.sign(a[2]), a[4] | (FAR if a[2] else frozenset()))
    return a


def atyp(a):
    if a[0] == 'k':
        return 'int' if a[2] == 'bool' else a[2]
    if a[0] == 'n':
        return a[1]
    return a[3]


def atags(a):
    return X.strip(a[-1]) if a[0] in ('n', 'o', 's', 'exti', 'top') else NOTAGS


class Models(object):

    def __init__(self, I):
        self.I = I

    # ------------------------------------------------------------------ types

    def typename(self, a, st):
        """builtin type name of an atom, or None when unknown / not builtin"""
        t = a[0]
        if t == 'k':
            return a[2]
        if t == 'n':
            return a[1]
        if t == 'o':
            return a[3]
        if t == 's':
            return 'str'
        if t in ('t', 'tt'):
            return 'tuple'
        if t == 'slice':
            return 'slice'
        if t == 'r':
            o = st.get(a[1])
            if o is not None and o.kind in ('list', 'dict', 'set'):
                return o.kind
            return None
        if t in ('fn', 'bm', 'bi'):
            return 'function'
        if t == 'cls':
            return 'type'
        if t == 'mod':
            return 'module'
        return None

    def type_of(self, a, st):
        t = a[0]
        if t == 'r':
            o = st.get(a[1])
            if o is not None and o.kind == 'inst' and o.cls:
                return o.cls
        if t == 'x':
            return a[1]
        n = self.typename(a, st)
        if n == 'dt':
            return ('ext', 'datetime.datetime')
        if n == 'num':
            return None
        if n:
            return ('ext', 'builtins.' + n)
        return None

    def isinstance_(self, a, clsval, st):
        res = set()
        todo = list(clsval)
        flat = []
        while todo:
            c = todo.pop()
            if c[0] == 't':
                for x in c[1]:
                    todo.extend(x)
            else:
                flat.append(c)
        multi_tuple = any(c[0] == 't' for c in clsval)
        out = []
        for c in flat:
            out.append(self.isinst1(a, c, st))
        if True in out and (multi_tuple or len(out) == 1):
            return True
        if all(x is False for x in out):
            return False
        if len(out) == 1:
            return out[0]
        return None

    def isinst1(self, a, c, st):
        t = a[0]
        if c[0] not in ('cls', 'ext'):
            return None
        if t == 'top':
            return None
        if t == 'exti':
            if c[0] == 'cls':
                return False if a[1].startswith('json.loads') else None
            return None
        if c == ('ext', 'builtins.object'):
            return True
        if t == 'r':
            o = st.get(a[1])
            if o is None:
                return None
            if o.kind == 'inst':
                if o.cls is None:
                    return None
                return self.I.cls_subclass(o.cls, c)
            return c == ('ext', 'builtins.' + o.kind)
        if t == 'x':
            return self.I.cls_subclass(a[1], c)
        n = self.typename(a, st)
        if n is None:
            return None
        if c[0] == 'cls':
            return False
        if n == 'num':
            return None if c[1] in ('builtins.int', 'builtins.float') else False
        if n == 'dt':
            return c[1] in ('datetime.datetime', 'datetime.date')
        if n == 'bool' and c[1] == 'builtins.int':
            return True
        if c[1].startswith('builtins.'):
            return c[1][9:] == n
        if n in ('int', 'float') and c[1] in ('numbers.Number', 'numbers.Real'):
            return True
        return False

    def callable_(self, a, st):
        if a[0] in ('fn', 'bm', 'bi', 'cls'):
            return True
        if a[0] in ('k', 'n', 'o', 's', 't', 'tt'):
            return False
        if a[0] == 'r':
            o = st.get(a[1])
            if o is not None and o.kind == 'inst':
                return self.I.class_attr(o.cls, '__call__', st) is not None
            return False
        if a[0] == 'ext':
            return True
        return None

    def hasattr_(self, a, namev, st):
        ok, name = V.one_const(namev)
        if not ok:
            return None
        s = st.copy()
        self.I.sinks.append([])
        saved, self.I.monitors = self.I.monitors, []
        self.I.try_depth += 1
        try:
            res = self.I.getattr1(a, self.I.mangle(name, st), s, None)
        finally:
            self.I.try_depth -= 1
            self.I.monitors = saved
            sink = self.I.sinks.pop()
        if res and not sink:
            return True
        if sink and not res:
            return False
        return None

    def ext_open(self, dotted):
        if dotted.startswith('builtins.') or dotted == 'propertime.TimeSpan':
            return False
        return True

    def ext_has_attr(self, dotted, name):
        if dotted == 'propertime.TimeSpan':
            return name in TIMESPAN
        return False

    def is_component(self, name):
        return name in COMPONENTS.values()

    def component(self, o, name):
        """The years, months.. of a time span."""
        c = parse_spec(o.fields.get('%spec'))
        if c is not None and not ('%seconds' in o.fields or '%calendar' in o.fields):
            return kv(c.get(name, 0))
        return av(('n', 'num', '0+', NOTAGS))

    # ------------------------------------------------------------------ truth

    def truth(self, a, st):
        t = a[0]
        if t == 'k':
            return bool(a[1])
        if t == 'n':
            if a[2] == '0':
                return False
            return True if '0' not in a[2] else None
        if t == 'o':
            return True if a[3] == 'dt' else None
        if t == 's':
            return True if a[1].replace('*', '') else None
        if t == 'r':
            o = st.get(a[1])
            if o is None:
                return None
            if o.kind == 'inst':
                if o.cls is None:
                    return None
                for nm in ('__bool__', '__len__'):
                    c = self.I.class_attr(o.cls, nm, st)
                    if c is not None:
                        if c[0][0] == 'fn':
                            return 'call'
                        if c[0][0] == 'bix' and c[0][1][1] == 'builtins.list':
                            return self.truth_len(o)
                        if c[0][0] == 'bix':
                            return None
                return True
            return self.truth_len(o)
        if t == 't':
            return bool(a[1])
        if t == 'tt':
            return True if a[2] > 0 else None
        if t == 'exti' and a[1] == 'tzinfo':
            return True
        if t in ('exti', 'top'):
            return None
        return True

    def truth_len(self, o):
        if o.kind == 'dict':
            if any(UNB not in v for v in o.kv.values()):
                return True
            if not o.kv and not o.kelem:
                return False
            return None
        lo, hi = o.min_len(), o.max_len()
        if lo > 0:
            return True
        if hi == 0:
            return False
        return None

    # ------------------------------------------------------------------ comparison

    def compare_vals(self, op, lv, rv, st):
        out = set()
        for l in lv:
            for r in rv:
                x = self.compare1(op, l, r, st)
                if x in (True, False):
                    out.add(x)
                else:
                    out |= {True, False}
        return out

    @staticmethod
    def expand(v):
        out = []
        for a in v:
            if a[0] == 'n' and len(a[2]) > 1:
                out.extend(('n', a[1], c, a[3]) for c in a[2])
            elif a == UNB:
                continue
            else:
                out.append(a)
        return out

    def compare(self, op, lv, rv, st, node):
        """[(state, truth, refined left, refined right)]"""
        neg = False
        base = op
        if op == 'is not':
            base, neg = 'is', True
        elif op == 'not in':
            base, neg = 'in', True
        elif op == '!=':
            base, neg = '==', True
        ls, rs = self.expand(lv), self.expand(rv)
        out = []
        tl, tr, fl, fr = set(), set(), set(), set()
        raised = False
        for l in ls:
            for r in rs:
                res = self.compare1(base, l, r, st)
                if res == 'call':
                    for s, truth in self.compare_call(base, op, l, r, st.copy(), node):
                        out.append((s, truth if not (neg and base != '==') else not truth, av(l), av(r)))
                elif res == 'raise':
                    if not raised:
                        raised = True
                        self.I.raise_builtin(st.copy(), 'TypeError', 'comparison {} not supported'.format(op), node)
                elif res == 'dict':
                    # key that may be absent from a dictionary
                    o = st.get(r[1])
                    s1 = st.copy()
                    d = dict(o.kv)
                    d[l] = d[l] - {UNB}
                    s1.put(r[1], o.upd(kv=d))
                    out.append((s1, not neg, av(l), av(r)))
                    s2 = st.copy()
                    d = dict(o.kv)
                    del d[l]
                    s2.put(r[1], o.upd(kv=d))
                    out.append((s2, neg, av(l), av(r)))
                else:
                    if res is None and (l[0] in ('top', 'exti') or r[0] in ('top', 'exti')):
                        self.unknown(st, node)
                    if res is not False:
                        tl.add(l)
                        tr.add(r)
                    if res is not True:
                        fl.add(l)
                        fr.add(r)
        if tl and fl:
            out.append((st.copy(), not neg, V.norm(frozenset(tl)), V.norm(frozenset(tr))))
            out.append((st, neg, V.norm(frozenset(fl)), V.norm(frozenset(fr))))
        elif tl:
            out.append((st, not neg, V.norm(frozenset(tl)), V.norm(frozenset(tr))))
        elif fl:
            out.append((st, neg, V.norm(frozenset(fl)), V.norm(frozenset(fr))))
        return out

    def unknown(self, st, node):
        """A decision on something the analysis knows nothing about."""
        st.ts['~top'] = st.ts.get('~top', frozenset()) | {(st.frames[-1].code.qual if st.frames and st.frames[-1].code else '?', getattr(node, 'lineno', 0))}

    def compare_call(self, base, op, l, r, st, node):
        """Comparison through a method of the repository: [(state, truth of op when op is == < > etc (already negated for !=))]"""
        I = self.I
        out = []
        if base == 'in':
            for s, v in I.call_method(av(r), '__contains__', [av(l)], {}, st, node):
                for s1, _, truth in I.split_truth(v, s, node):
                    out.append((s1, truth))
            return out
        m1, m2 = CMPD[base]
        tries = []
        if op == '!=':
            for x, y in ((l, r), (r, l)):
                if self.inst_method(x, '__ne__', st):
                    tries.append((x, y, '__ne__', False))
                    break
        if not tries:
            if self.inst_method(l, m1, st):
                tries.append((l, r, m1, op == '!='))
            elif self.inst_method(r, m2, st):
                tries.append((r, l, m2, op == '!='))
        x, y, name, negate = tries[0]
        c = self.inst_method(x, name, st)
        if c[0][0] == 'bix':
            res = self.call(('bi', x, I.bixname(c[0])), [av(y)], {}, st, node)
        else:
            res = I.call_fn(c[0], [av(x), av(y)], {}, st, node)
        for s, v in res:
            for s1, _, truth in I.split_truth(v, s, node):
                out.append((s1, truth != negate))
        return out

    def inst_method(self, a, name, st):
        if a[0] != 'r':
            return None
        o = st.get(a[1])
        if o is None or o.kind != 'inst' or o.cls is None:
            return None
        c = self.I.class_attr(o.cls, name, st)
        if c is None or (c[0][0] == 'bix' and c[0][1][1].startswith('builtins.')):
            return None
        return c

    def compare1(self, op, l, r, st):
        if op == 'is':
            if l == r:
                if l[0] == 'r':
                    o = st.get(l[1])
                    return None if o is None or o.weak else True
                if l[0] in ('k', 'cls', 'fn', 'mod', 'ext', 'bm'):
                    return True
                return None
            if l == NONE or r == NONE:
                other = r if l == NONE else l
                return None if other[0] in ('exti', 'top') else False
            if l[0] in ('exti', 'top') or r[0] in ('exti', 'top'):
                return None
            if l[0] == 'r' and r[0] == 'r':
                if l[1][:2] == r[1][:2]:
                    return None
                return False
            if l[0] in ('n', 's') or r[0] in ('n', 's'):
                return None if (isnum(l) and isnum(r)) or (isstr(l) and isstr(r)) else False
            return False
        if op == 'in':
            return self.contains(l, r, st)
        m1, m2 = CMPD[op]
        if self.inst_method(l, m1, st) or self.inst_method(r, m2, st):
            return 'call'
        if 'exti' in (l[0], r[0]) and op == '==':
            return self.equal(l, r, st) if 'tzinfo' in (l[1], r[1]) else None
        if l[0] in ('exti', 'top') or r[0] in ('exti', 'top'):
            return None
        if l[0] in 'nk' and r[0] in 'nk' and (X.has(l) and X.has(r) or X.VAL and (X.has(l) or X.has(r))):
            c = X.compare(l, r)
            if c is not None:
                return {'==': c == 0, '<': c < 0, '>': c > 0, '<=': c <= 0, '>=': c >= 0}[op]
        if op == '==':
            return self.equal(l, r, st)
        # ordering
        if l[0] == 'k' and r[0] == 'k':
            try:
                return {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b,
                        '>=': lambda a, b: a >= b}[op](l[1], r[1])
            except TypeError:
                return 'raise'
        if l[0] == 'o' and r[0] == 'o':
            if l[1] == r[1]:
                a, b = l[2], r[2]
                return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
            return None
        if isnum(l) and isnum(r):
            l, r = dnum(l), dnum(r)
            if l[0] == 'o' or r[0] == 'o':
                return None
            return self.sign_order(op, l, r)
        if isstr(l) and isstr(r):
            return None
        if l[0] == 'o' or r[0] == 'o':
            other = r if l[0] == 'o' else l
            return 'raise' if other == NONE or isstr(other) else None
        if (isnum(l) or isstr(l) or l == NONE) and (isnum(r) or isstr(r) or r == NONE):
            return 'raise'
        if l[0] in ('t', 'tt') and r[0] in ('t', 'tt'):
            return None
        if l[0] == 'r' and r[0] == 'r':
            lo, ro = st.get(l[1]), st.get(r[1])
            if lo is not None and ro is not None and lo.kind == ro.kind and lo.kind in ('list', 'set'):
                return None
        return 'raise'

    def sign_order(self, op, l, r):
        for x, y, o in ((l, r, op), (r, l, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op])):
            if x[0] == 'n' and 'near' in x[3] and len(x[2]) == 1 and y[0] == 'k' and isinstance(y[1], (int, float)) and abs(y[1]) >= 1e-7:
                return o[0] == ('<' if y[1] > 0 else '>')
            if x[0] == 'n' and 'far' in x[3] and len(x[2]) == 1 and y[0] == 'k' and isinstance(y[1], (int, float)) and abs(y[1]) <= 0.01:
                return o[0] == ('>' if x[2] == '+' else '<')
        a, b = asig(l), asig(r)
        val = {'-': -1, '0': 0, '+': 1}
        out = set()
        for x in a:
            for y in b:
                if x == y and x != '0':
                    if l[0] == 'k' and r[0] == 'k':
                        pass
                    out |= {True, False}
                else:
                    p, q = val[x], val[y]
                    out.add({'<': p < q, '>': p > q, '<=': p <= q, '>=': p >= q}[op])
        # integers against 1
        if len(out) > 1:
            if l[0] == 'n' and l[1] == 'int' and r[0] == 'k' and r[1] == 1 and l[2] == '+':
                if op == '<':
                    return False
                if op == '>=':
                    return True
        return next(iter(out)) if len(out) == 1 else None

    def equal(self, l, r, st):
        if l[0] == 'k' and r[0] == 'k':
            return l[1] == r[1]
        if l[0] == 'o' and r[0] == 'o':
            if l[1] == r[1]:
                return l[2] == r[2]
            return None
        if isnum(l) and isnum(r):
            l, r = dnum(l), dnum(r)
            if l[0] == 'o' or r[0] == 'o':
                return None
            a, b = asig(l), asig(r)
            if not set(a) & set(b):
                return False
            if a == b == '0':
                return True
            return None
        if isstr(l) and isstr(r):
            if l[0] == 's' and r[0] == 's':
                return None
            p, c = (l, r) if l[0] == 's' else (r, l)
            return None if self.matches(p[1], c[1]) else False
        if l == NONE or r == NONE:
            return l == r
        for x, y in ((l, r), (r, l)):
            if x[0] == 'exti' and x[1] == 'tzinfo' and y == ('ext', 'pytz.UTC') and zone(x[2]) is not None and 'tz=UTC' not in x[2]:
                return False
        if l[0] == 'r' and r[0] == 'r':
            lo, ro = st.get(l[1]), st.get(r[1])
            if lo is None or ro is None:
                return None
            if l == r and not lo.weak:
                return True
            if lo.kind != ro.kind:
                return None if 'inst' in (lo.kind, ro.kind) else False
            if lo.kind == 'list' or lo.kind == 'set':
                if lo.items is not None and ro.items is not None:
                    if lo.kind == 'list' and len(lo.items) != len(ro.items):
                        return False
                    if lo.kind == 'set':
                        return self.set_equal(lo, ro, st)
                    return self.seq_equal(lo.items, ro.items, st)
                if lo.max_len() is not None and ro.min_len() > lo.max_len() or ro.max_len() is not None and lo.min_len() > ro.max_len():
                    return False if lo.kind == 'list' else None
                return None
            if lo.kind == 'dict':
                if not lo.kelem and not ro.kelem:
                    dl = {a for a, v in lo.kv.items() if UNB not in v}
                    dr = {a for a, v in ro.kv.items() if UNB not in v}
                    if dl - set(ro.kv) or dr - set(lo.kv):
                        return False
                    if dl == dr == set(lo.kv) == set(ro.kv):
                        return self.seq_equal([lo.kv[a] for a in dl], [ro.kv[a] for a in dl], st)
                return None
            if lo.kind == 'inst':
                if l == r and lo.weak:
                    return None
                if self.I.isinst_cls(lo.cls, ('ext', 'builtins.list')) is True or lo.opened or ro.opened:
                    return None
                return False
            return None
        if l[0] in ('t', 'tt') and r[0] in ('t', 'tt'):
            if l[0] == 't' and r[0] == 't':
                if len(l[1]) != len(r[1]):
                    return False
                return self.seq_equal(l[1], r[1], st)
            return None
        if l[0] in ('cls', 'fn', 'mod', 'ext', 'bm') and r[0] in ('cls', 'fn', 'mod', 'ext', 'bm'):
            if l == r:
                return True
            return False
        if l[0] == 'slice' or r[0] == 'slice' or l[0] == 'x' or r[0] == 'x':
            return None
        return False

    def seq_equal(self, a, b, st):
        res = True
        for x, y in zip(a, b):
            s = self.compare_vals('==', x, y, st)
            if s == {False}:
                return False
            if s != {True}:
                res = None
        return res

    def set_equal(self, lo, ro, st):
        a, b = V.consts(V.join(*lo.items) if lo.items else EMPTY), V.consts(V.join(*ro.items) if ro.items else EMPTY)
        if all(len(x) == 1 for x in lo.items + ro.items) and a is not None and b is not None:
            return set(a) == set(b)
        return None

    @staticmethod
    def matches(pattern, text):
        return re.fullmatch('.*'.join(re.escape(x) for x in pattern.split('*')), text, re.S) is not None

    # -- the __dict__ of instances: operations work on a temporary dictionary, which is written back

    @staticmethod
    def is_idict(a):
        return a[0] == 'bi' and a[2] == '__dict__' and a[1] is not None and a[1][0] == 'r'

    def idict(self, a, st):
        o = st.get(a[1][1])
        tmp = ('D',) + a[1][1]
        st.put(tmp, Obj('dict', kv={V.k(n_): v for n_, v in (o.fields if o is not None else {}).items()},
                        kelem=STR if o is not None and o.opened else EMPTY, velem=TOP if o is not None and o.opened else EMPTY))
        return ('r', tmp)

    def idict_sync(self, a, st, node):
        oid = a[1][1]
        tmp = st.get(('D',) + oid)
        o = st.get(oid)
        if tmp is None or o is None:
            return st
        new = {kk[1]: v for kk, v in tmp.kv.items() if kk[0] == 'k'}
        for name in sorted(set(new) | set(o.fields), key=str):
            if new.get(name) != o.fields.get(name):
                if name in new:
                    self.I.emit('on_write', st, oid, o, 'attr', name, new[name], node)
                else:
                    self.I.emit('on_write', st, oid, o, 'del', name, None, node)
        st.put(oid, o.upd(fields={str(n_): v for n_, v in new.items()}))
        return st

    def contains(self, l, r, st):
        if self.is_idict(r):
            o = st.get(r[1][1])
            if o is not None and l[0] == 'k' and not o.opened:
                v = o.fields.get(l[1])
                return False if v is None else (None if UNB in v else True)
            return None
        if r[0] == 'r':
            o = st.get(r[1])
            if o is None:
                return None
            if o.kind == 'inst':
                c = self.I.class_attr(o.cls, '__contains__', st)
                if c is not None and c[0][0] == 'fn':
                    return 'call'
                if o.items is None and not o.elem:
                    return None
            if o.kind == 'dict':
                if self.exact_key(l, st):
                    if l in o.kv:
                        if UNB in o.kv[l]:
                            return 'dict' if not o.weak else None
                        return True
                    return None if o.kelem else False
                if not o.kv and not o.kelem:
                    return False
                if l[0] == 's':
                    if not o.kelem and not any(isstr(a) and self.equal(l, a, st) is not False for a in o.kv):
                        return False
                return None
            items = o.items if o.items is not None else None
            if items is None:
                if o.max_len() == 0:
                    return False
                if not o.elem:
                    return False
                return None if self.compare_vals_nocall(l, o.elem, st) else False
            return self.in_items(l, items, st)
        if r[0] == 't':
            return self.in_items(l, r[1], st)
        if r[0] == 'tt':
            return None
        if isstr(r):
            if not isstr(l):
                return None if l[0] in ('exti', 'top') else 'raise'
            if l[0] == 'k' and r[0] == 'k':
                return l[1] in r[1]
            if l[0] == 'k' and r[0] == 's' and l[1] in r[1].replace('*', '\0'):
                return True
            return None
        if r == NONE or isnum(r):
            return 'raise'
        if r[0] == 'mod' or r[0] == 'cls':
            return 'raise'
        return None

    def compare_vals_nocall(self, l, v, st):
        for a in v:
            x = self.compare1('==', l, a, st) if not (self.inst_method(l, '__eq__', st) or self.inst_method(a, '__eq__', st)) else None
            if x is not False:
                return True
        return False

    def in_items(self, l, items, st):
        res = False
        for it in items:
            s = set()
            for a in it:
                if l == a and l[0] == 'r' and not st.get(l[1]).weak:
                    s.add(True)
                    continue
                x = self.compare1('==', l, a, st)
                if x in (True, False):
                    s.add(x)
                else:
                    s |= {True, False}
            if s == {True}:
                return True
            if True in s:
                res = None
        return res

    # ------------------------------------------------------------------ arithmetic

    def num_op(self, op, a, b):
        if op == '**' and b[0] == 'k' and X.has(a) and b[1] in (0.5, 2, 3):
            r = self.num_op('*', a, a) if b[1] != 0.5 else [('n', 'float', '0+', X.strip(a[3]) | X.tag(X.fn('sqrt', X.of(a))))]
            return self.num_op('*', r[0], a) if b[1] == 3 and isinstance(r, list) and len(r) == 1 else r
        out = self.num_op1(op, a, b)
        if (X.has(a) or X.has(b)) and out != 'zero' and len(out) == 1 and op in '+-*/':
            e = X.op(op, X.of(a), X.of(b))
            x = out[0]
            if e is not None and x[0] == 'n':
                out = [x[:3] + (X.strip(x[3]) | X.tag(e),)]
        return out

    def fn_tag(self, name, args):
        a = next(iter(args[0])) if args and isinstance(args[0], frozenset) and len(args[0]) == 1 else None
        return X.tag(X.fn(name, X.of(a))) if a is not None and X.has(a) else NOTAGS

    def num_op1(self, op, a, b):
        """abstract arithmetic -> list of atoms, or 'zero' for a certain division by zero"""
        tags = atags(a) | atags(b)
        if a[0] == 'k' and b[0] == 'k':
            try:
                x, y = a[1], b[1]
                v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '%': lambda: x % y,
                     '//': lambda: x // y, '**': lambda: x ** y if abs(y) < 50 and abs(x) < 1e6 else None,
                     '|': lambda: x | y, '&': lambda: x & y, '^': lambda: x ^ y, '<<': lambda: x << y if y < 64 else None,
                     '>>': lambda: x >> y}[op]()
                if v is not None and not isinstance(v, complex):
                    return [k(v)]
            except ZeroDivisionError:
                return 'zero'
            except Exception:
                pass
            return [('n', 'num', '-0+', tags)]
        if 'far' in tags or 'near' in tags:
            tags = tags - FAR - NEAR
        ta, tb = atyp(a), atyp(b)
        typ = 'float' if op == '/' else ('int' if ta == tb == 'int' else ('float' if 'float' in (ta, tb) else 'num'))
        if a[0] == 'o' and b[0] == 'o' and a[1] == b[1] and op == '-' and a[1].startswith('='):
            return [('o', 'Δ' + a[1], a[2] - b[2], typ, tags | {'Δ:{:g}'.format(a[2] - b[2])})]
        a, b = dnum(a), dnum(b)
        if a[0] == 'o' or b[0] == 'o':
            if a[0] == 'o' and b[0] == 'o' and a[1] == b[1] and op == '-':
                if a[2] == b[2]:
                    return [('n', typ, '0', tags)]
                # more than any tolerance
                return [('n', typ, '+' if a[2] > b[2] else '-', tags | (FAR if abs(a[2] - b[2]) > 0.01 else NEAR))]
            if a[0] == 'o' and b[0] == 'k' and b[1] == 0 and op in '+-':
                return [a]
            if b[0] == 'o' and a[0] == 'k' and a[1] == 0 and op == '+':
                return [b]
            return [('n', typ, '-0+', tags)]
        sa, sb = asig(a), asig(b)
        out = set()
        if op == '-':
            sb = ''.join({'-': '+', '+': '-', '0': '0'}[c] for c in sb)
            op = '+'
        for x in sa:
            for y in sb:
                if op == '+':
                    if x == y:
                        out.add(x)
                    elif x == '0':
                        out.add(y)
                    elif y == '0':
                        out.add(x)
                    else:
                        out |= set('-0+')
                elif op == '*':
                    out.add('0' if '0' in (x, y) else ('+' if x == y else '-'))
                elif op == '/':
                    if y == '0':
                        continue
                    out.add('0' if x == '0' else ('+' if x == y else '-'))
                elif op == '//':
                    if y == '0':
                        continue
                    if x == '0':
                        out.add('0')
                    elif x == y:
                        out |= set('0+')
                    else:
                        out.add('-')
                elif op == '%':
                    if y == '0':
                        continue
                    out |= {'0', y}
                elif op == '**':
                    out |= set('+') if x == '+' else set('-0+')
                else:
                    out |= set('-0+')
        if not out:
            return 'zero'
        return [('n', typ, ''.join(c for c in '-0+' if c in out), tags)]

    def binop(self, op, lv, rv, st, node):
        sym = PYNUM.get(type(op), '?')
        plain = []
        out = []
        raised = set()

        def fail(name, msg):
            if name not in raised:
                raised.add(name)
                self.I.raise_builtin(st.copy(), name, msg, node)
        for l in lv:
            if l == UNB:
                continue
            for r in rv:
                if r == UNB:
                    continue
                ml = self.inst_method(l, '__{}__'.format(DUNDER.get(sym)), st)
                mr = self.inst_method(r, '__r{}__'.format(DUNDER.get(sym)), st)
                if ml or mr:
                    out.extend(self.binop_call(sym, l, r, ml, mr, st.copy(), node))
                    continue
                if isnum(l) and isnum(r):
                    if sym in '/%//' and '0' in asig(r) and r[0] != 'o':
                        if asig(r) != '0':
                            self.I.may_raise(st, node, ('x', ('ext', 'builtins.ZeroDivisionError'), ()))
                    x = self.num_op(sym, l, r)
                    if x == 'zero':
                        fail('ZeroDivisionError', 'division by zero')
                    else:
                        plain.extend(x)
                elif isstr(l) and sym == '%':
                    plain.append(('s', '*', atags(l) | V.tagsof(av(r), st)))
                elif isstr(l) and isstr(r) and sym == '+':
                    if l[0] == 'k' and r[0] == 'k':
                        plain.append(k(l[1] + r[1]) if len(l[1]) + len(r[1]) < 400 else ('s', '*', NOTAGS))
                    else:
                        p, tg = self.str_pattern(av(l))
                        q, tg2 = self.str_pattern(av(r))
                        plain.append(('s', self.cap(p + q), tg | tg2))
                elif isstr(l) and isnum(r) and sym == '*' or isnum(l) and isstr(r) and sym == '*':
                    if l[0] == 'k' and r[0] == 'k':
                        plain.append(k(l[1] * r[1]))
                    else:
                        plain.append(('s', '*', atags(l) | atags(r)))
                elif l[0] in ('exti', 'top') or r[0] in ('exti', 'top'):
                    self.I.may_raise(st, node)
                    tg = atags(l) | atags(r)
                    tg |= V.tagsof(av(l), st) | V.tagsof(av(r), st)
                    if l[0] == 'exti' or r[0] == 'exti':
                        plain.append(('exti', (l if l[0] == 'exti' else r)[1], frozenset(tg)))
                    else:
                        plain.append(('top', frozenset(tg)))
                elif l[0] in ('t', 'tt') and r[0] in ('t', 'tt') and sym == '+':
                    if l[0] == 't' and r[0] == 't' and len(l[1]) + len(r[1]) <= 16:
                        plain.append(('t', l[1] + r[1]))
                    else:
                        el = V.join(*(l[1] if l[0] == 't' else (l[1],)), *(r[1] if r[0] == 't' else (r[1],)))
                        plain.append(('tt', el, 0))
                elif l[0] == 'r' and r[0] == 'r' and st.get(l[1]) is not None and st.get(r[1]) is not None and \
                        self.listy(st.get(l[1])) and self.listy(st.get(r[1])) and sym == '+':
                    a, b = st.get(l[1]), st.get(r[1])
                    if a.items is not None and b.items is not None:
                        v = self.I.new_list(st, node, items=a.items + b.items)
                    else:
                        v = self.I.new_list(st, node, elem=V.join(a.all_elem(), b.all_elem()), lo=a.min_len() + b.min_len())
                    plain.extend(v)
                elif l[0] == 'r' and st.get(l[1]) is not None and self.listy(st.get(l[1])) and sym == '*' and isnum(r):
                    a = st.get(l[1])
                    if a.items is not None and r[0] == 'k' and isinstance(r[1], int) and len(a.items) * r[1] <= 16:
                        plain.extend(self.I.new_list(st, node, items=a.items * r[1]))
                    else:
                        plain.extend(self.I.new_list(st, node, elem=a.all_elem(), lo=0))
                elif l[0] == 'r' and r[0] == 'r' and st.get(l[1]) is not None and st.get(l[1]).kind == 'set':
                    a, b = st.get(l[1]), st.get(r[1])
                    plain.extend(self.I.new_list(st, node, elem=V.join(a.all_elem(), b.all_elem()), kind='set'))
                elif l[0] == 'o' and r[0] == 'o' and l[3] == 'dt':
                    plain.append(('exti', 'datetime.timedelta', atags(l) | atags(r)))
                elif (l[0] == 'o' and l[3] == 'dt') or (r[0] == 'o' and r[3] == 'dt'):
                    plain.append(('exti', 'datetime.datetime', atags(l) | atags(r)))
                elif l[0] == 't' and sym == '*' or l[0] == 'tt':
                    plain.append(('tt', V.join(*(l[1] if l[0] == 't' else (l[1],))), 0))
                else:
                    fail('TypeError', 'unsupported operand types for {}'.format(sym))
        if plain:
            out.append((st, V.norm(frozenset(plain)) if len(plain) < 8 else V.join(frozenset(plain))))
        return out

    @staticmethod
    def cap(p):
        p = re.sub(r'\*+', '*', p)
        return p if len(p) < 200 else '*'

    def listy(self, o):
        return o.kind == 'list' or (o.kind == 'inst' and (o.items is not None or bool(o.elem)))

    def binop_call(self, sym, l, r, ml, mr, st, node):
        I = self.I
        name = DUNDER[sym]
        out = []
        if ml:
            if ml[0][0] == 'bix':
                return self.call(('bi', l, I.bixname(ml[0])), [av(r)], {}, st, node)
            # the reflected method gets a chance when the first one returns NotImplemented
            for s, v in I.call_fn(ml[0], [av(l), av(r)], {}, st, node):
                if ('ext', 'builtins.NotImplemented') in v and mr:
                    out.extend(I.call_fn(mr[0], [av(r), av(l)], {}, s, node) if mr[0][0] == 'fn' else [(s, TOP)])
                else:
                    out.append((s, v))
            return out
        if mr[0][0] == 'bix':
            return self.call(('bi', r, I.bixname(mr[0])), [av(l)], {}, st, node)
        return I.call_fn(mr[0], [av(r), av(l)], {}, st, node)

    def unary(self, op, v, st, node):
        out = []
        for a in v:
            if isnum(a):
                if isinstance(op, ast.USub):
                    if a[0] == 'k':
                        out.append(k(-a[1]))
                    elif a[0] == 'n':
                        out.append(('n', a[1], ''.join(c for c in '-0+' if {'-': '+', '+': '-', '0': '0'}[c] in a[2]),
                                    X.strip(a[3]) | X.tag(X.neg(X.of(a)))))
                    else:
                        out.append(('n', a[3], '-0+', a[4]))
                elif isinstance(op, ast.UAdd):
                    out.append(a)
                else:
                    out.append(('n', 'int', '-0+', atags(a)))
            elif a[0] == 'r' and self.inst_method(a, '__neg__', st):
                r = self.I.call_method(av(a), '__neg__', [], {}, st.copy(), node)
                if len(v) == 1:
                    return r
                out.append(TOPA)
            elif a[0] in ('exti', 'top'):
                out.append(a)
            else:
                self.I.raise_builtin(st.copy(), 'TypeError', 'bad operand for unary', node)
        return [(st, frozenset(out))] if out else []

    # ------------------------------------------------------------------ strings

    def str_pattern(self, v):
        pats = set()
        tags = set()
        for a in v:
            if a[0] == 'k' and a[2] == 'str':
                pats.add(a[1].replace('*', ''))
            elif a[0] == 's':
                pats.add(a[1])
                tags |= a[2]
            elif a[0] == 'k':
                pats.add(str(a[1]))
            else:
                pats.add('*')
                tags |= V.tagsof(av(a))
        return (pats.pop() if len(pats) == 1 else '*'), frozenset(tags)

    def to_str(self, v, st, node):
        out = []
        for a in v:
            if a[0] == 'k':
                out.append(k(str(a[1])))
            elif self.I.symstr and a[0] == 'o' and a[1] == AT and zone(a[4]) is not None:
                out.append(k(str(datetime.datetime.fromtimestamp(a[2], zone(a[4])))))
            elif self.I.symstr and a[0] in ('n', 'o') and X.of(a) is not None and a[0] == 'n':
                out.append(k(self.token(a)))
            elif a[0] == 's':
                out.append(a)
            elif a[0] == 'ext' and a[1].startswith('pytz.timezone:'):
                out.append(k(a[1][14:]))
            elif a == ('ext', 'pytz.UTC'):
                out.append(k('UTC'))
            elif a[0] == 'r':
                o = st.get(a[1])
                sp = o.fields.get('%spec') if o is not None else None
                if self.I.symstr and o is not None and o.kind == 'inst' and o.cls and sp is None and len(v) == 1:
                    got = self.repo_str(a, o, st, node)
                    if got is not None:
                        return got
                if sp is not None and parse_spec(sp) is not None:
                    out.append(k(span_str(parse_spec(sp))))
                elif sp is not None:
                    out.extend(x if isstr(x) else ('s', '*', V.tagsof(av(x))) for x in sp)
                else:
                    tg = V.tagsof(av(a), st)
                    if o is not None and o.kind == 'inst' and o.cls:
                        tg = tg | {'str:' + o.label()}
                    out.append(('s', '*', frozenset(tg)))
            elif a == UNB:
                continue
            else:
                out.append(('s', '*', V.tagsof(av(a), st)))
        return [(st, V.join(frozenset(out)))]

    def repo_str(self, a, o, st, node):
        for name in ('__str__', '__repr__'):
            c = self.I.class_attr(o.cls, name, st)
            if c is not None and c[0][0] == 'fn':
                out = self.I.call_fn(c[0], [av(a)], {}, st.copy(), node)
                return out if len(out) == 1 else None
        return None

    def token(self, a):
        """The text of a number known by its expression only: opaque, with nothing which has a meaning for who reads it."""
        tok = '\u27e6{}\u27e7'.format(X.of(a))
        self.I.tokens[tok] = a
        return tok

    def str_method(self, a, name, args, kwargs, st, node):
        """a: constant or pattern string"""
        if name == 'format':
            return self.str_format(a, args, kwargs, st, node)
        tags = set(atags(a))
        for x in args:
            if isinstance(x, frozenset):
                tags |= V.tagsof(x, st)
        tags = frozenset(tags)
        cs = []
        ok = a[0] == 'k' and not kwargs and all(isinstance(x, frozenset) for x in args)
        if ok:
            for x in args:
                o, c = V.one_const(x)
                if o:
                    cs.append(c)
                    continue
                a1 = next(iter(x)) if len(x) == 1 else None
                if a1 is not None and a1[0] == 'r' and st.get(a1[1]) is not None and st.get(a1[1]).kind == 'list' and st.get(a1[1]).items is not None:
                    its = [V.one_const(i) for i in st.get(a1[1]).items]
                    if all(i[0] for i in its):
                        cs.append([i[1] for i in its])
                        continue
                if a1 is not None and a1[0] == 't':
                    its = [V.one_const(i) for i in a1[1]]
                    if all(i[0] for i in its):
                        cs.append(tuple(i[1] for i in its))
                        continue
                ok = False
        if ok and hasattr(str, name):
            try:
                r = getattr(a[1], name)(*cs)
            except Exception as e:
                self.I.raise_builtin(st, type(e).__name__, str(e), node)
                return []
            return [(st, self.lift(r, st, node))]
        if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
            if name in ('partition', 'rpartition'):
                return [(st, av(('t', (av(('s', '*', tags)),) * 3)))]
            return [(st, self.I.new_list(st, node, elem=av(('s', '*', tags)), lo=1))]
        if name in ('startswith', 'endswith'):
            ok, c = V.one_const(args[0]) if args else (False, None)
            if ok and isinstance(c, str) and a[0] == 's':
                fix = a[1].split('*')[0] if name == 'startswith' else a[1].split('*')[-1]
                if name == 'startswith':
                    if fix.startswith(c):
                        return [(st, av(TRUE))]
                    if not c.startswith(fix):
                        return [(st, av(FALSE))]
                else:
                    if fix.endswith(c):
                        return [(st, av(TRUE))]
                    if not c.endswith(fix):
                        return [(st, av(FALSE))]
            return [(st, BOOL)]
        if name.startswith('is'):
            return [(st, BOOL)]
        if name in ('find', 'rfind', 'count', 'index', 'rindex', '__len__'):
            if name in ('index', 'rindex'):
                self.I.may_raise(st, node, ('x', ('ext', 'builtins.ValueError'), ()))
            return [(st, av(('n', 'int', '-0+' if 'find' in name else '0+', tags)))]
        if name == 'encode':
            return [(st, av(('exti', 'builtins.bytes', tags)))]
        if name in ('__contains__', '__eq__'):
            return [(st, BOOL)]
        if name == 'join':
            it = args[0] if args else EMPTY
            for x in it:
                if x[0] == 'r':
                    o = st.get(x[1])
                    if o is not None:
                        tags |= V.tagsof(av(x), st)
            return [(st, av(('s', '*', tags)))]
        if name == 'replace' and a[0] == 's':
            o1, c1 = V.one_const(args[0]) if args else (False, None)
            return [(st, av(('s', '*', tags)))]
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize'):
            return [(st, av(('s', a[1] if name == 'strip' and a[0] == 's' and ' ' not in a[1] and '*' not in (a[1][:1], a[1][-1:]) else '*', tags)))]
        return [(st, av(('s', '*', tags)))]

    def str_format(self, a, args, kwargs, st, node):
        tags = set(atags(a))
        if any(not isinstance(x, frozenset) for x in args) or a[0] != 'k':
            for x in args:
                tags |= V.tagsof(x if isinstance(x, frozenset) else x[1], st)
            for x in kwargs.values():
                tags |= V.tagsof(x, st)
            return [(st, av(('s', '*', frozenset(tags))))]
        out = ''
        auto = 0
        try:
            parsed = list(string.Formatter().parse(a[1]))
        except ValueError as e:
            self.I.raise_builtin(st, 'ValueError', str(e), node)
            return []
        exact = True
        for lit, field, spec, conv in parsed:
            out += lit.replace('*', '')
            if field is None:
                continue
            first = re.split(r'[.\[]', field, maxsplit=1)[0]
            if first == '':
                idx = auto
                auto += 1
            elif first.isdigit():
                idx = int(first)
            else:
                idx = first
            if isinstance(idx, int):
                if idx >= len(args):
                    self.I.raise_builtin(st, 'IndexError', 'Replacement index {} out of range'.format(idx), node)
                    return []
                v = args[idx]
            else:
                if idx not in kwargs:
                    if '**' in kwargs:
                        v = TOP
                    else:
                        self.I.raise_builtin(st, 'KeyError', idx, node)
                        return []
                else:
                    v = kwargs[idx]
            known, c = V.one_const(v)
            if spec and known and field == first and not conv and '{' not in spec:
                try:
                    sv = kv(format(c, spec))
                except (ValueError, TypeError) as e:
                    self.I.raise_builtin(st, type(e).__name__, str(e), node)
                    return []
                p, tg = self.str_pattern(sv)
            else:
                ((st, sv),) = self.to_str(v, st, node)
                p, tg = self.str_pattern(sv)
                if spec or field != first:
                    p = '*'
            out += p
            tags |= tg
            if '*' in p:
                exact = False
        if exact and not tags:
            return [(st, kv(out))]
        return [(st, av(('s', self.cap(out), frozenset(tags))))]

    def lift(self, r, st, node):
        if isinstance(r, (int, float, str, bool, bytes)) or r is None:
            return kv(r)
        if isinstance(r, list):
            return self.I.new_list(st, node, items=[self.lift(x, st, node) for x in r], extra='lift')
        if isinstance(r, tuple):
            return av(('t', tuple(self.lift(x, st, node) for x in r)))
        if isinstance(r, dict) and all(isinstance(x, (str, int)) for x in r):
            return self.I.new_dict(st, node, kvs={k(x): self.lift(y, st, node) for x, y in r.items()}, extra='lift')
        return TOP

    # ------------------------------------------------------------------ iteration

    def iteration(self, v, st, node):
        """[(plan, state)]; plan: ('exact', [v]) ('elem', v, lo, hi) ('iter', v)"""
        I = self.I
        out = []
        atoms = [a for a in v if a != UNB]
        for a in atoms:
            s = st.copy() if len(atoms) > 1 else st
            if self.is_idict(a):
                a = self.idict(a, s)
            t = a[0]
            if t == 'r':
                o = s.get(a[1])
                if o is None:
                    out.append((('elem', TOP, 0, None), s))
                elif o.kind == 'inst':
                    c = I.class_attr(o.cls, '__iter__', s) if o.cls else None
                    if c is not None and c[0][0] == 'fn':
                        for s1, iv in I.call_fn(c[0], [av(a)], {}, s, node):
                            for b in iv:
                                bo = s1.get(b[1]) if b[0] == 'r' else None
                                if bo is not None and bo.kind == 'inst' and I.class_attr(bo.cls, '__next__', s1) and \
                                        I.class_attr(bo.cls, '__next__', s1)[0][0] == 'fn':
                                    out.append((('iter', av(b)), s1.copy()))
                                else:
                                    out.extend(self.iteration(av(b), s1.copy(), node))
                    elif o.items is not None or o.elem or (o.cls and I.isinst_cls(o.cls, ('ext', 'builtins.list')) is True):
                        out.append((self.list_plan(o), s))
                    elif o.cls and I.class_attr(o.cls, '__getitem__', s):
                        out.append((('elem', TOP, 0, None), s))
                    elif o.opened:
                        out.append((('elem', TOP, 0, None), s))
                    else:
                        I.raise_builtin(s, 'TypeError', 'not iterable', node)
                elif o.kind == 'dict':
                    out.append((self.dict_plan(o), s))
                else:
                    out.append((self.list_plan(o), s))
            elif t == 't':
                if len(a[1]) <= 40:
                    out.append((self.exact_plan(list(a[1])), s))
                else:
                    out.append((('elem', V.join(*a[1]), 1, None), s))
            elif t == 'tt':
                if not a[1]:
                    out.append((('exact', []), s))
                else:
                    out.append((('elem', a[1], a[2], None), s))
            elif t == 'k' and a[2] == 'str':
                out.append((self.exact_plan([kv(c) for c in a[1]]), s))
            elif t == 's':
                out.append((('elem', av(('s', '*', a[2])), 0, None), s))
            elif t == 'exti':
                I.may_raise(s, node)
                out.append((('elem', av(('exti', a[1] + '[]', a[2])), 0, None), s))
            elif t == 'top':
                I.may_raise(s, node)
                out.append((('elem', av(a), 0, None), s))
            elif t == 'ext':
                out.append((('elem', TOP, 0, None), s))
            else:
                I.raise_builtin(s, 'TypeError', 'object is not iterable', node)
        return out

    def exact_plan(self, items):
        if len(items) <= 2 * self.I.exact_loop:
            return ('exact', items)
        return ('elem', V.join(*items), len(items), len(items))

    def list_plan(self, o):
        if o.items is not None and not o.weak:
            return self.exact_plan(list(o.items))
        e = o.all_elem()
        if not e:
            return ('exact', [])
        return ('elem', e, o.min_len() if not o.weak else 0, o.max_len())

    def dict_plan(self, o):
        if not o.kelem and not o.weak and all(UNB not in v for v in o.kv.values()):
            return self.exact_plan([av(x) for x in o.kv])
        keys = o.all_keys()
        if not keys:
            return ('exact', [])
        return ('elem', keys, sum(1 for v in o.kv.values() if UNB not in v) if not o.weak else 0, None)

    def unpack(self, v, n, st, node, starred):
        """[(state, [values])]"""
        out = []
        for plan, s in self.iteration(v, st, node):
            if plan[0] == 'exact':
                items = list(plan[1])
                if any(starred):
                    si = starred.index(True)
                    after = n - si - 1
                    if len(items) < n - 1:
                        self.I.raise_builtin(s, 'ValueError', 'not enough values to unpack', node)
                        continue
                    mid = items[si:len(items) - after]
                    out.append((s, items[:si] + [self.I.new_list(s, node, items=mid)] + (items[len(items) - after:] if after else [])))
                elif len(items) != n:
                    self.I.raise_builtin(s, 'ValueError', 'cannot unpack {} values into {}'.format(len(items), n), node)
                else:
                    out.append((s, items))
            else:
                el = plan[1] if plan[0] == 'elem' else TOP
                self.I.may_raise(s, node, ('x', ('ext', 'builtins.ValueError'), ()))
                out.append((s, [self.I.new_list(s, node, elem=el) if x else el for x in starred]))
        return out

    # ------------------------------------------------------------------ subscripts

    def getitem(self, a, key, st, node):
        if self.is_idict(a):
            a = self.idict(a, st)
        t = a[0]
        I = self.I
        if t == 'r':
            o = st.get(a[1])
            if o is None:
                return [(st, TOP)]
            if o.kind == 'dict':
                return self.dict_get(a, o, key, st, node)
            if o.kind in ('list', 'inst'):
                return self.list_get(a, o, key, st, node)
            if o.kind == 'set':
                I.raise_builtin(st, 'TypeError', 'set is not subscriptable', node)
                return []
            return [(st, TOP)]
        if t in ('t', 'tt'):
            o = Obj('list', items=a[1] if t == 't' else None, elem=a[1] if t == 'tt' else EMPTY, lo=a[2] if t == 'tt' else 0)
            return self.list_get(a, o, key, st, node, tup=True)
        if isstr(a):
            out = []
            for kk in key:
                if a[0] == 'k' and kk[0] == 'k' and isinstance(kk[1], int):
                    try:
                        out.append(k(a[1][kk[1]]))
                    except IndexError:
                        I.raise_builtin(st.copy(), 'IndexError', 'string index out of range', node)
                elif a[0] == 'k' and kk[0] == 'slice':
                    cs = [V.one_const(x) for x in kk[1:]]
                    if all(c[0] for c in cs):
                        out.append(k(a[1][slice(*[c[1] for c in cs])]))
                    else:
                        out.append(STRA)
                elif kk[0] == 'k' and isinstance(kk[1], str) or kk == NONE:
                    I.raise_builtin(st.copy(), 'TypeError', 'string indices must be integers', node)
                else:
                    I.may_raise(st, node, ('x', ('ext', 'builtins.IndexError'), ()))
                    out.append(('s', '*', atags(a)))
            return [(st, frozenset(out))] if out else []
        if t == 'exti':
            I.may_raise(st, node)
            return [(st, av(('exti', a[1] + '[]', a[2] | V.tagsof(key, st))))]
        if t == 'top':
            I.may_raise(st, node)
            return [(st, av(a))]
        if t in ('ext', 'cls'):
            return [(st, TOP)]
        I.raise_builtin(st, 'TypeError', 'object is not subscriptable', node)
        return []

    def list_get(self, a, o, key, st, node, tup=False):
        I = self.I
        vals = EMPTY
        idxerr = typerr = False
        for kk in key:
            if kk[0] == 'slice':
                vals = vals | self.list_slice(o, kk, st, node, tup)
            elif kk[0] == 'k' and isinstance(kk[1], int):
                if o.items is not None:
                    try:
                        vals = vals | o.items[kk[1]]
                    except IndexError:
                        idxerr = True
                else:
                    i = kk[1]
                    need = i + 1 if i >= 0 else -i
                    if o.hi is not None and need > o.hi or not o.elem:
                        idxerr = True
                        continue
                    if o.lo < need:
                        I.may_raise(st, node, ('x', ('ext', 'builtins.IndexError'), ()))
                    vals = vals | o.elem
            elif kk[0] in ('n', 'o', 'exti', 'top') or kk[0] == 'r':
                if kk[0] == 'n' and kk[1] == 'float':
                    typerr = True
                    continue
                e = o.all_elem()
                if not e:
                    idxerr = True
                    continue
                I.may_raise(st, node, ('x', ('ext', 'builtins.IndexError'), ()))
                if kk[0] in ('exti', 'top'):
                    I.may_raise(st, node, ('x', ('ext', 'builtins.TypeError'), ()))
                vals = vals | e
            else:
                typerr = True
        if idxerr:
            I.raise_builtin(st.copy() if vals or typerr else st, 'IndexError', 'list index out of range', node)
        if typerr:
            I.raise_builtin(st.copy() if vals else st, 'TypeError', 'list indices must be integers', node)
        return [(st, V.join(vals))] if vals else []

    def list_slice(self, o, kk, st, node, tup=False):
        cs = [V.one_const(x) for x in kk[1:]]
        if o.items is not None and all(c[0] for c in cs):
            items = o.items[slice(*[c[1] for c in cs])]
            if tup:
                return av(('t', tuple(items)))
            return self.I.new_list(st, node, items=items)
        if tup:
            return av(('tt', o.all_elem(), 0))
        hi = o.max_len()
        return self.I.new_list(st, node, elem=o.all_elem(), lo=0, hi=hi)

    def exact_key(self, kk, st):
        """Is a key equal to itself only."""
        if kk[0] in ('k', 'cls', 'ext', 'fn'):
            return True
        if kk[0] != 'r':
            return False
        o = st.get(kk[1])
        if o is None or o.weak or o.kind != 'inst':
            return False
        h = self.I.class_attr(o.cls, '__hash__', st)
        if h is None or h[0][0] != 'fn':
            return h is None and self.I.class_attr(o.cls, '__eq__', st) is None and o.items is None and not o.elem
        body = self.I.codes[h[0][1]].node.body
        return bool(body) and ast.dump(body[-1]) == ast.dump(ast.parse('def f(self):\n return id(self)').body[0].body[0])

    def dict_get(self, a, o, key, st, node):
        I = self.I
        vals = EMPTY
        missing = False
        keyname = ''
        for kk in key:
            if self.exact_key(kk, st):
                # numeric constants of equal value are the same key
                hit = kk if kk in o.kv else None
                if hit is None and kk[0] == 'k' and isinstance(kk[1], (int, float)):
                    for x in o.kv:
                        if x[0] == 'k' and isinstance(x[1], (int, float)) and x[1] == kk[1]:
                            hit = x
                if hit is not None:
                    v = o.kv[hit]
                    if UNB in v:
                        missing = True
                        keyname = str(kk[1])
                    vals = vals | (v - {UNB})
                elif o.kelem and self.may_key(kk, o.kelem, st):
                    I.may_raise(st, node, ('x', ('ext', 'builtins.KeyError'), (av(kk),)))
                    vals = vals | o.velem
                else:
                    missing = True
                    keyname = str(kk[1])
            elif kk[0] == 'r' and st.get(kk[1]) is not None and st.get(kk[1]).kind in ('list', 'dict', 'set'):
                I.raise_builtin(st.copy(), 'TypeError', 'unhashable type', node)
            else:
                got = EMPTY
                for x, v in o.kv.items():
                    if kk[0] in ('exti', 'top') or self.compare1('==', kk, x, st) is not False:
                        got = got | (v - {UNB})
                if o.kelem and self.may_key(kk, o.kelem, st):
                    got = got | o.velem
                if not got:
                    missing = True
                    keyname = '*'
                else:
                    I.may_raise(st, node, ('x', ('ext', 'builtins.KeyError'), (av(kk),)))
                    vals = vals | got
        if missing:
            I.emit('on_missing_key', st, a, keyname, node)
            s1 = st.copy() if vals else st
            if vals and not o.weak:
                d = {x: v for x, v in o.kv.items() if not (x in key and UNB in v)}
                s1.put(a[1], o.upd(kv=d))
            I.raise_(s1, ('x', ('ext', 'builtins.KeyError'), (kv(keyname),)), node)
        if vals and not o.weak and len(key) == 1:
            kk = next(iter(key))
            if kk in o.kv and UNB in o.kv[kk]:
                d = dict(o.kv)
                d[kk] = d[kk] - {UNB}
                st.put(a[1], o.upd(kv=d))
        return [(st, V.join(vals))] if vals else []

    def may_key(self, kk, kelem, st):
        for x in kelem:
            if x[0] in ('exti', 'top') or kk[0] in ('exti', 'top'):
                return True
            r = self.compare1('==', kk, x, st)
            if r is not False:
                return True
        return False

    def setitem(self, a, key, v, st, node):
        I = self.I
        if self.is_idict(a):
            return [self.idict_sync(a, x, node) for x in self.setitem(self.idict(a, st), key, v, st, node)]
        t = a[0]
        if t == 'r':
            o = st.get(a[1])
            if o is None:
                return [st]
            I.stats['writes'] += 1
            if o.kind == 'dict':
                I.emit('on_write', st, a[1], o, 'key', key, v, node)
                if len(key) == 1 and self.exact_key(next(iter(key)), st):
                    kk = next(iter(key))
                    d = dict(o.kv)
                    if kk[0] == 'k' and kk not in d and isinstance(kk[1], (int, float)):
                        for x in d:
                            if x[0] == 'k' and isinstance(x[1], (int, float)) and x[1] == kk[1]:
                                kk = x
                                break
                    if o.weak:
                        d[kk] = V.join(d[kk], v) if kk in d else v | {UNB}
                    else:
                        d[kk] = v
                    if len(d) > 40:
                        st.put(a[1], o.upd(kv={}, kelem=V.widen(V.join(o.kelem, *[av(x) for x in d]), True),
                                           velem=V.widen(V.join(o.velem, *[x - {UNB} for x in d.values()]), True)))
                    else:
                        st.put(a[1], o.upd(kv=d))
                else:
                    d = {}
                    for x, old in o.kv.items():
                        poss = any(kk[0] in ('exti', 'top') or self.compare1('==', kk, x, st) not in (False,) for kk in key)
                        d[x] = V.join(old, v) if poss else old
                    st.put(a[1], o.upd(kv=d, kelem=V.join(o.kelem, key), velem=V.join(o.velem, v)))
                return [st]
            if o.kind in ('list', 'inst'):
                I.emit('on_write', st, a[1], o, 'item', key, v, node)
                ok, c = V.one_const(key)
                if any(kk[0] == 'slice' for kk in key):
                    el = EMPTY
                    for plan, _ in self.iteration(v, st, node):
                        el = V.join(el, *(plan[1] if plan[0] == 'exact' else (plan[1],)))
                    st.put(a[1], o.upd(items=None, elem=V.join(o.all_elem(), el), lo=0, hi=None))
                elif ok and isinstance(c, int) and o.items is not None:
                    if -len(o.items) <= c < len(o.items):
                        its = list(o.items)
                        its[c] = V.join(its[c], v) if o.weak else v
                        st.put(a[1], o.upd(items=tuple(its)))
                    else:
                        I.raise_builtin(st, 'IndexError', 'list assignment index out of range', node)
                        return []
                elif ok and not isinstance(c, int):
                    I.raise_builtin(st, 'TypeError', 'list indices must be integers', node)
                    return []
                elif o.items is not None:
                    I.may_raise(st, node, ('x', ('ext', 'builtins.IndexError'), ()))
                    st.put(a[1], o.upd(items=tuple(V.join(x, v) for x in o.items)))
                else:
                    I.may_raise(st, node, ('x', ('ext', 'builtins.IndexError'), ()))
                    st.put(a[1], o.upd(elem=V.join(o.elem, v)))
                return [st]
            return [st]
        if t in ('exti', 'top', 'ext'):
            I.emit('on_ext_setitem', st, a, key, v, node)
            return [st]
        I.raise_builtin(st, 'TypeError', 'object does not support item assignment', node)
        return []

    def delitem(self, a, key, st, node):
        I = self.I
        if self.is_idict(a):
            return [self.idict_sync(a, x, node) for x in self.delitem(self.idict(a, st), key, st, node)]
        if a[0] == 'r':
            o = st.get(a[1])
            if o is None:
                return [st]
            if o.kind == 'dict':
                ok = len(key) == 1 and next(iter(key))[0] == 'k'
                kk = next(iter(key)) if ok else None
                if ok and kk not in o.kv and not o.kelem:
                    I.raise_builtin(st, 'KeyError', str(kk[1]), node)
                    return []
                I.emit('on_write', st, a[1], o, 'delkey', key, None, node)
                if ok:
                    d = dict(o.kv)
                    if o.weak:
                        if kk in d:
                            d[kk] = d[kk] | {UNB}
                    else:
                        d.pop(kk, None)
                    st.put(a[1], o.upd(kv=d))
                else:
                    st.put(a[1], o.upd(kv={x: v | {UNB} for x, v in o.kv.items()}))
                return [st]
            I.emit('on_write', st, a[1], o, 'delitem', key, None, node)
            ok, c = V.one_const(key)
            if ok and isinstance(c, int) and o.items is not None and not o.weak:
                if -len(o.items) <= c < len(o.items):
                    its = list(o.items)
                    del its[c]
                    st.put(a[1], o.upd(items=tuple(its)))
                else:
                    I.raise_builtin(st, 'IndexError', 'list assignment index out of range', node)
                    return []
            else:
                st.put(a[1], o.upd(items=None, elem=o.all_elem(), lo=0, hi=o.max_len()))
        return [st]

    # ------------------------------------------------------------------ attributes of builtin values

    def attr(self, a, name, st, node, default=None):
        I = self.I
        t = a[0]
        tn = self.typename(a, st)
        if name == '__class__':
            c = self.type_of(a, st)
            return [(st, av(c) if c else av(('exti', 'type()', atags(a))))]
        if t in ('k', 'n', 's') or (t == 'o' and a[3] != 'dt') or t in ('t', 'tt', 'slice'):
            if t == 'slice' and name in ('start', 'stop', 'step'):
                return [(st, a[1 + ('start', 'stop', 'step').index(name)])]
            pt = getattr(builtins, tn, None) if tn not in ('NoneType', 'num', 'ellipsis') else (float if tn == 'num' else type(None))
            if pt is not None and hasattr(pt, name):
                return [(st, av(('bi', a, name)))]
            return I.missing(a, name, st, node, default)
        if t == 'o':
            if name == 'tzinfo':
                if a[1] == NAIVE:
                    return [(st, VNONE)]
                if 'tz=UTC' in a[4]:
                    return [(st, av(('ext', 'pytz.UTC')))]
                return [(st, av(('exti', 'tzinfo', a[4])))]
            if hasattr(datetime.datetime, name):
                x = getattr(datetime.datetime, name)
                if callable(x):
                    return [(st, av(('bi', a, name)))]
                if a[1] == AT and zone(a[4]) is not None and name in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
                    return [(st, kv(getattr(datetime.datetime.fromtimestamp(a[2], zone(a[4])), name)))]
                return [(st, av(('n', 'int', '0+', a[4])))]
            return I.missing(a, name, st, node, default)
        if t in ('fn', 'bm', 'bi'):
            if self.is_idict(a) and hasattr(dict, name):
                return [(st, av(('bi', a, name)))]
            if t == 'bi' and a[1] is not None and a[1][0] == 'prop':
                return [(st, TOP)]
            if name == '__name__':
                return [(st, kv(I.codes[(a if t == 'fn' else a[2])[1]].name) if t == 'fn' or (t == 'bm' and a[2][0] == 'fn') else STR)]
            if name == '__self__' and t == 'bm':
                return [(st, av(a[1]))]
            if name == '__func__' and t == 'bm':
                return [(st, av(a[2]))]
            if name == '__defaults__' and t == 'fn' and a[2] is not None:
                env = st.get(a[2])
                return [(st, av(('t', tuple(v for n_, v in sorted(env.fields.items()) if n_.startswith('default:')))))]
            if name.startswith('__'):
                return [(st, TOP)]
            return I.missing(a, name, st, node, default)
        if t == 'prop':
            return [(st, av(('bi', a, name)))]
        if t == 'x':
            if name == 'args':
                return [(st, av(('t', a[2])))]
            if name in ('with_traceback', '__str__', '__repr__'):
                return [(st, av(('bi', a, name)))]
            if name.startswith('__'):
                return [(st, TOP)]
            I.may_raise(st, node, ('x', ('ext', 'builtins.AttributeError'), (kv(name),)))
            return [(st, STR)]
        if t == 'ext':
            if name == '__name__':
                return [(st, kv(a[1].split('.')[-1]))]
            return [(st, av(('ext', a[1] + '.' + name)))]
        if t == 'exti':
            if not a[1].startswith('logging.'):
                I.may_raise(st, node, ('x', ('ext', 'builtins.AttributeError'), (kv(name),)))
            return [(st, av(('exti', a[1] + '.' + name, a[2])))]
        if t == 'top':
            I.may_raise(st, node, ('x', ('ext', 'builtins.AttributeError'), (kv(name),)))
            return [(st, av(a))]
        return [(st, TOP)]

    # ------------------------------------------------------------------ calls

    def call(self, a, args, kwargs, st, node):
        I = self.I
        t = a[0]
        if t == 'ext':
            return self.call_ext(a[1], args, kwargs, st, node)
        if t == 'exti':
            tags = self.argtags(args, kwargs, st) | a[2]
            r = self.ext_event(a[1], args, kwargs, st, node)
            if r is not None:
                return r
            if not a[1].startswith(NORAISE):
                I.may_raise(st, node)
            return [(st, av(('exti', a[1] + '()', tags)))]
        if t == 'bi':
            return self.call_bi(a, args, kwargs, st, node)
        if t == 'top':
            I.may_raise(st, node)
            I.emit('on_top_call', st, a, args, kwargs, node)
            return [(st, av(('top', a[1] | self.argtags(args, kwargs, st))))]
        if t == 'x':
            return [(st, TOP)]
        if t == 'clsm' or t == 'prop':
            return [(st, TOP)]
        I.raise_builtin(st, 'TypeError', 'object is not callable', node)
        return []

    def argtags(self, args, kwargs, st):
        tags = set()
        for x in args:
            tags |= V.tagsof(x if isinstance(x, frozenset) else x[1], st)
        for x in kwargs.values():
            tags |= V.tagsof(x, st)
        return frozenset(tags)

    def ext_event(self, dotted, args, kwargs, st, node):
        I = self.I
        I.stats['ext'].add(dotted)
        I.emit('on_ext', st, dotted, args, kwargs, node)
        f = I.ext_overrides.get(dotted)
        if f is not None:
            return f(I, st, args, kwargs, node)
        for pre, f in I.ext_overrides.items():
            if pre.endswith('*') and dotted.startswith(pre[:-1]):
                r = f(I, st, args, kwargs, node, dotted)
                if r is not None:
                    return r
        return None

    def call_ext(self, dotted, args, kwargs, st, node):
        I = self.I
        r = self.ext_event(dotted, args, kwargs, st, node)
        if r is not None:
            return r
        if dotted.startswith('builtins.'):
            name = dotted[9:]
            m = getattr(self, 'b_' + name.replace('.', '_'), None)
            if m is not None:
                return m(args, kwargs, st, node)
            from .interp import BUILTIN_EXC
            if name in BUILTIN_EXC:
                return [(st, av(('x', ('ext', dotted), tuple(x for x in args if isinstance(x, frozenset)))))]
            if '.' in name and args and isinstance(args[0], frozenset):
                # list.append(x, ..) and alike
                out = []
                for b in args[0]:
                    out.extend(self.call_bi(('bi', b, name.split('.')[-1] if b[0] != 'r' or st.get(b[1]).kind != 'inst' else 'list:' + name.split('.')[-1]),
                                            args[1:], kwargs, st.copy(), node))
                return out
            I.may_raise(st, node)
            return [(st, av(('exti', dotted + '()', self.argtags(args, kwargs, st))))]
        m = EXT.get(dotted) or (localize(dotted[:-9]) if dotted.startswith('pytz.') and dotted.endswith('.localize') else None)
        if m is not None:
            return m(self, args, kwargs, st, node)
        if dotted == 'propertime.TimeSpan':
            oid = I.alloc(st, Obj('inst', cls=('ext', 'propertime.TimeSpan'), fields={'%spec': args[0] if args else TOP}), node)
            return [(st, av(oid))]
        if dotted == 'math.isclose' and len(args) >= 2:
            r = self.isclose(args, kwargs)
            if r is not None:
                return [(st, kv(r))]
            return [(st, BOOL)]
        if dotted.startswith('math.') or dotted.startswith('statistics.'):
            I.may_raise(st, node, ('x', ('ext', 'builtins.ValueError'), ()))
            tags = self.argtags(args, kwargs, st)
            if dotted in ('math.log', 'math.log10', 'math.fabs') and len(args) == 1:
                tags = X.strip(tags) | self.fn_tag({'fabs': 'abs'}.get(dotted[5:], dotted[5:]), args)
            elif dotted in ('math.floor', 'math.ceil', 'math.trunc', 'math.exp'):
                tags = X.strip(tags)
            return [(st, av(('n', 'int' if dotted in ('math.floor', 'math.ceil') else 'float', '-0+', tags)))]
        if not dotted.startswith(NORAISE):
            I.may_raise(st, node)
        return [(st, av(('exti', dotted + '()', self.argtags(args, kwargs, st))))]

    def isclose(self, args, kwargs):
        rel = V.one_const(kwargs['rel_tol']) if 'rel_tol' in kwargs else (True, 1e-9)
        ab = V.one_const(kwargs['abs_tol']) if 'abs_tol' in kwargs else (True, 0.0)
        if len(args[0]) != 1 or len(args[1]) != 1 or not rel[0] or not ab[0]:
            return None
        a, b = next(iter(args[0])), next(iter(args[1]))
        if a[0] == 'o' and b[0] == 'o' and a[1] == b[1]:
            if a[2] == b[2]:
                return True
            if abs(a[2] - b[2]) < 0.01:
                return True if ab[1] >= 1e-7 else None
            return False if rel[1] == 0 and ab[1] <= 0.01 else None
        return None

    # ---- builtin functions

    def b_len(self, args, kwargs, st, node):
        I = self.I
        out = []
        res = EMPTY
        if not args or not isinstance(args[0], frozenset):
            return [(st, av(('n', 'int', '0+', NOTAGS)))]
        for a in args[0]:
            t = a[0]
            if t == 'r':
                o = st.get(a[1])
                if o is not None and o.kind == 'inst':
                    c = I.class_attr(o.cls, '__len__', st) if o.cls else None
                    if c is not None and c[0][0] == 'fn':
                        out.extend(I.call_fn(c[0], [av(a)], {}, st.copy(), node))
                        continue
                    if c is None and not (o.items is not None or o.elem):
                        if o.opened or o.cls is None:
                            res = res | av(('n', 'int', '0+', NOTAGS))
                        else:
                            I.raise_builtin(st.copy(), 'TypeError', 'object has no len()', node)
                        continue
                if o is None:
                    res = res | av(('n', 'int', '0+', NOTAGS))
                elif o.kind == 'dict':
                    lo = sum(1 for v in o.kv.values() if UNB not in v)
                    if not o.kelem and lo == len(o.kv) and not o.weak:
                        res = res | kv(lo)
                    else:
                        res = res | av(('n', 'int', '+' if lo else '0+', NOTAGS))
                else:
                    res = res | self.len_val(o)
            elif t == 't':
                res = res | kv(len(a[1]))
            elif t == 'tt':
                res = res | av(('n', 'int', '+' if a[2] else '0+', NOTAGS))
            elif t == 'k' and isinstance(a[1], (str, bytes)):
                res = res | kv(len(a[1]))
            elif t in ('s', 'exti', 'top'):
                I.may_raise(st, node, ('x', ('ext', 'builtins.TypeError'), ()))
                res = res | av(('n', 'int', '0+', atags(a)))
            else:
                I.raise_builtin(st.copy(), 'TypeError', 'object has no len()', node)
        if res:
            out.append((st, V.norm(res)))
        return out

    def len_val(self, o):
        lo, hi = o.min_len(), o.max_len()
        if lo == hi and not o.weak:
            return kv(lo)
        if hi is not None and hi - lo <= 4 and not o.weak:
            return frozenset(k(i) for i in range(lo, hi + 1))
        if o.weak:
            lo = 0
        return av(('n', 'int', '+' if lo else '0+', NOTAGS))

    def b_isinstance(self, args, kwargs, st, node):
        if len(args) < 2:
            return [(st, BOOL)]
        return [(st, self.tri(self.isinstance_(a, args[1], st) for a in args[0]))]

    def tri(self, rs):
        out = set()
        for r in rs:
            if r is None:
                out |= {TRUE, FALSE}
            else:
                out.add(TRUE if r else FALSE)
        return frozenset(out)

    def b_issubclass(self, args, kwargs, st, node):
        I = self.I
        out = []
        for a in args[0]:
            if a[0] not in ('cls', 'ext'):
                if a[0] in ('exti', 'top'):
                    I.may_raise(st, node, ('x', ('ext', 'builtins.TypeError'), ()))
                    out.append(None)
                else:
                    I.raise_builtin(st.copy(), 'TypeError', 'issubclass() arg 1 must be a class', node)
                continue
            todo = list(args[1])
            flat = []
            while todo:
                c = todo.pop()
                if c[0] == 't':
                    for x in c[1]:
                        todo.extend(x)
                else:
                    flat.append(c)
            rs = [I.cls_subclass(a, c) if c[0] in ('cls', 'ext') else None for c in flat]
            out.append(True if True in rs else (False if all(r is False for r in rs) else None))
        return [(st, self.tri(out))] if out else []

    def b_callable(self, args, kwargs, st, node):
        return [(st, self.tri(self.callable_(a, st) for a in args[0]))]

    def b_hasattr(self, args, kwargs, st, node):
        return [(st, self.tri(self.hasattr_(a, args[1], st) for a in args[0]))]

    def b_getattr(self, args, kwargs, st, node):
        ok, name = V.one_const(args[1])
        if not ok or not isinstance(name, str):
            names = V.consts(args[1])
            if names and len(names) <= 8:
                out = []
                for n_ in names:
                    out.extend(self.I.getattr(args[0], n_, st.copy(), node, args[2] if len(args) > 2 else None))
                return out
            self.I.may_raise(st, node, ('x', ('ext', 'builtins.AttributeError'), ()))
            return [(st, TOP)]
        return self.I.getattr(args[0], name, st, node, args[2] if len(args) > 2 else None)

    def b_setattr(self, args, kwargs, st, node):
        names = V.consts(args[1])
        if names:
            out = []
            for n_ in names:
                out.extend((s, VNONE) for s in self.I.setattr(args[0], n_, args[2], st.copy() if len(names) > 1 else st, node))
            return out
        for a in args[0]:
            if a[0] == 'r':
                o = st.get(a[1])
                self.I.emit('on_write', st, a[1], o, 'attr', '*', args[2], node)
                st.put(a[1], o.upd(opened=True))
        return [(st, VNONE)]

    def b_delattr(self, args, kwargs, st, node):
        ok, name = V.one_const(args[1])
        if ok:
            return [(s, VNONE) for s in self.I.delattr(args[0], name, st, node)]
        return [(st, VNONE)]

    def b_type(self, args, kwargs, st, node):
        out = set()
        for a in args[0]:
            if a[0] == 'n' and a[1] == 'num':
                out |= {('ext', 'builtins.int'), ('ext', 'builtins.float')}
                continue
            c = self.type_of(a, st)
            out.add(c if c else ('exti', 'type()', atags(a)))
        return [(st, frozenset(out))]

    def b_id(self, args, kwargs, st, node):
        return [(st, av(('n', 'int', '+', NOTAGS)))]

    def b_print(self, args, kwargs, st, node):
        return [(st, VNONE)]

    def b_input(self, args, kwargs, st, node):
        return [(st, STR)]

    def b_hash(self, args, kwargs, st, node):
        return [(st, av(('n', 'int', '-0+', NOTAGS)))]

    def b_repr(self, args, kwargs, st, node):
        return self.b_str(args, kwargs, st, node)

    def b_str(self, args, kwargs, st, node):
        if not args:
            return [(st, kv(''))]
        return self.to_str(args[0], st, node)

    def b_format(self, args, kwargs, st, node):
        return [(st, av(('s', '*', self.argtags(args, kwargs, st))))]

    def b_bool(self, args, kwargs, st, node):
        if not args:
            return [(st, av(FALSE))]
        return [(s, av(TRUE if t else FALSE)) for s, _, t in self.I.split_truth(args[0], st, node)]

    def tonum(self, v, st, node, typ):
        I = self.I
        out = []
        for a in v:
            if a[0] == 'k' and isinstance(a[1], str) and a[1].strip() in self.I.tokens:
                x = self.I.tokens[a[1].strip()]
                if typ == 'int':
                    self.I.raise_builtin(st.copy(), 'ValueError', 'invalid literal for int()', node)
                else:
                    out.append(('n', typ, x[2], x[3]))
            elif a[0] == 'k' and isinstance(a[1], (int, float, str)):
                try:
                    out.append(k((int if typ == 'int' else float)(a[1])))
                except (ValueError, OverflowError):
                    I.raise_builtin(st.copy(), 'ValueError', 'could not convert', node)
            elif a[0] == 'n':
                if typ == 'int' and a[1] != 'int':
                    s = ''.join(c for c in '-0+' if c in a[2] or c == '0')
                    out.append(('n', 'int', s, X.strip(a[3])))
                else:
                    out.append(('n', typ, a[2], a[3]))
            elif a[0] == 'o' and a[3] != 'dt':
                out.append(a if typ == 'float' else ('n', 'int', '-0+', a[4]))
            elif a[0] in ('s', 'exti', 'top'):
                I.may_raise(st, node, ('x', ('ext', 'builtins.ValueError'), ()))
                if a[0] != 's':
                    I.may_raise(st, node, ('x', ('ext', 'builtins.TypeError'), ()))
                out.append(('n', typ, '-0+', atags(a)))
            elif a[0] == 'r' and self.inst_method(a, '__{}__'.format(typ), st):
                out.append(('n', typ, '-0+', NOTAGS))
            else:
                I.raise_builtin(st.copy(), 'TypeError', '{}() argument must be a string or a number'.format(typ), node)
        return [(st, V.norm(frozenset(out)))] if out else []

    def b_int(self, args, kwargs, st, node):
        if not args:
            return [(st, kv(0))]
        return self.tonum(args[0], st, node, 'int')

    def b_float(self, args, kwargs, st, node):
        if not args:
            return [(st, kv(0.0))]
        return self.tonum(args[0], st, node, 'float')

    def b_abs(self, args, kwargs, st, node):
        out = []
        for a in args[0]:
            if a[0] == 'k' and isinstance(a[1], (int, float)):
                out.append(k(abs(a[1])))
            elif a[0] == 'n':
                s = ('0' if '0' in a[2] else '') + ('+' if '+' in a[2] or '-' in a[2] else '')
                out.append(('n', a[1], s, a[3] if '-' not in a[2] else X.strip(a[3]) | (X.tag(X.fn('abs', X.of(a))) if X.has(a) else NOTAGS)))
            elif a[0] == 'o':
                out.append(('n', a[3], '0+', a[4]))
            elif a[0] in ('exti', 'top'):
                out.append(('n', 'num', '0+', atags(a)))
            else:
                self.I.raise_builtin(st.copy(), 'TypeError', 'bad operand type for abs()', node)
        return [(st, V.norm(frozenset(out)))] if out else []

    def b_round(self, args, kwargs, st, node):
        out = []
        for a in args[0]:
            if a[0] == 'k' and isinstance(a[1], (int, float)):
                ok, nd = V.one_const(args[1]) if len(args) > 1 else (True, None)
                if ok:
                    out.append(k(round(a[1], nd)))
                    continue
            if isnum(a) and a[0] != 'o':
                s = ''.join(c for c in '-0+' if c in asig(a) or c == '0')
                out.append(('n', 'num' if len(args) > 1 else 'int', s, atags(a)))
            else:
                out.append(('n', 'num', '-0+', atags(a)))
        return [(st, V.norm(frozenset(out)))]

    def minmax(self, args, kwargs, st, node, ismin):
        vals = []
        if len(args) == 1 and isinstance(args[0], frozenset):
            empty = False
            for plan, s in self.iteration(args[0], st, node):
                if plan[0] == 'exact':
                    if not plan[1]:
                        empty = True
                    vals.extend(plan[1])
                else:
                    vals.append(plan[1])
            if 'default' in kwargs:
                vals.append(kwargs['default'])
            elif empty and not vals:
                self.I.raise_builtin(st, 'ValueError', 'min()/max() of an empty sequence', node)
                return []
        else:
            vals = [x if isinstance(x, frozenset) else x[1] for x in args]
        if not vals:
            return [(st, TOP)]
        allv = V.join(*vals)
        if 'key' not in kwargs and all(len(v) == 1 for v in vals):
            at = [next(iter(v)) for v in vals]
            at = [k(0) if x[0] == 'n' and x[2] == '0' else x for x in at]
            if len(at) == 2 and all(isnum(x) and x[0] != 'o' for x in at) and 'far' not in V.join(*vals):
                r = self.sign_order('<=', at[0], at[1])
                if r is not None:
                    return [(st, av(at[0] if r == ismin else at[1]))]
            if all(x[0] == 'k' for x in at):
                try:
                    return [(st, kv((min if ismin else max)(x[1] for x in at)))]
                except TypeError:
                    self.I.raise_builtin(st, 'TypeError', 'min/max of different types', node)
                    return []
            if len(at) > 1 and all(isnum(x) and X.of(x) is not None for x in at) and any(X.has(x) for x in at):
                best = at[0]
                for x in at[1:]:
                    c = X.compare(x, best)
                    if c is None:
                        break
                    if c and (c < 0) == ismin:
                        best = x
                else:
                    return [(st, av(best))]
            if all(x[0] == 'o' and x[1] == at[0][1] for x in at):
                return [(st, av((min if ismin else max)(at, key=lambda x: x[2])))]
        if any(a == NONE for a in allv) and len(allv) > 1:
            self.I.raise_builtin(st.copy(), 'TypeError', 'comparison with None', node)
            allv = allv - {NONE}
        return [(st, allv)]

    def b_min(self, args, kwargs, st, node):
        return self.minmax(args, kwargs, st, node, True)

    def b_max(self, args, kwargs, st, node):
        return self.minmax(args, kwargs, st, node, False)

    def b_sum(self, args, kwargs, st, node):
        tags = self.argtags(args, kwargs, st)
        for plan, s in self.iteration(args[0], st, node) if args else []:
            if plan[0] == 'exact':
                total = [k(0)] if len(args) < 2 else list(args[1])
                ok = True
                for v in plan[1]:
                    nt = []
                    for x in total:
                        for y in v:
                            if not isnum(x) or not isnum(y):
                                ok = False
                                break
                            r = self.num_op('+', x, y)
                            nt.extend(r)
                    total = list(V.norm(frozenset(nt)))[:8]
                if ok and total:
                    return [(st, V.norm(frozenset(total)))]
            elif plan[0] == 'elem' and all(isnum(x) for x in plan[1]):
                signs = set('0')
                for x in plan[1]:
                    signs |= set(asig(x))
                if signs >= {'-', '+'}:
                    signs = set('-0+')
                return [(st, av(('n', 'num', ''.join(c for c in '-0+' if c in signs), tags)))]
        return [(st, av(('n', 'num', '-0+', tags)))]

    def b_pow(self, args, kwargs, st, node):
        return self.binop(ast.Pow(), args[0], args[1], st, node)

    def b_divmod(self, args, kwargs, st, node):
        return [(st, av(('t', (av(('n', 'num', '-0+', NOTAGS)),) * 2)))]

    def b_range(self, args, kwargs, st, node):
        cs = [V.one_const(a) if isinstance(a, frozenset) else (False, None) for a in args]
        for a in args:
            if isinstance(a, frozenset) and any((x[0] == 'k' and not isinstance(x[1], int)) or (x[0] == 'n' and x[1] == 'float') for x in a):
                self.I.raise_builtin(st.copy(), 'TypeError', 'range() needs integers', node)
                if all((x[0] == 'k' and not isinstance(x[1], int)) or (x[0] == 'n' and x[1] == 'float') for x in a):
                    return []
        if cs and all(c[0] and isinstance(c[1], int) for c in cs):
            r = range(*[c[1] for c in cs])
            if len(r) <= 20:
                return [(st, av(('t', tuple(kv(i) for i in r))))]
            signs = ''.join(c for c in '-0+' if any(V.sign(x) == c for x in (r[0], r[-1], r[len(r) // 2])))
            return [(st, av(('tt', av(('n', 'int', signs, NOTAGS)), len(r))))]
        lo = 0
        signs = set()
        if len(args) == 1:
            signs = set('0+')
            if all(asig(x) == '+' for x in args[0] if isnum(x)):
                lo = 1
        else:
            for x in args[0]:
                signs |= set(asig(x)) if isnum(x) else set('-0+')
            for x in args[1]:
                signs |= (set(asig(x)) if isnum(x) else set('-0+'))
        return [(st, av(('tt', av(('n', 'int', ''.join(c for c in '-0+' if c in signs), NOTAGS)), lo)))]

    def b_enumerate(self, args, kwargs, st, node):
        start = 0
        sv = args[1] if len(args) > 1 else kwargs.get('start')
        if sv is not None:
            ok, start = V.one_const(sv)
            if not ok:
                start = None
        out = []
        for plan, s in self.iteration(args[0], st, node):
            if plan[0] == 'exact' and start is not None:
                out.append((s, av(('t', tuple(av(('t', (kv(i + start), v))) for i, v in enumerate(plan[1]))))))
            else:
                el = plan[1] if plan[0] == 'elem' else (V.join(*plan[1]) if plan[0] == 'exact' else TOP)
                if not el:
                    out.append((s, av(('t', ()))))
                else:
                    out.append((s, av(('tt', av(('t', (av(('n', 'int', '0+', NOTAGS)), el))), plan[2] if plan[0] == 'elem' else 0))))
        return out

    def b_zip(self, args, kwargs, st, node):
        cur = [(st, [])]
        for a in args:
            nxt = []
            for s, ps in cur:
                if not isinstance(a, frozenset):
                    nxt.append((s, ps + [('elem', TOP, 0, None)]))
                    continue
                for plan, s1 in self.iteration(a, s, node):
                    nxt.append((s1, ps + [plan]))
            cur = nxt
        out = []
        for s, ps in cur:
            if all(p[0] == 'exact' for p in ps):
                out.append((s, av(('t', tuple(av(('t', tuple(x))) for x in zip(*[p[1] for p in ps]))))))
            else:
                els = tuple(V.join(*p[1]) if p[0] == 'exact' else (p[1] if p[0] == 'elem' else TOP) for p in ps)
                out.append((s, av(('tt', av(('t', els)), 0))))
        return out

    def b_map(self, args, kwargs, st, node):
        out = []
        for plan, s in self.iteration(args[1], st, node):
            if plan[0] == 'exact' and len(args) == 2:
                cur = [(s, [])]
                for el in plan[1]:
                    cur = [(s2, vs + [v]) for s1, vs in cur for s2, v in self.I.call(args[0], [el], {}, s1, node)]
                out.extend((s1, av(('t', tuple(vs)))) for s1, vs in cur)
            else:
                el = plan[1] if plan[0] == 'elem' else TOP
                for s1, v in self.I.call(args[0], [el] + [TOP] * (len(args) - 2), {}, s, node):
                    out.append((s1, av(('tt', v, plan[2] if plan[0] == 'elem' else 0))))
        return self.I.norm_results(out)

    def b_filter(self, args, kwargs, st, node):
        out = []
        for plan, s in self.iteration(args[1], st, node):
            els = plan[1] if plan[0] == 'exact' else [plan[1] if plan[0] == 'elem' else TOP]
            keep = EMPTY
            cur = [(s, [])]
            for el in els:
                nxt = []
                for s1, vs in cur:
                    if args[0] == VNONE:
                        r = [(s1, el)]
                    else:
                        r = self.I.call(args[0], [el], {}, s1, node)
                    for s2, v in r:
                        for s3, vv, t in self.I.split_truth(v, s2, node):
                            nxt.append((s3, vs + [el] if t else vs))
                cur = self.I.norm_results([(a, tuple(b)) for a, b in nxt]) if False else nxt
            if plan[0] == 'exact':
                out.extend((s1, av(('t', tuple(vs)))) for s1, vs in cur)
            else:
                out.extend((s1, av(('tt', V.join(*vs) if vs else EMPTY, 0))) for s1, vs in cur)
        return out

    def anyall(self, args, st, node, isany):
        out = []
        for plan, s in self.iteration(args[0], st, node):
            if plan[0] == 'exact':
                cur = [s]
                for v in plan[1]:
                    nxt = []
                    for s1 in cur:
                        for s2, _, t in self.I.split_truth(v, s1, node):
                            if t == isany:
                                out.append((s2, av(TRUE if isany else FALSE)))
                            else:
                                nxt.append(s2)
                    cur = nxt
                out.extend((s1, av(FALSE if isany else TRUE)) for s1 in cur)
            else:
                out.append((s, BOOL))
        return self.I.norm_results(out)

    def b_any(self, args, kwargs, st, node):
        return self.anyall(args, st, node, True)

    def b_all(self, args, kwargs, st, node):
        return self.anyall(args, st, node, False)

    def seq(self, args, st, node, mk):
        if not args:
            return [(st, mk(st, (), EMPTY, 0))]
        out = []
        for plan, s in self.iteration(args[0] if isinstance(args[0], frozenset) else TOP, st, node):
            if plan[0] == 'exact':
                out.append((s, mk(s, tuple(plan[1]), EMPTY, 0)))
            elif plan[0] == 'iter':
                out.extend(self.drain(plan[1], s, node, mk))
            else:
                if plan[3] is not None and plan[2] == plan[3] and plan[2] <= 40:
                    # same number of elements, unknown order
                    out.append((s, mk(s, None, plan[1], plan[2])))
                else:
                    out.append((s, mk(s, None, plan[1], plan[2])))
        return out

    def drain(self, itv, st, node, mk):
        """list(obj) of an object of the repository with __next__"""
        I = self.I
        cur = [(st, [])]
        out = []
        for i in range(I.exact_loop + 2):
            nxt = []
            for s, vs in cur:
                I.sinks.append([])
                I.try_depth += 1
                res = I.call_method(itv, '__next__', [], {}, s, node)
                I.try_depth -= 1
                for s1, e in I.sinks.pop():
                    if I.exc_isinstance(e, ('ext', 'builtins.StopIteration'), s1) is not False:
                        out.append((s1, mk(s1, tuple(vs), EMPTY, 0)))
                    else:
                        I.sinks[-1].append((s1, e))
                nxt.extend((s1, vs + [v]) for s1, v in res)
            cur = nxt
            if not cur:
                return out
        for s, vs in cur:
            out.append((s, mk(s, None, V.join(*vs), 0)))
        return out

    def b_list(self, args, kwargs, st, node):
        return self.seq(args, st, node, lambda s, items, el, lo: self.I.new_list(s, node, items=items, elem=el, lo=lo))

    def b_tuple(self, args, kwargs, st, node):
        return self.seq(args, st, node, lambda s, items, el, lo: av(('t', items)) if items is not None else av(('tt', el, lo)))

    def b_iter(self, args, kwargs, st, node):
        for a in args[0]:
            if a[0] == 'r' and self.inst_method(a, '__iter__', st):
                return self.I.call_method(args[0], '__iter__', [], {}, st, node)
        return self.b_tuple(args, kwargs, st, node)

    def b_next(self, args, kwargs, st, node):
        out = []
        for a in args[0]:
            if a[0] == 'r' and self.inst_method(a, '__next__', st):
                out.extend(self.I.call_method(av(a), '__next__', [], {}, st.copy(), node))
            else:
                for plan, s in self.iteration(av(a), st.copy(), node):
                    el = (V.join(*plan[1]) if plan[1] else EMPTY) if plan[0] == 'exact' else plan[1]
                    if len(args) > 1:
                        el = V.join(el, args[1])
                    elif not el:
                        self.I.raise_builtin(s, 'StopIteration', '', node)
                        continue
                    else:
                        self.I.may_raise(s, node, ('x', ('ext', 'builtins.StopIteration'), ()))
                    out.append((s, el))
        return out

    def b_reversed(self, args, kwargs, st, node):
        if args and isinstance(args[0], frozenset) and len(args[0]) == 1:
            a = next(iter(args[0]))
            o = st.get(a[1]) if a[0] == 'r' else None
            if o is not None and o.kind == 'inst' and o.cls:
                c = self.I.class_attr(o.cls, '__reversed__', st)
                if c is not None and c[0][0] == 'fn':
                    return self.I.call_fn(c[0], [av(a)], {}, st, node)
        return self.seq(args, st, node, lambda s, items, el, lo: av(('t', tuple(reversed(items)))) if items is not None else av(('tt', el, lo)))

    def b_set(self, args, kwargs, st, node):
        def mk(s, items, el, lo):
            if items is not None:
                uniq = []
                for x in items:
                    if x not in uniq:
                        uniq.append(x)
                if all(len(x) == 1 and next(iter(x))[0] == 'k' for x in uniq):
                    return self.I.new_list(s, node, items=tuple(uniq), kind='set')
                el, lo = V.join(*uniq), 1 if uniq else 0
            return self.I.new_list(s, node, elem=el, lo=min(lo, 1), kind='set')
        return self.seq(args, st, node, mk)
    b_frozenset = b_set

    def sort_key(self, v):
        if len(v) != 1:
            return None
        a = next(iter(v))
        if a[0] == 'k':
            return ('k', a[1])
        if a[0] == 'o' and a[2] is not None:
            return (a[1], a[2])
        if a[0] == 't':
            ks = [self.sort_key(x) for x in a[1]]
            return None if None in ks or len({x[0] for x in ks} - {'k'}) > 1 else ('t', tuple(x[1] for x in ks))
        return None

    def ordered(self, items, kwargs, st, node):
        """The items sorted, if their order is known."""
        rev = V.one_const(kwargs.get('reverse', kv(False)))
        if not rev[0]:
            return None
        keys = []
        for x in items:
            if kwargs.get('key', VNONE) != VNONE:
                res = self.I.call(kwargs['key'], [x], {}, st.copy(), node)
                if len(res) != 1:
                    return None
                x = res[0][1]
            keys.append(self.sort_key(x))
        if None in keys or len({x[0] for x in keys}) > 1:
            return None
        try:
            return [items[i] for i in sorted(range(len(items)), key=lambda i: keys[i][1], reverse=bool(rev[1]))]
        except TypeError:
            return None

    def b_sorted(self, args, kwargs, st, node):
        def mk(s, items, el, lo):
            if items is not None:
                got = self.ordered(items, kwargs, s, node)
                if got is not None:
                    return self.I.new_list(s, node, items=got)
                if len(items) <= 1:
                    return self.I.new_list(s, node, items=items)
                j = V.join(*items)
                return self.I.new_list(s, node, items=[j] * len(items))
            return self.I.new_list(s, node, elem=el, lo=lo)
        if 'key' in kwargs and args and kwargs['key'] != VNONE:
            for plan, s in self.iteration(args[0], st.copy(), node):
                el = V.join(*plan[1]) if plan[0] == 'exact' and plan[1] else (plan[1] if plan[0] == 'elem' else None)
                if el:
                    self.I.call(kwargs['key'], [el], {}, s, node)
        return self.seq(args, st, node, mk)

    def b_dict(self, args, kwargs, st, node):
        I = self.I
        out = []
        starts = [(st, {}, EMPTY, EMPTY)]
        if args and isinstance(args[0], frozenset):
            starts = []
            for a in args[0]:
                s = st.copy() if len(args[0]) > 1 else st
                o = s.get(a[1]) if a[0] == 'r' else None
                if o is not None and o.kind == 'dict':
                    starts.append((s, dict(o.kv), o.kelem, o.velem))
                else:
                    for plan, s1 in self.iteration(av(a), s, node):
                        d, ke, ve = {}, EMPTY, EMPTY
                        for el in (plan[1] if plan[0] == 'exact' else [plan[1]]):
                            for x in el:
                                if x[0] == 't' and len(x[1]) == 2:
                                    kk, v = x[1]
                                    if plan[0] == 'exact' and len(kk) == 1 and next(iter(kk))[0] == 'k':
                                        d[next(iter(kk))] = v
                                    else:
                                        ke, ve = V.join(ke, kk), V.join(ve, v)
                                else:
                                    ke, ve = TOP, TOP
                        starts.append((s1, d, ke, ve))
        for s, d, ke, ve in starts:
            d = dict(d)
            for n_, v in kwargs.items():
                if n_ == '**':
                    ke, ve = V.join(ke, STR), V.join(ve, v)
                else:
                    d[k(n_)] = v
            out.append((s, I.new_dict(s, node, d, ke, ve)))
        return out

    def b_slice(self, args, kwargs, st, node):
        a = list(args) + [VNONE] * (3 - len(args))
        if len(args) == 1:
            a = [VNONE, args[0], VNONE]
        return [(st, av(('slice',) + tuple(a[:3])))]

    def b_super(self, args, kwargs, st, node):
        return [(st, TOP)]

    def b_object(self, args, kwargs, st, node):
        return [(st, av(self.I.alloc(st, Obj('inst', cls=('ext', 'builtins.object')), node)))]

    def b_vars(self, args, kwargs, st, node):
        return [(st, av(('bi', next(iter(args[0])), '__dict__')) if args else TOP)]

    def b_open(self, args, kwargs, st, node):
        self.I.may_raise(st, node, ('x', ('ext', 'builtins.OSError'), ()))
        return [(st, av(('exti', 'builtins.open()', self.argtags(args[:1], {}, st))))]

    # ---- methods of builtin values

    def call_bi(self, a, args, kwargs, st, node):
        I = self.I
        recv, name = a[1], a[2]
        if recv is None:
            return [(st, TOP)]
        if self.is_idict(recv):
            tmp = self.idict(recv, st)
            return [(self.idict_sync(recv, x, node), v) for x, v in self.dict_method(tmp, name, args, kwargs, st, node)]
        if name.startswith('list:'):
            return self.list_method(recv, name[5:], args, kwargs, st, node)
        if name.startswith('object.'):
            m = name[7:]
            if m == '__new__':
                cl = [x for x in (args[0] if args else av(recv)) if x[0] == 'cls']
                if cl:
                    pay = dict(items=()) if ('ext', 'builtins.list') in I.mro(cl[0]) else {}
                    return [(st, av(I.alloc(st, Obj('inst', cls=cl[0], **pay), node)))]
                return [(st, TOP)]
            if m in ('__repr__', '__str__'):
                return [(st, STR)]
            if m == '__eq__':
                return [(st, self.tri([self.compare1('is', recv, x, st) for x in args[0]]))]
            if m == '__setattr__':
                ok, n_ = V.one_const(args[0])
                if ok:
                    I.write_field(st, recv[1], n_, args[1], node)
                return [(st, VNONE)]
            return [(st, VNONE)]
        if name.startswith('propertime.TimeSpan:'):
            return self.timespan(recv, name.split(':')[1], args, kwargs, st, node)
        if recv[0] == 'r':
            o = st.get(recv[1])
            if o is None:
                return [(st, TOP)]
            if name in ('__init__',) and o.kind == 'inst' and not self.listy(o):
                return [(st, VNONE)]
            if o.kind in ('list', 'inst') and (o.kind == 'list' or o.items is not None or o.elem):
                return self.list_method(recv, name, args, kwargs, st, node)
            if o.kind == 'dict':
                return self.dict_method(recv, name, args, kwargs, st, node)
            if o.kind == 'set':
                return self.set_method(recv, name, args, kwargs, st, node)
            if o.cls == ('ext', 'propertime.TimeSpan') or name in TIMESPAN:
                return self.timespan(recv, name, args, kwargs, st, node)
            return [(st, TOP)]
        if isstr(recv):
            return self.str_method(recv, name, args, kwargs, st, node)
        if recv[0] in ('t', 'tt'):
            if name == '__getitem__':
                return self.getitem(recv, args[0], st, node)
            if name in ('index', 'count', '__len__'):
                if name == 'index':
                    I.may_raise(st, node, ('x', ('ext', 'builtins.ValueError'), ()))
                return [(st, av(('n', 'int', '0+', NOTAGS)))]
            return [(st, TOP)]
        if recv[0] == 'o' and recv[3] == 'dt':
            if name == 'timestamp' and recv[1] == AT:
                return [(st, kv(float(recv[2])))]
            if name in ('weekday', 'isoweekday') and recv[1] == AT and zone(recv[4]) is not None:
                return [(st, kv(getattr(datetime.datetime.fromtimestamp(recv[2], zone(recv[4])), name)()))]
            if name in ('timestamp',):
                return [(st, av(('o', recv[1], recv[2], 'float', recv[4])))]
            if name in ('astimezone', 'replace'):
                return [(st, av(recv) if name == 'astimezone' else av(('exti', 'datetime.datetime', recv[4])))]
            if name in ('strftime', 'isoformat', '__str__'):
                return [(st, av(('s', '*', recv[4])))]
            return [(st, av(('exti', 'datetime.' + name + '()', recv[4])))]
        if recv[0] == 'slice' and name == 'indices':
            ok, n_ = V.one_const(args[0])
            cs = [V.one_const(x) for x in recv[1:]]
            if ok and all(c[0] for c in cs):
                try:
                    r = slice(*[c[1] for c in cs]).indices(n_)
                    return [(st, av(('t', tuple(kv(x) for x in r))))]
                except TypeError as e:
                    I.raise_builtin(st, 'TypeError', str(e), node)
                    return []
            nn = av(('n', 'int', '0+', NOTAGS))
            return [(st, av(('t', (nn, nn, cs[2][0] and kv(cs[2][1] or 1) or nn))))]
        if isnum(recv):
            if name == 'is_integer':
                return [(st, BOOL)]
            ops = {'__add__': ast.Add(), '__sub__': ast.Sub(), '__mul__': ast.Mult(), '__truediv__': ast.Div()}
            if name in ops:
                return self.binop(ops[name], av(recv), args[0], st, node)
            return [(st, av(('n', 'num', '-0+', atags(recv))))]
        if recv[0] == 'prop':
            if name == 'setter':
                return [(st, av(('prop', recv[1], args[0], recv[3])))]
            return [(st, TOP)]
        if recv[0] == 'x' and name in ('__str__', '__repr__'):
            return [(st, STR)]
        return [(st, TOP)]

    def list_method(self, recv, name, args, kwargs, st, node):
        I = self.I
        o = st.get(recv[1])
        args = [x if isinstance(x, frozenset) else x[1] for x in args]

        def wr(what, key=None, val=None):
            I.stats['writes'] += 1
            I.emit('on_write', st, recv[1], o, what, key, val, node)
        if name == '__init__':
            if args:
                out = []
                for plan, s in self.iteration(args[0], st, node):
                    oo = s.get(recv[1])
                    if plan[0] == 'exact':
                        s.put(recv[1], oo.upd(items=tuple(plan[1])))
                    else:
                        s.put(recv[1], oo.upd(items=None, elem=plan[1], lo=plan[2]))
                    out.append((s, VNONE))
                return out
            return [(st, VNONE)]
        if name == 'append':
            if len(args) != 1:
                I.raise_builtin(st, 'TypeError', 'append() takes exactly one argument', node)
                return []
            wr('append', None, args[0])
            if o.items is not None and len(o.items) < 40 and not o.weak:
                st.put(recv[1], o.upd(items=o.items + (args[0],)))
            else:
                st.put(recv[1], o.upd(items=None, elem=V.join(o.all_elem(), args[0]), lo=0 if o.weak else min(o.min_len() + 1, 3), hi=None))
            return [(st, VNONE)]
        if name in ('extend', '__iadd__'):
            out = []
            for plan, s in self.iteration(args[0], st, node):
                oo = s.get(recv[1])
                I.emit('on_write', s, recv[1], oo, 'extend', None, args[0], node)
                if plan[0] == 'exact' and oo.items is not None and not oo.weak:
                    s.put(recv[1], oo.upd(items=oo.items + tuple(plan[1])))
                else:
                    el = V.join(*plan[1]) if plan[0] == 'exact' and plan[1] else (plan[1] if plan[0] == 'elem' else EMPTY)
                    s.put(recv[1], oo.upd(items=None, elem=V.join(oo.all_elem(), el), lo=0 if oo.weak else oo.min_len(), hi=None))
                out.append((s, VNONE if name == 'extend' else av(recv)))
            return out
        if name == '__imul__':
            wr('imul')
            st.put(recv[1], o.upd(items=None, elem=o.all_elem(), lo=0, hi=None))
            return [(st, av(recv))]
        if name == 'insert':
            wr('insert', args[0], args[1])
            ok, c = V.one_const(args[0])
            if ok and isinstance(c, int) and o.items is not None and not o.weak:
                its = list(o.items)
                its.insert(c, args[1])
                st.put(recv[1], o.upd(items=tuple(its)))
            else:
                st.put(recv[1], o.upd(items=None, elem=V.join(o.all_elem(), args[1]), lo=o.min_len() + (0 if o.weak else 1), hi=None))
            return [(st, VNONE)]
        if name == 'pop':
            idx = args[0] if args else kv(-1)
            if o.max_len() == 0:
                I.raise_builtin(st, 'IndexError', 'pop from empty list', node)
                return []
            ok, c = V.one_const(idx)
            if ok and not isinstance(c, int):
                I.raise_builtin(st, 'TypeError', 'pop() needs an integer', node)
                return []
            if o.items is not None and not o.weak:
                if ok:
                    if not -len(o.items) <= c < len(o.items):
                        I.raise_builtin(st, 'IndexError', 'pop index out of range', node)
                        return []
                    wr('pop', idx)
                    its = list(o.items)
                    v = its.pop(c)
                    st.put(recv[1], o.upd(items=tuple(its)))
                    return [(st, v)]
                n_ = len(o.items)
                I.may_raise(st, node, ('x', ('ext', 'builtins.IndexError'), ()))
                wr('pop', idx)
                st.put(recv[1], o.upd(items=None, elem=o.all_elem(), lo=n_ - 1, hi=n_ - 1))
                return [(st, o.all_elem())]
            if o.min_len() == 0:
                I.may_raise(st, node, ('x', ('ext', 'builtins.IndexError'), ()))
            wr('pop', idx)
            st.put(recv[1], o.upd(items=None, elem=o.all_elem(), lo=max(0, o.min_len() - 1), hi=None if o.max_len() is None else o.max_len() - (0 if o.weak else 1)))
            return [(st, o.all_elem())]
        if name == 'remove':
            if o.items is not None and len(args[0]) == 1 and not o.weak:
                x = next(iter(args[0]))
                for i, it in enumerate(o.items):
                    r = self.in_items(x, [it], st)
                    if r is True or (len(it) == 1 and next(iter(it)) == x and x[0] == 'r'):
                        wr('remove', None, args[0])
                        st.put(recv[1], o.upd(items=o.items[:i] + o.items[i + 1:]))
                        return [(st, VNONE)]
                    if r is None:
                        break
                else:
                    I.raise_builtin(st, 'ValueError', 'list.remove(x): x not in list', node)
                    return []
            if o.max_len() == 0:
                I.raise_builtin(st, 'ValueError', 'list.remove(x): x not in list', node)
                return []
            I.may_raise(st, node, ('x', ('ext', 'builtins.ValueError'), ()))
            wr('remove', None, args[0])
            n_ = o.max_len()
            st.put(recv[1], o.upd(items=None, elem=o.all_elem(), lo=max(0, o.min_len() - 1), hi=None if n_ is None else n_ - (0 if o.weak else 1)))
            return [(st, VNONE)]
        if name == 'clear':
            wr('clear')
            st.put(recv[1], o.upd(items=() if not o.weak else o.items, elem=EMPTY if not o.weak else o.elem, lo=0, hi=None))
            return [(st, VNONE)]
        if name in ('sort', 'reverse'):
            wr(name)
            if name == 'reverse' and o.items is not None and not o.weak:
                st.put(recv[1], o.upd(items=tuple(reversed(o.items))))
            elif o.items is not None:
                got = self.ordered(o.items, kwargs, st, node) if name == 'sort' and not o.weak else None
                if got is not None:
                    st.put(recv[1], o.upd(items=tuple(got)))
                    return [(st, VNONE)]
                j = o.all_elem()
                st.put(recv[1], o.upd(items=tuple(j for _ in o.items)))
            return [(st, VNONE)]
        if name == 'index':
            if any(x == NONE for v in args[1:] for x in v):
                I.raise_builtin(st.copy(), 'TypeError', 'slice indices must be integers', node)
                if all(v == VNONE for v in args[1:]):
                    return []
            if o.max_len() == 0:
                I.raise_builtin(st, 'ValueError', 'not in list', node)
                return []
            bounds = [V.one_const(v) for v in args[1:3]]
            if o.items is not None and len(args) >= 1 and len(args[0]) == 1 and all(ok and isinstance(c, int) for ok, c in bounds):
                x = next(iter(args[0]))
                where = range(len(o.items))[slice(*([c for _, c in bounds] + [None])[:2])] if bounds else range(len(o.items))
                for i in where:
                    it = o.items[i]
                    r = True if x[0] == 'r' and len(it) == 1 and x in it and not o.weak else self.in_items(x, [it], st)
                    if r is True:
                        return [(st, kv(i))]
                    if r is None:
                        break
                else:
                    I.raise_builtin(st, 'ValueError', 'not in list', node)
                    return []
            I.may_raise(st, node, ('x', ('ext', 'builtins.ValueError'), ()))
            return [(st, av(('n', 'int', '0+', NOTAGS)))]
        if name == 'count':
            return [(st, av(('n', 'int', '0+', NOTAGS)))]
        if name in ('copy', '__add__'):
            if name == '__add__':
                return self.binop(ast.Add(), av(recv), args[0], st, node)
            return [(st, I.new_list(st, node, items=o.items, elem=o.elem, lo=o.lo, hi=o.hi))]
        if name == '__getitem__':
            key = args[0] if args else kwargs.get('key', TOP)
            return self.list_get(recv, o, key, st, node)
        if name == '__setitem__':
            return [(s, VNONE) for s in self.setitem(recv, args[0], args[1], st, node)]
        if name == '__delitem__':
            return [(s, VNONE) for s in self.delitem(recv, args[0], st, node)]
        if name == '__len__':
            return [(st, self.len_val(o))]
        if name == '__reversed__':
            return [(st, av(('t', o.items[::-1])) if o.items is not None else av(('tt', o.all_elem(), o.min_len())))]
        if name == '__iter__':
            return [(st, av(('t', o.items)) if o.items is not None else av(('tt', o.all_elem(), o.min_len())))]
        if name == '__contains__':
            return [(st, self.tri([self.in_items(x, o.items, st) if o.items is not None else None for x in args[0]]))]
        if name in ('__eq__', '__ne__', '__lt__', '__gt__'):
            return [(st, BOOL)]
        if name in ('__repr__', '__str__'):
            return [(st, STR)]
        if name == '__next__':
            I.raise_builtin(st, 'AttributeError', '__next__', node)
            return []
        return [(st, TOP)]

    def dict_method(self, recv, name, args, kwargs, st, node):
        I = self.I
        o = st.get(recv[1])
        args = [x if isinstance(x, frozenset) else x[1] for x in args]

        def exact():
            return not o.kelem and not o.weak and all(UNB not in v for v in o.kv.values())
        if name in ('keys', '__iter__'):
            if exact():
                return [(st, av(('t', tuple(av(x) for x in o.kv))))]
            return [(st, av(('tt', o.all_keys(), sum(1 for v in o.kv.values() if UNB not in v) if not o.weak else 0)))]
        if name == 'values':
            if exact():
                return [(st, av(('t', tuple(o.kv.values()))))]
            return [(st, av(('tt', o.all_vals(), 0)))]
        if name == 'items':
            if exact():
                return [(st, av(('t', tuple(av(('t', (av(x), v))) for x, v in o.kv.items()))))]
            if not o.all_keys():
                return [(st, av(('t', ())))]
            return [(st, av(('tt', av(('t', (o.all_keys(), o.all_vals()))), 0)))]
        if name in ('get', 'pop', 'setdefault'):
            default = args[1] if len(args) > 1 else kwargs.get('default', VNONE if name != 'pop' else None)
            vals = EMPTY
            miss = False
            for kk in args[0]:
                if self.exact_key(kk, st):
                    if kk in o.kv:
                        vals = vals | (o.kv[kk] - {UNB})
                        miss = miss or UNB in o.kv[kk]
                    elif o.kelem and self.may_key(kk, o.kelem, st):
                        vals = vals | o.velem
                        miss = True
                    else:
                        miss = True
                else:
                    for x, v in o.kv.items():
                        if kk[0] in ('exti', 'top') or self.compare1('==', kk, x, st) is not False:
                            vals = vals | (v - {UNB})
                    vals = vals | o.velem
                    miss = True
            one = len(args[0]) == 1 and next(iter(args[0]))[0] == 'k'
            kk = next(iter(args[0])) if one else None
            if name == 'get':
                return [(st, V.join(vals, default) if miss else vals)]
            if name == 'setdefault':
                if miss:
                    I.emit('on_write', st, recv[1], o, 'key', args[0], default, node)
                    vals = V.join(vals, default)
                    if one:
                        d = dict(o.kv)
                        d[kk] = vals
                        st.put(recv[1], o.upd(kv=d))
                    else:
                        st.put(recv[1], o.upd(kelem=V.join(o.kelem, args[0]), velem=V.join(o.velem, default)))
                return [(st, vals)]
            # pop
            out = []
            if miss and (not vals or len(vals) >= 0):
                certain = not vals
                if default is not None:
                    if certain:
                        return [(st, default)]
                else:
                    definite = certain or (one and kk in o.kv and UNB in o.kv[kk])
                    if definite:
                        I.emit('on_missing_key', st, recv, str(kk[1]) if kk else '*', node)
                        I.raise_builtin(st.copy() if vals else st, 'KeyError', str(kk[1]) if kk else '*', node)
                    else:
                        I.may_raise(st, node, ('x', ('ext', 'builtins.KeyError'), ()))
                    if certain:
                        return []
                if default is not None:
                    vals = V.join(vals, default)
            I.emit('on_write', st, recv[1], o, 'delkey', args[0], None, node)
            if one:
                d = dict(o.kv)
                if o.weak:
                    if kk in d:
                        d[kk] = d[kk] | {UNB}
                else:
                    d.pop(kk, None)
                st.put(recv[1], o.upd(kv=d))
            else:
                st.put(recv[1], o.upd(kv={x: v | {UNB} for x, v in o.kv.items()}))
            return [(st, vals)]
        if name == 'update':
            I.emit('on_write', st, recv[1], o, 'update', None, args[0] if args else None, node)
            d, ke, ve = dict(o.kv), o.kelem, o.velem
            for a in (args[0] if args else ()):
                p = st.get(a[1]) if a[0] == 'r' else None
                if p is not None and p.kind == 'dict':
                    for x, v in p.kv.items():
                        if UNB in v or len(args[0]) > 1 or o.weak:
                            d[x] = V.join(v - {UNB}, d.get(x, av(UNB)))
                        else:
                            d[x] = v
                    ke, ve = V.join(ke, p.kelem), V.join(ve, p.velem)
                else:
                    ke, ve = V.join(ke, TOP), V.join(ve, TOP)
            for n_, v in kwargs.items():
                d[k(n_)] = v
            st.put(recv[1], o.upd(kv=d, kelem=ke, velem=ve))
            return [(st, VNONE)]
        if name == 'clear':
            I.emit('on_write', st, recv[1], o, 'clear', None, None, node)
            if not o.weak:
                st.put(recv[1], o.upd(kv={}, kelem=EMPTY, velem=EMPTY))
            return [(st, VNONE)]
        if name == 'copy':
            return [(st, I.new_dict(st, node, dict(o.kv), o.kelem, o.velem))]
        if name == 'popitem':
            I.emit('on_write', st, recv[1], o, 'popitem', None, None, node)
            st.put(recv[1], o.upd(kv={x: v | {UNB} for x, v in o.kv.items()}))
            return [(st, av(('t', (o.all_keys(), o.all_vals()))))]
        if name == '__getitem__':
            return self.dict_get(recv, o, args[0], st, node)
        if name == '__setitem__':
            return [(s, VNONE) for s in self.setitem(recv, args[0], args[1], st, node)]
        if name == '__len__':
            return self.b_len([av(recv)], {}, st, node)
        if name == '__contains__':
            return [(st, self.tri([None if self.contains(x, recv, st) in ('dict', 'call', 'raise', None) else self.contains(x, recv, st) for x in args[0]]))]
        if name == 'fromkeys':
            return [(st, I.new_dict(st, node, {}, TOP, args[1] if len(args) > 1 else VNONE))]
        return [(st, TOP)]

    def set_method(self, recv, name, args, kwargs, st, node):
        I = self.I
        o = st.get(recv[1])
        args = [x if isinstance(x, frozenset) else x[1] for x in args]
        if name == 'add':
            I.emit('on_write', st, recv[1], o, 'add', None, args[0], node)
            if o.items is not None and args[0] in o.items:
                return [(st, VNONE)]
            if o.items is not None and len(args[0]) == 1 and next(iter(args[0]))[0] == 'k' and not o.weak and \
                    all(len(x) == 1 and next(iter(x))[0] == 'k' for x in o.items):
                st.put(recv[1], o.upd(items=o.items + (args[0],)))
            else:
                st.put(recv[1], o.upd(items=None, elem=V.join(o.all_elem(), args[0]), lo=1, hi=None))
            return [(st, VNONE)]
        if name in ('remove', 'discard', 'clear', 'pop', 'update', 'difference_update', 'intersection_update'):
            I.emit('on_write', st, recv[1], o, name, None, args[0] if args else None, node)
            el = o.all_elem()
            if name == 'update':
                for v in args:
                    for plan, _ in self.iteration(v, st, node):
                        el = V.join(el, *(plan[1] if plan[0] == 'exact' else (plan[1],)))
            if name == 'remove':
                I.may_raise(st, node, ('x', ('ext', 'builtins.KeyError'), ()))
            st.put(recv[1], o.upd(items=None, elem=el, lo=0, hi=None))
            return [(st, el if name == 'pop' else VNONE)]
        if name in ('issubset', 'issuperset', 'isdisjoint', '__contains__'):
            return [(st, BOOL)]
        el = o.all_elem()
        for v in args:
            for plan, _ in self.iteration(v, st, node):
                el = V.join(el, *(plan[1] if plan[0] == 'exact' else (plan[1],)))
        return [(st, I.new_list(st, node, elem=el, kind='set'))]

    # ---- TimeSpan of propertime

    def timespan(self, recv, name, args, kwargs, st, node):
        I = self.I
        o = st.get(recv[1]) if recv[0] == 'r' else None
        if o is None:
            return [(st, TOP)]
        tags = self.argtags(args, kwargs, st)
        if name == '__init__':
            spec = args[0] if args else (kwargs.get('value') or STR)
            if not args and kwargs and all(n in COMPONENTS.values() and V.one_const(x)[0] for n, x in kwargs.items()):
                spec = kv('_'.join('{}{}'.format(V.one_const(kwargs[n])[1], u) for u, n in COMPONENTS.items() if n in kwargs and V.one_const(kwargs[n])[1]))
            f = dict(o.fields)
            f['%spec'] = spec
            st.put(recv[1], o.upd(fields=f))
            known, text = V.one_const(spec)
            if known and isinstance(text, str):
                c = parse_spec(spec)
                dec = text.split('.')[1][:-2] if text.count('.') == 1 and text.endswith('s') else ''
                if c is None or not any(c.values()) or len(dec) > 6:
                    I.raise_builtin(st, 'ValueError', 'Dont\'t know hot to create a TimeSpan', node)
                    return []
                return [(st, VNONE)]
            I.may_raise(st, node, ('x', ('ext', 'builtins.ValueError'), ()))
            return [(st, VNONE)]
        c = parse_spec(o.fields.get('%spec'))
        if c is not None and not ('%seconds' in o.fields or '%calendar' in o.fields):
            r = self.known_span(c, name, args, kwargs, st, node)
            if r is not None:
                return r
        if name in ('years', 'months', 'weeks', 'days', 'hours', 'minutes', 'seconds'):
            return [(st, o.fields.get(name, av(('n', 'num', '0+', NOTAGS))))]
        if name in ('__repr__', '__str__'):
            return self.to_str(av(recv), st, node)
        if name == '__eq__':
            out = set()
            for x in args[0]:
                p = st.get(x[1]) if x[0] == 'r' else None
                if x == recv and not o.weak:
                    out.add(TRUE)
                elif x == NONE:
                    out.add(FALSE)
                elif isstr(x):
                    if x == k('variable'):
                        out.add(FALSE)
                    else:
                        out |= {self_t for self_t in self.tri([self.spec_eq(o.fields.get('%spec', TOP), av(x), st)])}
                elif p is not None and '%spec' in p.fields:
                    out |= self.tri([self.spec_eq(o.fields.get('%spec', TOP), p.fields['%spec'], st)])
                elif p is not None:
                    out.add(FALSE)
                else:
                    out |= {TRUE, FALSE}
            return [(st, frozenset(out))]
        if name == 'as_seconds':
            cal = o.fields.get('%calendar')
            if cal is not None:
                start = args[0] if args else kwargs.get('starting_at', VNONE)
                if TRUE in cal and NONE in start:
                    I.raise_builtin(st.copy() if cal != av(TRUE) or start != VNONE else st, 'ValueError', 'calendar TimeSpan', node)
                    if cal == av(TRUE) and start == VNONE:
                        return []
            sec = o.fields.get('%seconds')
            return [(st, sec if sec is not None else av(('n', 'num', '+', V.tagsof(o.fields.get('%spec', EMPTY)))))]
        if name == 'type':
            return [(st, STR)]
        if name in ('is_physical', '_is_physical', 'is_calendar', '_is_calendar'):
            cal = o.fields.get('%calendar')
            if cal is None:
                return [(st, BOOL)]
            if 'physical' in name:
                return [(st, frozenset(FALSE if x == TRUE else TRUE for x in cal))]
            return [(st, cal)]
        if name in ('_is_composite', 'is_composite'):
            return [(st, BOOL)]
        if name in ('shift', 'round', 'floor', 'ceil'):
            I.may_raise(st, node, ('x', ('ext', 'builtins.ValueError'), ()))
            return [(st, av(('exti', 'datetime.datetime', tags)))]
        if name in ('__radd__', '__rsub__'):
            out = []
            for x in args[0]:
                if isnum(x):
                    if name == '__radd__' and '%seconds' in o.fields:
                        return self.binop(ast.Add(), args[0], o.fields['%seconds'], st, node)
                    out.append(('n', 'num', '-0+', tags))
                else:
                    out.append(('exti', 'datetime.datetime', tags))
            I.may_raise(st, node, ('x', ('ext', 'builtins.ValueError'), ()))
            return [(st, frozenset(out))]
        if name in ('__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__sub__'):
            I.raise_builtin(st, 'NotImplementedError', name, node)
            return []
        return [(st, TOP)]

    def known_span(self, c, name, args, kwargs, st, node):
        """A time span which is known, on known times."""
        I = self.I
        if name in COMPONENTS.values():
            return [(st, kv(c.get(name, 0)))]
        if name in ('__repr__', '__str__'):
            return [(st, kv(span_str(c)))]
        sec = span_seconds(c)

        def arg(i, n, default):
            return args[i] if len(args) > i else kwargs.get(n, default)
        if name == 'as_seconds':
            if sec is not None:
                return [(st, kv(sec))]
            start = arg(0, 'starting_at', VNONE)
            out = set()
            for a in start:
                if a == NONE:
                    I.raise_builtin(st.copy(), 'ValueError', 'calendar TimeSpan', node)
                elif a[0] == 'o' and a[1] == AT:
                    try:
                        out.add(k(span_shift(c, a[2], 1, zone(a[4])) - a[2]))
                    except (ValueError, OverflowError):
                        out.add(('n', 'num', '+', NOTAGS))
                else:
                    out.add(('n', 'num', '+', NOTAGS))
            return [(st, frozenset(out))] if out else []
        if name == '__eq__':
            out = set()
            for x in args[0]:
                p = st.get(x[1]) if x[0] == 'r' else None
                pc = parse_spec(p.fields.get('%spec')) if p is not None and not ('%seconds' in p.fields or '%calendar' in p.fields) else None
                if pc is not None:
                    ps = span_seconds(pc)
                    out.add(k(sec == ps if sec is not None and ps is not None else
                              all(c.get(u, 0) == pc.get(u, 0) for u in COMPONENTS.values())))
                elif x[0] == 'k':
                    out.add(k(x[1] == span_str(c) if isinstance(x[1], str) else sec is not None and x[1] == sec))
                else:
                    return None
            return [(st, frozenset(out))]
        if name in ('_is_composite', 'is_composite'):
            return [(st, kv(len([x for x in c.values() if x]) > 1))]
        if name in ('is_physical', '_is_physical', 'is_calendar', '_is_calendar'):
            return [(st, kv((sec is None) == ('calendar' in name)))]
        if len([x for x in c.values() if x]) > 1:
            return None
        if name in ('shift', 'round', 'floor', 'ceil', '__radd__', '__rsub__'):
            t = arg(0, 'time', EMPTY)
            if name in ('__radd__', '__rsub__') and t and all(isnum(a) for a in t):
                if sec is None:
                    I.raise_builtin(st, 'ValueError', 'calendar TimeSpan', node)
                    return []
                return self.binop(ast.Add() if name == '__radd__' else ast.Sub(), t, kv(sec), st, node)
            if not t or any(not (a[0] == 'o' and a[1] == AT and a[3] == 'dt') for a in t):
                return None
            if name in ('__radd__', '__rsub__', 'shift'):
                one, times = V.one_const(arg(1, 'times', kv(1)))
                if not one:
                    return None
                times = {'__radd__': 1, '__rsub__': -1}.get(name, times)
                try:
                    return [(st, frozenset(('o', AT, span_shift(c, a[2], times, zone(a[4])), 'dt', a[4]) for a in t))]
                except (ValueError, OverflowError):
                    return None
            one, how = V.one_const(arg(1, 'how', kv('half')))
            if name in ('floor', 'ceil'):
                how = name
            elif not one or how not in ('half', 'floor', 'ceil'):
                return None
            try:
                return [(st, frozenset(('o', AT, span_round(c, a[2], how, zone(a[4])), 'dt', a[4]) for a in t))]
            except (ValueError, OverflowError):
                return None
        return None

    def spec_eq(self, a, b, st):
        r = self.compare_vals('==', a, b, st)
        return None if len(r) > 1 else next(iter(r))

    # ---- cloning

    def clone(self, v, st, node, memo, deep=True):
        out = []
        for a in v:
            if a[0] == 'r':
                out.append(self.clone_obj(a, st, node, memo, deep))
            elif a[0] == 't' and deep:
                out.append(('t', tuple(self.clone(x, st, node, memo) for x in a[1])))
            elif a[0] == 'tt' and deep:
                out.append(('tt', self.clone(a[1], st, node, memo), a[2]))
            elif a[0] == 'exti' and deep:
                out.append(a)
            else:
                out.append(a)
        return frozenset(out)

    def clone_obj(self, a, st, node, memo, deep=True):
        if a in memo:
            return memo[a]
        o = st.get(a[1])
        if o is None or o.kind in ('class', 'module', 'env'):
            return a
        new = self.I.alloc(st, Obj(o.kind, cls=o.cls, items=() if o.items is not None else None), node, ('clone', a[1]))
        memo[a] = new

        def c(v):
            return self.clone(v, st, node, memo, deep) if deep else v
        res = Obj(o.kind, cls=o.cls, fields={n_: c(v) for n_, v in o.fields.items()},
                  items=tuple(c(v) for v in o.items) if o.items is not None else None, elem=c(o.elem), lo=o.lo, hi=o.hi,
                  kv={x: c(v) for x, v in o.kv.items()}, kelem=o.kelem, velem=c(o.velem), weak=o.weak, origin=None, opened=o.opened)
        cur = st.get(new[1])
        if cur.weak:
            st.put(new[1], join_obj(cur, res.upd(weak=True)))
        else:
            st.put(new[1], res)
        return new


# ---------------------------------------------------------------------- known times

AT = '=@'    # the group of the datetimes at a known instant (epoch seconds)
PHYSICAL = {'h': 3600, 'm': 60, 's': 1}
COMPONENTS = {'Y': 'years', 'M': 'months', 'W': 'weeks', 'D': 'days', 'h': 'hours', 'm': 'minutes', 's': 'seconds'}


def parse_spec(spec):
    """The components of a constant time span, or None."""
    one, v = V.one_const(spec or EMPTY)
    if not one or not isinstance(v, str):
        return None
    out = {}
    for part in v.split('_'):
        m = re.match(r'^([0-9]+)([YMDWhm])$|^([0-9.]+)(s)$', part)
        if not m:
            return None
        num_, u = (m.group(1), m.group(2)) if m.group(1) else (m.group(3), m.group(4))
        try:
            out[COMPONENTS[u]] = int(float(num_)) if not float(num_) % 1 else float(num_)
        except ValueError:
            return None
    return out


def span_str(c):
    return '_'.join('{}{}'.format(int(float(c[n])) if not float(c[n]) % 1 else c[n], u) for u, n in COMPONENTS.items() if c.get(n))


def span_seconds(c):
    if any(c.get(x) for x in ('years', 'months', 'weeks', 'days')):
        return None
    return c.get('hours', 0) * 3600 + c.get('minutes', 0) * 60 + c.get('seconds', 0)


def zone(tags):
    """The time zone of a known time, or None."""
    n = [x[3:] for x in tags if x.startswith('tz=')]
    if n == ['UTC']:
        return datetime.timezone.utc
    if len(n) != 1:
        return None
    if n[0] not in ZONES:
        try:
            import zoneinfo
            ZONES[n[0]] = zoneinfo.ZoneInfo(n[0])
        except Exception:
            ZONES[n[0]] = None
    return ZONES[n[0]]


ZONES = {}


def tz_tag(tz):
    """The tag of a time zone given as argument."""
    if tz == VNONE or tz == av(('ext', 'pytz.UTC')):
        return frozenset(['tz=UTC'])
    one, n = V.one_const(tz)
    if one and isinstance(n, str):
        return frozenset(['tz=' + n])
    if len(tz) == 1:
        a = next(iter(tz))
        if a[0] == 'ext' and a[1].startswith('pytz.timezone:'):
            return frozenset(['tz=' + a[1][14:]])
        if a[0] == 'exti' and a[1] == 'tzinfo':
            return frozenset(x for x in a[2] if x.startswith('tz='))
    return NOTAGS


def localized(d, z):
    """A wall clock time in a zone; one which does not exist or exists twice is not known."""
    d = d.replace(tzinfo=z)
    if d.replace(fold=1).utcoffset() != d.replace(fold=0).utcoffset():
        raise ValueError('ambiguous')
    return d.timestamp()


def span_shift(c, t, times=1, z=datetime.timezone.utc):
    """Calendar arithmetic, in a time zone."""
    sec = span_seconds(c)
    if sec is not None:
        return t + sec * times
    if z is None:
        raise ValueError('zone not known')
    d = datetime.datetime.fromtimestamp(t, z).replace(tzinfo=None)
    d += times * datetime.timedelta(weeks=c.get('weeks', 0), days=c.get('days', 0))
    m = d.month - 1 + times * c.get('months', 0)
    d = d.replace(year=d.year + times * c.get('years', 0) + m // 12, month=m % 12 + 1)
    return localized(d, z)


def span_round(c, t, how, z=datetime.timezone.utc):
    sec = span_seconds(c)
    if sec is not None:
        if c.get('hours', 0) > 1 or c.get('minutes', 0) > 60:
            if z is not datetime.timezone.utc:
                raise ValueError('not modelled')
        lo = t - t % sec
        hi = lo + sec
    else:
        if z is None:
            raise ValueError('zone not known')
        d = datetime.datetime.fromtimestamp(t, z).replace(hour=0, minute=0, second=0, microsecond=0, tzinfo=None)
        if c.get('weeks'):
            d -= datetime.timedelta(days=d.weekday())
        if c.get('months'):
            d = d.replace(day=1)
        if c.get('years'):
            d = d.replace(month=1, day=1)
        lo = localized(d, z)
        hi = span_shift(c, lo, 1, z)
    return lo if how == 'floor' else hi if how == 'ceil' else (lo if t - lo <= hi - t else hi)


# ---------------------------------------------------------------------- external functions

def x_deepcopy(M, args, kwargs, st, node):
    return [(st, M.clone(args[0], st, node, {}))]


def x_copy(M, args, kwargs, st, node):
    return [(st, M.clone(args[0], st, node, {}, deep=False))]


def x_wraps(M, args, kwargs, st, node):
    return [(st, av(('exti', 'functools.wraps()', NOTAGS)))]


def x_partial(M, args, kwargs, st, node):
    return [(st, TOP)]


def x_strptime(M, args, kwargs, st, node):
    (o1, text), (o2, fmt) = [V.one_const(a) for a in args[:2]] if len(args) == 2 else [(False, None)] * 2
    if o1 and o2 and isinstance(text, str) and isinstance(fmt, str):
        try:
            d = datetime.datetime.strptime(text, fmt)
        except ValueError as e:
            M.I.raise_builtin(st, 'ValueError', str(e), node)
            return []
        if d.tzinfo is None:
            return [(st, av(('o', NAIVE, number(d.replace(tzinfo=datetime.timezone.utc).timestamp()), 'dt', NOTAGS)))]
        return [(st, av(('o', AT, number(d.timestamp()), 'dt', NOTAGS)))]
    M.I.may_raise(st, node, ('x', ('ext', 'builtins.ValueError'), ()))
    return [(st, av(('exti', 'datetime.datetime', M.argtags(args, kwargs, st))))]


def number(t):
    return int(t) if not t % 1 else t


def localize(tz):
    def f(M, args, kwargs, st, node):
        tag = tz_tag(av(('ext', tz)))
        z = zone(tag)
        out = []
        for a in args[0]:
            if a[0] == 'o' and a[1] == NAIVE and z is not None:
                d = datetime.datetime.fromtimestamp(a[2], datetime.timezone.utc).replace(tzinfo=None)
                try:
                    out.append(('o', AT, number(localized(d, z)), 'dt', tag))
                    continue
                except ValueError:
                    pass
            elif a[0] == 'o' and a[1] == AT:
                M.I.raise_builtin(st.copy(), 'ValueError', 'Not naive datetime (tzinfo is already set)', node)
                continue
            M.I.may_raise(st, node, ('x', ('ext', 'builtins.ValueError'), ()))
            out.append(('exti', 'datetime.datetime', tag))
        return [(st, frozenset(out))] if out else []
    return f


NAIVE = 'naive'


def x_s_from_dt(M, args, kwargs, st, node):
    v = args[0] if args else kwargs.get('dt', TOP)
    out = []
    for a in v:
        if a[0] == 'o' and a[1] == AT:
            out.append(k(float(a[2])))
        elif a[0] == 'o' and a[1] == NAIVE and len(args) < 2 and not kwargs.get('tz'):
            M.I.raise_builtin(st.copy(), 'ValueError', 'Cannot convert to epoch seconds naive datetimes', node)
        elif a[0] == 'o':
            out.append(('o', a[1], a[2], 'float', a[4]))
        elif a == NONE or (a[0] == 'k'):
            M.I.raise_builtin(st.copy(), 'TypeError', 's_from_dt needs a datetime', node)
        else:
            M.I.may_raise(st, node)
            out.append(('n', 'float', '-0+', V.tagsof(av(a), st)))
    return [(st, frozenset(out))] if out else []


def x_dt_from_s(M, args, kwargs, st, node):
    v = args[0] if args else kwargs.get('s', TOP)
    out = []
    for a in v:
        if a[0] == 'o':
            out.append(('o', a[1], a[2], 'dt', a[4]))
        elif a[0] == 'k' and isinstance(a[1], (int, float)) and not isinstance(a[1], bool):
            tz = args[1] if len(args) > 1 else kwargs.get('tz', VNONE)
            out.append(('o', AT, a[1], 'dt', tz_tag(tz)))
        elif a == NONE or isstr(a):
            M.I.raise_builtin(st.copy(), 'TypeError', 'dt_from_s needs a number', node)
        else:
            M.I.may_raise(st, node)
            out.append(('exti', 'datetime.datetime', V.tagsof(av(a), st)))
    return [(st, frozenset(out))] if out else []


def x_as_tz(M, args, kwargs, st, node):
    v = args[0] if args else TOP
    tz = args[1] if len(args) > 1 else kwargs.get('tz', TOP)
    v = frozenset(a[:4] + (frozenset(x for x in a[4] if not x.startswith('tz=')) | tz_tag(tz),) if a[0] == 'o' and a[1] == AT else a for a in v)
    return [(st, frozenset(a if a[0] == 'o' else ('exti', 'datetime.datetime', V.tagsof(av(a), st)) for a in v))]


def x_timezonize(M, args, kwargs, st, node):
    v = args[0] if args else TOP
    out = []
    for a in v:
        if a == NONE or a == ('ext', 'pytz.UTC') or a[0] == 'ext' and a[1].startswith('pytz.timezone:'):
            out.append(a)
        elif a[0] == 'exti' and a[1] == 'tzinfo':
            out.append(a)
        elif a[0] == 'ext' or a[0] == 'exti':
            M.I.may_raise(st, node)
            out.append(a)
        elif a[0] == 'k' and isinstance(a[1], str):
            if zone({'tz=' + a[1]}) is None:
                M.I.may_raise(st, node)
            out.append(('ext', 'pytz.UTC') if a[1] == 'UTC' else ('ext', 'pytz.timezone:' + a[1]))
        else:
            M.I.may_raise(st, node)
            out.append(('exti', 'tz', V.tagsof(av(a), st)))
    return [(st, frozenset(out))] if out else []


def x_str_from_dt(M, args, kwargs, st, node):
    return [(st, av(('s', '*', M.argtags(args, kwargs, st))))]


def x_json_dumps(M, args, kwargs, st, node):
    M.I.may_raise(st, node, ('x', ('ext', 'builtins.TypeError'), ()))
    return [(st, av(('s', '*', M.argtags(args, kwargs, st))))]


def x_is_numerical(M, args, kwargs, st, node):
    out = set()
    for a in args[0]:
        if isnum(a):
            out.add(TRUE if not (a[0] == 'k' and isinstance(a[1], bool)) else FALSE)
        elif a[0] in ('exti', 'top'):
            out |= {TRUE, FALSE}
        else:
            out.add(FALSE)
    return [(st, frozenset(out))]


def x_itemgetter(M, args, kwargs, st, node):
    one, c = V.one_const(args[0]) if len(args) == 1 else (False, None)
    if one and isinstance(c, (int, str)):
        M.I.getters['operator.itemgetter:{!r}'.format(c)] = c
        return [(st, av(('exti', 'operator.itemgetter:{!r}'.format(c), NOTAGS)))]
    return [(st, av(('exti', 'operator.itemgetter()', NOTAGS)))]


def x_uuid(M, args, kwargs, st, node):
    return [(st, av(('exti', 'uuid.uuid4()', NOTAGS)))]


def x_bool(M, args, kwargs, st, node):
    return [(st, BOOL)]


def x_sqrt(M, args, kwargs, st, node):
    M.I.may_raise(st, node, ('x', ('ext', 'builtins.ValueError'), ()))
    return [(st, av(('n', 'float', '0+', X.strip(M.argtags(args, kwargs, st)) | M.fn_tag('sqrt', args))))]


def x_now_s(M, args, kwargs, st, node):
    return [(st, av(('n', 'float', '+', frozenset(['now']))))]


def x_chain(M, args, kwargs, st, node):
    el = EMPTY
    for v in args:
        for plan, _ in M.iteration(v if isinstance(v, frozenset) else v[1], st, node):
            el = V.join(el, *(plan[1] if plan[0] == 'exact' else (plan[1],)))
    return [(st, av(('tt', el, 0)))]


def x_re_sub(M, args, kwargs, st, node):
    cs = [V.one_const(x) for x in args]
    if all(c[0] and isinstance(c[1], str) for c in cs) and len(cs) == 3 and not kwargs:
        try:
            return [(st, kv(re.sub(cs[0][1], cs[1][1], cs[2][1])))]
        except re.error:
            pass
    return [(st, av(('s', '*', M.argtags(args, kwargs, st))))]


def x_dt_from_str(M, args, kwargs, st, node):
    """The basic ISO 8601 of Propertime."""
    ok, c = V.one_const(args[0]) if args else (False, None)
    if ok and isinstance(c, str):
        m = re.match(r'^(\d+)-(\d+)-(\d+)[T ](\d+):(\d+):(\d+)(\.\d+)?(Z|[+-]\d+:\d+)?$', c)
        if m:
            try:
                t = datetime.datetime(*[int(x) for x in m.groups()[:6]], tzinfo=datetime.timezone.utc).timestamp()
            except ValueError:
                M.I.raise_builtin(st, 'ValueError', 'not a date', node)
                return []
            if m.group(7):
                t += int(m.group(7)[1:]) / 1e6
            o = m.group(8)
            if o is None:
                return [(st, av(('o', NAIVE, number(t), 'dt', NOTAGS)))]
            if o != 'Z':
                h, mi = o[1:].split(':')
                t -= (int(h) * 3600 + int(mi) * 60) * (1 if o[0] == '+' else -1)
            t = int(t) if not t % 1 else t
            return [(st, av(('o', AT, t, 'dt', frozenset({'tz=UTC'} if o == 'Z' else ()))))]
        if not re.match(r'^\d+-\d+-\d+[T ]', c):
            M.I.raise_builtin(st, 'ValueError', 'not a date', node)
            return []
    M.I.may_raise(st, node, ('x', ('ext', 'builtins.ValueError'), ()))
    return [(st, av(('exti', 'datetime.datetime', M.argtags(args, kwargs, st))))]


EXT = {
    'datetime.datetime.strptime': x_strptime, 're.sub': x_re_sub, 'propertime.utils.dt_from_str': x_dt_from_str,
    'copy.deepcopy': x_deepcopy, 'copy.copy': x_copy,
    'functools.wraps': x_wraps, 'functools.partial': x_partial,
    'propertime.utils.s_from_dt': x_s_from_dt, 'propertime.utils.dt_from_s': x_dt_from_s,
    'propertime.utils.as_tz': x_as_tz, 'propertime.utils.timezonize': x_timezonize,
    'propertime.utils.str_from_dt': x_str_from_dt, 'propertime.utils.now_s': x_now_s,
    'json.dumps': x_json_dumps, 'operator.itemgetter': x_itemgetter,
    'os.path.exists': x_bool, 'os.path.isfile': x_bool, 'os.path.isdir': x_bool, 'math.sqrt': x_sqrt,
    'itertools.chain': x_chain,
}
