"""Interprocedural abstract interpreter for the Python subset used in the repository.

Nothing of the repository is ever executed: its syntax trees are interpreted over the abstract
values of values.py, with an allocation-site heap. Every branch that the abstract values do not
decide is taken both ways; calls are inlined; loops over unknown iterables go to a fixpoint.
"""
import ast
import time
import builtins
import os
import sys
from .values import *
from . import values as V
from .state import Obj, Frame, State, join_states, join_obj

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """The analysis cannot answer (vanished anchor, budget)."""


class Budget(AnalysisError):
    pass


class Code(object):
    def __init__(self, cid, node, name, qual, module, cls, parent):
        self.cid = cid
        self.node = node
        self.name = name
        self.qual = qual
        self.module = module
        self.cls = cls            # lexical class cid
        self.parent = parent      # enclosing Code (function)
        self.locals = set()
        self.globals = set()
        self.is_gen = False
        self._scan()

    def _scan(self):
        node = self.node
        if node is None:
            return
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                self.locals.add(x.arg)
            if a.vararg:
                self.locals.add(a.vararg.arg)
            if a.kwarg:
                self.locals.add(a.kwarg.arg)
            body = node.body if isinstance(node.body, list) else [node.body]
        else:
            body = node.body
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # names of the comprehension are its own, but walrus targets and the iterables count
                for sub in ast.walk(n):
                    if isinstance(sub, ast.NamedExpr):
                        self.locals.add(sub.target.id)
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split('.')[0])
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.globals.update(n.names)
            elif isinstance(n, ast.MatchAs) and n.name:
                self.locals.add(n.name)
            todo.extend(ast.iter_child_nodes(n))
        self.locals -= self.globals

    def __repr__(self):
        return self.qual


class ClassInfo(object):
    def __init__(self, cid, name, module, node):
        self.cid = cid
        self.name = name
        self.module = module
        self.node = node
        self.bases = []           # class atoms
        self.mro = []             # class atoms


class Flow(object):
    __slots__ = ('normal', 'ret', 'brk', 'cont')

    def __init__(self):
        self.normal = []
        self.ret = []
        self.brk = []
        self.cont = []


BUILTIN_EXC = {n: getattr(builtins, n) for n in dir(builtins)
               if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
UNKNOWN_EXC = ('x', ('ext', '?'), ())


def ext_exc_subclass(a, b):
    """a, b dotted names. True/False/None"""
    an, bn = a.split('.')[-1], b.split('.')[-1]
    if a == b:
        return True
    if b in ('builtins.Exception', 'builtins.BaseException'):
        return True
    ca, cb = BUILTIN_EXC.get(an), BUILTIN_EXC.get(bn)
    if a.startswith('builtins.') and b.startswith('builtins.') and ca and cb:
        return issubclass(ca, cb)
    if a == '?':
        return None
    if a.startswith('builtins.') or b.startswith('builtins.'):
        if ca and cb:
            return issubclass(ca, cb)
        if a.startswith('builtins.'):
            return False
        return None
    return None


class Interp(object):

    def __init__(self, root, package='timeseria', overlay=None):
        self.root = root
        self.package = package
        self.sources = {}         # module name -> path
        self.trees = {}
        self.codes = {}
        self.classes = {}
        self.code_by_node = {}
        self.sinks = [[]]
        self.try_depth = 0
        self.implicit_all = False
        self.no_may = False
        self.ctx = 0
        self.ctx_tab = {}
        self.oid_tab = {}
        self.monitors = []
        self.overrides = {}       # qualname -> fn(interp, st, args, kwargs, node, fnatom)
        self.ext_overrides = {}   # dotted -> fn
        self.symstr = False       # the text of a number which is known by its expression is a token
        self.tokens = {}
        self.getters = {}
        self.maxk = 24
        self.loopk = 6
        self.exact_loop = 8
        self.exact_while = 3
        self.max_depth = 60
        self.max_rec = 3
        self.steps = 0
        self.max_steps = 20_000_000
        self.deadline = None
        self.cur_node = None
        self.stats = dict(functions=set(), calls=0, branches=0, loops=0, joins=0, writes=0, ext=set(), nodes=set())
        self.overlay = overlay or {}
        self.loading = []
        self.base = None
        from . import models
        self.models = models.Models(self)
        self._discover()

    # ------------------------------------------------------------------ sources

    def _discover(self):
        top = os.path.join(self.root, self.package)
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__', 'static'))
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.sources[rel] = p
        for mod in self.overlay:
            self.sources.setdefault(mod, '<{}>'.format(mod))
        if self.package not in self.sources:
            raise AnalysisError('package {} not found in {}'.format(self.package, self.root))

    def tree(self, mod):
        if mod not in self.trees:
            path = self.sources[mod]
            src = self.overlay.get(mod)
            if src is None:
                with open(path, encoding='utf-8') as f:
                    src = f.read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.trees[mod] = ast.parse(src, path)
        return self.trees[mod]

    def init_modules(self):
        """Interpret the module bodies: gives the state in which the scenarios start."""
        st = State()
        self.no_may = True
        for mod in sorted(self.sources):
            st = self.load_module(mod, st)
        self.no_may = False
        base = dict(st.heap)
        s = State(base)
        self.base = base
        return s

    def start(self):
        if self.base is None:
            self.init_modules()
        st = State(self.base)
        st.frames = [Frame(None, {})]
        self.sinks = [[]]
        self.ctx = 0
        return st

    def load_module(self, mod, st):
        oid = ('M', mod)
        if st.get(oid) is not None:
            return st
        if '.' in mod:
            st = self.load_module(mod.rsplit('.', 1)[0], st)
            if st.get(oid) is not None:
                return st
        st.put(oid, Obj('module', fields={'__name__': kv(mod), '__file__': STR, '__doc__': STR}))
        tree = self.tree(mod)
        code = Code(('mod', mod), tree, '<module>', mod, mod, None, None)
        code.locals = set()
        self.codes[code.cid] = code
        saved = st.frames
        st.frames = [Frame(code, {})]
        self.sinks.append([])
        saved_ctx, self.ctx = self.ctx, self.sub_ctx(0, ('module', mod))
        flow = self.exec_block(tree.body, [st])
        self.ctx = saved_ctx
        sink = self.sinks.pop()
        if not flow.normal:
            raise AnalysisError('module {} cannot be interpreted: {}'.format(mod, [V.show(av(e)) for _, e in sink][:3]))
        out = flow.normal[0]
        for other in flow.normal[1:]:
            out = join_states(out, other)
        out.frames = saved
        return out

    # ------------------------------------------------------------------ contexts and allocation

    def sub_ctx(self, ctx, elem):
        key = (ctx, elem)
        r = self.ctx_tab.get(key)
        if r is None:
            r = len(self.ctx_tab) + 1
            self.ctx_tab[key] = r
        return r

    def alloc(self, st, obj, node, extra=None):
        key = (id(node) if isinstance(node, ast.AST) else node, self.ctx, obj.kind, extra)
        oid = self.oid_tab.get(key)
        if oid is None:
            oid = ('H', len(self.oid_tab) + 1)
            self.oid_tab[key] = oid
        if st.get(oid) is None:
            st.put(oid, obj)
            return ('r', oid)
        # further allocations of the same site in the same context are summarised
        oid2 = oid + ('*',)
        old = st.get(oid2)
        weak = obj.upd(weak=True)
        st.put(oid2, weak if old is None else join_obj(old, weak))
        return ('r', oid2)

    def new_list(self, st, node, items=None, elem=EMPTY, lo=0, hi=None, kind='list', extra=None):
        if items is not None:
            items = tuple(items)
            if len(items) > 40:
                elem, lo, hi, items = V.join(*items), len(items), len(items), None
        return av(self.alloc(st, Obj(kind, items=items, elem=elem, lo=lo, hi=hi), node, extra))

    def new_dict(self, st, node, kvs=None, kelem=EMPTY, velem=EMPTY, extra=None):
        return av(self.alloc(st, Obj('dict', kv=kvs or {}, kelem=kelem, velem=velem), node, extra))

    # ------------------------------------------------------------------ events

    def where(self, st=None, node=None):
        node = node or self.cur_node
        stack = []
        if st is not None:
            stack = [f.code.qual for f in st.frames if f.code is not None]
        mod = None
        if st is not None:
            for f in reversed(st.frames):
                if f.code is not None:
                    mod = f.code.module
                    break
        path = self.sources.get(mod, '?')
        try:
            path = os.path.relpath(path, self.root)
        except ValueError:
            pass
        return '{}:{}'.format(path, getattr(node, 'lineno', '?')), ' > '.join(stack)

    def emit(self, name, st, *args):
        for m in self.monitors:
            f = getattr(m, name, None)
            if f is not None:
                f(self, st, *args)

    def raise_(self, st, exc, node=None, explicit=False):
        self.emit('on_raise', st, exc, node or self.cur_node, explicit)
        self.sinks[-1].append((st, exc))

    def raise_builtin(self, st, name, msg='', node=None):
        self.raise_(st, ('x', ('ext', 'builtins.' + name), (kv(msg),)), node)

    def may_raise(self, st, node, exc=UNKNOWN_EXC):
        """Something that may fail for reasons the abstraction does not see: only relevant where it can be caught."""
        if self.no_may:
            return
        if self.try_depth > 0 or self.implicit_all:
            s = st.copy()
            self.sinks[-1].append((s, exc))

    # ------------------------------------------------------------------ state sets

    def norm_states(self, states, k=None):
        k = k or self.maxk
        if len(states) <= 1:
            return states
        out = []
        seen = {}
        for s in states:
            h = s.fp()
            dup = False
            for o in seen.get(h, ()):
                if o.same(s):
                    dup = True
                    break
            if not dup:
                seen.setdefault(h, []).append(s)
                out.append(s)
        if len(out) > k:
            groups = {}
            for s in out:
                groups.setdefault(s.tskey(), []).append(s)
            out = []
            for g in groups.values():
                out.extend(self.merge_group(g, max(1, k // max(1, len(groups)) // 2)))
        return out

    def merge_group(self, g, k):
        if len(g) <= k:
            return g
        self.stats['joins'] += 1
        # keep apart states which differ on constants of the top frame as long as possible
        buckets = {}
        for s in g:
            f = s.frames[-1]
            key = tuple(sorted((n, v) for n, v in ((n, self.shape(v)) for n, v in f.vars.items()) if v is not None))
            buckets.setdefault(key, []).append(s)
        if len(buckets) > k:
            buckets = {0: g}
        out = []
        for b in buckets.values():
            j = b[0]
            for s in b[1:]:
                j = join_states(j, s)
            out.append(j)
        return out

    @staticmethod
    def shape(v):
        if UNB in v:
            return 'unb'
        if len(v) == 1:
            a = next(iter(v))
            if a[0] == 'k' and (a[1] is None or isinstance(a[1], (bool, str))):
                return repr(a[1])
            return a[0]
        return None

    def norm_results(self, results, k=None):
        """[(state, value)]"""
        k = k or self.maxk
        if len(results) <= 1:
            return results
        out = []
        seen = {}
        for s, v in results:
            h = (s.fp(), v)
            dup = False
            for o in seen.get(h, ()):
                if o.same(s):
                    dup = True
                    break
            if not dup:
                seen.setdefault(h, []).append(s)
                out.append((s, v))
        if len(out) > k:
            groups = {}
            for s, v in out:
                groups.setdefault((s.tskey(), self.shape(v)), []).append((s, v))
            if len(groups) > k:
                groups = {}
                for s, v in out:
                    groups.setdefault(s.tskey(), []).append((s, v))
            out = []
            self.stats['joins'] += 1
            for g in groups.values():
                s0, v0 = g[0]
                for s, v in g[1:]:
                    s0 = join_states(s0, s)
                    v0 = V.join(v0, v)
                out.append((s0, v0))
        return out

    # ------------------------------------------------------------------ statements

    def exec_block(self, body, states):
        flow = Flow()
        cur = states
        for stmt in body:
            if not cur:
                break
            nxt = []
            for st in cur:
                self.tick(stmt)
                f = self.exec_stmt(stmt, st)
                nxt.extend(f.normal)
                flow.ret.extend(f.ret)
                flow.brk.extend(f.brk)
                flow.cont.extend(f.cont)
            cur = self.norm_states(nxt)
        flow.normal = cur
        return flow

    def tick(self, node):
        self.steps += 1
        self.stats['nodes'].add(id(node))
        self.cur_node = node
        if self.steps > self.max_steps or (self.deadline and not self.steps & 255 and time.time() > self.deadline):
            raise Budget('analysis budget exceeded')

    def normal(self, states):
        f = Flow()
        f.normal = states
        return f

    def exec_stmt(self, n, st):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            # unknown statement: forget what it assigns
            for sub in ast.walk(n):
                if isinstance(sub, ast.Name) and isinstance(sub.ctx, ast.Store):
                    self.setvar(st, sub.id, TOP)
            return self.normal([st])
        return m(n, st)

    def x_Pass(self, n, st):
        return self.normal([st])

    def x_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return self.normal([st])
        return self.normal([s for s, _ in self.eval(n.value, st)])

    def x_Global(self, n, st):
        return self.normal([st])
    x_Nonlocal = x_Global

    def x_Assign(self, n, st):
        out = []
        for s, v in self.eval(n.value, st):
            cur = [s]
            for t in n.targets:
                cur = [s2 for s1 in cur for s2 in self.assign(t, v, s1)]
            out.extend(cur)
        return self.normal(out)

    def x_AnnAssign(self, n, st):
        if n.value is None:
            return self.normal([st])
        return self.normal([s2 for s, v in self.eval(n.value, st) for s2 in self.assign(n.target, v, s)])

    def x_AugAssign(self, n, st):
        out = []
        t = n.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            for s, lv in self.eval(load, st):
                for s2, rv in self.eval(n.value, s):
                    for s3, v in self.augop(n, lv, rv, s2):
                        out.extend(self.assign(t, v, s3))
        elif isinstance(t, ast.Attribute):
            for s, base in self.eval(t.value, st):
                for s1, lv in self.getattr(base, t.attr, s, t):
                    for s2, rv in self.eval(n.value, s1):
                        for s3, v in self.augop(n, lv, rv, s2):
                            out.extend(self.setattr(base, t.attr, v, s3, t))
        elif isinstance(t, ast.Subscript):
            for s, base in self.eval(t.value, st):
                for s0, key in self.eval_slice(t.slice, s):
                    for s1, lv in self.getitem(base, key, s0, t):
                        for s2, rv in self.eval(n.value, s1):
                            for s3, v in self.augop(n, lv, rv, s2):
                                out.extend(self.setitem(base, key, v, s3, t))
        return self.normal(out)

    def augop(self, n, lv, rv, st):
        if isinstance(n.op, (ast.Add, ast.Mult)):
            # list += iterable works in place
            lists = [a for a in lv if a[0] == 'r' and st.get(a[1]) is not None and
                     (st.get(a[1]).kind == 'list' or self.is_list_inst(a, st))]
            if lists and len(lists) == len(lv):
                res = []
                for a in lists:
                    s = st.copy() if len(lists) > 1 else st
                    name = '__iadd__' if isinstance(n.op, ast.Add) else '__imul__'
                    o = s.get(a[1])
                    m = self.class_attr(o.cls, name, s) if o.kind == 'inst' else None
                    if m is not None and m[0][0] == 'fn':
                        res.extend(self.call_fn(m[0], [av(a), rv], {}, s, n))
                    else:
                        res.extend(self.models.list_method(a, name, [rv], {}, s, n))
                return res
        return self.binop(n.op, lv, rv, st, n)

    def is_list_inst(self, a, st):
        o = st.get(a[1])
        return o is not None and o.kind == 'inst' and self.isinst_cls(o.cls, ('ext', 'builtins.list')) is True

    def x_Return(self, n, st):
        f = Flow()
        if n.value is None:
            f.ret = [(st, VNONE)]
        else:
            f.ret = list(self.eval(n.value, st))
        return f

    def x_Break(self, n, st):
        f = Flow()
        f.brk = [st]
        return f

    def x_Continue(self, n, st):
        f = Flow()
        f.cont = [st]
        return f

    def x_Raise(self, n, st):
        if n.exc is None:
            exc = st.frames[-1].vars.get('%exc')
            if exc is None:
                for fr in reversed(st.frames):
                    if '%exc' in fr.vars:
                        exc = fr.vars['%exc']
                        break
            atoms = [a for a in (exc or ()) if a[0] == 'x' or a[0] == 'r'] or [UNKNOWN_EXC]
            for i, a in enumerate(atoms):
                self.raise_(st.copy() if i + 1 < len(atoms) else st, a, n, True)
            return self.normal([])
        for s, v in self.eval(n.exc, st):
            for i, a in enumerate(v):
                s1 = s.copy()
                if a[0] in ('cls', 'ext'):
                    for s2, v2 in self.call(av(a), [], {}, s1, n):
                        for b in v2:
                            self.raise_(s2, b, n, True)
                else:
                    self.raise_(s1, a if a[0] in ('x', 'r') else UNKNOWN_EXC, n, True)
        return self.normal([])

    def x_If(self, n, st):
        self.stats['branches'] += 1
        ts, fs = self.cond(n.test, st)
        flow = Flow()
        if ts:
            f = self.exec_block(n.body, self.norm_states(ts))
            self.addflow(flow, f)
            flow.normal.extend(f.normal)
        if fs:
            if n.orelse:
                f = self.exec_block(n.orelse, self.norm_states(fs))
                self.addflow(flow, f)
                flow.normal.extend(f.normal)
            else:
                flow.normal.extend(fs)
        return flow

    @staticmethod
    def addflow(flow, f):
        flow.ret.extend(f.ret)
        flow.brk.extend(f.brk)
        flow.cont.extend(f.cont)

    def x_Assert(self, n, st):
        ts, fs = self.cond(n.test, st)
        for s in fs:
            self.raise_builtin(s, 'AssertionError', '', n)
        return self.normal(ts)

    def x_FunctionDef(self, n, st):
        fn = self.make_function(n, st)
        cur = [(st, av(fn))]
        for d in reversed(n.decorator_list):
            nxt = []
            for s, v in cur:
                for s1, dv in self.eval(d, s):
                    nxt.extend(self.apply_decorator(dv, v, s1, d))
            cur = nxt
        out = []
        for s, v in cur:
            self.setvar(s, self.mangle(n.name, s), v)
            out.append(s)
        return self.normal(out)
    x_AsyncFunctionDef = x_FunctionDef

    def apply_decorator(self, dv, v, st, node):
        if len(dv) == 1:
            d = next(iter(dv))
            if d == ('ext', 'builtins.property'):
                return [(st, av(('prop', v, None, None)))]
            if d == ('ext', 'builtins.staticmethod'):
                return [(st, av(('static', v)))]
            if d == ('ext', 'builtins.classmethod'):
                return [(st, av(('clsm', v)))]
            if d[0] == 'bi' and d[1][0] == 'prop':
                p = d[1]
                if d[2] == 'setter':
                    return [(st, av(('prop', p[1], v, p[3])))]
                if d[2] == 'deleter':
                    return [(st, av(('prop', p[1], p[2], v)))]
                if d[2] == 'getter':
                    return [(st, av(('prop', v, p[2], p[3])))]
            if d[0] == 'exti':
                return [(st, v)]       # functools.wraps(..) and other external decorators
        return self.call(dv, [v], {}, st, node)

    def make_function(self, n, st):
        key = id(n)
        code = self.code_by_node.get(key)
        fr = st.frames[-1]
        if code is None:
            pc = fr.code
            cls = fr.vars.get('%class') if False else None
            mod = pc.module if pc else '?'
            cid = getattr(fr, 'code', None) and pc.cls if pc and pc.name == '<class>' else (pc.cls if pc else None)
            if pc is None or pc.name == '<module>':
                parent = None
                qual = mod + '.' + getattr(n, 'name', '<lambda>')
            elif pc.name == '<class>':
                parent = pc.parent
                qual = pc.qual + '.' + getattr(n, 'name', '<lambda>')
            else:
                parent = pc
                qual = pc.qual + '.' + getattr(n, 'name', '<lambda>')
            code = Code(len(self.codes) + 1, n, getattr(n, 'name', '<lambda>'), qual, mod, cid, parent)
            self.codes[code.cid] = code
            self.code_by_node[key] = code
        # environment: defaults and snapshot of the enclosing function
        fields = {}
        a = n.args
        pos = a.posonlyargs + a.args
        for arg, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            res = self.eval(d, st)
            v = res[0][1] if res else TOP
            fields['default:' + arg.arg] = v
            for at in v:
                if at[0] == 'r':
                    o = st.get(at[1])
                    if o is not None and o.origin is None:
                        st.put(at[1], o.upd(origin='default:{}.{}'.format(code.qual, arg.arg)))
        if code.parent is not None:
            for name, v in fr.vars.items():
                fields['free:' + name] = v
            if fr.env is not None:
                env = st.get(fr.env)
                if env is not None:
                    for name, v in env.fields.items():
                        if name.startswith('free:') and name not in fields:
                            fields[name] = v
        env = None
        if fields:
            env = self.alloc(st, Obj('env', fields=fields), n)[1]
        return ('fn', code.cid, env)

    def x_ClassDef(self, n, st):
        fr = st.frames[-1]
        mod = fr.code.module
        cid = (mod if fr.code.name == '<module>' else fr.code.qual) + '.' + n.name
        info = ClassInfo(cid, n.name, mod, n)
        bases = []
        for b in n.bases:
            res = self.eval(b, st)
            if res:
                st = res[0][0]
                bases.extend(a for a in res[0][1] if a[0] in ('cls', 'ext', 'exti'))
        bases = [('ext', b[1]) if b[0] == 'exti' else b for b in bases]
        info.bases = bases or [('ext', 'builtins.object')]
        self.classes[cid] = info
        info.mro = self.linearize(('cls', cid))
        code = Code(('class', cid), n, '<class>', cid, mod, cid, fr.code if fr.code.name not in ('<module>', '<class>') else None)
        code.locals = set()
        self.codes[code.cid] = code
        st.put(('C', cid), Obj('class', cls=('cls', cid), fields={}))
        st.frames.append(Frame(code, {}))
        flow = self.exec_block(n.body, [st])
        if not flow.normal:
            return self.normal([])
        out = flow.normal[0]
        for o in flow.normal[1:]:
            out = join_states(out, o)
        cf = out.frames.pop()
        fields = dict(cf.vars)
        out.put(('C', cid), Obj('class', cls=('cls', cid), fields=fields))
        cur = [(out, av(('cls', cid)))]
        for d in reversed(n.decorator_list):
            cur = [r for s, v in cur for s1, dv in self.eval(d, s) for r in self.apply_decorator(dv, v, s1, d)]
        res = []
        for s, v in cur:
            self.setvar(s, n.name, v if any(a[0] == 'cls' for a in v) else av(('cls', cid)))
            res.append(s)
        return self.normal(res)

    def linearize(self, c):
        if c[0] == 'ext':
            out = [c]
            if c[1].startswith('builtins.'):
                t = getattr(builtins, c[1][9:], None)
                if isinstance(t, type):
                    out = [('ext', 'builtins.' + x.__name__) for x in t.__mro__]
            elif c[1] != 'builtins.object':
                out = [c, ('ext', 'builtins.object')]
            return out
        info = self.classes[c[1]]
        seqs = [self.linearize(b) for b in info.bases] + [list(info.bases)]
        out = [c]
        seqs = [list(s) for s in seqs]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            cand = None
            for s in seqs:
                cand = s[0]
                if any(cand in t[1:] for t in seqs):
                    cand = None
                else:
                    break
            if cand is None:
                cand = seqs[0][0]
            out.append(cand)
            for s in seqs:
                if s and s[0] == cand:
                    del s[0]
                elif cand in s:
                    s.remove(cand)

    def mro(self, clsatom):
        if clsatom[0] == 'cls':
            return self.classes[clsatom[1]].mro
        return self.linearize(clsatom)

    def x_Import(self, n, st):
        for al in n.names:
            name = al.name
            if name.split('.')[0] == self.package:
                st = self.load_module(name, st) if name in self.sources else st
                target = ('mod', name if al.asname else name.split('.')[0])
            else:
                self.may_raise(st, n, ('x', ('ext', 'builtins.ImportError'), ()))
                target = ('ext', name if al.asname else name.split('.')[0])
            self.setvar(st, al.asname or name.split('.')[0], av(target))
        return self.normal([st])

    def x_ImportFrom(self, n, st):
        mod = n.module or ''
        if n.level:
            cur = None
            for fr in reversed(st.frames):
                if fr.code is not None:
                    cur = fr.code.module
                    break
            parts = cur.split('.')
            if not self.sources[cur].endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            mod = '.'.join(parts + ([n.module] if n.module else []))
        if mod.split('.')[0] == self.package:
            if mod not in self.sources:
                self.raise_builtin(st, 'ImportError', mod, n)
                return self.normal([])
            st = self.load_module(mod, st)
            for al in n.names:
                m = st.get(('M', mod))
                if al.name == '*':
                    names = None
                    for key, v in m.fields.items():
                        if not key.startswith('_'):
                            self.setvar(st, key, v)
                elif mod + '.' + al.name in self.sources and al.name not in m.fields:
                    st = self.load_module(mod + '.' + al.name, st)
                    self.setvar(st, al.asname or al.name, av(('mod', mod + '.' + al.name)))
                elif al.name in m.fields:
                    self.setvar(st, al.asname or al.name, m.fields[al.name])
                else:
                    self.raise_builtin(st, 'ImportError', al.name, n)
                    return self.normal([])
        else:
            self.may_raise(st, n, ('x', ('ext', 'builtins.ImportError'), ()))
            for al in n.names:
                self.setvar(st, al.asname or al.name, av(('ext', mod + '.' + al.name)))
        return self.normal([st])

    def x_Delete(self, n, st):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s.frames[-1].vars[t.id] = av(UNB)
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s1, base in self.eval(t.value, s):
                        nxt.extend(self.delattr(base, t.attr, s1, t))
                elif isinstance(t, ast.Subscript):
                    for s1, base in self.eval(t.value, s):
                        for s2, key in self.eval_slice(t.slice, s1):
                            nxt.extend(self.delitem(base, key, s2, t))
                elif isinstance(t, (ast.Tuple, ast.List)):
                    f = self.x_Delete(ast.copy_location(ast.Delete(t.elts), n), s)
                    nxt.extend(f.normal)
            cur = nxt
        return self.normal(cur)

    def x_With(self, n, st):
        cur = [st]
        for item in n.items:
            nxt = []
            for s in cur:
                for s1, v in self.eval(item.context_expr, s):
                    if any(a[0] == 'r' for a in v):
                        res = []
                        for s2, m in self.getattr(v, '__enter__', s1, n):
                            res.extend(self.call(m, [], {}, s2, n))
                    else:
                        res = [(s1, v)]
                    for s2, ev in res:
                        if item.optional_vars is not None:
                            nxt.extend(self.assign(item.optional_vars, ev, s2))
                        else:
                            nxt.append(s2)
            cur = nxt
        return self.exec_block(n.body, cur)
    x_AsyncWith = x_With

    # ---- try

    def x_Try(self, n, st):
        flow = Flow()
        has_handlers = bool(n.handlers)
        if n.finalbody:
            self.sinks.append([])
        self.sinks.append([])
        self.try_depth += 1
        f = self.exec_block(n.body, [st])
        self.try_depth -= 1
        caught = self.sinks.pop()
        # what escapes from here on goes to the (possible) finally sink
        inner = Flow()
        self.addflow(inner, f)
        if n.orelse and f.normal:
            g = self.exec_block(n.orelse, f.normal)
            self.addflow(inner, g)
            inner.normal.extend(g.normal)
        else:
            inner.normal.extend(f.normal)
        if caught:
            caught = self.norm_exc(caught)
            for s, exc in caught:
                rest = [(s, exc)]
                for h in n.handlers:
                    if not rest:
                        break
                    nrest = []
                    for s1, e1 in rest:
                        match, nomatch = self.handler_match(h, e1, s1)
                        if match is not None:
                            sh = match
                            prev = sh.frames[-1].vars.get('%exc')
                            sh.frames[-1].vars['%exc'] = av(e1)
                            if h.name:
                                sh.frames[-1].vars[h.name] = av(e1)
                            self.emit('on_catch', sh, e1, h)
                            g = self.exec_block(h.body, [sh])
                            for s2 in g.normal + g.brk + g.cont + [x for x, _ in g.ret]:
                                vars = s2.frames[-1].vars
                                if prev is None:
                                    vars.pop('%exc', None)
                                else:
                                    vars['%exc'] = prev
                                if h.name:
                                    vars.pop(h.name, None)
                            self.addflow(inner, g)
                            inner.normal.extend(g.normal)
                        if nomatch is not None:
                            nrest.append((nomatch, e1))
                    rest = nrest
                for s1, e1 in rest:
                    self.sinks[-1].append((s1, e1))
        if not n.finalbody:
            inner.normal = self.norm_states(inner.normal)
            return inner
        pending = self.norm_exc(self.sinks.pop())

        def fin(s):
            return self.exec_block(n.finalbody, [s])
        out = Flow()
        for s in self.norm_states(inner.normal):
            g = fin(s)
            self.addflow(out, g)
            out.normal.extend(g.normal)
        for s, v in self.norm_results(inner.ret):
            g = fin(s)
            self.addflow(out, g)
            out.ret.extend((x, v) for x in g.normal)
        for s in inner.brk:
            g = fin(s)
            self.addflow(out, g)
            out.brk.extend(g.normal)
        for s in inner.cont:
            g = fin(s)
            self.addflow(out, g)
            out.cont.extend(g.normal)
        for s, e in pending:
            g = fin(s)
            self.addflow(out, g)
            for x in g.normal:
                self.sinks[-1].append((x, e))
        return out
    x_TryStar = x_Try

    def norm_exc(self, sink):
        """Join exceptional states with the same exception."""
        if len(sink) <= 1:
            return sink
        groups = {}
        order = []
        for s, e in sink:
            key = (s.tskey(), self.exc_key(e))
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append((s, e))
        out = []
        for key in order:
            g = groups[key]
            uniq = []
            seen = {}
            for s, e in g:
                h = s.fp()
                if any(o.same(s) for o in seen.get(h, ())):
                    continue
                seen.setdefault(h, []).append(s)
                uniq.append((s, e))
            if len(uniq) > 4:
                s0, e0 = uniq[0]
                for s, e in uniq[1:]:
                    s0 = join_states(s0, s)
                uniq = [(s0, e0)]
            out.extend(uniq)
        return out

    @staticmethod
    def exc_key(e):
        if e[0] == 'x':
            return ('x', e[1])
        return e

    def handler_match(self, h, exc, st):
        """(matching state or None, not matching state or None)"""
        if h.type is None:
            return st, None
        res = self.eval(h.type, st)
        if not res:
            return st, None
        tv = res[0][1]
        types = []
        for a in tv:
            if a[0] == 't':
                for x in a[1]:
                    types.extend(x)
            else:
                types.append(a)
        r = False
        for t in types:
            m = self.exc_isinstance(exc, t, st)
            if m is True:
                r = True
                break
            if m is None:
                r = None
        if r is True:
            return st, None
        if r is False:
            return None, st
        return st.copy(), st

    def exc_class(self, exc, st):
        if exc[0] == 'x':
            return exc[1]
        if exc[0] == 'r':
            o = st.get(exc[1])
            if o is not None and o.cls:
                return o.cls
        return ('ext', '?')

    def exc_isinstance(self, exc, t, st):
        c = self.exc_class(exc, st)
        if t[0] not in ('ext', 'cls'):
            return None
        return self.cls_subclass(c, t)

    def cls_subclass(self, c, t):
        if c == t:
            return True
        if c[0] == 'cls':
            mro = self.mro(c)
            if t in mro:
                return True
            if t[0] == 'ext':
                r = False
                for b in mro:
                    if b[0] == 'ext' and b[1] != 'builtins.object':
                        x = ext_exc_subclass(b[1], t[1]) if (b[1].split('.')[-1] in BUILTIN_EXC) else self.ext_subclass(b[1], t[1])
                        if x is True:
                            return True
                        if x is None:
                            r = None
                return r
            return False
        if c[0] == 'ext' and t[0] == 'ext':
            return ext_exc_subclass(c[1], t[1]) if (c[1] == '?' or c[1].split('.')[-1] in BUILTIN_EXC or t[1].split('.')[-1] in BUILTIN_EXC) else self.ext_subclass(c[1], t[1])
        if c[0] == 'ext' and t[0] == 'cls':
            return None if c[1] == '?' else False
        return None

    def ext_subclass(self, a, b):
        if a == b or b == 'builtins.object':
            return True
        if a.startswith('builtins.') and b.startswith('builtins.'):
            ta, tb = getattr(builtins, a[9:], None), getattr(builtins, b[9:], None)
            if isinstance(ta, type) and isinstance(tb, type):
                return issubclass(ta, tb)
            return False
        known = {'propertime.TimeSpan': ('builtins.object',), 'propertime.Time': ('builtins.float', 'builtins.object'),
                 'datetime.datetime': ('datetime.date', 'builtins.object')}
        if a in known:
            return b in known[a]
        if b in known or b in ('builtins.list', 'builtins.dict', 'builtins.str', 'builtins.int', 'builtins.float', 'builtins.tuple', 'builtins.set'):
            return False if a.startswith('builtins.') or a in known else None
        return None

    # ---- loops

    def x_For(self, n, st):
        self.stats['loops'] += 1
        flow = Flow()
        done = []
        for s, it in self.eval(n.iter, st):
            for plan, s1 in self.models.iteration(it, s, n):
                self.run_for(n, s1, plan, flow, done)
        if n.orelse:
            f = self.exec_block(n.orelse, self.norm_states(done))
            self.addflow(flow, f)
            flow.normal.extend(f.normal)
        else:
            flow.normal.extend(done)
        flow.normal = self.norm_states(flow.normal)
        return flow
    x_AsyncFor = x_For

    def loop_body(self, n, states, elem, flow):
        """Assign elem to the target and run the body: states at the end of the iteration."""
        starts = []
        for s in states:
            starts.extend(self.assign(n.target, elem, s))
        f = self.exec_block(n.body, self.norm_states(starts))
        flow.ret.extend(f.ret)
        flow.normal.extend(f.brk)
        return self.norm_states(f.normal + f.cont)

    def run_for(self, n, st, plan, flow, done):
        kind = plan[0]
        saved = self.ctx
        if kind == 'exact':
            cur = [st]
            for i, el in enumerate(plan[1]):
                if not cur:
                    break
                self.ctx = self.sub_ctx(saved, ('i', id(n), i))
                cur = self.loop_body(n, cur, el, flow)
            self.ctx = saved
            done.extend(cur)
        elif kind == 'elem':
            elem, lo = plan[1], plan[2]
            self.ctx = self.sub_ctx(saved, ('i', id(n), 0))
            if lo == 0:
                done.append(st.copy())
            cur = self.loop_body(n, [st], elem, flow)
            if plan[3] != 1:
                self.ctx = self.sub_ctx(saved, ('i', id(n), '+'))
                if lo < 2:
                    done.extend(s.copy() for s in cur)
                self.fixpoint(cur, lambda ss: self.loop_body(n, ss, elem, flow), done)
            else:
                done.extend(cur)
            self.ctx = saved
        elif kind == 'iter':
            # object with __next__
            itv = plan[1]
            cur = [st]
            self.ctx = self.sub_ctx(saved, ('i', id(n), '+'))

            def step(states):
                starts = []
                for s in states:
                    self.sinks.append([])
                    self.try_depth += 1
                    res = self.call_method(itv, '__next__', [], {}, s, n)
                    self.try_depth -= 1
                    for s1, e in self.sinks.pop():
                        if self.exc_isinstance(e, ('ext', 'builtins.StopIteration'), s1) is True:
                            done.append(s1)
                        elif self.exc_isinstance(e, ('ext', 'builtins.StopIteration'), s1) is None:
                            done.append(s1.copy())
                            self.sinks[-1].append((s1, e))
                        else:
                            self.sinks[-1].append((s1, e))
                    for s1, v in res:
                        starts.extend(self.assign(n.target, v, s1))
                f = self.exec_block(n.body, self.norm_states(starts))
                flow.ret.extend(f.ret)
                flow.normal.extend(f.brk)
                return self.norm_states(f.normal + f.cont)
            # unroll a few rounds first (finite iterators stay exact)
            for i in range(self.exact_loop):
                if not cur:
                    break
                self.ctx = self.sub_ctx(saved, ('i', id(n), i))
                cur = step(cur)
            self.ctx = self.sub_ctx(saved, ('i', id(n), '+'))
            if cur:
                self.fixpoint(cur, step, [])
            self.ctx = saved

    def fixpoint(self, cur, step, done, exit_each=True):
        """Iterate the body until no new state appears at the head; exits of every iteration go to done."""
        heads = []
        rounds = 0
        while cur:
            rounds += 1
            fresh = []
            for s in cur:
                if any(h.same(s) for h in heads):
                    continue
                fresh.append(s)
            if not fresh:
                break
            if rounds > 2 or len(heads) + len(fresh) > self.loopk:
                # join with the heads of the same monitor state
                groups = {}
                for s in heads:
                    groups.setdefault(s.tskey(), []).append(s)
                nheads = {}
                for key, g in groups.items():
                    j = g[0]
                    for s in g[1:]:
                        j = join_states(j, s)
                    nheads[key] = j
                changed = []
                for s in fresh:
                    key = s.tskey()
                    old = nheads.get(key)
                    new = s if old is None else join_states(old, s)
                    if rounds > 4:
                        self.widen_state(new)
                    if old is None or not old.same(new):
                        nheads[key] = new
                        changed.append(key)
                heads = list(nheads.values())
                fresh = [nheads[key] for key in dict.fromkeys(changed)]
                if not fresh:
                    break
            else:
                heads.extend(fresh)
            if rounds > 14:
                break
            cur = step([s.copy() for s in fresh])
            done.extend(s.copy() for s in cur)
        return heads

    def widen_state(self, st):
        f = st.frames[-1]
        for name, v in list(f.vars.items()):
            f.vars[name] = V.widen(v, True)
        for oid, o in list(st.heap.items()):
            if o.kind == 'list' and o.items is not None and len(o.items) > 6:
                st.heap[oid] = o.upd(items=None, elem=V.widen(o.all_elem(), True), lo=0, hi=None)
            elif o.kind in ('list', 'dict', 'inst', 'module', 'class'):
                ch = {}
                if o.elem:
                    ch['elem'] = V.widen(o.elem, True)
                if o.fields:
                    ch['fields'] = {a: V.widen(b, True) for a, b in o.fields.items()}
                if o.kv:
                    ch['kv'] = {a: V.widen(b, True) for a, b in o.kv.items()}
                if o.velem:
                    ch['velem'] = V.widen(o.velem, True)
                    ch['kelem'] = V.widen(o.kelem, True)
                if ch:
                    st.heap[oid] = o.upd(**ch)

    def x_While(self, n, st):
        self.stats['loops'] += 1
        flow = Flow()
        done = []
        saved = self.ctx

        def step(states):
            body = []
            for s in states:
                ts, fs = self.cond(n.test, s)
                done.extend(fs)
                body.extend(ts)
            if not body:
                return []
            f = self.exec_block(n.body, self.norm_states(body))
            flow.ret.extend(f.ret)
            flow.normal.extend(f.brk)
            return self.norm_states(f.normal + f.cont)
        cur = [st]
        for i in range(self.exact_while):
            self.ctx = self.sub_ctx(saved, ('i', id(n), i))
            cur = step(cur)
            if not cur:
                break
        if cur:
            self.ctx = self.sub_ctx(saved, ('i', id(n), '+'))
            self.fixpoint(cur, step, [])
        self.ctx = saved
        done = self.norm_states(done)
        if n.orelse:
            f = self.exec_block(n.orelse, done)
            self.addflow(flow, f)
            flow.normal.extend(f.normal)
        else:
            flow.normal.extend(done)
        flow.normal = self.norm_states(flow.normal)
        return flow

    def x_Match(self, n, st):
        # every case may be taken
        flow = Flow()
        for s, v in self.eval(n.subject, st):
            exhaustive = False
            rest = s
            for c in n.cases:
                s1 = rest.copy()
                decided = None
                if isinstance(c.pattern, ast.MatchValue):
                    for s2, pv in self.eval(c.pattern.value, s1):
                        s1 = s2
                        decided = self.models.compare_vals('==', v, pv, s2)
                elif isinstance(c.pattern, ast.MatchSingleton):
                    decided = self.models.compare_vals('is', v, kv(c.pattern.value), s1)
                elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    if c.pattern.name:
                        self.setvar(s1, c.pattern.name, v)
                    decided = {True}
                else:
                    for sub in ast.walk(c.pattern):
                        nm = getattr(sub, 'name', None)
                        if isinstance(nm, str):
                            self.setvar(s1, nm, TOP)
                if decided == {False}:
                    continue
                starts = [s1]
                always = decided == {True}
                if c.guard is not None:
                    starts, _ = self.cond(c.guard, s1)
                    always = False
                f = self.exec_block(c.body, starts)
                self.addflow(flow, f)
                flow.normal.extend(f.normal)
                if always:
                    exhaustive = True
                    break
            if not exhaustive:
                flow.normal.append(rest)
        return flow

    # ------------------------------------------------------------------ names

    def mangle(self, name, st):
        if name.startswith('__') and not name.endswith('__'):
            for fr in reversed(st.frames):
                c = fr.code
                while c is not None:
                    if c.cls:
                        return '_' + c.cls.split('.')[-1].lstrip('_') + name
                    c = c.parent
                break
        return name

    def setvar(self, st, name, v):
        fr = st.frames[-1]
        c = fr.code
        if c is not None and c.name == '<module>':
            oid = ('M', c.module)
            o = st.get(oid)
            f = dict(o.fields)
            f[name] = v
            st.put(oid, o.upd(fields=f))
        elif c is not None and name in c.globals:
            # global or nonlocal
            for f in reversed(st.frames[:-1]):
                if f.code is c.parent and c.parent is not None and name in c.parent.locals:
                    f.vars[name] = v
                    return
            oid = ('M', c.module)
            o = st.get(oid)
            f = dict(o.fields)
            f[name] = v
            st.put(oid, o.upd(fields=f))
            self.emit('on_write', st, oid, o, 'global', name, v, self.cur_node)
        else:
            fr.vars[name] = v

    def lookup(self, st, name, node):
        """[(state, value)] (at most one), raising NameError on the way."""
        fr = st.frames[-1]
        v = fr.vars.get(name)
        if v is not None:
            if UNB in v:
                v2 = v - {UNB}
                self.emit('on_unbound', st, name, node, not v2)
                s = st.copy() if v2 else st
                self.raise_builtin(s, 'UnboundLocalError', name, node)
                if not v2:
                    return []
                fr.vars[name] = v2
                return [(st, v2)]
            return [(st, v)]
        c = fr.code
        if c is not None and c.name not in ('<module>', '<class>') and name in c.locals:
            self.emit('on_unbound', st, name, node, True)
            self.raise_builtin(st, 'UnboundLocalError', name, node)
            return []
        # closures
        p = c.parent if c is not None else None
        while p is not None:
            for f in reversed(st.frames[:-1]):
                if f.code is p and name in f.vars:
                    v = f.vars[name] - {UNB}
                    if v:
                        return [(st, v)]
                    break
            p = p.parent
        if fr.env is not None:
            env = st.get(fr.env)
            if env is not None and 'free:' + name in env.fields:
                return [(st, env.fields['free:' + name] - {UNB} or TOP)]
        if c is not None:
            m = st.get(('M', c.module))
            if m is not None and name in m.fields:
                v = m.fields[name]
                return [(st, v - {UNB} or TOP)]
        if hasattr(builtins, name):
            if name == 'NotImplemented':
                return [(st, av(('ext', 'builtins.NotImplemented')))]
            return [(st, av(('ext', 'builtins.' + name)))]
        if name in ('__name__', '__file__', '__doc__'):
            return [(st, STR)]
        self.emit('on_unbound', st, name, node, True)
        self.raise_builtin(st, 'NameError', name, node)
        return []

    # ------------------------------------------------------------------ assignment

    def assign(self, t, v, st):
        """-> states"""
        if isinstance(t, ast.Name):
            self.setvar(st, self.mangle(t.id, st) if t.id.startswith('__') else t.id, v)
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for s, base in self.eval(t.value, st):
                out.extend(self.setattr(base, t.attr, v, s, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, base in self.eval(t.value, st):
                for s1, key in self.eval_slice(t.slice, s):
                    out.extend(self.setitem(base, key, v, s1, t))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for s, parts in self.models.unpack(v, len(t.elts), st, t, [isinstance(e, ast.Starred) for e in t.elts]):
                cur = [s]
                for e, pv in zip(t.elts, parts):
                    e = e.value if isinstance(e, ast.Starred) else e
                    cur = [s2 for s1 in cur for s2 in self.assign(e, pv, s1)]
                out.extend(cur)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        return [st]

    # ------------------------------------------------------------------ expressions

    def eval(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return [(st, TOP)]
        return m(n, st)

    def eval_all(self, nodes, st):
        """[(state, [values])]"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s1, v in self.eval(n, s):
                    nxt.append((s1, vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, n, st):
        return [(st, kv(n.value))]

    def e_Name(self, n, st):
        name = n.id
        if name.startswith('__') and not name.endswith('__'):
            name = self.mangle(name, st)
        return self.lookup(st, name, n)

    def e_NamedExpr(self, n, st):
        out = []
        for s, v in self.eval(n.value, st):
            self.setvar(s, n.target.id, v)
            out.append((s, v))
        return out

    def e_JoinedStr(self, n, st):
        cur = [(st, '', NOTAGS)]
        for p in n.values:
            nxt = []
            for s, text, tags in cur:
                if isinstance(p, ast.Constant):
                    nxt.append((s, text + str(p.value), tags))
                else:
                    for s1, v in self.eval(p.value, s):
                        for s2, sv in self.models.to_str(v, s1, p):
                            t, tg = self.models.str_pattern(sv)
                            nxt.append((s2, text + t, tags | tg))
            cur = nxt
        out = []
        for s, text, tags in cur:
            if '*' in text or tags:
                out.append((s, av(('s', text, tags))))
            else:
                out.append((s, kv(text)))
        return out

    def e_FormattedValue(self, n, st):
        return [(s2, sv) for s, v in self.eval(n.value, st) for s2, sv in self.models.to_str(v, s, n)]

    def seq_items(self, elts, st):
        """[(state, items or None, elem, lo)] with starred expansion."""
        cur = [(st, [], EMPTY, 0)]
        for e in elts:
            nxt = []
            for s, items, elem, lo in cur:
                if isinstance(e, ast.Starred):
                    for s1, v in self.eval(e.value, s):
                        for plan, s2 in self.models.iteration(v, s1, e):
                            if plan[0] == 'exact':
                                if items is not None:
                                    nxt.append((s2, items + list(plan[1]), elem, lo))
                                else:
                                    nxt.append((s2, None, V.join(elem, *plan[1]), lo + len(plan[1])))
                            else:
                                pe = plan[1] if plan[0] == 'elem' else TOP
                                nxt.append((s2, None, V.join(elem, pe, *(items or [])), lo + (plan[2] if plan[0] == 'elem' else 0)))
                else:
                    for s1, v in self.eval(e, s):
                        if items is not None:
                            nxt.append((s1, items + [v], elem, lo))
                        else:
                            nxt.append((s1, None, V.join(elem, v), lo + 1))
            cur = nxt
        return cur

    def e_List(self, n, st):
        out = []
        for s, items, elem, lo in self.seq_items(n.elts, st):
            out.append((s, self.new_list(s, n, items=items, elem=elem, lo=lo)))
        return out

    def e_Tuple(self, n, st):
        out = []
        for s, items, elem, lo in self.seq_items(n.elts, st):
            if items is not None:
                out.append((s, av(('t', tuple(items)))))
            else:
                out.append((s, av(('tt', elem, lo))))
        return out

    def e_Set(self, n, st):
        out = []
        for s, items, elem, lo in self.seq_items(n.elts, st):
            out.append((s, self.new_list(s, n, items=items, elem=elem, lo=lo, kind='set')))
        return out

    def e_Dict(self, n, st):
        cur = [(st, {}, EMPTY, EMPTY)]
        for kn, vn in zip(n.keys, n.values):
            nxt = []
            for s, d, ke, ve in cur:
                if kn is None:
                    for s1, v in self.eval(vn, s):
                        d2, ke2, ve2 = dict(d), ke, ve
                        for a in v:
                            o = s1.get(a[1]) if a[0] == 'r' else None
                            if o is not None and o.kind == 'dict':
                                d2.update(o.kv)
                                ke2, ve2 = V.join(ke2, o.kelem), V.join(ve2, o.velem)
                            else:
                                ke2, ve2 = TOP, TOP
                        nxt.append((s1, d2, ke2, ve2))
                else:
                    for s1, kvv in self.eval(kn, s):
                        for s2, v in self.eval(vn, s1):
                            d2, ke2, ve2 = dict(d), ke, ve
                            if len(kvv) == 1 and next(iter(kvv))[0] == 'k':
                                d2[next(iter(kvv))] = v
                            else:
                                ke2, ve2 = V.join(ke, kvv), V.join(ve, v)
                            nxt.append((s2, d2, ke2, ve2))
            cur = nxt
        return [(s, self.new_dict(s, n, d, ke, ve)) for s, d, ke, ve in cur]

    def e_Lambda(self, n, st):
        return [(st, av(self.make_function(n, st)))]

    def e_IfExp(self, n, st):
        ts, fs = self.cond(n.test, st)
        out = []
        for s in ts:
            out.extend(self.eval(n.body, s))
        for s in fs:
            out.extend(self.eval(n.orelse, s))
        return self.norm_results(out)

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        out = []
        cur = [st]
        for i, sub in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in cur:
                if last:
                    out.extend(self.eval(sub, s))
                    continue
                if isinstance(sub, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
                    ts, fs = self.cond(sub, s)
                    for s1 in (fs if is_and else ts):
                        out.append((s1, av(FALSE if is_and else TRUE)))
                    nxt.extend(ts if is_and else fs)
                    continue
                for s1, v in self.eval(sub, s):
                    for s2, vv, truth in self.split_truth(v, s1, sub):
                        if truth == is_and:
                            nxt.append(s2)
                        else:
                            out.append((s2, vv))
            cur = nxt
        return self.norm_results(out)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            ts, fs = self.cond(n.operand, st)
            return [(s, av(FALSE)) for s in self.norm_states(ts)] + [(s, av(TRUE)) for s in self.norm_states(fs)]
        out = []
        for s, v in self.eval(n.operand, st):
            out.extend(self.models.unary(n.op, v, s, n))
        return out

    def e_BinOp(self, n, st):
        out = []
        for s, l in self.eval(n.left, st):
            for s1, r in self.eval(n.right, s):
                out.extend(self.binop(n.op, l, r, s1, n))
        return out

    def binop(self, op, l, r, st, node):
        return self.models.binop(op, l, r, st, node)

    def e_Compare(self, n, st):
        ts, fs = self.cond(n, st)
        out = [(s, av(TRUE)) for s in self.norm_states(ts)] + [(s, av(FALSE)) for s in self.norm_states(fs)]
        # external comparisons (numpy arrays) are rare here: booleans are enough
        return out

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_Await(self, n, st):
        return self.eval(n.value, st)

    def e_Yield(self, n, st):
        out = []
        for s, v in (self.eval(n.value, st) if n.value is not None else [(st, VNONE)]):
            fr = s.frames[-1]
            fr.vars['%yield'] = fr.vars.get('%yield', av(('t', ())))
            (y,) = fr.vars['%yield'] if len(fr.vars['%yield']) == 1 else (('tt', TOP, 0),)
            if y[0] == 't' and len(y[1]) < 12:
                fr.vars['%yield'] = av(('t', y[1] + (v,)))
            else:
                el = V.join(*(y[1])) if y[0] == 't' else y[1]
                fr.vars['%yield'] = av(('tt', V.join(el, v), 0))
            out.append((s, TOP))
        return out

    def e_YieldFrom(self, n, st):
        out = []
        for s, v in self.eval(n.value, st):
            fr = s.frames[-1]
            old = fr.vars.get('%yield', av(('t', ())))
            el = EMPTY
            for a in old:
                el = V.join(el, *(a[1] if a[0] == 't' else (a[1],)))
            for plan, _ in self.models.iteration(v, s, n):
                el = V.join(el, *(plan[1] if plan[0] == 'exact' else (plan[1] if plan[0] == 'elem' else TOP,)))
            fr.vars['%yield'] = av(('tt', el, 0))
            out.append((s, VNONE))
        return out

    def e_Slice(self, n, st):
        cur = [(st, [])]
        for part in (n.lower, n.upper, n.step):
            nxt = []
            for s, vs in cur:
                if part is None:
                    nxt.append((s, vs + [VNONE]))
                else:
                    for s1, v in self.eval(part, s):
                        nxt.append((s1, vs + [v]))
            cur = nxt
        return [(s, av(('slice',) + tuple(vs))) for s, vs in cur]

    def eval_slice(self, n, st):
        return self.eval(n, st)

    def e_Subscript(self, n, st):
        out = []
        for s, base in self.eval(n.value, st):
            for s1, key in self.eval_slice(n.slice, s):
                out.extend(self.getitem(base, key, s1, n))
        return out

    def e_Attribute(self, n, st):
        out = []
        for s, base in self.eval(n.value, st):
            out.extend(self.getattr(base, n.attr, s, n))
        return out

    # ---- comprehensions

    def e_ListComp(self, n, st):
        out = []
        for s, items, elem, lo in self.comp(n, st, lambda s: self.eval(n.elt, s)):
            out.append((s, self.new_list(s, n, items=items, elem=elem, lo=lo)))
        return out

    def e_SetComp(self, n, st):
        out = []
        for s, items, elem, lo in self.comp(n, st, lambda s: self.eval(n.elt, s)):
            out.append((s, self.new_list(s, n, items=None, elem=V.join(elem, *(items or [])), lo=min(1, len(items or [])), kind='set')))
        return out

    def e_GeneratorExp(self, n, st):
        out = []
        for s, items, elem, lo in self.comp(n, st, lambda s: self.eval(n.elt, s)):
            out.append((s, av(('t', tuple(items))) if items is not None else av(('tt', elem, lo))))
        return out

    def e_DictComp(self, n, st):
        def el(s):
            return [(s2, av(('t', (kk, v)))) for s1, kk in self.eval(n.key, s) for s2, v in self.eval(n.value, s1)]
        out = []
        for s, items, elem, lo in self.comp(n, st, el):
            d, ke, ve = {}, EMPTY, EMPTY
            for it in (items if items is not None else [elem]):
                for a in it:
                    if a[0] != 't':
                        ke, ve = TOP, TOP
                        continue
                    kk, v = a[1]
                    if items is not None and len(kk) == 1 and next(iter(kk))[0] == 'k' and len(it) == 1:
                        d[next(iter(kk))] = v
                    else:
                        ke, ve = V.join(ke, kk), V.join(ve, v)
            out.append((s, self.new_dict(s, n, d, ke, ve)))
        return out

    def comp(self, n, st, elt):
        names = set()
        for g in n.generators:
            for sub in ast.walk(g.target):
                if isinstance(sub, ast.Name):
                    names.add(sub.id)
        saved = {nm: st.frames[-1].vars.get(nm) for nm in names}
        res = self.comp_gen(n, 0, st, elt)
        out = []
        for s, items, elem, lo in res:
            vars = s.frames[-1].vars
            for nm, v in saved.items():
                if v is None:
                    vars.pop(nm, None)
                else:
                    vars[nm] = v
            out.append((s, items, elem, lo))
        if len(out) > self.maxk:
            # join results by shape
            groups = {}
            for r in out:
                groups.setdefault((r[0].tskey(), None if r[1] is None else len(r[1])), []).append(r)
            out = []
            for g in groups.values():
                s0, i0, e0, l0 = g[0]
                for s, i, e, l in g[1:]:
                    s0 = join_states(s0, s)
                    i0 = [V.join(a, b) for a, b in zip(i0, i)] if i0 is not None else None
                    e0, l0 = V.join(e0, e), min(l0, l)
                out.append((s0, i0, e0, l0))
        return out

    def comp_gen(self, n, gi, st, elt):
        """[(state, items or None, elem, lo)]"""
        if gi == len(n.generators):
            return [(s, [v], EMPTY, 1) for s, v in elt(st)]
        g = n.generators[gi]
        out = []
        saved = self.ctx
        for s, it in self.eval(g.iter, st):
            for plan, s0 in self.models.iteration(it, s, n):

                def once(state, el):
                    """states after one element: [(state, items|None, elem, lo)]"""
                    r = []
                    for s1 in self.assign(g.target, el, state):
                        cur = [s1]
                        skipped = []
                        for c in g.ifs:
                            nxt = []
                            for s2 in cur:
                                ts, fs = self.cond(c, s2)
                                nxt.extend(ts)
                                skipped.extend(fs)
                            cur = nxt
                        for s2 in skipped:
                            r.append((s2, [], EMPTY, 0))
                        for s2 in cur:
                            r.extend(self.comp_gen(n, gi + 1, s2, elt))
                    return r
                if plan[0] == 'exact':
                    cur = [(s0, [], EMPTY, 0)]
                    for i, el in enumerate(plan[1]):
                        self.ctx = self.sub_ctx(saved, ('i', id(n), gi, i))
                        nxt = []
                        for s1, items, elem, lo in cur:
                            for s2, it2, el2, lo2 in once(s1, el):
                                if items is not None and it2 is not None:
                                    nxt.append((s2, items + it2, EMPTY, 0))
                                else:
                                    nxt.append((s2, None, V.join(elem, el2, *(items or []), *(it2 or [])), lo + lo2))
                        if len(nxt) > self.maxk:
                            groups = {}
                            for r in nxt:
                                groups.setdefault(r[0].tskey(), []).append(r)
                            nxt = []
                            for gr in groups.values():
                                a0, i0, e0, l0 = gr[0]
                                e0 = V.join(e0, *(i0 or []))
                                l0 = len(i0) if i0 is not None else l0
                                for a, i, e, l in gr[1:]:
                                    a0 = join_states(a0, a)
                                    e0 = V.join(e0, e, *(i or []))
                                    l0 = min(l0, len(i) if i is not None else l)
                                nxt.append((a0, None, e0, l0))
                        cur = nxt
                    out.extend(cur)
                else:
                    el = plan[1] if plan[0] == 'elem' else TOP
                    lo = plan[2] if plan[0] == 'elem' else 0
                    self.ctx = self.sub_ctx(saved, ('i', id(n), gi, '+'))
                    before = s0.copy()
                    rs = once(s0, el)
                    # twice, to see effects of the body on itself
                    rs2 = []
                    for s1, items, elem, l1 in rs:
                        for s2, it2, el2, l2 in once(s1.copy(), el):
                            rs2.append((s2, None, V.join(elem, el2, *(items or []), *(it2 or [])), 0))
                    groups = {}
                    allr = rs + rs2 + ([(before, None, EMPTY, 0)] if lo == 0 else [])
                    for r in allr:
                        groups.setdefault(r[0].tskey(), []).append(r)
                    filtered = bool(g.ifs)
                    for gr in groups.values():
                        a0, i0, e0, _ = gr[0]
                        e0 = V.join(e0, *(i0 or []))
                        for a, i, e, l in gr[1:]:
                            a0 = join_states(a0, a)
                            e0 = V.join(e0, e, *(i or []))
                        out.append((a0, None, e0, 0 if filtered else lo))
                self.ctx = saved
        return out

    # ------------------------------------------------------------------ conditions

    def split_truth(self, v, st, node):
        """[(state, refined value, bool)]"""
        tv, fv, calls = [], [], []
        for a in v:
            t = self.models.truth(a, st)
            if t == 'call':
                calls.append(a)
            elif t is True:
                tv.append(a)
            elif t is False:
                fv.append(a)
            else:
                if a[0] == 'n':
                    if '0' in a[2]:
                        fv.append(k(0) if not a[3] else ('n', a[1], '0', a[3]))
                    nz = a[2].replace('0', '')
                    if nz:
                        tv.append(('n', a[1], nz, a[3]))
                else:
                    if a[0] in ('top', 'exti'):
                        self.models.unknown(st, node)
                    tv.append(a)
                    fv.append(a)
        out = []
        for a in calls:
            o = st.get(a[1])
            name = '__bool__' if self.class_attr(o.cls, '__bool__', st) else '__len__'
            for s, r in self.call_method(av(a), name, [], {}, st.copy(), node):
                for s2, _, truth in self.split_truth(r, s, node):
                    out.append((s2, av(a), truth))
        if tv and fv:
            out.append((st.copy(), frozenset(tv), True))
            out.append((st, frozenset(fv), False))
        elif tv:
            out.append((st, frozenset(tv), True))
        elif fv:
            out.append((st, frozenset(fv), False))
        return out

    def cond(self, n, st):
        """(states where true, states where false), refined."""
        if isinstance(n, ast.BoolOp):
            is_and = isinstance(n.op, ast.And)
            cur, dec = [st], []
            for sub in n.values:
                nxt = []
                for s in cur:
                    t, f = self.cond(sub, s)
                    nxt.extend(t if is_and else f)
                    dec.extend(f if is_and else t)
                cur = nxt
            return (cur, dec) if is_and else (dec, cur)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.cond(n.operand, st)
            return f, t
        if isinstance(n, ast.Compare):
            return self.cond_compare(n, st)
        if isinstance(n, ast.Call):
            r = self.cond_call(n, st)
            if r is not None:
                return r
        ts, fs = [], []
        for s, v in self.eval(n, st):
            for s1, vv, truth in self.split_truth(v, s, n):
                if vv != v:
                    self.refine(n, vv, s1)
                (ts if truth else fs).append(s1)
        return ts, fs

    def cond_call(self, n, st):
        if isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'callable', 'hasattr') and n.args and not n.keywords \
                and isinstance(n.args[0], (ast.Name, ast.Attribute)):
            fv = self.lookup(st, n.func.id, n)
            if not fv or fv[0][1] != av(('ext', 'builtins.' + n.func.id)):
                return None
            ts, fs = [], []
            for s, vs in self.eval_all(n.args, st):
                tv, fvv = [], []
                for a in vs[0]:
                    if n.func.id == 'isinstance':
                        r = self.models.isinstance_(a, vs[1], s)
                    elif n.func.id == 'callable':
                        r = self.models.callable_(a, s)
                    else:
                        r = self.models.hasattr_(a, vs[1], s)
                    if r is not False:
                        tv.append(a)
                    if r is not True:
                        fvv.append(a)
                both = tv and fvv
                if tv:
                    s1 = s.copy() if both else s
                    if len(tv) < len(vs[0]):
                        self.refine(n.args[0], frozenset(tv), s1)
                    ts.append(s1)
                if fvv:
                    if len(fvv) < len(vs[0]):
                        self.refine(n.args[0], frozenset(fvv), s)
                    fs.append(s)
            return ts, fs
        return None

    OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
           ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}

    def cond_compare(self, n, st):
        if len(n.ops) > 1:
            # a < b < c
            cur, fs = [st], []
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                nxt = []
                for s in cur:
                    sub = ast.copy_location(ast.Compare(left, [op], [right]), n)
                    t, f = self.cond_compare(sub, s)
                    nxt.extend(t)
                    fs.extend(f)
                cur = nxt
                left = right
            return cur, fs
        op = self.OPS[type(n.ops[0])]
        ts, fs = [], []
        for s, lv in self.eval(n.left, st):
            for s1, rv in self.eval(n.comparators[0], s):
                for s2, truth, lr, rr in self.models.compare(op, lv, rv, s1, n):
                    if lr is not None and lr != lv:
                        self.refine(n.left, lr, s2)
                    if rr is not None and rr != rv:
                        self.refine(n.comparators[0], rr, s2)
                    (ts if truth else fs).append(s2)
        return ts, fs

    def refine(self, n, v, st):
        """The expression n is known to have value v in st."""
        if isinstance(n, ast.Name):
            fr = st.frames[-1]
            if n.id in fr.vars:
                fr.vars[n.id] = v
        elif isinstance(n, ast.NamedExpr):
            st.frames[-1].vars[n.target.id] = v
        elif isinstance(n, ast.Attribute):
            base = self.peek(n.value, st)
            if base is not None and len(base) == 1:
                a = next(iter(base))
                if a[0] == 'r':
                    o = st.get(a[1])
                    if o is not None and not o.weak and n.attr in o.fields:
                        f = dict(o.fields)
                        f[n.attr] = v
                        st.put(a[1], o.upd(fields=f))
        elif isinstance(n, ast.Subscript):
            base = self.peek(n.value, st)
            key = self.peek(n.slice, st)
            if base and key and len(base) == 1 and len(key) == 1:
                a, kk = next(iter(base)), next(iter(key))
                if a[0] == 'r' and kk[0] == 'k':
                    o = st.get(a[1])
                    if o is not None and not o.weak and o.kind == 'dict' and kk in o.kv:
                        d = dict(o.kv)
                        d[kk] = v
                        st.put(a[1], o.upd(kv=d))

    def peek(self, n, st):
        """Value of a simple expression without effects, or None."""
        if isinstance(n, ast.Name):
            v = st.frames[-1].vars.get(n.id)
            return None if v is None or UNB in v else v
        if isinstance(n, ast.Constant):
            return kv(n.value)
        if isinstance(n, ast.Attribute):
            base = self.peek(n.value, st)
            if base is not None and len(base) == 1:
                a = next(iter(base))
                if a[0] == 'r':
                    o = st.get(a[1])
                    if o is not None and not o.weak and n.attr in o.fields and UNB not in o.fields[n.attr]:
                        return o.fields[n.attr]
        return None

    # ------------------------------------------------------------------ attributes

    def class_attr(self, clsatom, name, st, after=None):
        """(atom-or-value, owner class atom) of an attribute found in the classes, or None; ('?', ext) if an external base may have it."""
        mro = self.mro(clsatom)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if c[0] == 'cls':
                o = st.get(('C', c[1]))
                if o is not None and name in o.fields:
                    v = o.fields[name] - {UNB}
                    if not v:
                        continue
                    if len(v) == 1:
                        return next(iter(v)), c, v
                    return ('multi',), c, v
            else:
                if c[1] == 'builtins.object':
                    if name in ('__init__', '__eq__', '__hash__', '__repr__', '__str__', '__setattr__', '__getattribute__', '__ne__'):
                        return ('bix', c, name), c, None
                    continue
                t = getattr(builtins, c[1].split('.')[-1], None) if c[1].startswith('builtins.') else None
                if t is not None:
                    if hasattr(t, name) and not (hasattr(object, name) and getattr(t, name, None) is getattr(object, name, None)):
                        return ('bix', c, name), c, None
                    continue
                if self.models.ext_has_attr(c[1], name):
                    return ('bix', c, name), c, None
        return None

    def bind(self, a, owner, v, selfatom, clsatom, st, node):
        """Bind a class attribute to an instance (selfatom) or class."""
        out = []
        vals = v if v is not None else av(a)
        for x in vals:
            if x[0] == 'fn':
                out.append((st, av(('bm', selfatom, x)) if selfatom else av(x)))
            elif x[0] == 'prop':
                if selfatom:
                    out.extend(self.call(x[1], [av(selfatom)], {}, st.copy() if len(vals) > 1 else st, node))
                else:
                    out.append((st, av(x)))
            elif x[0] == 'static':
                out.append((st, x[1]))
            elif x[0] == 'clsm':
                for f in x[1]:
                    out.append((st, av(('bm', clsatom, f))))
            elif x[0] == 'bix':
                out.append((st, av(('bi', selfatom, x[2])) if selfatom else av(('ext', x[1][1] + '.' + x[2]))))
            else:
                out.append((st, av(x)))
        if len(out) > 1 and all(s is st for s, _ in out):
            return [(st, V.join(*[x for _, x in out]))]
        return out

    def getattr(self, base, name, st, node, default=None):
        name = self.mangle(name, st)
        out = []
        atoms = [a for a in base if a != UNB]
        plain = EMPTY
        multi = len(atoms) > 1
        for a in atoms:
            s = st.copy() if multi else st
            r = self.getattr1(a, name, s, node, default)
            out.extend(r)
        if multi:
            # a failing atom drops out; join the states that did not change
            out = self.norm_results(out, 6)
        return out

    def missing(self, a, name, st, node, default=None):
        if default is not None:
            return [(st, default)]
        self.emit('on_missing_attr', st, a, name, node)
        self.raise_(st, ('x', ('ext', 'builtins.AttributeError'), (kv(name),)), node)
        return []

    def getattr1(self, a, name, st, node, default=None):
        t = a[0]
        if t == 'r':
            o = st.get(a[1])
            if o is None:
                return [(st, TOP)]
            if o.kind == 'inst':
                if name == '__class__':
                    return [(st, av(o.cls))]
                if name == '__dict__':
                    return [(st, av(('bi', a, '__dict__')))]
                cattr = self.class_attr(o.cls, name, st)
                if cattr is not None and cattr[0][0] == 'prop':
                    return self.bind(cattr[0], cattr[1], cattr[2], a, o.cls, st, node)
                v = o.fields.get(name)
                if v is not None:
                    if UNB in v:
                        v2 = v - {UNB}
                        out = []
                        if cattr is not None:
                            out.extend(self.bind(cattr[0], cattr[1], cattr[2], a, o.cls, st.copy(), node))
                        else:
                            s2 = st.copy() if v2 else st
                            if not o.weak:
                                f = dict(o.fields)
                                del f[name]
                                s2.put(a[1], o.upd(fields=f))
                            out.extend(self.missing(a, name, s2, node, default))
                        if v2:
                            if not o.weak:
                                f = dict(o.fields)
                                f[name] = v2
                                st.put(a[1], o.upd(fields=f))
                            out.append((st, v2))
                        return out
                    return [(st, v)]
                if cattr is not None:
                    if cattr[0][0] == 'bix' and self.models.is_component(name):
                        return [(st, self.models.component(o, name))]
                    return self.bind(cattr[0], cattr[1], cattr[2], a, o.cls, st, node)
                ga = self.class_attr(o.cls, '__getattr__', st)
                if ga is not None and ga[0][0] == 'fn':
                    return self.call_fn(ga[0], [av(a), kv(name)], {}, st, node)
                if o.opened or o.weak and False:
                    self.may_raise(st, node, ('x', ('ext', 'builtins.AttributeError'), (kv(name),)))
                    return [(st, TOP)]
                if any(c[0] == 'ext' and c[1] not in ('builtins.object', 'builtins.list') and not c[1].startswith('builtins.')
                       and self.models.ext_open(c[1]) for c in self.mro(o.cls)):
                    self.may_raise(st, node, ('x', ('ext', 'builtins.AttributeError'), (kv(name),)))
                    return [(st, av(('top', frozenset(['ext']))))]
                return self.missing(a, name, st, node, default)
            if o.kind in ('list', 'dict', 'set'):
                if name == '__class__':
                    return [(st, av(('ext', 'builtins.' + o.kind)))]
                if hasattr(getattr(builtins, o.kind), name):
                    return [(st, av(('bi', a, name)))]
                return self.missing(a, name, st, node, default)
            return [(st, TOP)]
        if t == 'cls':
            o = st.get(('C', a[1]))
            info = self.classes[a[1]]
            if name == '__name__':
                return [(st, kv(info.name))]
            if name == '__class__':
                return [(st, av(('ext', 'builtins.type')))]
            if name == '__module__':
                return [(st, kv(info.module))]
            if name == '__mro__':
                return [(st, av(('t', tuple(av(c) for c in info.mro))))]
            if name == '__bases__':
                return [(st, av(('t', tuple(av(c) for c in info.bases))))]
            c = self.class_attr(a, name, st)
            if c is None:
                if name in ('__doc__', '__qualname__'):
                    return [(st, STR)]
                return self.missing(a, name, st, node, default)
            return self.bind(c[0], c[1], c[2], None, a, st, node)
        if t == 'mod':
            m = st.get(('M', a[1]))
            if m is None or name not in m.fields:
                sub = a[1] + '.' + name
                if sub in self.sources:
                    st = self.load_module(sub, st)
                    return [(st, av(('mod', sub)))]
                if m is not None and m.fields.get('%partial'):
                    return [(st, TOP)]
                return self.missing(a, name, st, node, default)
            return [(st, m.fields[name] - {UNB} or TOP)]
        if t == 'sup':
            c = self.class_attr(a[3], name, st, after=a[1])
            if c is None:
                if name in ('__init__', '__new__', '__repr__', '__str__', '__eq__', '__hash__', '__init_subclass__', '__setattr__', '__delattr__'):
                    return [(st, av(('bi', a[2], 'object.' + name)))]
                if any(x[0] == 'ext' and self.models.ext_open(x[1]) for x in self.mro(a[3])):
                    return [(st, TOP)]
                return self.missing(a, name, st, node, default)
            selfatom = a[2] if a[2][0] != 'cls' else None
            if c[0][0] == 'bix':
                return [(st, av(('bi', a[2], ('list:' if c[0][1][1] == 'builtins.list' else c[0][1][1] + ':') + name)))]
            return self.bind(c[0], c[1], c[2], selfatom, a[3], st, node)
        return self.models.attr(a, name, st, node, default)

    def setattr(self, base, name, v, st, node):
        """-> states"""
        name = self.mangle(name, st)
        out = []
        atoms = [a for a in base if a != UNB]
        strong = len(atoms) == 1
        for a in atoms:
            s = st if strong else st
            if a[0] == 'r':
                o = s.get(a[1])
                if o is None:
                    continue
                if o.kind == 'inst':
                    c = self.class_attr(o.cls, name, s)
                    if c is not None and c[0][0] == 'prop':
                        if c[0][2] is None:
                            self.raise_builtin(s.copy(), 'AttributeError', name, node)
                            if strong:
                                return out
                            continue
                        res = self.call(c[0][2], [av(a), v], {}, s if strong else s.copy(), node)
                        if strong:
                            return [x for x, _ in res]
                        out.extend(x for x, _ in res)
                        continue
                    sa = self.class_attr(o.cls, '__setattr__', s)
                    if sa is not None and sa[0][0] == 'fn':
                        res = self.call_fn(sa[0], [av(a), kv(name), v], {}, s if strong else s.copy(), node)
                        if strong:
                            return [x for x, _ in res]
                        out.extend(x for x, _ in res)
                        continue
                self.write_field(s, a[1], name, v, node, strong)
            elif a[0] == 'cls':
                self.write_field(s, ('C', a[1]), name, v, node, strong)
            elif a[0] == 'mod':
                self.write_field(s, ('M', a[1]), name, v, node, strong)
            elif a[0] == 'k' or a[0] in ('t',):
                self.raise_builtin(s.copy(), 'AttributeError', name, node)
                if strong:
                    return []
            elif a[0] in ('ext', 'exti', 'top'):
                self.emit('on_ext_setattr', s, a, name, v, node)
            elif a[0] == 'fn':
                self.emit('on_write_fn', s, a, name, v, node)
        out.append(st)
        return out

    def write_field(self, st, oid, name, v, node, strong=True):
        o = st.get(oid)
        self.stats['writes'] += 1
        self.emit('on_write', st, oid, o, 'attr', name, v, node)
        f = dict(o.fields)
        if o.weak or not strong:
            f[name] = V.join(f[name], v) if name in f else (v if o.weak else v | {UNB})
        else:
            f[name] = v
        st.put(oid, o.upd(fields=f))

    def delattr(self, base, name, st, node):
        name = self.mangle(name, st)
        out = []
        for a in base:
            s = st.copy() if len(base) > 1 else st
            if a[0] == 'r':
                o = s.get(a[1])
                if o is not None and o.kind == 'inst':
                    c = self.class_attr(o.cls, name, s)
                    if c is not None and c[0][0] == 'prop':
                        if c[0][3] is None:
                            self.raise_builtin(s, 'AttributeError', name, node)
                        else:
                            out.extend(x for x, _ in self.call(c[0][3], [av(a)], {}, s, node))
                        continue
                if o is not None:
                    if name not in o.fields and not o.opened:
                        self.raise_builtin(s, 'AttributeError', name, node)
                        continue
                    if UNB in o.fields.get(name, EMPTY):
                        s1 = s.copy()
                        f = dict(o.fields)
                        f.pop(name, None)
                        s1.put(a[1], o.upd(fields=f))
                        self.raise_builtin(s1, 'AttributeError', name, node)
                    self.emit('on_write', s, a[1], o, 'del', name, None, node)
                    f = dict(o.fields)
                    if o.weak:
                        if name in f:
                            f[name] = f[name] | {UNB}
                    else:
                        f.pop(name, None)
                    s.put(a[1], o.upd(fields=f))
            out.append(s)
        return out

    # ------------------------------------------------------------------ subscripts

    def getitem(self, base, key, st, node):
        out = []
        atoms = [a for a in base if a != UNB]
        multi = len(atoms) > 1
        for a in atoms:
            s = st.copy() if multi else st
            if a[0] == 'r':
                o = s.get(a[1])
                if o is not None and o.kind == 'inst':
                    c = self.class_attr(o.cls, '__getitem__', s)
                    if c is not None and c[0][0] == 'fn':
                        out.extend(self.call_fn(c[0], [av(a), key], {}, s, node))
                        continue
                    if c is None:
                        if o.opened:
                            out.append((s, TOP))
                        else:
                            self.raise_builtin(s, 'TypeError', 'not subscriptable', node)
                        continue
            out.extend(self.models.getitem(a, key, s, node))
        return self.norm_results(out, 6) if multi else out

    def setitem(self, base, key, v, st, node):
        out = []
        atoms = [a for a in base if a != UNB]
        multi = len(atoms) > 1
        for a in atoms:
            s = st.copy() if multi else st
            if a[0] == 'r':
                o = s.get(a[1])
                if o is not None and o.kind == 'inst':
                    c = self.class_attr(o.cls, '__setitem__', s)
                    if c is not None and c[0][0] == 'fn':
                        out.extend(x for x, _ in self.call_fn(c[0], [av(a), key, v], {}, s, node))
                        continue
            out.extend(self.models.setitem(a, key, v, s, node))
        return self.norm_states(out, 6) if multi else out

    def delitem(self, base, key, st, node):
        out = []
        atoms = [a for a in base if a != UNB]
        multi = len(atoms) > 1
        for a in atoms:
            s = st.copy() if multi else st
            if a[0] == 'r':
                o = s.get(a[1])
                if o is not None and o.kind == 'inst':
                    c = self.class_attr(o.cls, '__delitem__', s)
                    if c is not None and c[0][0] == 'fn':
                        out.extend(x for x, _ in self.call_fn(c[0], [av(a), key], {}, s, node))
                        continue
            out.extend(self.models.delitem(a, key, s, node))
        return out

    # ------------------------------------------------------------------ calls

    def e_Call(self, n, st):
        # zero argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return self.eval_super(n, st)
        out = []
        for s, fv in self.eval(n.func, st):
            for s1, args, kwargs in self.eval_args(n, s):
                out.extend(self.call(fv, args, kwargs, s1, n))
        return self.norm_results(out)

    def eval_super(self, n, st):
        fr = st.frames[-1]
        if not n.args:
            code = fr.code
            c = code
            while c is not None and c.cls is None:
                c = c.parent
            cls = ('cls', c.cls) if c else None
            args = code.node.args
            pos = args.posonlyargs + args.args
            name = pos[0].arg if pos else (args.vararg.arg if args.vararg else None)
            selfv = fr.vars.get(name, TOP)
            return self.make_super(cls, selfv, st, n)
        out = []
        for s, vs in self.eval_all(n.args, st):
            for ca in vs[0]:
                if ca[0] == 'cls':
                    out.extend(self.make_super(ca, vs[1], s, n))
                else:
                    out.append((s, TOP))
        return out

    def make_super(self, cls, selfv, st, n):
        atoms = []
        for a in selfv:
            if a[0] == 'r':
                o = st.get(a[1])
                if o is not None and o.kind == 'inst':
                    atoms.append(('sup', cls, a, o.cls))
            elif a[0] == 'cls':
                atoms.append(('sup', cls, a, a))
        if not atoms:
            return [(st, TOP)]
        return [(st, frozenset(atoms))]

    def eval_args(self, n, st):
        """[(state, args, kwargs)]; kwargs may hold '**' -> value for unknown ones, args may end with ('*', elem)."""
        cur = [(st, [], {})]
        for a in n.args:
            nxt = []
            for s, args, kw in cur:
                if isinstance(a, ast.Starred):
                    for s1, v in self.eval(a.value, s):
                        for plan, s2 in self.models.iteration(v, s1, a):
                            if plan[0] == 'exact':
                                nxt.append((s2, args + list(plan[1]), kw))
                            else:
                                el = plan[1] if plan[0] == 'elem' else TOP
                                nxt.append((s2, args + [('*', el, plan[2] if plan[0] == 'elem' else 0)], kw))
                else:
                    for s1, v in self.eval(a, s):
                        nxt.append((s1, args + [v], kw))
            cur = nxt
        for kwd in n.keywords:
            nxt = []
            for s, args, kw in cur:
                for s1, v in self.eval(kwd.value, s):
                    kw2 = dict(kw)
                    if kwd.arg is None:
                        for a in v:
                            o = s1.get(a[1]) if a[0] == 'r' else None
                            if o is not None and o.kind == 'dict':
                                for kk, vv in o.kv.items():
                                    if isinstance(kk[1], str):
                                        kw2[kk[1]] = vv
                                if o.kelem:
                                    kw2['**'] = V.join(kw2.get('**', EMPTY), o.velem)
                            elif a != NONE:
                                kw2['**'] = TOP
                    else:
                        kw2[kwd.arg] = v
                    nxt.append((s1, args, kw2))
            cur = nxt
        return cur

    def call(self, fv, args, kwargs, st, node):
        out = []
        atoms = [a for a in fv if a != UNB]
        multi = len(atoms) > 1
        for a in atoms:
            s = st.copy() if multi else st
            out.extend(self.call1(a, list(args), dict(kwargs), s, node))
        return self.norm_results(out) if len(out) > 1 else out

    def call_method(self, base, name, args, kwargs, st, node):
        out = []
        for s, m in self.getattr(base, name, st, node):
            out.extend(self.call(m, args, kwargs, s, node))
        return out

    def call1(self, a, args, kwargs, st, node):
        t = a[0]
        self.stats['calls'] += 1
        if t == 'fn':
            return self.call_fn(a, args, kwargs, st, node)
        if t == 'bm':
            return self.call1(a[2], [av(a[1])] + args, kwargs, st, node)
        if t == 'cls':
            return self.instantiate(a, args, kwargs, st, node)
        if t in ('static',):
            return self.call(a[1], args, kwargs, st, node)
        if t == 'r':
            o = st.get(a[1])
            if o is not None and o.kind == 'inst':
                c = self.class_attr(o.cls, '__call__', st)
                if c is not None and c[0][0] in ('fn', 'clsm', 'static'):
                    out = []
                    for s, m in self.bind(c[0], c[1], c[2], a, o.cls, st, node):
                        out.extend(self.call(m, args, kwargs, s, node))
                    return out
                if o.opened:
                    return [(st, TOP)]
            self.raise_builtin(st, 'TypeError', 'not callable', node)
            return []
        if t == 'exti' and a[1] in self.getters and len(args) == 1:
            return self.getitem(args[0], kv(self.getters[a[1]]), st, node)
        return self.models.call(a, args, kwargs, st, node)

    def instantiate(self, c, args, kwargs, st, node):
        info = self.classes[c[1]]
        r = self.emit_override(info.cid, st, args, kwargs, node, c)
        if r is not None:
            return r
        nw = self.class_attr(c, '__new__', st)
        if nw is not None and nw[0][0] == 'static' or nw is not None and nw[0][0] == 'fn':
            f = nw[0] if nw[0][0] == 'fn' else next(iter(nw[0][1]))
            res = []
            for s, v in self.call_fn(f, [av(c)] + args, kwargs, st, node):
                res.append((s, v))
            created = []
            for s, v in res:
                if any(x[0] == 'r' and s.get(x[1]).cls == c for x in v):
                    created.append((s, v))
                else:
                    created.append((s, v))
            return created
        mro = info.mro
        payload = {}
        if ('ext', 'builtins.list') in mro:
            payload = dict(items=())
        isexc = any(b[0] == 'ext' and b[1].split('.')[-1] in BUILTIN_EXC for b in mro)
        r = self.alloc(st, Obj('inst', cls=c, fields={}, **payload), node, c[1])
        if isexc:
            o = st.get(r[1])
            f = dict(o.fields)
            f['args'] = av(('t', tuple(x for x in args if isinstance(x, frozenset))))
            st.put(r[1], o.upd(fields=f))
        init = self.class_attr(c, '__init__', st)
        if init is not None and init[0][0] == 'fn':
            out = []
            for s, _ in self.call_fn(init[0], [av(r)] + args, kwargs, st, node):
                out.append((s, av(r)))
            return out
        if init is not None and init[0][0] == 'bix' and init[0][1][1] not in ('builtins.object',) and not isexc:
            return [(s, av(r)) for s, _ in self.models.call(('bi', r, self.bixname(init[0])), args, kwargs, st, node)]
        if (args or kwargs) and not isexc and not any(b[0] == 'ext' and b[1] != 'builtins.object' for b in mro):
            self.raise_builtin(st, 'TypeError', '{}() takes no arguments'.format(info.name), node)
            return []
        return [(st, av(r))]

    @staticmethod
    def bixname(x):
        c = x[1][1]
        return ('list:' if c == 'builtins.list' else c + ':') + x[2]

    def emit_override(self, qual, st, args, kwargs, node, a):
        f = self.overrides.get(qual)
        if f is not None:
            r = f(self, st, args, kwargs, node, a)
            if r is not None:
                return r
        return None

    def call_fn(self, a, args, kwargs, st, node):
        code = self.codes[a[1]]
        r = self.emit_override(code.qual, st, args, kwargs, node, a)
        if r is not None:
            return r
        depth = len(st.frames)
        rec = sum(1 for f in st.frames if f.code is code)
        if depth > self.max_depth or rec >= self.max_rec:
            self.emit('on_recursion', st, code, node)
            return [(st, TOP)]
        bound = self.bind_args(code, a, args, kwargs, st, node)
        out = []
        saved = self.ctx
        self.ctx = self.sub_ctx(saved, ('c', id(node), code.cid))
        self.stats['functions'].add(code.qual)
        for s, vars in bound:
            s.frames.append(Frame(code, vars, a[2], node))
            self.emit('on_enter', s, code, vars, node)
            if isinstance(code.node, ast.Lambda):
                rets = self.eval(code.node.body, s)
                normal = []
            else:
                nsink = len(self.sinks[-1])
                flow = self.exec_block(code.node.body, [s])
                rets = flow.ret
                normal = flow.normal
            for s1 in normal:
                rets.append((s1, VNONE))
            if code.is_gen:
                rets = [(s1, s1.frames[-1].vars.get('%yield', av(('t', ())))) for s1, _ in rets]
            for s1, v in rets:
                self.emit('on_exit', s1, code, v, node)
            res = []
            for s1, v in rets:
                s1.frames.pop()
                res.append((s1, v))
            out.extend(res)
        self.ctx = saved
        # exceptions raised inside carry deeper frames: cut them
        for i, (s1, e) in enumerate(self.sinks[-1]):
            if len(s1.frames) > depth:
                self.emit('on_escape', s1, code, e, node)
                del s1.frames[depth:]
        if len(self.sinks[-1]) > 12:
            self.sinks[-1][:] = self.norm_exc(self.sinks[-1])
        return self.norm_results(out, self.maxk)

    def bind_args(self, code, a, args, kwargs, st, node):
        """[(state, vars)]"""
        ar = code.node.args
        pos = ar.posonlyargs + ar.args
        vars = {}
        kw = dict(kwargs)
        unknown = kw.pop('**', None)
        env = st.get(a[2]) if a[2] is not None else None
        extra = []
        star = None
        i = 0
        for x in args:
            if isinstance(x, tuple):
                star = x
                break
            if i < len(pos):
                vars[pos[i].arg] = x
            else:
                extra.append(x)
            i += 1
        if star is not None:
            # unknown number of further arguments
            for p in pos[i:]:
                if p.arg not in kw:
                    d = env.fields.get('default:' + p.arg) if env is not None else None
                    vars[p.arg] = V.join(star[1], d or EMPTY) if not ar.vararg or d is None else V.join(star[1], d)
        if extra and not ar.vararg:
            self.raise_builtin(st, 'TypeError', '{}() got too many arguments'.format(code.name), node)
            return []
        if ar.vararg:
            if star is not None and i >= len(pos):
                vars[ar.vararg.arg] = av(('tt', V.join(star[1], *extra), star[2] + len(extra)))
            elif star is not None:
                vars[ar.vararg.arg] = av(('tt', star[1], 0))
            else:
                vars[ar.vararg.arg] = av(('t', tuple(extra)))
        rest = {}
        names = {p.arg for p in pos} | {p.arg for p in ar.kwonlyargs}
        for name, v in kw.items():
            if name in names:
                if name in vars and star is None and any(p.arg == name for p in pos[:i]):
                    self.raise_builtin(st, 'TypeError', '{}() got multiple values for {}'.format(code.name, name), node)
                    return []
                v2 = v - {UNB}
                if UNB in v:
                    d = env.fields.get('default:' + name) if env is not None else None
                    if d:
                        v2 = V.join(v2, d)
                vars[name] = v2 or TOP
            else:
                rest[name] = v
        if ar.kwarg:
            d = {k(n_): v for n_, v in rest.items()}
            vars[ar.kwarg.arg] = av(self.alloc(st, Obj('dict', kv=d, kelem=STR if unknown else EMPTY, velem=unknown or EMPTY), node, ('kw', code.cid)))
        elif rest:
            self.raise_builtin(st, 'TypeError', '{}() got an unexpected keyword argument {}'.format(code.name, sorted(rest)[0]), node)
            return []
        for p in pos + ar.kwonlyargs:
            if p.arg not in vars:
                d = env.fields.get('default:' + p.arg) if env is not None else None
                if d is not None:
                    vars[p.arg] = V.join(d, unknown) if unknown else d
                elif unknown is not None:
                    vars[p.arg] = unknown
                else:
                    self.raise_builtin(st, 'TypeError', '{}() missing argument {}'.format(code.name, p.arg), node)
                    return []
        return [(st, vars)]

    # ------------------------------------------------------------------ scenario API

    def find_function(self, qual):
        """Function atom for 'module.func' or 'module.Class.method' (as seen in the base state)."""
        st = State(self.base)
        mod, name = qual.rsplit('.', 1)
        if mod in self.sources:
            m = st.get(('M', mod))
            if m is None or name not in m.fields:
                raise AnalysisError('anchor {} not found'.format(qual))
            return next(iter(m.fields[name]))
        cls = st.get(('C', mod))
        if cls is None:
            raise AnalysisError('anchor class {} not found'.format(mod))
        c = self.class_attr(('cls', mod), name, st)
        if c is None:
            raise AnalysisError('anchor {} not found'.format(qual))
        return c[0]

    def isinst_cls(self, c, t):
        return self.cls_subclass(c, t)

    def run_call(self, fv, args, kwargs, st):
        """Run a call from a scenario: (results [(state, value)], raised [(state, exc)])."""
        node = ast.Pass(lineno=0, col_offset=0)
        return self._run(lambda: self.call(fv, args, kwargs, st, self._scn_node(node)))

    def _scn_node(self, node):
        if not hasattr(self, '_scn'):
            self._scn = []
        self._scn.append(node)     # keep alive: ids are allocation keys
        return node

    def _run(self, f):
        self.sinks.append([])
        saved_ctx = self.ctx
        try:
            res = f()
        finally:
            sink = self.sinks.pop()
            self.ctx = saved_ctx
        return res, self.norm_exc(sink)

    def exc_name(self, exc, st):
        c = self.exc_class(exc, st)
        return c[1].split('.')[-1]

    def exc_msg(self, exc, st):
        args = exc[2] if exc[0] == 'x' else ()
        if exc[0] == 'r':
            o = st.get(exc[1])
            v = o.fields.get('args') if o is not None else None
            for a in v or ():
                if a[0] == 't':
                    args = a[1]
        return ', '.join(V.show(x) for x in args)
