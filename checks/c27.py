"""C27: no branch fails for a name, an attribute, an argument or a placeholder which is not there."""
import ast
import builtins
import string
from tsa.check import *

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__class__', '__path__', 'WindowsError'}
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def params(fn):
    a = fn.args
    return [x.arg for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def names_in(t):
    """The names bound by a target."""
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def bound_by(s):
    """The names a single statement binds (not those of the statements in it)."""
    out = set()
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        return {s.name}
    if isinstance(s, (ast.Import, ast.ImportFrom)):
        return {(a.asname or a.name).split('.')[0] for a in s.names}
    heads = head(s)
    for h in heads:
        for n in walk(h):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.NamedExpr):
                out.add(n.target.id)
    if isinstance(s, ast.Match) if hasattr(ast, 'Match') else False:
        for n in ast.walk(s):
            if getattr(n, 'name', None) and isinstance(n, (ast.MatchAs, ast.MatchStar)):
                out.add(n.name)
    return out


def head(s):
    """The expressions of a statement itself."""
    if isinstance(s, (ast.If, ast.While)):
        return [s.test]
    if isinstance(s, (ast.For, ast.AsyncFor)):
        return [s.iter, s.target]
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return [x for i in s.items for x in (i.context_expr, i.optional_vars) if x is not None]
    if isinstance(s, ast.Try):
        return []
    if isinstance(s, ast.ClassDef):
        return list(s.bases) + [k.value for k in s.keywords] + list(s.decorator_list)
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return list(s.args.defaults) + [d for d in s.args.kw_defaults if d is not None] + list(s.decorator_list)
    if hasattr(ast, 'Match') and isinstance(s, ast.Match):
        return [s.subject]
    return [s]


def walk(x):
    """An expression, but for the bodies of lambdas and comprehensions, which have names of their own."""
    stack = [x]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, ast.Lambda):
            stack += list(n.args.defaults) + [d for d in n.args.kw_defaults if d is not None]
        elif isinstance(n, COMPS):
            stack.append(n.generators[0].iter)
        else:
            stack += list(ast.iter_child_nodes(n))


def inner_uses(x):
    """Names loaded in the lambdas and comprehensions of an expression which are not of their own."""
    for n in ast.walk(x):
        if isinstance(n, ast.Lambda):
            own = set(params(n))
            yield from (m for m in ast.walk(n.body) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load) and m.id not in own and m.id not in comp_names(x))
        elif isinstance(n, COMPS):
            own = comp_names(x) | lambda_names(x)
            yield from (m for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load) and m.id not in own)


def comp_names(x):
    return {i for n in ast.walk(x) if isinstance(n, COMPS) for g in n.generators for i in names_in(g.target)}


def lambda_names(x):
    return {i for n in ast.walk(x) if isinstance(n, ast.Lambda) for i in params(n)}


class Flow(object):
    """Which of its names a function has surely bound wherever it reads them. Loops are taken to be gone through at least once."""

    def __init__(self, fn):
        self.local, self.other = set(params(fn)), set()
        for s in each(fn.body):
            self.local |= bound_by(s)
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                self.other |= set(s.names)
            for h in getattr(s, 'handlers', []) or []:
                if h.name:
                    self.local.add(h.name)
        self.local -= self.other
        self.reads, self.unbound = 0, []
        self.given, self.sets, self.loops = {}, {}, []
        for s in each(fn.body):
            below = [s] if not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)) else []
            for v in bound_by(s) if below and isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and s.value is not None else ():
                self.sets.setdefault(v, set()).update(vars_of(s.value))
            if isinstance(s, (ast.If, ast.For, ast.While)):
                for t in each(s.body + s.orelse):
                    if isinstance(t, ast.Assign):
                        for v in bound_by(t):
                            self.sets.setdefault(v, set()).update(vars_of(s.test if not isinstance(s, ast.For) else s.iter))
        self.end = self.block(fn.body, set(params(fn)), [])

    def use(self, x, have, under):
        for n in list(walk(x)) + list(inner_uses(x)):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.local:
                self.reads += 1
                if n.id not in have:
                    if any(n.id in sets_ and len(under) > depth for sets_, depth in self.loops):
                        self.given.setdefault(n.id, []).append((None, set()))      # another iteration may have set it
                    self.unbound.append((n, list(under)))
                    have.add(n.id)      # it failed here otherwise

    def block(self, stmts, have, under):
        """The names bound at the end, or None when it is not reached."""
        under = list(under)
        for s in stmts:
            if have is None:
                return None
            have = self.stmt(s, have, under)
            if isinstance(s, ast.If) and (gone(s.body) or gone(s.orelse)):
                under.append((s.test,))
        return have

    @staticmethod
    def join(xs):
        xs = [x for x in xs if x is not None]
        return set.intersection(*xs) if xs else None

    def stmt(self, s, have, under):
        for h in head(s):
            self.use(h, have, under)
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in self.local and s.target.id not in have:
            self.unbound.append((s.target, list(under)))
        have = have | bound_by(s) if not isinstance(s, ast.Delete) else have - set().union(*[names_in(t) for t in s.targets])
        if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
            return None
        if isinstance(s, ast.If):
            a = self.block(s.body, have, under + [s.test])
            b = self.block(s.orelse, have, under + [s.test])
            if isinstance(s.test, ast.Constant):
                return a if s.test.value else b
            if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                # Alternatives with no last one: what is not there is taken to be not possible, if all of them set a name
                last, ends = s, [a]
                while len(last.orelse) == 1 and isinstance(last.orelse[0], ast.If):
                    last = last.orelse[0]
                    ends.append(have | self.everything(last.body) if not gone(last.body) else None)
                if not last.orelse:
                    for v in (self.join(ends) or set()) - have:
                        self.given.setdefault(v, []).append((None, set()))
            for v in (a or set()) ^ (b or set()) if a is not None and b is not None else ():
                self.given.setdefault(v, []).append((s.test, (a if v in a else b) - (b if v in a else a)))
            return self.join([a, b])
        if isinstance(s, ast.While):
            self.loops.append((self.everything(s.body), len(under) + 1))
            end = self.block(s.body, have, under + [s.test])
            self.loops.pop()
            if isinstance(s.test, ast.Constant) and s.test.value:
                return have | self.breaks(s.body, have) if has_break(s.body) else None
            out = have if end is None else end
            if s.orelse:
                out = self.block(s.orelse, out, under)
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.loops.append((self.everything(s.body), len(under)))
            end = self.block(s.body, have, under)
            self.loops.pop()
            out = have | self.everything(s.body) if end is None else end | self.everything_given(s.body, end)
            if s.orelse:
                o = self.block(s.orelse, out, under)
                return o if not has_break(s.body) else out if o is None else o & out
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.block(s.body, have, under)
        if isinstance(s, ast.Try):
            was = len(self.unbound)
            a = self.block(s.body, set(have), under)
            if any(h.type is None or any(isinstance(e, ast.Name) and e.id in ('NameError', 'UnboundLocalError', 'Exception', 'BaseException') for e in ast.walk(h.type)) for h in s.handlers):
                del self.unbound[was:]
            if a is not None and s.orelse:
                a = self.block(s.orelse, a, under)
            outs = [a]
            for h in s.handlers:
                b = self.block(h.body, have | ({h.name} if h.name else set()), under)
                if b is not None and h.name:
                    b = b - {h.name} | ({h.name} & have)
                outs.append(b)
            out = self.join(outs)
            if s.finalbody:
                f = self.block(s.finalbody, out if out is not None else have, under)
                return None if out is None else f
            return out
        if hasattr(ast, 'Match') and isinstance(s, ast.Match):
            outs = [self.block(c.body, have, under + [s.subject]) for c in s.cases]
            return self.join(outs + [have])
        return have

    def everything(self, stmts):
        return set().union(*[bound_by(x) for x in each(stmts)]) if stmts else set()

    def everything_given(self, stmts, end):
        """Names bound in some iterations only: which ones is not known here."""
        return self.everything(stmts)

    def breaks(self, stmts, have):
        return self.everything(stmts)


def gone(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def has_break(stmts):
    for s in stmts:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While) + SCOPES):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if has_break(getattr(s, f, []) or []):
                return True
        for h in getattr(s, 'handlers', []) or []:
            if has_break(h.body):
                return True
    return False


def each(stmts):
    """The statements of a scope, but for those of the ones defined in it."""
    for s in stmts:
        yield s
        if isinstance(s, SCOPES):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            yield from each(getattr(s, f, []) or [])
        for h in getattr(s, 'handlers', []) or []:
            yield from each(h.body)
        for c in getattr(s, 'cases', []) or []:
            yield from each(c.body)


def loads(fn):
    for s in each(fn.body):
        for h in head(s):
            for n in list(walk(h)) + list(inner_uses(h)):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    yield n


def vars_of(test):
    return {ast.unparse(n) for n in ast.walk(test) if isinstance(n, (ast.Name, ast.Attribute))} if test is not None else set()


def roots(names, sets):
    """Names, and those which what they are set to depends on."""
    out, todo = set(names), list(names)
    while todo:
        for x in sets.get(todo.pop(), ()):
            if x not in out:
                out.add(x)
                todo.append(x)
    return out


def correlated(v, under, flow):
    """Whether what tells if a name is bound may be told by what is tested before reading it."""
    tested = roots(set().union(*[vars_of(t) for t in under if not isinstance(t, tuple)]), flow.sets) if under else set()
    before = set().union(*[vars_of(t[0]) for t in under if isinstance(t, tuple)]) if under else set()
    for test, with_it in flow.given.get(v, []):
        if test is not None and (vars_of(test) & before or with_it & before):
            return True
        if test is None or roots(vars_of(test), flow.sets) & tested or with_it & tested:
            return True
    return False


def placeholders(text):
    """(positional placeholders, names) of a format string, or None."""
    try:
        pos, auto, names = 0, 0, set()
        for _, field, spec, _ in string.Formatter().parse(text):
            if field is None:
                continue
            root = field.split('.')[0].split('[')[0]
            if root == '':
                auto += 1
            elif root.isdigit():
                pos = max(pos, int(root) + 1)
            else:
                names.add(root)
            if spec and '{' in spec:
                return None
        return max(pos, auto), names
    except ValueError:
        return 'malformed'


def percents(text):
    import re
    t = text.replace('%%', '')
    if re.search(r'%\(', t) or '*' in t:
        return None
    return len(re.findall(r'%[-+ #0]*\d*(?:\.\d+)?[sdrfgeixXoc]', t))


class Classes(object):
    """The classes of the library, their bases and what their objects and themselves have."""

    def __init__(self, trees):
        self.all = {}
        for mod, tree in trees.items():
            for c in [x for x in ast.walk(tree) if isinstance(x, ast.ClassDef)]:
                self.all.setdefault(c.name, []).append((mod, c))
        self.subs = {}
        for name, cs in self.all.items():
            for _, c in cs:
                for b in c.bases:
                    self.subs.setdefault(base(b), set()).add(name)
        # Attributes set on whatever object, anywhere
        self.anywhere = set()
        for tree in trees.values():
            for n in ast.walk(tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.anywhere.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.anywhere.add(n.args[1].value)
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.anywhere.add(n.name)

    def mro(self, name, seen=None):
        """(names of the classes an object may be of, whether some is not known)"""
        seen = seen if seen is not None else set()
        if name in seen:
            return seen, False
        if name not in self.all:
            return seen, name != 'object'
        seen.add(name)
        unknown = False
        for _, c in self.all[name]:
            for b in c.bases:
                unknown |= self.mro(base(b), seen)[1]
            if c.keywords:
                unknown = True
        return seen, unknown

    def has(self, name):
        out = set()
        for _, c in self.all[name]:
            for s in each(c.body):
                out |= bound_by(s)
            for n in ast.walk(c):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'hasattr', 'getattr') and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
                    elif n.func.id == 'setattr':
                        out.add('*')
                if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    out.add('*')
            if '__getattr__' in out or '__slots__' in out:
                out.add('*')
        return out

    def family(self, name):
        """The classes an object handled by the methods of a class may be of: itself, its bases, those which inherit from it."""
        up, unknown = self.mro(name)
        out, todo = set(up), [name]
        while todo:
            for x in self.subs.get(todo.pop(), ()):
                if x not in out:
                    out |= self.mro(x)[0]
                    unknown |= self.mro(x)[1]
                    todo.append(x)
        return out, unknown


def base(b):
    return b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else '?'


def defined(tree, prefix=''):
    """(name, function, class it is of, functions it is in) of a module."""
    def go(stmts, prefix, cls, outer):
        for x in each(stmts):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield prefix + x.name, x, cls, outer
                yield from go(x.body, prefix + x.name + '.', cls if cls else None, outer + [x])
            elif isinstance(x, ast.ClassDef):
                yield from go(x.body, prefix + x.name + '.', x, outer)
    yield from go(tree.body, prefix, None, [])


def accepts(fn, call, bound):
    """Why a function cannot be called like this, or None."""
    a = fn.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args][1 if bound else 0:]
    given = len(call.args)
    if given > len(pos) and not a.vararg:
        return 'takes {} arguments, {} are given'.format(len(pos), given)
    taken = set(pos[:given])
    for k in call.keywords:
        if k.arg in taken:
            return 'is given "{}" twice'.format(k.arg)
        if k.arg not in pos and k.arg not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return 'has no argument "{}"'.format(k.arg)
        taken.add(k.arg)
    needed = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    missing = [x for x in needed if x not in taken] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in taken]
    if missing:
        return 'is not given "{}"'.format(missing[0])
    return None


def run(chk):
    chk.rule('names', 'a name read by a function is bound in it on every path there, or defined in its module or in the language', 300)
    chk.rule('attributes', 'an attribute read on self is one which the class, its bases or those inheriting from it define or set', 150)
    chk.rule('calls', 'a function or method of the library is called with arguments it has, and all of those it needs', 50)
    chk.rule('messages', 'a text is formatted with as many values as its placeholders', 80)
    chk.assumptions.append('Loops setting names read after them are gone through at least once; methods are those of the classes of the library.')
    I = chk.interp()
    trees = {m: I.tree(m) for m in sorted(I.sources) if m.startswith('timeseria') and '.tests' not in m and 'probe__' not in m}
    C = Classes(trees)
    for mod, tree in trees.items():
        short = mod.replace('timeseria.', '')
        top, star = set(), False
        for s in each(tree.body):
            top |= bound_by(s)
            star |= isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names)
            for h in getattr(s, 'handlers', []) or []:
                if h.name:
                    top.add(h.name)
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                top |= set(n.names)
        functions = {x.name: x for x in tree.body if isinstance(x, ast.FunctionDef)}
        rebound = {}
        for s in each(tree.body):
            for v in bound_by(s):
                rebound[v] = rebound.get(v, 0) + 1
        imported = {}
        for s in each(tree.body):
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    imported[a.asname or a.name] = (resolve(mod, s), a.name)
        for name, fn, cls, outer in defined(tree):
            con = '{}.{}'.format(short, name)
            with chk.guard('names', con):
                names(chk, con, fn, outer, top, star)
            with chk.guard('attributes', con):
                attributes(chk, con, fn, cls, outer, C)
            with chk.guard('calls', con):
                calls(chk, con, fn, cls, outer, C, functions, rebound, imported, trees)
            with chk.guard('messages', con):
                messages(chk, con, fn)


def resolve(mod, s):
    if not s.level:
        return s.module
    parts = mod.split('.')
    parts = parts[:len(parts) - s.level]
    return '.'.join(parts + ([s.module] if s.module else []))


def names(chk, con, fn, outer, top, star):
    flow = Flow(fn)
    enclosing = set().union(*[Flow(o).local for o in outer]) if outer else set()
    bad, maybe = [], []
    for n in loads(fn):
        if n.id not in flow.local and n.id not in enclosing and n.id not in top and n.id not in BUILTINS:
            (maybe if star else bad).append('line {}: "{}" is not defined'.format(n.lineno, n.id))
    for n, under in flow.unbound:
        (maybe if correlated(n.id, under, flow) else bad).append('line {}: "{}" may not be set yet'.format(n.lineno, n.id))
    if not bad and maybe:
        chk.undecided('names', con, '; '.join(sorted(set(maybe))[:3]))
    else:
        chk.ok('names', con, not bad, '; '.join(sorted(set(bad))[:3]))


def self_of(fn, cls):
    if cls is None or not fn.args.args:
        return None
    if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in fn.decorator_list):
        return None
    return fn.args.args[0].arg


def attributes(chk, con, fn, cls, outer, C):
    if outer or cls is None:
        return
    me = self_of(fn, cls)
    if me != 'self':
        return
    family, unknown = C.family(cls.name)
    have = set().union(*[C.has(x) for x in family])
    reads = [n for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me]
    if not reads:
        return
    caught = {id(n) for t in ast.walk(fn) if isinstance(t, ast.Try) and any(h.type is None or any(isinstance(e, ast.Name) and e.id in ('AttributeError', 'Exception', 'BaseException') for e in ast.walk(h.type)) for h in t.handlers)
              for b in t.body for n in ast.walk(b)}
    bad = [n for n in reads if n.attr not in have and id(n) not in caught and not n.attr.startswith('__')]
    if unknown or '*' in have:
        bad_sure = [n for n in bad if n.attr.startswith('_') and n.attr not in C.anywhere and '*' not in have]
        if bad and not bad_sure:
            chk.undecided('attributes', con, 'line {}: "{}" may be of a base which is not of the library'.format(bad[0].lineno, bad[0].attr))
            return
        bad = bad_sure
    elif bad and all(n.attr in C.anywhere for n in bad):
        chk.undecided('attributes', con, 'line {}: "{}" is set by others'.format(bad[0].lineno, bad[0].attr))
        return
    chk.ok('attributes', con, not bad, '; '.join('line {}: "{}" is never set'.format(n.lineno, n.attr) for n in bad[:3]))


def calls(chk, con, fn, cls, outer, C, functions, rebound, imported, trees):
    local = Flow(fn).local | (set().union(*[Flow(o).local for o in outer]) if outer else set())
    n_, bad = 0, []
    for c in ast.walk(fn):
        if not isinstance(c, ast.Call):
            continue
        f, bound, what = None, False, None
        if isinstance(c.func, ast.Name) and c.func.id not in local:
            what = c.func.id
            if what in functions and rebound.get(what) == 1:
                f = functions[what]
            elif what in imported and rebound.get(what) == 1 and imported[what][0] in trees:
                fs = [x for x in trees[imported[what][0]].body if isinstance(x, ast.FunctionDef) and x.name == imported[what][1]]
                f = fs[0] if len(fs) == 1 else None
            if f is not None and f.decorator_list:
                f = None
        elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == 'self' and cls is not None and self_of(fn, cls) == 'self':
            what = 'self.' + c.func.attr
            family, unknown = C.family(cls.name)
            fs = [s for x in family for _, k in C.all[x] for s in k.body if isinstance(s, ast.FunctionDef) and s.name == c.func.attr]
            stored = any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == c.func.attr for x in family for _, k in C.all[x] for n in ast.walk(k))
            if fs and not unknown and not stored and not any(g.decorator_list for g in fs):
                n_ += 1
                whys = [accepts(g, c, True) for g in fs]
                if all(whys):
                    bad.append('line {}: {} {}'.format(c.lineno, what, whys[0]))
            continue
        if f is not None:
            n_ += 1
            why = accepts(f, c, bound)
            if why:
                bad.append('line {}: {}() {}'.format(c.lineno, what, why))
    if n_:
        chk.ok('calls', con, not bad, '; '.join(bad[:3]))


def messages(chk, con, fn):
    n_, bad = 0, []
    for c in ast.walk(fn):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'format' and isinstance(c.func.value, ast.Constant) and isinstance(c.func.value.value, str):
            if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
                continue
            p = placeholders(c.func.value.value)
            if p is None:
                continue
            n_ += 1
            if p == 'malformed':
                bad.append('line {}: the text is malformed'.format(c.lineno))
            elif p[0] > len(c.args):
                bad.append('line {}: {} placeholders, {} values'.format(c.lineno, p[0], len(c.args)))
            elif p[1] - {k.arg for k in c.keywords}:
                bad.append('line {}: no value for "{}"'.format(c.lineno, sorted(p[1] - {k.arg for k in c.keywords})[0]))
        elif isinstance(c, ast.BinOp) and isinstance(c.op, ast.Mod) and isinstance(c.left, ast.Constant) and isinstance(c.left.value, str) and isinstance(c.right, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in c.right.elts):
                continue
            p = percents(c.left.value)
            if p is not None:
                n_ += 1
                if p != len(c.right.elts):
                    bad.append('line {}: {} placeholders, {} values'.format(c.lineno, p, len(c.right.elts)))
        elif isinstance(c, ast.BinOp) and isinstance(c.op, (ast.Add,)) and isinstance(c.left, ast.Constant) and isinstance(c.left.value, str) \
                and isinstance(c.right, ast.Constant) and not isinstance(c.right.value, str):
            n_ += 1
            bad.append('line {}: a text and a number are added'.format(c.lineno))
    if n_:
        chk.ok('messages', con, not bad, '; '.join(bad[:3]))
