"""C26: every iteration of a loop makes progress towards one of its exits."""
import ast
from tsa.check import *

CONSUME = ('readline', 'read', 'readlines', 'pop', 'popleft', 'popitem', 'get_nowait', 'recv', 'send', '__next__')
GROW = ('append', 'insert', 'extend', 'add', 'setdefault', 'update', 'appendleft')
COPIES = ('list', 'tuple', 'sorted', 'copy', 'deepcopy', 'set', 'reversed_copy', 'dict', 'range')


def dotted(x):
    """The dotted name of an expression, or None."""
    if isinstance(x, ast.Name):
        return x.id
    if isinstance(x, ast.Attribute):
        b = dotted(x.value)
        return b and b + '.' + x.attr
    return None


def mentioned(x):
    """The variables an expression depends on."""
    out = set()
    if x is None:
        return out
    for n in ast.walk(x):
        if isinstance(n, (ast.Name, ast.Attribute)):
            d = dotted(n)
            if d:
                out.add(d)
                while '.' in d:
                    d = d.rsplit('.', 1)[0]
                    out.add(d)
    return out


def own(stmts):
    """The statements of a loop, but for those of the functions defined in it."""
    for s in stmts:
        yield s
        for f in ('body', 'orelse', 'finalbody'):
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                yield from own(getattr(s, f, []) or [])
        for h in getattr(s, 'handlers', []) or []:
            yield from own(h.body)


def leaves(stmts, inner=False):
    """Whether there is a statement leaving the loop in some others."""
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise)) or isinstance(s, ast.Break) and not inner:
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        deep = inner or isinstance(s, (ast.For, ast.While))
        for f in ('body', 'orelse', 'finalbody'):
            if leaves(getattr(s, f, []) or [], deep and f == 'body'):
                return True
        for h in getattr(s, 'handlers', []) or []:
            if leaves(h.body, inner):
                return True
    return False


def targets(s):
    """[(variable, expression assigned)] of a statement."""
    out = []
    if isinstance(s, ast.Assign):
        for t in s.targets:
            if isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(t.elts):
                    out += [(dotted(a), b) for a, b in zip(t.elts, s.value.elts)]
                else:
                    out += [(dotted(a), s.value) for a in t.elts]
            else:
                out.append((dotted(t), s.value))
    elif isinstance(s, ast.AnnAssign) and s.value is not None:
        out.append((dotted(s.target), s.value))
    elif isinstance(s, ast.AugAssign):
        out.append((dotted(s.target), ast.BinOp(ast.Name(dotted(s.target) or '?', ast.Load()), s.op, s.value)))
    for n in ast.walk(s) if not isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With, ast.FunctionDef, ast.ClassDef)) else ast.walk(getattr(s, 'test', None) or ast.Pass()):
        if isinstance(n, ast.NamedExpr):
            out.append((dotted(n.target), n.value))
    return [(a, b) for a, b in out if a]


def consuming(x):
    """Whether an expression takes from something which ends."""
    for n in ast.walk(x):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in CONSUME or isinstance(n.func, ast.Name) and n.func.id == 'next':
                return True
    return False


class Must(object):
    """Whether all the ways from the beginning of the body of a loop back to it go through one of some statements."""

    def __init__(self, marks):
        self.marks = marks

    def block(self, stmts, done):
        """(state at the end or None if it is never reached, states at the continues)"""
        back = []
        for s in stmts:
            if done is None:
                break
            done, b = self.stmt(s, done)
            back += b
        return done, back

    @staticmethod
    def join(*xs):
        xs = [x for x in xs if x is not None]
        return all(xs) if xs else None

    def stmt(self, s, done):
        if id(s) in self.marks:
            done = True
        if isinstance(s, (ast.Return, ast.Raise, ast.Break)):
            return None, []
        if isinstance(s, ast.Continue):
            return None, [done]
        if isinstance(s, ast.If):
            c = const(s.test)
            a, x = self.block(s.body, done) if c is not False else (None, [])
            b, y = self.block(s.orelse, done) if c is not True else (None, [])
            return self.join(a, b), x + y
        if isinstance(s, (ast.For, ast.While)):
            # Its own breaks and continues are not those of this loop
            sure = isinstance(s, ast.While) and const(s.test) is True
            end, _ = self.block(s.body, done)
            return (self.join(end, done) if not sure else done), []
        if isinstance(s, ast.With):
            return self.block(s.body, done)
        if isinstance(s, ast.Try):
            a, x = self.block(s.body, done)
            if a is not None and s.orelse:
                a, y = self.block(s.orelse, a)
                x = x + y
            outs = [a]
            for h in s.handlers:
                b, y = self.block(h.body, done)
                outs.append(b)
                x = x + y
            out = self.join(*outs)
            if s.finalbody:
                f, y = self.block(s.finalbody, out if out is not None else done)
                x = x + y
                if any(id(z) in self.marks for z in s.finalbody):
                    x = [True] * len(x)
                out = f if out is not None else None
            return out, x
        return done, []


def const(test):
    if isinstance(test, ast.Constant):
        return bool(test.value)
    return None


def every(body, marks):
    end, back = Must(marks).block(body, False)
    xs = [x for x in [end] + back if x is not None]
    return all(xs)


def loops_back(body):
    end, back = Must(set()).block(body, False)
    return end is not None or bool(back)


def bare(t):
    """The flags of a test which is made of them only."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return bare(t.operand)
    if isinstance(t, ast.BoolOp):
        xs = [bare(x) for x in t.values]
        return set().union(*xs) if all(xs) else set()
    return {dotted(t)} if dotted(t) else set()


def conjuncts(t):
    """The variables of a test which can make it false on their own."""
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
        return set().union(*[conjuncts(x) for x in t.values])
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
        out = conjuncts(t.values[0])
        for x in t.values[1:]:
            out &= conjuncts(x)
        return out
    return mentioned(t)


def directions(x, v):
    """The sign of the change of a variable, if it can be told: 1, -1, 0 or None."""
    if isinstance(x, ast.Name) or isinstance(x, ast.Attribute):
        return 0 if dotted(x) == v else None
    if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub)):
        sign = 1 if isinstance(x.op, ast.Add) else -1
        d = x.right if dotted(x.left) == v else x.left if dotted(x.right) == v and sign == 1 else None
        if d is None:
            return None
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub):
            d, sign = d.operand, -sign
        if isinstance(d, ast.Constant) and isinstance(d.value, (int, float)):
            return 0 if d.value == 0 else sign if d.value > 0 else -sign
        if isinstance(d, (ast.Name, ast.Attribute)):
            # Units and steps are positive
            return sign
    return None


def wrong_way(test, v, sign):
    """Whether a variable moves away from what makes a test false."""
    for c in ast.walk(test):
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            l, r, op = mentioned(c.left), mentioned(c.comparators[0]), c.ops[0]
            if v in l and v not in r and directly(c.left, v):
                if isinstance(op, (ast.Lt, ast.LtE)) and sign < 0 or isinstance(op, (ast.Gt, ast.GtE)) and sign > 0:
                    return True
            elif v in r and v not in l and directly(c.comparators[0], v):
                if isinstance(op, (ast.Lt, ast.LtE)) and sign > 0 or isinstance(op, (ast.Gt, ast.GtE)) and sign < 0:
                    return True
    return False


def directly(x, v):
    """The variable itself, or a conversion of it."""
    if isinstance(x, ast.Call) and len(x.args) == 1:
        return directly(x.args[0], v)
    return dotted(x) == v


def equality_only(test, v):
    cs = [c for c in ast.walk(test) if isinstance(c, ast.Compare) and (v in mentioned(c))]
    return bool(cs) and all(all(isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in c.ops) for c in cs)


def judge(loop, test):
    """What makes a loop end: (None, how) or (why it may not, None)."""
    body = loop.body
    if not loops_back(body):
        return None, 'never goes back to its beginning'
    if consuming(test):
        return None, 'its condition takes from something which ends'
    stmts = list(own(body))
    # Going back with a flag which ends the loop set is not going on
    flags = bare(test)
    free = {id(c) for s in stmts if isinstance(s, ast.If) and flags and bare(s.test) and bare(s.test) <= flags for c in list(own(s.body)) + list(own(s.orelse)) if isinstance(c, ast.Continue)}
    guards = [s for s in stmts if isinstance(s, ast.If) and (leaves(s.body) or leaves(s.orelse))]
    assigned = {}
    for s in stmts:
        for v, x in targets(s):
            assigned.setdefault(v, []).append((s, x))
    # What each variable depends on, through the others which are set in the loop
    dep = {v: set().union(*[mentioned(x) for _, x in xs]) for v, xs in assigned.items()}
    changed = True
    while changed:
        changed = False
        for v in dep:
            more = set().union(*[dep[w] for w in dep[v] if w in dep], dep[v])
            if more != dep[v]:
                dep[v], changed = more, True
    moved = moving(body, assigned, dep, free)
    unknown = [s for s in stmts if isinstance(s, (ast.Expr, ast.Assign)) and may_raise(s, moved)]
    exits = []
    if const(test) is not True:
        for v in conjuncts(test):
            exits.append((v, test, None))
    for g in guards:
        for v in mentioned(g.test):
            exits.append((v, g.test, g))
    if not exits:
        if any(isinstance(s, ast.Try) and any(leaves(h.body) for h in s.handlers) for s in stmts) or any(isinstance(s, ast.Try) for s in own([loop])):
            return None, 'left by an exception'
        if unknown:
            return 'may', 'it may be left by an exception of what is called'
        return 'there is no way out of it', None
    why = []
    for v in sorted({e[0] for e in exits}):
        tests = [e[1:] for e in exits if e[0] == v]
        on_test = any(g is None for _, g in tests)
        if not on_test:
            gs = {id(g) for t, g in tests if not all_equal(t, v)} or {id(g) for _, g in tests}
            if not every(body, free | gs):
                why.append('"{}" is not looked at on every iteration'.format(v))
                continue
        marks, takes, signs = set(), False, set()
        for s, x in assigned.get(v, []):
            if consuming(x):
                takes = True
                marks.add(id(s))
            elif v in mentioned(x) or any(v in dep.get(w, ()) for w in mentioned(x)):
                d = directions(x, v)
                if d == 0:
                    continue
                signs.add(d)
                marks.add(id(s))
            elif any(consuming(y) for w in mentioned(x) for _, y in assigned.get(w, [])):
                takes = True
                marks.add(id(s))
            elif mentioned(x) & moved - {v}:
                signs.add(None)
                marks.add(id(s))
        for s in stmts:
            if isinstance(s, (ast.Expr, ast.Assign)):
                for n in ast.walk(s.value):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CONSUME + GROW + ('remove', 'clear', 'seek') and (dotted(n.func.value) or '').split('[')[0] == v:
                        takes = True
                        marks.add(id(s))
            if isinstance(s, ast.Delete) and any(v in mentioned(t) for t in s.targets):
                takes = True
                marks.add(id(s))
        more = marks | {id(s) for s in stmts if may_change(s, v, [t for t, _ in tests])}
        if more != marks and not every(body, free | marks) and every(body, free | more):
            return 'may', '"{}" may be changed by what is called'.format(v)
        if not marks:
            why.append('"{}" is never changed from what it was'.format(v))
            continue
        if not every(body, free | marks):
            why.append('"{}" is not changed on every way back'.format(v))
            continue
        if not takes:
            if on_test and signs and None not in signs and all(wrong_way(test, v, x) for x in signs) and len(tests) == 1:
                why.append('"{}" moves away from the exit'.format(v))
                continue
            if all(all_equal(t, v) for t, _ in tests) and None not in signs:
                why.append('"{}" is only compared for being equal, and may step over it'.format(v))
                continue
        return None, '"{}" {} on every way back'.format(v, 'takes from something which ends' if takes else 'is moved')
    if unknown:
        return 'may', 'it may be left by an exception of what is called'
    return '; '.join(why) or 'nothing changes', None


def moving(body, assigned, dep, free):
    """The variables which move on every way back, on their own or with others which do."""
    out = set()
    changed = True
    while changed:
        changed = False
        for v in set(assigned) - out:
            marks = set()
            for s, x in assigned[v]:
                d = directions(x, v)
                if consuming(x) or v in mentioned(x) and d != 0 or any(v in dep.get(w, ()) for w in mentioned(x) - {v}) or (mentioned(x) & out - {v}):
                    marks.add(id(s))
            if marks and every(body, free | marks):
                out.add(v)
                changed = True
    return out


def may_raise(s, moved):
    """Whether a statement calls a function of its own with something which moves."""
    for n in ast.walk(s.value):
        if isinstance(n, ast.Call):
            f = dotted(n.func) or ''
            if f.split('.')[0] in ('logger', 'logging') or f in BUILTIN or isinstance(n.func, ast.Attribute) and n.func.attr in GROW + CONSUME + ('format',):
                continue
            if f[:1] and f.split('.')[-1] in CONVERT:
                continue
            if any(mentioned(a) & moved for a in list(n.args) + [k.value for k in n.keywords]):
                return True
    return False


BUILTIN = ('print', 'str', 'len', 'round', 'int', 'float', 'abs', 'min', 'max', 'isinstance', 'list', 'tuple', 'set', 'dict', 'sorted', 'sum', 'range', 'repr', 'type')
CONVERT = ('s_from_dt', 'dt_from_s', 'str_from_dt', 's_from_str', 'dt_from_str', 'as_tz', 'timedelta', 'TimePoint', 'DataTimePoint', 'TimeSlot', 'DataTimeSlot')


def may_change(s, v, tests):
    """Whether a statement calls something which may change what a variable is."""
    if not isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)):
        return False
    number = any(isinstance(c, ast.Compare) and any(dotted(x) == v for x in [c.left] + c.comparators) and not all(isinstance(o, (ast.In, ast.NotIn)) for o in c.ops) for t in tests for c in ast.walk(t))
    for n in ast.walk(s.value):
        if isinstance(n, ast.Call):
            f = dotted(n.func) or ''
            if f.split('.')[0] in ('logger', 'logging', 'print', 'str', 'len', 'round', 'int', 'float', 'abs', 'min', 'max', 'isinstance'):
                continue
            root = v.split('.')[0]
            if '.' in v and (f.startswith(root + '.') or any(dotted(a) == root for a in n.args)):
                return True
            if not number and (f.startswith(v + '.') or any(dotted(a) == v for a in n.args)):
                return True
    return False


def all_equal(test, v):
    return equality_only(test, v)


def grows(loop):
    """What a loop goes through, if it makes it longer on some way back."""
    it = dotted(loop.iter)
    if it is None and isinstance(loop.iter, ast.Call) and isinstance(loop.iter.func, ast.Name) and loop.iter.func.id == 'enumerate' and loop.iter.args:
        it = dotted(loop.iter.args[0])
    if it is None:
        return None
    for s in own(loop.body):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ('append', 'insert', 'extend') \
                and dotted(s.value.func.value) == it:
            if not any(isinstance(x, ast.If) and (leaves(x.body) or leaves(x.orelse)) for x in own(loop.body)):
                rebound = [x for x in own(loop.body) for v, _ in targets(x) if v == it]
                if not rebound:
                    return it
    return None


def endless(loop):
    """Whether a loop goes through something with no end."""
    x = loop.iter
    if isinstance(x, ast.Call):
        d = dotted(x.func) or ''
        if d.endswith(('itertools.count', 'itertools.cycle')) or d in ('count', 'cycle') or d.endswith('repeat') and len(x.args) == 1 and 'itertools' in d:
            return True
        if d == 'iter' and len(x.args) == 2:
            return True
    return False


def functions(tree, prefix=''):
    for x in tree.body if hasattr(tree, 'body') else []:
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            name = prefix + x.name
            if isinstance(x, ast.FunctionDef):
                yield name, x
            yield from functions(x, name + '.')
        elif isinstance(x, (ast.If, ast.Try, ast.With, ast.For)):
            yield from functions(x, prefix)


def loops(fn):
    stack = list(fn.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(x, (ast.While, ast.For)):
            yield x
        stack += list(ast.iter_child_nodes(x))


def calls_itself(fn):
    """Whether every way through a function calls it again with its own arguments."""
    params = [a.arg for a in fn.args.args]
    marks = set()
    for s in own(fn.body):
        if isinstance(s, (ast.Expr, ast.Return, ast.Assign)) and s.value is not None:
            for n in ast.walk(s.value):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == fn.name and [dotted(a) for a in n.args] == params and params and not n.keywords:
                    marks.add(id(s))
    return marks


def run(chk):
    chk.rule('while', 'on every way back to the beginning of a while loop something one of its exits depends on has moved, towards it, or has taken from something which ends', 1)
    chk.rule('for', 'a for loop goes through something which ends, and which it does not make longer', 60)
    chk.assumptions.append('Units, resolutions and steps are positive; files, queues and iterators end.')
    I = chk.interp()
    for mod in sorted(I.sources):
        if not mod.startswith('timeseria') or '.tests' in mod or 'probe__' in mod:
            continue
        short = mod.replace('timeseria.', '')
        for name, fn in functions(I.tree(mod)):
            n_ = {'while': 0, 'for': 0}
            for loop in sorted(loops(fn), key=lambda x: x.lineno):
                kind = 'while' if isinstance(loop, ast.While) else 'for'
                n_[kind] += 1
                con = '{}.{}, {} loop {}'.format(short, name, kind, n_[kind])
                with chk.guard(kind, con):
                    if kind == 'while':
                        why, how = judge(loop, loop.test)
                        if why == 'may':
                            chk.undecided('while', con, how)
                        else:
                            chk.ok('while', con, why is None, 'line {}: {}'.format(loop.lineno, why))
                    else:
                        it = grows(loop)
                        chk.ok('for', con, it is None, 'line {}: "{}" is made longer while going through it'.format(loop.lineno, it))
                        if endless(loop):
                            why, how = judge(loop, ast.Constant(True))
                            chk.ok('while', con, why is None, 'line {}: {}'.format(loop.lineno, why))
