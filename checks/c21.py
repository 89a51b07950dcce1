"""C21: global random state is touched only when reproducibility is asked for, and before any training."""
import ast, re
from checks.mods import *
from checks.ops import *
from checks.c10 import methods
from checks import fs

SEEDS = re.compile(r'^(numpy\.random\.(seed|set_state|mtrand\.seed)|random\.(seed|setstate)|os\.(putenv|unsetenv)|os\.environ\.(update|setdefault|pop|popitem|clear|__setitem__|__delitem__)'
                   r'|(tensorflow|keras|tf)\..*(set_seed|set_random_seed|set_session|enable_op_determinism|set_(intra|inter)_op_parallelism_threads|set_global_policy|set_floatx|ConfigProto)'
                   r'|torch\.(manual_seed|use_deterministic_algorithms|set_num_threads)|numpy\.seterr)$')
TRAIN = re.compile(r'(\.fit|auto_arima|fit_predict|train_on_batch|\.compile|Sequential|\.Dense|\.LSTM)$')
ASKS = re.compile(r'reproducib|determinis|seed|random_state', re.I)
NEEDED = ('random.seed', 'numpy.random.seed')


class Trace(object):
    """What is done, in order, on each path."""

    def __init__(self, I):
        self.I, self.all = I, []

    def note(self, st, what, node):
        self.all.append((what, getattr(node, 'lineno', 0)))
        a = next(iter(self.ref))
        ob = st.get(a[1])
        if ob is not None and ob.items is not None:
            st.put(a[1], ob.upd(items=ob.items + (kv(what),)))

    def on_ext(self, I, st, dotted, args, kwargs, node):
        if SEEDS.match(dotted) or TRAIN.search(dotted):
            self.note(st, dotted, node)

    def on_ext_setitem(self, I, st, a, key, v, node):
        if a[0] in ('ext', 'exti') and a[1].startswith('os.environ'):
            self.note(st, 'os.environ.__setitem__', node)

    def of(self, st):
        ob = st.get(next(iter(self.ref))[1])
        if ob.items is None or any(not V.one_const(x)[0] for x in ob.items):
            return None
        return [V.one_const(x)[1] for x in ob.items]

    def seeds(self):
        return sorted({(x, l) for x, l in self.all if SEEDS.match(x)})


def traced(I, s, f):
    t = Trace(I)
    t.ref = s.list()
    I.monitors.append(t)
    try:
        bs, raised = f()
    finally:
        I.monitors.remove(t)
    return t, bs, raised


def lstm(s, q, extra):
    kw = dict(window=kv(1))
    if 'keras_model' in extra:
        kw['keras_model'] = av(('exti', 'keras.models.Sequential()', frozenset()))
    return s.new(q, **kw)


def asked(chk, I):
    for q in bundled(I):
        if 'LSTM' not in q:
            continue
        det = 'AnomalyDetector' in q
        for extra in ({}, dict(normalize=False), dict(verbose=True), dict(epochs=3), dict(epochs=1), dict(epochs=None), dict(epochs=None, normalize=False, verbose=True), 'refit', 'keras_model'):
            for ask in (None, False, True):
                if det and (extra != {} or ask is None):
                    continue
                con = '{}.fit({}{}){}'.format(short(q), 'reproducible={}, '.format(ask) if ask is not None else '', extra if isinstance(extra, dict) else '', ' ' + extra if isinstance(extra, str) else '')
                rule = 'asked' if ask else 'not-asked'
                with chk.guard(rule, con):
                    s = Scn(I)
                    src = Src(chk, I, 'points', 6, labels=('a',), s=s, loss0=True)
                    m = lstm(s, q, extra if not det else ())
                    if extra == 'refit':
                        fitted_state(s, m, src.ser, reproducible=kv(True))
                    kw = {a: kv(b) if a != 'epochs' or b is not None else av(num('int', '+', {'epochs'})) for a, b in extra.items()} if isinstance(extra, dict) else {}
                    if ask is not None:
                        kw['reproducible'] = kv(ask)
                    t, bs, raised = traced(I, s, lambda: branches(s, s.method(m, 'fit'), src.ser, **kw))
                    if not ask:
                        chk.ok(rule, con, not t.seeds(), 'global state is changed, with no request: {}'.format(t.seeds()))
                        continue
                    if not bs:
                        chk.undecided(rule, con, 'the fit cannot complete: {}'.format(describe(I, [], raised)))
                        continue
                    for b in bs:
                        tr = t.of(b.st)
                        if tr is None:
                            tr = [x for x, _ in t.all]
                            seed = {x for x in tr[:next((i for i, x in enumerate(tr) if TRAIN.search(x)), 0)]}
                            bad = [x for x in NEEDED if x not in seed]
                            chk.ok(rule, con, not bad, 'not set before the training: {}'.format(bad))
                            continue
                        train = [i for i, x in enumerate(tr) if TRAIN.search(x) and not SEEDS.match(x)]
                        seed = {x: i for i, x in reversed(list(enumerate(tr))) if SEEDS.match(x)}
                        if not train:
                            chk.undecided(rule, con, 'no training found')
                            continue
                        bad = [x for x in NEEDED if x not in seed]
                        chk.ok(rule, con, not bad, 'not set: {}'.format(bad))
                        late = [x for i, x in enumerate(tr) if SEEDS.match(x) and i > train[0]]
                        chk.ok(rule, con, not late, 'set after the training has begun: {}'.format(late))
                        if any('tensorflow' in x for x in seed):
                            chk.ok(rule, con, any(x.endswith(('set_seed', 'set_random_seed')) for x in seed if 'tensorflow' in x or 'keras' in x), 'the one of Tensorflow is not')


def not_asked(chk, I):
    for q in bundled(I):
        ms = methods(I, q)
        form = 'points'
        labels = ('a',)
        s = Scn(I)
        src = None
        with chk.guard('not-asked', short(q) + '()'):
            t, m, _ = traced(I, s, lambda: (s.new(q), None))
            chk.ok('not-asked', short(q) + '()', not t.seeds(), 'global state is changed: {}'.format(t.seeds()))
            src = Src(chk, I, form, 6, labels=labels, s=s, loss0=True)
            if 'fit' in ms:
                t, bs, raised = traced(I, s, lambda: branches(s, s.method(m, 'fit'), src.ser, **fit_args(I, q)))
                chk.ok('not-asked', short(q) + '.fit()', not t.seeds(), 'global state is changed: {}'.format(t.seeds()))
                if not bs:
                    continue
                s.st = min(bs, key=lambda b: len(guessed(b.st))).st
        for meth in ms + ['cross_validate', 'save']:
            if meth == 'fit' or src is None or (meth == 'apply' and 'ARIMA' in q) or (meth == 'cross_validate' and 'AnomalyDetector' in q):
                continue
            con = '{}.{}()'.format(short(q), meth)
            with chk.guard('not-asked', con):
                s2 = s.fork()
                a = [src.ser] if meth != 'save' else [kv('/data/m')]
                kw = model_args(I, q, meth)
                if meth == 'cross_validate':
                    kw = dict(rounds=kv(2))
                t, bs, raised = traced(I, s2, lambda: branches(s2, s2.method(m, meth), *a, **kw))
                chk.ok('not-asked', con, not t.seeds(), 'global state is changed: {}'.format(t.seeds()))
    for op in OPS:
        con = op.name
        with chk.guard('not-asked', con):
            r = ORDERS[2]
            src = Src(chk, I, op.forms[0], 4, op.kinds[0], ('a', 'b'), order={l: r for l in ('a', 'b')} if op.order else None)
            t, bs, raised = traced(I, src.s, lambda: call(src, op))
            chk.ok('not-asked', con, not t.seeds(), 'global state is changed: {}'.format(t.seeds()))
    for src, how, unit, kw in transformations(chk, I):
        con = '{}({}) of points {}'.format(how, unit, src.when)
        with chk.guard('not-asked', con):
            t, bs, raised = traced(I, src.s, lambda: transform(src, how, unit))
            chk.ok('not-asked', con, not t.seeds(), 'global state is changed: {}'.format(t.seeds()))


class Source(ast.NodeVisitor):
    """Where global state is set in a module, by function, with names resolved through its imports."""

    def __init__(self, mod, tree):
        self.mod, self.fns, self.stack, self.names = mod, [], [], {}
        self.sites, self.calls = [], []
        self.aliases = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    self.names[a.asname or a.name] = '{}.{}'.format(n.module, a.name)
        self.visit(tree)

    def dotted(self, n):
        if isinstance(n, ast.Name):
            return self.names.get(n.id)
        if isinstance(n, ast.Attribute):
            d = self.dotted(n.value)
            return d and '{}.{}'.format(d, n.attr)

    def function(self, n):
        f = dict(name=n.name, params=[a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs], line=n.lineno, mod=self.mod)
        self.stack.append(f)
        self.fns.append(f)
        self.generic_visit(n)
        self.stack.pop()

    visit_FunctionDef = visit_AsyncFunctionDef = function

    def here(self):
        return self.stack[-1] if self.stack else None

    def visit_Call(self, n):
        d = self.dotted(n.func)
        if d and SEEDS.match(d):
            self.sites.append((d, self.here(), list(self.stack), n.lineno))
        self.generic_visit(n)

    def used(self, n, name):
        self.calls.append((name, list(self.stack), n.lineno))

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.used(n, n.id)

    def visit_Attribute(self, n):
        self.used(n, n.attr)
        self.generic_visit(n)

    def targets(self, n):
        for t in n.targets if hasattr(n, 'targets') else [n.target]:
            if isinstance(t, ast.Subscript) and self.dotted(t.value) == 'os.environ':
                self.sites.append(('os.environ', self.here(), list(self.stack), n.lineno))
        self.generic_visit(n)

    visit_Assign = visit_AugAssign = visit_AnnAssign = visit_Delete = targets


def sites(chk, I):
    """Every place where global state is set can be reached only from functions with a way to ask for it."""
    mods = {}
    for mod in sorted(I.sources):
        if mod.startswith('timeseria') and 'probe__' not in mod and '.tests' not in mod:
            mods[mod] = Source(mod, I.tree(mod))
    calls = {}
    for src in mods.values():
        for name, stack, line in src.calls:
            calls.setdefault(name, []).append((src.mod, stack, line))
    n_ = 0
    for mod, src in mods.items():
        for what, f, stack, line in src.sites:
            n_ += 1
            con = '{} in {} of {}'.format(what, f['name'] if f else 'the body', mod)
            bad = roots(calls, stack, set(), top=True)
            chk.ok('sites', con, bad is None, bad or '', '{}:{}'.format(mod, line))
    return len(mods), n_


def roots(calls, stack, seen, top=False):
    """Why what is in the function can be executed with no request."""
    if not stack:
        return 'it is executed with no function called'
    if any(ASKS.search(p) for f in stack for p in f['params']):
        return None
    f = stack[-1]
    if f['name'] in seen:
        return None
    users = [(m, st, l) for m, st, l in calls.get(f['name'], []) if not (st and st[-1] is f)]
    asks = bool(ASKS.search(f['name']))
    if not users:
        return None if asks else '{} cannot be asked for it'.format(f['name'])
    if not asks and not f['name'].startswith('_') and not any(f['name'] == g['name'] for g in stack[:-1]):
        return '{}, which is public, cannot be asked for it'.format(f['name'])
    for m, st, l in users:
        r = roots(calls, st, seen | {f['name']})
        if r:
            return '{} (from {}:{})'.format(r, m, l)
    return None


def run(chk):
    chk.rule('sites', 'every statement setting the seeds, the environment or the determinism of a global library can be reached only from functions with a parameter asking for it', 1)
    chk.rule('asked', 'a reproducible fit sets the seeds before anything of the training', 8)
    chk.rule('not-asked', 'everything else never sets them', 60)
    I = chk.interp(probe=fs.PROBE + PROBE)
    fs.install(I)
    I.exact_loop = 12
    with chk.guard('sites', 'the package'):
        sites(chk, I)
    asked(chk, I)
    not_asked(chk, I)
