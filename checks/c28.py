"""C28: file names and arguments never reach a shell unquoted."""
import ast, re
from checks.mods import *
from checks.ops import *
from checks.c21 import Source
from checks import fs
from tsa.models import AT

USER = 'user:'
SHELL = re.compile(r'^(os\.system|os\.popen|subprocess\.(getoutput|getstatusoutput)|commands\.(getoutput|getstatusoutput)|asyncio\.(subprocess\.)?create_subprocess_shell|pty\.spawn)$')
PROCESS = re.compile(r'^subprocess\.(Popen|call|run|check_call|check_output)$')
SHELLS = ('sh', 'bash', '/bin/sh', '/bin/bash', '/usr/bin/env', 'zsh', 'cmd', 'cmd.exe')
SINK = re.compile(SHELL.pattern + '|' + PROCESS.pattern)


def user(name):
    """A text given by the user."""
    return av(('s', '*', frozenset([USER + name])))


def tainted(st, val):
    return sorted({t[len(USER):] for t in V.tagsof(val, st) if t.startswith(USER)})


def quoted(I, st, args, kwargs, node):
    v = args[0] if args else next(iter(kwargs.values()), STR)
    return [(st, frozenset(a if a[0] == 'k' and isinstance(a[1], str) and re.match(r'^[\w@%+=:,./-]+$', a[1]) else ('s', '*', frozenset()) for a in v))]


def fresh(I, st, args, kwargs, node):
    """Numbers have no special characters."""
    return [(st, av(('n', 'float', '-0+', frozenset())))]


class Commands(object):
    """What is given to a shell."""

    def __init__(self, I):
        self.I = I
        self.reached, self.bad, self.unknown = set(), set(), set()

    def on_ext(self, I, st, dotted, args, kwargs, node):
        if not SINK.match(dotted):
            return
        line = getattr(node, 'lineno', 0)
        self.reached.add(line)
        cmd = args[0] if args else kwargs.get('args', kwargs.get('cmd', EMPTY))
        if SHELL.match(dotted):
            if dotted != 'pty.spawn' or True:
                self.look(st, cmd, dotted, line)
            return
        shell = kwargs.get('shell', kv(False))
        ex = kwargs.get('executable')
        if len(args) > 8:
            shell = args[8]
        ok, c = V.one_const(shell)
        if not ok or c:
            self.look(st, cmd, dotted + '(shell=True)', line)
            return
        # A list whose program is a shell
        for a in cmd:
            if a[0] == 'r':
                ob = st.get(a[1])
                items = ob.items
            elif a[0] == 't':
                items = a[1]
            else:
                continue
            if items:
                ok, prog = V.one_const(items[0])
                if ok and prog in SHELLS:
                    for x in items[1:]:
                        self.look(st, x, '{} with {}'.format(dotted, prog), line)

    def look(self, st, cmd, what, line):
        for a in cmd:
            if a[0] == 'r':
                ob = st.get(a[1])
                if ob is not None:
                    self.look(st, ob.all_elem() if ob.kind in ('list', 'set') else EMPTY, what, line)
                continue
            t = tainted(st, av(a))
            if t:
                self.bad.add('{} at line {} is given {}'.format(what, line, ', '.join(t)))


def watch(chk, I, rule, con, s, f, reached, must=False):
    with chk.guard(rule, con):
        c = Commands(I)
        I.monitors.append(c)
        try:
            bs, raised = f()
        finally:
            I.monitors.remove(c)
        reached |= c.reached
        if must and not c.reached:
            chk.undecided(rule, con, 'no command is run')
        else:
            chk.ok(rule, con, not c.bad, '; '.join(sorted(c.bad)))


PLOTS = [
    dict(image=True, save_to='U'), dict(image=True, save_to='U', image_resolution='U'), dict(image=True, save_to='U', title='U'), dict(image=True, image_resolution='U', title='U'),
    dict(image=True, save_to='U', title='U', mark_title='U', mark_color='U', color='U'), dict(save_to='U', title='U'), dict(html=True, title='U'), dict(image=True, save_to='U', minimal_legend=True),
]


def plots(chk, I, reached):
    for n, kw in enumerate(PLOTS):
        for form in ('points', 'slots') if chk.tier != 'quick' or n in (1, 5) else ('points',):
            for entry in ('dygraphs_plot', 'plot') if form == 'points' and len(kw) < 3 or chk.tier != 'quick' else ('dygraphs_plot',):
                con = '{}({}) of {}'.format(entry, ', '.join('{}={}'.format(a, 'text of the user' if b == 'U' else b) for a, b in kw.items()), form)
                s = Scn(I)
                with chk.guard('plots', con):
                    src = Src(chk, I, form, 4, labels=('a',), s=s)
                    args = {a: user(a) if b == 'U' else kv(b) for a, b in kw.items()}
                    if 'mark_title' in kw:
                        args['mark'] = s.list(*[av(('o', AT, float(src.t[i]), 'dt', frozenset(['tz=UTC']))) for i in (1, 2)])
                    fv = s.attr(av(('mod', 'timeseria.plots')), 'dygraphs_plot') if entry == 'dygraphs_plot' else s.method(src.ser, 'plot')
                    watch(chk, I, 'plots', con, s, (lambda: branches(s, fv, src.ser, **args)) if entry == 'dygraphs_plot' else (lambda: branches(s, fv, **args)), reached, must=bool(kw.get('image')))


def others(chk, I, reached):
    """Other names which are given."""
    s = Scn(I)
    src = None
    with chk.guard('others', 'a series'):
        src = Src(chk, I, 'points', 4, labels=('a',), s=s, loss0=True)
        for cls in ('CSVFileStorage',):
            st = s.new('timeseria.storages.' + cls, user('filename'))
            for name, args in (('get', []), ('put', [src.ser])):
                watch(chk, I, 'others', '{}.{} with any file name'.format(cls, name), s, lambda: branches(s.fork(), s.method(st, name), *args), reached)
        for cls in ('TimeUnit',):
            watch(chk, I, 'others', 'TimeUnit of any text', s, lambda: branches(s.fork(), s.cls('timeseria.units.TimeUnit'), user('unit')), reached)
    for q in bundled(I):
        con = short(q)
        with chk.guard('others', con):
            s = Scn(I)
            src = Src(chk, I, 'points', 5, labels=('a',), s=s, loss0=True)
            m = s.new(q)
            if 'ARIMA' not in q and 'Prophet' not in q and 'Periodic' in q and 'Detector' not in q:
                fitted_state(s, m, src.ser, **fit_args(I, q))
            watch(chk, I, 'others', con + '.save to any path', s, lambda: branches(s.fork(), s.method(m, 'save'), user('path')), reached)
            watch(chk, I, 'others', con + ' loaded from any path', s, lambda: branches(s.fork(), s.cls(q), user('path')), reached)


def public(chk, I, reached):
    """Functions which run commands, given texts of the user."""
    trees = {m: I.tree(m) for m in sorted(I.sources) if m.startswith('timeseria') and 'probe__' not in m and '.tests' not in m}
    sinks = {}
    for m, t in trees.items():
        src = Source(m, t)

        class Find(ast.NodeVisitor):
            def __init__(self):
                self.stack, self.found = [], []

            def visit_FunctionDef(self, n):
                self.stack.append(n)
                self.generic_visit(n)
                self.stack.pop()

            visit_AsyncFunctionDef = visit_FunctionDef

            def visit_ClassDef(self, n):
                self.stack.append(n)
                self.generic_visit(n)
                self.stack.pop()

            def visit_Call(self, n):
                d = src.dotted(n.func)
                if d and SINK.match(d):
                    self.found.append((d, list(self.stack), n))
                self.generic_visit(n)
        f = Find()
        f.visit(t)
        for d, stack, n in f.found:
            sinks[(m, n.lineno)] = (d, stack, n)
    chk.extra = dict(sinks=len(sinks))
    for (m, line), (d, stack, n) in sorted(sinks.items()):
        con = '{} at {}:{}'.format(d, m, line)
        fns = [x for x in stack if isinstance(x, ast.FunctionDef)]
        if line in reached or (fns and runner(fns[-1], n)):
            chk.ok('sites', con)
            continue
        if not fns or len(stack) > 1 or fns[0].name.startswith('_'):
            chk.ok('sites', con) if constant(n) else chk.undecided('sites', con, 'not reached')
            continue
        with chk.guard('sites', con):
            s = Scn(I)
            args = {a.arg: user(a.arg) for a in fns[0].args.args}
            c = set()
            watch(chk, I, 'sites', con, s, lambda: branches(s, s.attr(av(('mod', m)), fns[0].name), **args), c)


def constant(n):
    """A command which is all in the source."""
    return bool(n.args) and all(isinstance(x, (ast.Constant, ast.List, ast.Tuple, ast.Load)) for x in ast.walk(n.args[0]))


def runner(f, n):
    """A function which runs the command it is given, as such: what matters is what it is given."""
    a = n.args[0] if n.args else next((k_.value for k_ in n.keywords if k_.arg in ('args', 'cmd')), None)
    return isinstance(a, ast.Name) and a.id in [x.arg for x in f.args.args] and not any(
        isinstance(x, ast.Name) and x.id == a.id and isinstance(x.ctx, ast.Store) for x in ast.walk(f))


def run(chk):
    chk.rule('plots', 'no text given for a plot is in what a shell is given, if not quoted', 12)
    chk.rule('others', 'nor any file name of a storage or of a model', 10)
    chk.rule('sites', 'every place where a command is run is reached by the above, or its command is all in the source', 2)
    chk.assumptions.append('The functions whose purpose is to run the command they are given (as os_shell) do so: what counts is what they are given.')
    reached = set()
    I = chk.interp(probe=PROBE)
    I.exact_loop = 12
    for x in ('shlex.quote', 'pipes.quote'):
        I.ext_overrides[x] = quoted
    plots(chk, I, reached)
    I = chk.interp(probe=fs.PROBE + PROBE)
    fs.install(I)
    I.exact_loop = 12
    for x in ('shlex.quote', 'pipes.quote'):
        I.ext_overrides[x] = quoted
    others(chk, I, reached)
    public(chk, I, reached)
