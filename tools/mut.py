#!/usr/bin/python3
"""Development tool: which checks report a mutated source (in memory, the repository is not touched).

  mut.py auto CHECKS MODULE QUAL[,QUAL..]     systematic small mutations of the functions given
  mut.py seeded [ID..]                        the patches under seeded/
"""
import ast, copy, importlib, os, subprocess, sys, threading, io, contextlib, tempfile, shutil
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
ROOT = os.environ.get('TSA_ROOT', '/repo')


def run_check(prop, overlay=None, root=None, fast=False):
    from tsa.check import Check
    chk = Check(prop, overlay=overlay, root=root)
    chk.fast = chk.known() if fast else None
    try:
        importlib.import_module('checks.' + prop.lower()).run(chk)
    except BaseException as e:
        from tsa.interp import AnalysisError
        if (isinstance(e, AnalysisError) or type(e).__name__ == 'FastStop') and chk.viols:
            return len(chk.viols), str(chk.viols[0]), chk
        return None, 'error {}: {}'.format(type(e).__name__, e), chk
    known = chk.known()
    new = [v for v in chk.viols if v['rule'] + '|' + v['construct'] not in known]
    return len(new), '; '.join('{}|{}|{}'.format(v['rule'], v['construct'], v['message'])[:200] for v in new[:2]), chk


class Mut(ast.NodeTransformer):
    def __init__(self, target):
        self.i = -1
        self.target = target
        self.what = None

    def hit(self):
        self.i += 1
        return self.i == self.target

    def visit_Compare(self, n):
        self.generic_visit(n)
        swaps = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
                 ast.In: ast.NotIn, ast.NotIn: ast.In}
        if self.hit():
            self.what = 'L{} compare {}'.format(n.lineno, ast.unparse(n))
            n.ops = [swaps[type(n.ops[0])]()] + n.ops[1:]
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if self.hit():
            self.what = 'L{} if False: {}'.format(n.lineno, ast.unparse(n.test))
            n.test = ast.Constant(False)
        elif self.hit():
            self.what = 'L{} if True: {}'.format(n.lineno, ast.unparse(n.test))
            n.test = ast.Constant(True)
        return n

    def stmt(self, n):
        self.generic_visit(n)
        if self.hit():
            self.what = 'L{} drop {}'.format(n.lineno, ast.unparse(n)[:100])
            return ast.copy_location(ast.Pass(), n)
        return n

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) or (isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith('logger.')):
            return n
        return self.stmt(n)

    visit_Assign = visit_AugAssign = visit_Raise = visit_Delete = stmt

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and self.hit():
            self.what = 'L{} return None for {}'.format(n.lineno, ast.unparse(n)[:100])
            n.value = ast.Constant(None)
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            if self.hit():
                self.what = 'L{} not {}'.format(n.lineno, n.value)
                n.value = not n.value
        elif isinstance(n.value, int):
            if self.hit():
                self.what = 'L{} {}+1'.format(n.lineno, n.value)
                n.value = n.value + 1
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        nm = ast.unparse(n.func)
        if nm in ('deepcopy', 'copy', 'dict', 'list') and len(n.args) == 1 and not n.keywords:
            if self.hit():
                self.what = 'L{} uncopied {}'.format(n.lineno, ast.unparse(n))
                return n.args[0]
        for i, kwd in enumerate(n.keywords):
            if kwd.arg and self.hit():
                self.what = 'L{} without {}= in {}'.format(n.lineno, kwd.arg, ast.unparse(n)[:80])
                n.keywords = n.keywords[:i] + n.keywords[i + 1:]
                break
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.hit():
            self.what = 'L{} and/or {}'.format(n.lineno, ast.unparse(n))
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        return n

    def visit_Break(self, n):
        if self.hit():
            self.what = 'L{} drop break'.format(n.lineno)
            return ast.copy_location(ast.Pass(), n)
        return n

    def visit_Continue(self, n):
        if self.hit():
            self.what = 'L{} drop continue'.format(n.lineno)
            return ast.copy_location(ast.Pass(), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        return n


def find(tree, qual):
    parts = qual.split('.')
    body = tree
    for p in parts:
        for x in body.body:
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == p:
                body = x
                break
        else:
            raise SystemExit('no ' + qual)
    return body


def mutants(mod, qual):
    path = os.path.join(ROOT, mod.replace('.', '/') + '.py')
    src = open(path).read()
    i = 0
    while True:
        tree = ast.parse(src)
        f = find(tree, qual)
        m = Mut(i)
        m.generic_visit(f)
        if m.what is None:
            return
        ast.fix_missing_locations(tree)
        yield m.what, ast.unparse(tree)
        i += 1


def job(args):
    mod, qual, what, src, props = args
    out = []
    res = []

    def target():
        with contextlib.redirect_stdout(io.StringIO()):
            for p in props:
                n_, txt, chk = run_check(p, overlay={mod: src}, fast=True)
                res.append((p, n_, txt))
    t = threading.Thread(target=target)
    t.start()
    t.join()
    return qual, what, res


def main():
    if sys.argv[1] == 'auto':
        props, mod, quals = sys.argv[2].split(','), sys.argv[3], sys.argv[4].split(',')
        jobs = [(mod, q, w, s, props) for q in quals for w, s in mutants(mod, q)]
        from multiprocessing import Pool
        with Pool(8) as pool:
            caught = 0
            for q, w, res in pool.imap(job, jobs, chunksize=1):
                hit = [r for r in res if r[1]]
                err = [r for r in res if r[1] is None]
                caught += bool(hit)
                if not hit or '-v' in sys.argv:
                    print(('caught  ' if hit else 'MISSED  ') + q.split('.')[-1], w, hit and hit[0] or '', err or '')
        print(caught, 'of', len(jobs))
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
        import json
        allp = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'checks')) if f.startswith('c') and f[1:3].isdigit())
        for i in ids:
            d = os.path.join(HERE, 'seeded', i)
            meta = json.load(open(os.path.join(d, 'meta.json')))
            tmp = tempfile.mkdtemp(prefix='mut')
            shutil.copytree('/repo/timeseria', tmp + '/timeseria', ignore=shutil.ignore_patterns('tests', 'static', '__pycache__'))
            r = subprocess.run(['patch', '-p1', '-s', '-d', tmp, '-i', os.path.join(d, 'patch.diff')], capture_output=True, text=True)
            if r.returncode:
                print(i, 'DOES NOT APPLY', r.stdout[:200])
                continue
            props = allp if '-a' in os.environ.get('MUT', '') else [meta['property']]
            for p in props:
                n_, txt, chk = run_check(p, root=tmp)
                print(i, p, 'CAUGHT' if n_ else ('ERROR' if n_ is None else 'missed'), txt[:220])
            shutil.rmtree(tmp)


if __name__ == '__main__':
    t = threading.Thread(target=main)
    t.start()
    t.join()
