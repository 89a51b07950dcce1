"""Files, as seen by the abstract interpreter: nothing is read or written, what would be is kept in the heap of the analysis."""
from tsa.build import *
from tsa.interp import *
from tsa import values as V
from tsa.models import AT

PROBE = """
import json as fs_json__

FILES = {}
DIRS = {}
LOG = []

class JSONText(object):

    def __init__(self, value):
        self.value = value

def json_value(x):
    return fs_json__.plain_value(x)

def json_dumps(x, *args, **kwargs):
    if isinstance(x, str):
        return fs_json__.plain_dumps(x)
    return JSONText(json_value(x))

def json_dump(x, f, *args, **kwargs):
    f.write(json_dumps(x))

def json_loads(x, *args, **kwargs):
    if isinstance(x, JSONText):
        return json_value(x.value)
    return fs_json__.plain_loads(x)

def json_load(f, *args, **kwargs):
    return json_loads(f.read())

def object_dump(x):
    return ObjectText(x)

def object_load(x):
    if isinstance(x, ObjectText):
        return x.value
    raise ValueError('not what was dumped')

class ObjectText(object):

    def __init__(self, value):
        self.value = value

class File(object):

    def __init__(self, path, mode='r', *args, **kwargs):
        LOG.append(('open', path, mode))
        if 'r' in mode and path not in FILES:
            raise FileNotFoundError(path)
        if 'x' in mode and path in FILES:
            raise FileExistsError(path)
        if 'w' in mode or 'x' in mode or ('a' in mode and path not in FILES):
            FILES[path] = []
        self.path = path
        self.mode = mode
        self.closed = False
        self.lines = None
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def write(self, text):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if self.mode == 'r':
            raise ValueError('not writable')
        LOG.append(('write', self.path))
        FILES[self.path].append(text)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        pass

    def read(self):
        chunks = FILES[self.path]
        if len(chunks) == 1:
            return chunks[0]
        return ''.join(chunks)

    def load(self):
        if self.lines is None:
            self.lines = ''.join(FILES[self.path]).splitlines(True)

    def readline(self):
        self.load()
        if self.pos >= len(self.lines):
            return ''
        self.pos = self.pos + 1
        return self.lines[self.pos - 1]

    def readlines(self):
        self.load()
        out = self.lines[self.pos:]
        self.pos = len(self.lines)
        return out

    def __iter__(self):
        self.load()
        return iter(self.lines)

def fs_open(path, mode='r', *args, **kwargs):
    return File(path, mode, *args, **kwargs)

def fs_exists(path):
    return path in FILES or path in DIRS

def fs_isfile(path):
    return path in FILES

def fs_isdir(path):
    return path in DIRS

def fs_makedirs(path, mode=511, exist_ok=False):
    LOG.append(('makedirs', path))
    if path in FILES or path in DIRS:
        if not exist_ok:
            raise FileExistsError(path)
    DIRS[path] = True

def fs_rmtree(path, *args, **kwargs):
    LOG.append(('delete', path))
    for x in [x for x in DIRS]:
        if x == path or x.startswith(path + '/'):
            DIRS.pop(x)
    for x in [x for x in FILES]:
        if x.startswith(path + '/'):
            FILES.pop(x)

def fs_remove(path, *args, **kwargs):
    LOG.append(('delete', path))
    FILES.pop(path)

def fs_rename(path, to, *args, **kwargs):
    LOG.append(('delete', path))
    LOG.append(('open', to, 'w'))
    FILES[to] = FILES.pop(path)

def fs_copy(path, to, *args, **kwargs):
    LOG.append(('open', to, 'w'))
    FILES[to] = list(FILES[path])

def fs_save_object(path, obj):
    LOG.append(('save', path))
    FILES[path] = [obj]

def fs_load_object(path):
    LOG.append(('load', path))
    if path not in FILES:
        raise OSError(path)
    return FILES[path][0]
"""

CALLS = {
    'builtins.open': 'fs_open', 'io.open': 'fs_open', 'codecs.open': 'fs_open',
    'os.path.exists': 'fs_exists', 'os.path.lexists': 'fs_exists', 'os.path.isfile': 'fs_isfile', 'os.path.isdir': 'fs_isdir',
    'os.makedirs': 'fs_makedirs', 'os.mkdir': 'fs_makedirs', 'shutil.rmtree': 'fs_rmtree', 'os.rmdir': 'fs_rmtree',
    'os.remove': 'fs_remove', 'os.unlink': 'fs_remove', 'os.rename': 'fs_rename', 'os.replace': 'fs_rename', 'shutil.move': 'fs_rename',
    'shutil.copy': 'fs_copy', 'shutil.copyfile': 'fs_copy', 'shutil.copy2': 'fs_copy',
    'json.dumps': 'json_dumps', 'json.dump': 'json_dump', 'json.loads': 'json_loads', 'json.load': 'json_load',
    'prophet.serialize.model_to_json': 'object_dump', 'prophet.serialize.model_from_json': 'object_load',
}
EFFECTS = ('open', 'write', 'makedirs', 'delete', 'save')


def install(I):
    """The calls on files go to the code above."""
    I.symstr = True

    def to(name):
        def f(I, st, args, kwargs, node):
            out = []
            if I.implicit_all and name not in ('fs_exists', 'fs_isfile', 'fs_isdir', 'object_load'):
                I.raise_builtin(st.copy(), 'OSError', 'it may fail', node)
            for s, fn in I.getattr(av(('mod', 'timeseria.probe__')), name, st, node):
                out.extend(I.call(fn, list(args), dict(kwargs), s, node))
            return out
        return f

    for dotted, name in CALLS.items():
        I.ext_overrides[dotted] = to(name)

    def plain(I, st, args, kwargs, node):
        ok, c = V.one_const(args[0]) if args else (False, None)
        if ok and isinstance(c, str):
            import json
            try:
                return [(st, I.models.lift(json.loads(c), st, node))]
            except ValueError:
                I.raise_builtin(st, 'ValueError', 'not JSON', node)
                return []
        return [(st, av(('exti', 'json.loads()', frozenset())))]
    I.ext_overrides['json.plain_loads'] = plain

    def plain_dumps(I, st, args, kwargs, node):
        import json
        ok, c = V.one_const(args[0])
        return [(st, av(V.k(json.dumps(c))) if ok else av(('s', 'json.dumps', frozenset())))]
    I.ext_overrides['json.plain_dumps'] = plain_dumps

    def plain_value(I, st, args, kwargs, node):
        bad = []
        v = as_json(I, st, args[0], node, bad)
        out = []
        if bad:
            s = st.copy()
            I.raise_builtin(s, 'TypeError', 'not JSON serializable', node)
        if v != EMPTY:
            out.append((st, v))
        return out
    I.ext_overrides['json.plain_value'] = plain_value

    def detect(I, st, args, kwargs, node):
        return [(st, I.models.lift({'encoding': 'ascii', 'confidence': 1.0}, st, node))]
    I.ext_overrides['chardet.detect'] = detect
    I.ext_overrides['cchardet.detect'] = detect

    I.ext_overrides['propertime.utils.now_dt'] = lambda I, st, args, kwargs, node: [(st, av(('o', AT, 1700000000, 'dt', frozenset({'tz=UTC'}))))]

    # Objects which save themselves
    def save_load(I, st, args, kwargs, node, dotted):
        last = dotted.split('.')[-1]
        if last == 'load_model' and args:
            return to('fs_load_object')(I, st, args[:1], {}, node)
        if last == 'save' and args:
            return to('fs_save_object')(I, st, [args[0], av(('exti', dotted[:-len('.save')], frozenset()))], {}, node)
        return None
    for pre in ('keras.*', 'tensorflow.*'):
        I.ext_overrides[pre] = save_load


def as_json(I, st, v, node, bad):
    """What is read back of a value written as JSON: keys become strings, tuples become lists."""
    n = I.json_n = getattr(I, 'json_n', 0) + 1
    out = set()
    for a in v:
        if a[0] == 't':
            out |= I.new_list(st, node, items=[as_json(I, st, x, node, bad) for x in a[1]], extra=('json', n))
            continue
        if a[0] != 'r':
            if a[0] in ('bm', 'fn', 'cls', 'mod', 'bi'):
                bad.append(a)
            else:
                out.add(a)
            continue
        o = st.get(a[1])
        if o.kind == 'list':
            if o.items is not None:
                out |= I.new_list(st, node, items=[as_json(I, st, x, node, bad) for x in o.items], extra=('json', n))
            else:
                out |= I.new_list(st, node, elem=as_json(I, st, o.elem, node, bad), lo=o.lo, hi=o.hi, extra=('json', n))
        elif o.kind == 'dict':
            kvs = {}
            for key, x in o.kv.items():
                kk = json_key(key)
                if kk is None:
                    bad.append(key)
                    continue
                kvs[V.k(kk)] = as_json(I, st, x - {UNB}, node, bad) | (x & {UNB})
            kelem = av(('s', '*', frozenset())) if o.kelem else EMPTY
            out |= I.new_dict(st, node, kvs=kvs, kelem=kelem, velem=as_json(I, st, o.velem, node, bad) if o.velem else EMPTY, extra=('json', n))
        else:
            bad.append(a)
    return frozenset(out)


def json_key(key):
    if key[0] != 'k' or isinstance(key[1], (bytes, tuple)):
        return None
    if isinstance(key[1], str):
        return key[1]
    import json
    return json.dumps(key[1])


def global_of(s, name):
    return s.attr(av(('mod', 'timeseria.probe__')), name)


def log(s):
    """What was done on files: [(what, path, ..)], with None for what is not known."""
    ob = s.obj(global_of(s, 'LOG'))
    if ob.items is None:
        return None
    out = []
    for v in ob.items:
        a = next(iter(v)) if len(v) == 1 else None
        if a is None or a[0] != 't':
            return None
        out.append(tuple(V.one_const(x)[1] if V.one_const(x)[0] else None for x in a[1]))
    return out


def possible(s):
    """What may have been done on files, in any order, when it is not known exactly."""
    import itertools
    out = set()
    for a in s.obj(global_of(s, 'LOG')).all_elem():
        if a[0] != 't':
            return None
        for c in itertools.product(*[list(x) for x in a[1]]):
            out.add(tuple(x[1] if x[0] == 'k' else None for x in c))
    return sorted(out, key=repr)


def effects(s, since=0, any_order=False):
    """What would have been changed on disk."""
    l = log(s)
    if l is None:
        l = possible(s) if any_order else None
        since = 0
    if l is None:
        return None
    return [x for x in l[since:] if x[0] in EFFECTS and not (x[0] == 'open' and x[2] in ('r', 'rb', 'rt'))]


def existing(s, path, text='something which was there', directory=False):
    """A file or a directory which was there before."""
    ob = s.obj(global_of(s, 'DIRS' if directory else 'FILES'))
    val = kv(True) if directory else s.list(kv(text))
    s.st.put(s.oid(global_of(s, 'DIRS' if directory else 'FILES')), ob.upd(kv={**ob.kv, V.k(path): val}))


def content(s, path):
    ob = s.obj(global_of(s, 'FILES'))
    v = ob.kv.get(V.k(path))
    if v is None:
        return None
    l = s.obj(v)
    return None if l.items is None else [V.one_const(x)[1] if V.one_const(x)[0] else None for x in l.items]
