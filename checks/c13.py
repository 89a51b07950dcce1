"""C13: saving a model never overwrites anything, and leaves the model as it was."""
from checks.mods import *
from checks.c10 import methods
from checks.c12 import cases, KEEPER
from checks import fs

PATH = '/data/model'
OTHERS = {'/data/series.csv': False, '/data/other': True, '/data/other/data.json': False, '/data/model_old': True, '/data/model_old/data.json': False, '/data.json': False,
          'data.json': False, '/data/model.json': False, '/data': True}
WAS = 'something which was there'

HALF = """
class Half(Model):
    def __init__(self):
        self.data = {'a': 1, 'resolution': TimeUnit('1h')}
        super(Half, self).__init__()

class Broken(Forecaster):
    window = 1

    @Forecaster.fit_function
    def fit(self, series):
        self.data['what cannot be stored'] = TimeUnit('1h')

class Nothing(Model):
    pass
"""


def there(s):
    for p, d in OTHERS.items():
        fs.existing(s, p, WAS, directory=d)


def inside(path):
    return path is not None and (path == PATH or path.startswith(PATH + '/'))


def side_effects(b, since):
    """The effects out of the path of the model, or None if not known."""
    e = fs.effects(b, since, any_order=True)
    if e is None:
        return None
    bad = [x for x in e if not inside(x[1])]
    for p, d in OTHERS.items():
        if not d and fs.content(b, p) != [WAS]:
            bad.append(('changed', p))
        if d and V.k(p) not in b.obj(fs.global_of(b, 'DIRS')).kv:
            bad.append(('removed', p))
    return bad


def run(chk):
    chk.rule('refused', 'saving a model which has nothing to save, not fitted, or on a path which is not valid or already there is refused', 40)
    chk.rule('untouched', 'a save which is refused does nothing on disk', 40)
    chk.rule('inside', 'a save, completing or failing wherever it can, only creates what is in the path of the model', 15)
    chk.rule('written', 'a save which completes has written the model in its path', 10)
    chk.rule('model', 'after a save, completing, refused or failing wherever it can, the model is as it was before', 40)
    chk.rule('again', 'a second save on the same path is refused, and does not touch what the first one wrote', 8)
    I = chk.interp(probe=PROBE + fs.PROBE + KEEPER + HALF)
    fs.install(I)
    I.exact_loop = I.exact_while = 40
    chk.assumptions.append('Every call to an external library, and on files, may fail.')
    for q in bundled(I) + [MO + 'base.Model', MO + 'forecasters.Forecaster', MO + 'reconstructors.Reconstructor', PR + 'Learner', PR + 'Coded', PR + 'Set', PR + 'Keeper', PR + 'Half', PR + 'Broken', PR + 'Nothing']:
        for what, labels, init, args in cases(I, q):
            if init == 'features':
                continue
            con = short(q) + (' ' + what if what else '')
            with chk.guard('refused', con):
                one_case(chk, I, q, con, labels, init, args, first=not what)


def nothing_done(chk, rule, con, s, m, outs, since, before):
    for b in outs:
        e = fs.effects(b, since)
        if e is None:
            chk.undecided('untouched', con, 'what is done on files is not known')
        else:
            bad = e + (side_effects(b, since) or [])
            chk.ok('untouched', con, not bad, 'done on disk: {}'.format(', '.join(' '.join(str(y) for y in x) for x in bad[:3])))
        ch = changed(before, b.st, m)
        chk.ok('model', con, not ch, 'the model changes: {}'.format(ch[:3]))


def refusal(chk, I, con, s, m, path, exc, setup=None):
    s = s.fork()
    there(s)
    if setup:
        setup(s)
    since = len(fs.log(s))
    fv = s.method(m, 'save')
    before = s.st
    bs, raised = branches(s, fv, path)
    if not bs and not raised:
        chk.undecided('refused', con, 'no outcome')
        return
    bad = [r for r in raised if I.exc_name(next(iter(r.val)), r.st) not in exc + ('NotImplementedError',)]
    chk.ok('refused', con, not bs and not bad, 'not refused: ' + describe(I, bs, bad))
    nothing_done(chk, 'refused', con, s, m, bs + raised, since, before)
    if setup:
        for b in bs + raised:
            c = fs.content(b, PATH)
            if c is not None:
                chk.ok('untouched', con, c == [WAS], 'what was on the path is changed')


def one_case(chk, I, q, con, labels, init, args, first):
    s = Scn(I)
    m = s.new(q, **init)
    ms = methods(I, q)
    parametric = 'fit' in ms or q.rsplit('.', 1)[1] in ('Set', 'Half')
    if first:
        if not parametric:
            refusal(chk, I, con + ', which has no parameters', s, m, kv(PATH), ('TypeError',))
            refusal(chk, I, con + ', which has no parameters, on an empty path', s, m, kv(''), ('TypeError', 'ValueError'))
        elif 'fit' in ms:
            refusal(chk, I, con + ', not fitted', s, m, kv(PATH), ('NotFittedError',))
    if not parametric:
        return
    if 'fit' in ms:
        src = Src(chk, I, 'points', 7 if 'Anomaly' not in q else 6, labels=tuple(labels), s=s, loss0=True)
        bs, raised = branches(s, s.method(m, 'fit'), src.ser, **args)
        if not bs:
            return
        s.st = min(bs, key=lambda b: len(guessed(b.st))).st
    if first:
        for path, name in ((kv(''), 'an empty path'), (VNONE, 'no path')):
            refusal(chk, I, '{}, on {}'.format(con, name), s, m, path, ('ValueError',))
        for name, setup in (('a file which exists', lambda s: fs.existing(s, PATH, WAS)), ('a directory which exists', lambda s: fs.existing(s, PATH, directory=True)),
                            ('a directory with a model', lambda s: (fs.existing(s, PATH, directory=True), fs.existing(s, PATH + '/data.json', WAS)))):
            refusal(chk, I, '{}, on {}'.format(con, name), s, m, kv(PATH), ('ValueError',), setup)
    # A save which completes, or fails
    for failing in (False, True):
        name = '{}, {}'.format(con, 'failing' if failing else 'completing')
        s1 = s.fork()
        there(s1)
        since = len(fs.log(s1))
        fv = s1.method(m, 'save')
        before = s1.st
        I.implicit_all = failing
        try:
            bs, raised = branches(s1, fv, kv(PATH))
        finally:
            I.implicit_all = False
        if not bs and not raised:
            chk.undecided('inside', name, 'no outcome')
            continue
        for b in (bs + raised) if failing else bs:
            e = side_effects(b, since)
            if e is None:
                chk.undecided('inside', name, 'what is done on files is not known')
                continue
            chk.ok('inside', name, not e, 'done on disk: {}'.format(', '.join(' '.join(str(y) for y in x) for x in e[:3])))
        for b in bs + raised:
            ch = changed(before, b.st, m)
            chk.ok('model', name, not ch, 'the model changes: {}'.format(ch[:3]))
        if failing:
            # If there is anything which makes the save complete anyway, what was saved can be loaded
            for b in bs[:1]:
                given = {k_: v for k_, v in init.items() if k_ == 'model_class'}
                x, y = branches(b, b.method(b.cls(q), 'load'), kv(PATH), **given)
                y = [r for r in y if not (guessed(r.st) - guessed(b.st)) and I.exc_name(next(iter(r.val)), r.st) != '?']
                chk.ok('written', name, x and not y, 'the save completes, but the load {}'.format(describe(I, [], y)))
            continue
        for b in bs:
            chk.ok('written', name, V.k(PATH + '/data.json') in b.obj(fs.global_of(b, 'FILES')).kv, 'there is no {}/data.json'.format(PATH))
        if bs:
            s1.st = bs[0].st
            since = len(fs.log(s1))
            bs, raised = branches(s1, s1.method(m, 'save'), kv(PATH))
            chk.ok('again', con, not bs, 'not refused')
            for b in bs + raised:
                e = fs.effects(b, since)
                chk.ok('again', con, e == [], 'done on disk: {}'.format(e and e[:3]))
