"""C36: fetching datasets.

The file system is a ghost state: a set of existing paths (symbolic at the start) and the list of the effects in order.
Paths and names are structured strings over arbitrary atoms, so that the proof holds for every catalogue entry.
"""
from contracts.common import *

F = 'rankeval.dataset.datasets_fetcher.'


def atom(n):
    return SymStr(('atom', n))


def join(*ps):
    out = [ps[0]]
    for p in ps[1:]:
        out += ['/', p]
    return SymStr(*out)


def under(p, q):
    """path p is q or lies below q"""
    a, b = SymStr(p).parts, SymStr(q).parts
    if a == b:
        return True
    n = len(b)
    return len(a) > n and a[:n] == b and isinstance(a[n], str) and a[n].startswith('/') or \
        len(a) >= n and n and isinstance(b[-1], str) and a[:n - 1] == b[:n - 1] and isinstance(a[n - 1], str) and a[n - 1].startswith(b[-1] + '/')


class World:
    """ghost file system"""

    def __init__(self, v, initial, extra=()):
        self.v, self.initial = v, initial
        c = v.ctx
        self.state = PyList(c, [])            # effects so far: (kind, path) in order; part of the heap of the execution

        def p(x):
            t = text(x)
            if t is None:
                raise Unsupported('path of unknown text')
            return t

        def exists(ctx, a, k):
            q = p(a[0])
            for kind, path in reversed([e[:2] for e in self.state.items]):
                if kind in ('makedirs', 'create') and under(path, q):
                    return True
                if kind in ('rmtree', 'remove') and under(q, path):
                    return False
            r = initial(q)
            if r is None:
                raise Unsupported('existence of an unexpected path %s' % q)
            return r

        def effect(kind):
            def f(ctx, a, k):
                self.state.raw = self.state.raw + [(kind, p(a[0]))]
            return f

        def urlopen(ctx, a, k):
            u = a[0]
            self.state.raw = self.state.raw + [('download', p(u))]
            return Abstract('response', {}, dict(read=lambda ctx, o: Abstract('bytes', key=('bytes', p(u)))))

        def open_(ctx, a, k):
            mode = a[1] if len(a) > 1 else k.get('mode', 'r')
            q = p(a[0])
            if mode.startswith('r'):
                lines = Seq(z3.Int('n_lines'), lambda i: OpaqueStr('line'))
                return Abstract('file', {}, dict(seq=lambda ctx, o: (z3.Int('n_lines'), lambda i: SymStr(('line', q.desc, num(i)))),
                                                read=lambda ctx, o, *a: SymStr(('text', q.desc)), close=lambda ctx, o: None))
            self.state.raw = self.state.raw + [('create', q)]

            def write(ctx, o, data):
                if isinstance(data, Abstract) and data.key and data.key[0] == 'bytes':
                    self.state.raw = self.state.raw + [('write', q, data.key[1])]
                    return
                raise Unsupported('data written')
            return Abstract('file', {}, dict(write=write, close=lambda ctx, o: None))

        def tar(ctx, a, k):
            q = p(a[0])

            def ex(ctx, o, path='.', members=None, **kw):
                self.state.raw = self.state.raw + [('extract', q, p(path))]
            return Abstract('tar', {}, dict(extractall=ex, close=lambda ctx, o: None))

        def walk(ctx, a, k):
            q = p(a[0])
            n, m = z3.Int('n_folders'), z3.Function('n_files', I, I)
            return Seq(n, lambda i: (SymStr(('folder', q.desc, num(i))), None,
                                     Abstract('names', {}, dict(seq=lambda ctx, o: (m(num(i)), lambda j: SymStr(('file', q.desc, num(i), num(j))))), key=('names', q.desc))))

        def fnfilter(ctx, a, k):
            if a[1] != '*':
                raise Unsupported('file name pattern')
            return a[0]

        def ospath_join(ctx, a, k):
            return join(*[p(x) for x in a])
        o = c.overrides
        o['open'] = open_
        o['os.path.exists'] = o['os.path.isdir'] = exists
        o['os.path.join'] = ospath_join
        o['os.path.expanduser'] = lambda ctx, a, k: p(a[0])
        o['os.makedirs'] = effect('makedirs')
        o['os.remove'] = o['os.unlink'] = effect('remove')
        o['shutil.rmtree'] = effect('rmtree')
        o['shutil.move'] = o['os.rename'] = effect('move')
        o['tarfile.open'] = tar
        o['os.walk'] = walk
        o['fnmatch.filter'] = fnfilter
        o['urllib.request.urlopen'] = o['urllib2.urlopen'] = urlopen
        c.assume(z3.Int('n_lines') >= 0, z3.Int('n_folders') >= 0)
        i = fresh('i')
        c.assume(z3.ForAll([i], z3.Function('n_files', I, I)(i) >= 0))


def catalogue(v, vali, lic, sub):
    d = {k: atom(k) for k in ('DATASET_NAME', 'DATASET_ARCHIVE_NAME', 'MODELS_ARCHIVE_NAME', 'TRAIN_FILE', 'TEST_FILE', 'DATASET_FORMAT', 'DATASET_URL', 'MODELS_URL', 'BLOG_POST_URL')}
    if vali:
        d['VALIDATION_FILE'] = atom('VALIDATION_FILE')
    if lic:
        d['LICENSE_FILE'] = atom('LICENSE_FILE')
    if sub:
        d['COMMON_SUBFOLDER_NAME'] = atom('COMMON_SUBFOLDER_NAME')
    return PyDict(v.ctx, d)


DAMAGE = ('rmtree', 'remove', 'download', 'create', 'write', 'extract', 'move', 'makedirs')


def expected_files(home, fold, vali):
    base = join(home, 'dataset')
    if fold is not None:
        base = join(home, 'dataset', SymStr(atom('COMMON_SUBFOLDER_NAME'), text(fold)))
    r = dict(train=join(base, atom('TRAIN_FILE')), test=join(base, atom('TEST_FILE')))
    if vali:
        r['validation'] = join(base, atom('VALIDATION_FILE'))
    return r


def implies_(v, p, cond):
    """is cond possible on this path?"""
    s = z3.Solver()
    s.set('timeout', 2000)
    for f in p.hyps:
        if not z3.is_quantifier(f):
            s.add(f)
    s.add(cond)
    return s.check() != z3.unsat


def eq_str(a, b):
    return isinstance(a, (str, SymStr)) and bool(SymStr(a).same(SymStr(b)))


def fetch_unit(v, vali, lic, sub, with_fold):
    home = atom('data_home')
    ds = join(home, atom('DATASET_NAME'))
    EX = {join(ds, 'dataset').desc: z3.Bool('dataset_on_disk'), join(ds, 'models').desc: z3.Bool('models_on_disk'), ds.desc: z3.Bool('folder_on_disk'), home.desc: z3.BoolVal(True)}
    have_d, have_m, have = (EX[join(ds, 'dataset').desc], EX[join(ds, 'models').desc], EX[ds.desc])
    v.ctx.assume(z3.Implies(z3.Or(have_d, have_m), have))
    w = World(v, lambda q: EX.get(q.desc))
    allowed, force, models = z3.Bools('download_if_missing force_download with_models')
    fold = v.int('fold', 1) if with_fold else None
    cat = catalogue(v, vali, lic, sub)
    f = v.func(F + '__fetch_dataset_and_models__')

    def call():
        # with_models is compared by identity with True
        m = v.ctx.branch(models)
        return v.ctx.call(f, [cat], dict(fold=fold, data_home=home, download_if_missing=allowed, force_download=force, with_models=m))
    paths = v.run(call)
    missing = z3.Or(z3.Not(have_d), z3.And(models, z3.Not(have_m)))
    for p in paths:
        eff = v.in_state(p, lambda: list(w.state.items))
        kinds = [e[0] for e in eff]
        harm = [e for e in eff if e[0] in DAMAGE]
        raised = p.kind == 'raise'
        # 1. what may not be downloaded is refused, untouched
        if raised or harm:
            pass
        v.check('a missing dataset that may not be downloaded is refused', z3.Not(z3.And(missing, z3.Not(allowed))) if not raised else z3.BoolVal(True), p.hyps)
        if harm:
            v.check('nothing is touched when a missing dataset may not be downloaded', z3.Not(z3.And(missing, z3.Not(allowed))), p.hyps)
            v.check('nothing is downloaded or deleted when everything is on disk', z3.Or(force, missing), p.hyps)
        v.check('an error is raised only for a dataset that may not be downloaded or a fold that does not exist',
                z3.Or(z3.And(missing, z3.Not(allowed)), z3.BoolVal(with_fold and not sub)) if raised else z3.BoolVal(True), p.hyps)
        if with_fold and not sub:
            v.check('a fold of a dataset without folds is refused, untouched', z3.BoolVal(raised and not harm), p.hyps)
        if raised:
            continue
        # 2. which addresses are visited and what is deleted
        urls = [e[1] for e in eff if e[0] == 'download']
        for u, here, nm in ((atom('DATASET_URL'), have_d, 'dataset'), (atom('MODELS_URL'), have_m, 'models')):
            asked = z3.Or(force, z3.Not(here)) if nm == 'dataset' else z3.And(models, z3.Or(force, z3.Not(here)))
            k = sum(1 for x in urls if eq_str(x, u))
            v.check('the %s are downloaded exactly when missing or forced' % nm, asked if k == 1 else z3.Not(asked) if k == 0 else z3.BoolVal(False), p.hyps)
        if any(not eq_str(x, atom('DATASET_URL')) and not eq_str(x, atom('MODELS_URL')) for x in urls):
            v.fail('only the addresses of the dataset are visited', str(urls))
        created = [e[1] for e in eff if e[0] == 'create']
        for k, e in enumerate(eff):
            if e[0] == 'rmtree':
                v.check('a folder is deleted only when a download is forced', force if under(e[1], ds) else z3.BoolVal(False), p.hyps)
            elif e[0] == 'remove':
                if not any(eq_str(e[1], x) for x in created):
                    v.fail('only the downloaded archives are deleted', str(e))
            elif e[0] == 'move':
                v.fail('nothing is moved', str(e))
            elif e[0] in ('create', 'makedirs', 'write'):
                if not under(e[1], ds):
                    v.fail('only files of the dataset are written', str(e))
            elif e[0] == 'extract':
                if not under(e[2], ds):
                    v.fail('archives are extracted in the folder of the dataset', str(e))
        for x in created:
            arch = [(e[0],) + e[1:] for e in eff if eq_str(e[1], x)]
            if [a[0] for a in arch] != ['create', 'write', 'extract', 'remove']:
                v.fail('an archive is written, extracted and deleted', str(arch))
            else:
                isd = eq_str(arch[1][2], atom('DATASET_URL'))
                if not eq_str(arch[2][2], join(ds, 'dataset' if isd else 'models')):
                    v.fail('the archive is extracted where the files are read', str(arch))
        # 3. the files returned
        d = p.val
        if not isinstance(d, PyDict):
            v.fail('a dictionary is returned', str(d))
            continue
        d = v.in_state(p, lambda: dict(d.items))
        want = expected_files(ds, fold, vali)
        for k in ('train', 'test', 'validation'):
            if k not in want:
                v.check('no validation file when there is none', z3.BoolVal(d.get(k) is None), p.hyps)
            else:
                v.check('the %s file is that of the requested fold' % k, z3.BoolVal(eq_str(d.get(k), want[k])), p.hyps)
        ms = d.get('models')
        v.check('model files are returned when they are asked for', models if ms is not None else z3.Not(models), p.hyps)
        if ms is not None:
            where = join(ds, 'models') if fold is None else join(ds, 'models', SymStr(atom('COMMON_SUBFOLDER_NAME'), text(fold)))
            raw = v.in_state(p, lambda: list(ms.raw)) if isinstance(ms, PyList) else [None]
            i, j = fresh('i'), fresh('j')

            def shape():
                if len(raw) != 1 or not isinstance(raw[0], Seg) or not same(raw[0].n, z3.Int('n_folders')):
                    return False
                inner = raw[0].of(i)
                if len(inner) != 1 or not isinstance(inner[0], Seg) or not same(inner[0].n, z3.Function('n_files', I, I)(i)):
                    return False
                x = inner[0].of(j)
                return len(x) == 1 and eq_str(x[0], join(SymStr(('folder', where.desc, i)), SymStr(('file', where.desc, i, j))))
            ok = v.in_state(p, lambda: within(v.ctx, i, j, shape))
            v.check('the models are all the files in the folder of the models (of the fold)', z3.BoolVal(bool(ok)), p.hyps)


def within(ctx, i, j, f):
    k = len(ctx.pc)
    ctx.assume(i >= 0, i < z3.Int('n_folders'), j >= 0, j < z3.Function('n_files', I, I)(i))
    try:
        return f()
    finally:
        del ctx.pc[k:]


def _reg():
    for vali in (True, False):
        for lic in (True, False):
            for sub in (True, False):
                for fold in (True, False):
                    nm = 'fetch(%s)' % ', '.join(n if b else 'no ' + n for n, b in (('validation file', vali), ('license', lic), ('folds', sub), ('fold given', fold)))
                    unit('C36', nm)(lambda v, a=(vali, lic, sub, fold): fetch_unit(v, *a))


_reg()


@unit('C36', 'data home')
def data_home(v):
    """the folder given, or the one of the environment, is created only when it does not exist"""
    home = atom('data_home')
    ex = z3.Bool('home_exists')
    w = World(v, lambda q: ex if q.same(home) else None)
    paths = v.run(lambda: v.ctx.call(v.func(F + '__get_data_home__'), [home], {}))
    for p in paths:
        if not no_raise(v, p):
            continue
        v.check('the given folder', z3.BoolVal(eq_str(p.val, home)), p.hyps)
        eff = v.in_state(p, lambda: list(w.state.items))
        v.check('the folder is created when it does not exist and nothing else happens',
                z3.Not(ex) if len(eff) == 1 and eff[0][0] == 'makedirs' and eq_str(eff[0][1], home) else ex if not eff else z3.BoolVal(False), p.hyps)


def load_unit(v, known, vali):
    """load_dataset: fetches with the arguments given, loads each file in its place"""
    c = v.ctx
    w = World(v, lambda q: None)
    cat = catalogue(v, vali, True, False)
    c.overrides[F + '__dataset_catalogue__'] = lambda ctx, a, k: PyDict(ctx, {'NAME': cat} if known else {'OTHER': cat})
    c.overrides[F + '__get_data_home__'] = lambda ctx, a, k: atom('data_home')
    files = {'train': atom('train file'), 'test': atom('test file'), 'license_agreement': atom('terms'), 'models': atom('model files')}
    if vali:
        files['validation'] = atom('validation file')
    fold, allowed, force = atom('fold'), z3.Bool('download_if_missing'), z3.Bool('force_download')
    models = z3.Bool('with_models')
    calls = PyList(c, [])

    def fetch(ctx, a, k):
        names = ['dataset_dictionary', 'fold', 'data_home', 'download_if_missing', 'force_download', 'with_models']
        got = dict(zip(names, a), **k)
        calls.raw = calls.raw + [got]
        return PyDict(ctx, files)
    c.overrides[F + '__fetch_dataset_and_models__'] = fetch

    def load(ctx, a, k):
        return Abstract('dataset', key=('loaded', a[0].desc, k.get('name'), k.get('format')))
    c.overrides['rankeval.dataset.dataset.Dataset.load'] = load
    paths = v.run(lambda: c.call(v.func(F + 'load_dataset'), ['NAME'], dict(fold=fold, download_if_missing=allowed, force_download=force, with_models=models)))
    for p in paths:
        if not no_raise(v, p):
            continue
        cs = v.in_state(p, lambda: list(calls.items))
        if not known:
            v.check('an unknown dataset: nothing is fetched', z3.BoolVal(p.val is None and not cs), p.hyps)
            continue
        if len(cs) != 1:
            v.fail('the dataset is fetched once', str(len(cs)))
            continue
        g = cs[0]
        for k, want in (('dataset_dictionary', cat), ('fold', fold), ('data_home', None), ('download_if_missing', allowed), ('force_download', force), ('with_models', models)):
            if k == 'data_home':
                ok = eq_str(g.get(k), atom('data_home'))
            else:
                ok = g.get(k) is want or is_z3(want) and is_z3(g.get(k)) and g[k].eq(want)
            v.check('fetched with the given %s' % k, z3.BoolVal(bool(ok)), p.hyps)
        o = p.val
        if not isinstance(o, Obj):
            v.fail('a dataset container is returned', str(o))
            continue
        at = v.in_state(p, lambda: dict(o.attrs))
        for attr, k in (('train_dataset', 'train'), ('test_dataset', 'test'), ('validation_dataset', 'validation')):
            x = at.get(attr)
            if k in files:
                v.check('%s is loaded from the %s file' % (attr, k), z3.BoolVal(isinstance(x, Abstract) and x.key[1] == files[k].desc), p.hyps)
            else:
                v.check('no validation dataset', z3.BoolVal(x is None), p.hyps)
        v.check('license', z3.BoolVal(eq_str(at.get('license_agreement'), files['license_agreement'])), p.hyps)
        x = at.get('model_filenames')
        v.check('model files are returned when asked for', z3.And(models, z3.BoolVal(eq_str(x, files['models']))) if x is not None else z3.Not(models), p.hyps)


for _k, _v in ((True, True), (True, False), (False, False)):
    unit('C36', 'load_dataset(%s, %s)' % ('known' if _k else 'unknown', 'validation' if _v else 'no validation'))(lambda v, a=(_k, _v): load_unit(v, *a))
