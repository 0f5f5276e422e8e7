"""C06 - C12: datasets."""
import bz2, gzip, io, os
import numpy as np
import gens
from lib import case


def make(t, X=None, y=None, q=None, name='n'):
    from rankeval.dataset import Dataset
    return Dataset(X, y, q, name=name)


def raw(t, max_q=6, max_n=6, nf=None, qdtype=None):
    """features, labels and per-instance query ids; the feature values identify the instances"""
    ids, sizes = gens.query_layout(t, max_q, max_n)
    qdtype = qdtype or t.pick(np.int32, np.int32, np.int64)
    if qdtype is np.int64 and t.rng.rand() < .3:
        ids = ids * (1 << 31) + 5
    q = np.repeat(ids, sizes).astype(qdtype)
    n = len(q)
    nf = nf or int(t.rng.randint(1, 6))
    X = (np.arange(n)[:, None] * 8 + np.arange(nf)[None, :]).astype(np.float32)
    if t.rng.rand() < .3:
        X = np.asfortranarray(X)
    y = gens.labels(t, n)
    t.note(qid=q, y=y, n_features=nf)
    return X, y, q


def layout(q):
    """(id, start, end) in order of appearance"""
    out = []
    for i, v in enumerate(q):
        if not out or out[-1][0] != v:
            out.append([int(v), i, i])
        out[-1][2] = i + 1
    return out


def content(d):
    q = np.empty(d.X.shape[0], dtype=np.int64)
    for i, s, e in d.query_iterator():
        q[s:e] = i
    return d.X, d.y, q


def check_part(t, d, X, y, q, rows, msg):
    """the dataset consists of the given rows of X, y, q, in that order"""
    rows = np.asarray(rows, dtype=int)
    t.same(d.X, X[rows], msg + ': features')
    t.same(d.y, y[rows], msg + ': labels')
    got = [(int(a), int(b), int(c)) for a, b, c in d.query_iterator()]
    want = [tuple(v) for v in layout(q[rows])]
    t.check(got == want, msg + ': queries', got=got, want=want)
    t.check((d.n_instances, d.n_features, d.n_queries) == (len(rows), X.shape[1], len(want)), msg + ': sizes')


@case('C06', 400)
def grouping(t):
    X, y, q = raw(t)
    q0 = q.copy()
    d = make(t, X, y, q)
    L = layout(q)
    check_part(t, d, X, y, q, range(len(q)), 'dataset')
    t.same(d.query_ids, [a for a, _, _ in L], 'query ids')
    t.same(d.query_offsets, [b for _, b, _ in L] + [len(q)], 'query offsets')
    t.same(d.get_query_sizes(), [c - b for _, b, c in L], 'query sizes')
    t.same(d.get_qids_dataset(), q, 'expanded query ids')
    for a, b, c in L:
        t.check(tuple(int(v) for v in d.get_query_offsets(a)) == (b, c), 'range of query %d' % a, got=[int(v) for v in d.get_query_offsets(a)])
    for miss in (max(q) + 1, min(q) - 1, -5):
        if miss not in q:
            t.raises(lambda: d.get_query_offsets(int(miss)), 'range of the unknown query %d' % miss, LookupError)
    its = list(d.query_iterator())
    t.check(len(its) == len(L) and [tuple(map(int, v)) for v in d.query_iterator()] == [tuple(map(int, v)) for v in its], 'iterating twice')
    t.same(q, q0, 'query ids given')
    for n in (len(q) - 1, len(q) + 1, 0):
        if n >= 0:
            t.raises(lambda: make(t, X, y, np.resize(q, n)), 'query id array of wrong size %d' % n)


@case('C07', 400)
def split(t):
    X, y, q = raw(t, max_q=t.pick(3, 8, 20), max_n=4)
    d = make(t, X, y, q)
    nq = d.n_queries
    tr = t.pick(0.0, 1.0, 0.5, 0.6, 1.0 / 3, round(float(t.rng.rand()), 2))
    va = t.pick(0, 0, 1 - tr, min(0.5, 1 - tr), round(float(t.rng.rand()) * (1 - tr), 2))
    if tr + va > 1:
        va = 0
    seed = t.pick(int(t.rng.randint(0, 1000)), None, 'state')
    t.note(train=tr, vali=va, seed=seed)
    mk = lambda: np.random.RandomState(5) if seed == 'state' else seed
    ids = [a for a, _, _ in layout(q)]
    parts = d.split(tr, va, mk())
    t.check(len(parts) == (3 if va else 2), 'number of parts')
    rows = []
    for k, p in enumerate(parts):
        s = set(int(v) for v in p.query_ids)
        r = [i for i in range(len(q)) if int(q[i]) in s]
        check_part(t, p, X, y, q, r, 'part %d' % k)
        rows.append(s)
    t.check(sorted(sum([sorted(s) for s in rows], [])) == sorted(ids), 'queries are not partitioned', got=[sorted(s) for s in rows])
    t.check(abs(len(rows[0]) - tr * nq) <= 0.5 + 1e-9, 'number of training queries', got=len(rows[0]), want=tr * nq)
    if va:
        left = nq - len(rows[0])
        t.check(len(rows[1]) <= left and (abs(len(rows[1]) - va * nq) <= 0.5 + 1e-9 or len(rows[1]) == left and va * nq > left), 'number of validation queries', got=len(rows[1]), want=va * nq)
    if seed is not None:
        again = d.split(tr, va, mk())
        for a, b in zip(parts, again):
            t.same(a.query_ids, b.query_ids, 'same seed, different split')
    check_part(t, d, X, y, q, range(len(q)), 'source dataset')
    for bad in ((-0.1, 0), (1.1, 0), (0.7, 0.5), (0.5, -0.2), (1.0, 0.01)):
        t.raises(lambda: d.split(bad[0], bad[1]), 'split with fractions %s' % (bad,))


@case('C08', 250)
def kfold(t):
    X, y, q = raw(t, max_q=t.pick(4, 9, 14), max_n=3)
    d = make(t, X, y, q)
    nq = d.n_queries
    if nq < 2:
        t.nontrivial = False
        t.raises(lambda: list(d.kfold(2)), 'two folds of one query')
        return
    k = int(t.rng.randint(2, nq + 1))
    only, sh = bool(t.rng.randint(2)), bool(t.rng.randint(2))
    t.note(n_folds=k, qids_only=only, shuffle=sh)
    ids = sorted(a for a, _, _ in layout(q))
    folds = list(d.kfold(n_folds=k, qids_only=only, shuffle=sh))
    t.check(len(folds) == k, 'number of folds', got=len(folds), want=k)
    unions = ([], [])
    for f in folds:
        sets = []
        for p in f:
            if only:
                sets.append([int(v) for v in p])
            else:
                s = [int(v) for v in p.query_ids]
                check_part(t, p, X, y, q, [i for i in range(len(q)) if int(q[i]) in set(s)], 'dataset of a fold')
                sets.append(s)
        t.check(len(f) == 3 and sorted(sum(sets, [])) == ids, 'a fold is not a partition of the queries', got=sets)
        unions[0].extend(sets[1])
        unions[1].extend(sets[2])
    t.check(sorted(unions[0]) == ids, 'validation queries over the folds', got=sorted(unions[0]))
    t.check(sorted(unions[1]) == ids, 'test queries over the folds', got=sorted(unions[1]))
    for bad in (0, 1, nq + 1, nq + 5):
        t.raises(lambda: list(d.kfold(bad)), '%d folds of %d queries' % (bad, nq))
    check_part(t, d, X, y, q, range(len(q)), 'source dataset')


@case('C09', 400)
def subset(t):
    X, y, q = raw(t)
    d = make(t, X, y, q)
    ids = [a for a, _, _ in layout(q)]
    sel = [a for a in ids if t.rng.rand() < .5]
    sel = list(t.rng.permutation(sel)) if t.rng.rand() < .7 else sel
    extra = [max(ids) + 3] if t.rng.rand() < .3 else []
    arg = t.pick(lambda v: [int(x) for x in v], lambda v: np.array(v, dtype=np.int64), lambda v: np.array(v, dtype=q.dtype))(sel + extra)
    t.note(selected=arg)
    p = d.subset(arg, name='s')
    rows = [i for i in range(len(q)) if int(q[i]) in set(int(v) for v in sel)]
    check_part(t, p, X, y, q, rows, 'subset')
    t.check(not np.shares_memory(p.X, d.X), 'the subset shares its features with the source')
    check_part(t, d, X, y, q, range(len(q)), 'source dataset')
    # features
    f = [int(v) for v in t.rng.permutation(X.shape[1])[:t.rng.randint(1, X.shape[1] + 1)]]
    if t.rng.rand() < .2:
        f = sorted(f)
    arg = t.pick(f, np.array(f))
    t.note(features=f)
    p = d.subset_features(arg)
    check_part(t, p, X[:, f], y, q, range(len(q)), 'subset of features')
    t.check(not np.shares_memory(p.X, d.X), 'the subset of features shares them with the source')
    Xb = X.copy()
    p.X[:] = -1
    t.same(d.X, Xb, 'source features after changing those of the subset')
    check_part(t, d.subset(ids), X, y, q, range(len(q)), 'subset with all the queries')
    full = d.subset_features(list(range(X.shape[1])))
    t.check(full == d, 'subset with all the features')
    t.check(not np.shares_memory(full.X, d.X), 'the subset with all the features shares them')


@case('C10', 400)
def equality(t):
    from rankeval.dataset import Dataset
    n, nf = int(t.rng.randint(1, 8)), int(t.rng.randint(1, 4))
    X = t.rng.randint(-1, 2, (n, nf)).astype(np.float32) / 2
    y = t.rng.randint(0, 3, n).astype(np.float32)
    cut = sorted(set(t.rng.randint(1, n + 1, 2).tolist() + [n]))
    q = np.repeat(t.rng.permutation(9)[:len(cut)], np.diff([0] + cut)).astype(np.int32)
    base = (X, y, q)
    kind = t.pick('same', 'same', 'types', 'zeros', 'order', 'X', 'y', 'qid', 'bounds', 'rows', 'cols', 'transposed', 'same')
    X2, y2, q2 = X.copy(), y.copy(), q.copy()
    eq = True
    if kind == 'types':
        X2, q2 = X.astype(np.float64), q.astype(np.int64)
    elif kind == 'zeros':
        X2 = np.where(X2 == 0, np.float32(-0.0), X2).astype(np.float32)
    elif kind == 'order':
        X2 = np.asfortranarray(X)
    elif kind == 'X':
        X2[t.rng.randint(n), t.rng.randint(nf)] += 1
        eq = False
    elif kind == 'y':
        y2[t.rng.randint(n)] += 1
        eq = False
    elif kind == 'qid':
        q2[q2 == q2[t.rng.randint(n)]] = 77
        eq = False
    elif kind == 'bounds':
        if n < 2:
            t.nontrivial = False
            return
        c = int(t.rng.randint(1, n))
        q = np.array([1] * c + [2] * (n - c), dtype=np.int32)
        c2 = int(t.rng.randint(1, n))
        q2 = np.array([1] * c2 + [2] * (n - c2), dtype=np.int32)
        eq = c == c2
    elif kind == 'rows':
        X2, y2, q2 = np.vstack([X, X[-1:]]), np.append(y, y[-1]), np.append(q, q[-1])
        eq = False
    elif kind == 'cols':
        X2 = np.hstack([X, np.zeros((n, 1), dtype=np.float32)])
        eq = False
    elif kind == 'transposed':
        # another shape with the same cells
        X2 = X.reshape(-1)[:, None]
        y2 = np.repeat(y, nf)
        q2 = np.repeat(q, nf)
        eq = nf == 1
    t.note(kind=kind, X=X, y=y, qid=q, X2=X2, y2=y2, qid2=q2)
    a, b = Dataset(X, y, q, name='a'), Dataset(X2, y2, q2, name=t.pick('a', 'b'))
    if t.rng.rand() < .5:
        hash(a)
    t.check(bool(a == b) == eq and bool(b == a) == eq, 'equality (%s)' % kind, got=[bool(a == b), bool(b == a)], want=eq)
    t.check(bool(a != b) == (not eq) and bool(b != a) == (not eq), 'inequality (%s)' % kind)
    if eq:
        t.check(hash(a) == hash(b), 'equal datasets with different hashes (%s)' % kind)
    t.check({a: 1}.get(b) == (1 if eq else None), 'lookup in a dictionary (%s)' % kind)
    t.check(hash(a) == hash(a) and a == a, 'same dataset')


@case('C10', 30)
def equality_large(t):
    from rankeval.dataset import Dataset
    n = int(t.pick(65535, 65536, 65537, 70000))
    X = np.zeros((n, 1), dtype=np.float32)
    X[:, 0] = np.arange(n) % 7
    y = np.zeros(n, dtype=np.float32)
    q = np.ones(n, dtype=np.int32)
    a = Dataset(X, y, q)
    X2 = X.copy()
    k = t.pick(0, n - 1, n // 2)
    eq = bool(t.rng.randint(2))
    if not eq:
        X2[k] += 1
    t.note(n=n, changed=None if eq else k)
    b = Dataset(X2, y.copy(), q.copy())
    t.check((a == b) == eq, 'equality of large datasets')
    if eq:
        t.check(hash(a) == hash(b), 'hashes of large datasets')


# -- svmlight --------------------------------------------------------------------------------------------------------
def write(t, text):
    ext = t.pick('', '', '', '.gz', '.bz2')
    p = os.path.join(t.scratch, 'f%d%s' % (t.k, ext))
    if ext == '.gz':
        with gzip.open(p, 'wt') as f:
            f.write(text)
    elif ext == '.bz2':
        with bz2.open(p, 'wt') as f:
            f.write(text)
    else:
        with open(p, 'w') as f:
            f.write(text)
    return p


def number(t):
    return t.pick('%d' % t.rng.randint(-9, 10), '%.3f' % t.rng.randn(), '%.6e' % (t.rng.randn() * 1e-8), '1e30', '%r' % float(np.float32(t.rng.randn())), '0', '-0.5', t.pick('2', '2', 'inf', '-inf'))


def svm_line(t, width, qid, sparse):
    cells = {}
    for j in range(1, width + 1):
        if t.rng.rand() > sparse:
            cells[j] = number(t)
    lab = t.pick('%d' % t.rng.randint(0, 5), '%.2f' % t.rng.rand(), '1e-1')
    txt = lab + ('' if qid is None else ' qid:%d' % qid) + ''.join('%s%d:%s' % (t.pick(' ', ' ', '  ', '\t'), j, cells[j]) for j in sorted(cells))
    if t.rng.rand() < .2:
        txt += t.pick(' # comment', '# 3:4', ' #', ' # qid:9 1:1')
    elif t.rng.rand() < .1:
        txt += ' '
    return txt, float(lab), cells


@case('C11', 500)
def load(t):
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import load_svmlight_file
    ids, sizes = gens.query_layout(t, 5, 5)
    q = np.repeat(ids, sizes)
    kind = t.pick('growing', 'random', 'dense', 'shrinking', 'last', 'empty first')
    wmax = int(t.rng.randint(1, 12))
    lines, want, labs = [], [], []
    for i in range(len(q)):
        w = {'growing': min(wmax, i + 1), 'random': int(t.rng.randint(0, wmax + 1)), 'dense': wmax, 'shrinking': max(1, wmax - i), 'last': wmax if i == len(q) - 1 else 1,
             'empty first': 0 if i < len(q) // 2 else wmax}[kind]
        l, y, c = svm_line(t, w, q[i], 0 if kind == 'dense' else t.pick(0, .3, .9))
        if t.rng.rand() < .1:
            lines.append(t.pick('# a comment', '#', '#1 qid:3 4:5'))
        lines.append(l)
        want.append(c)
        labs.append(y)
    text = '\n'.join(lines) + ('' if t.rng.rand() < .2 else '\n')
    width = max([max(c) for c in want if c] + [0])
    t.note(text=text if len(text) < 1500 else text[:1500])
    if width == 0:
        t.nontrivial = False
        return
    X = np.zeros((len(q), width), dtype=np.float32)
    for i, c in enumerate(want):
        for j, v in c.items():
            with np.errstate(over='ignore'):
                X[i, j - 1] = np.float32(float(v))
    X[X == np.inf] = np.finfo(np.float32).max
    p = write(t, text)
    try:
        gx, gy, gq = load_svmlight_file(p, query_id=True)
        t.same(gx, X, 'features')
        t.same(gy, np.array(labs, dtype=np.float32), 'labels')
        t.same(gq, q, 'query ids')
        gx, gy = load_svmlight_file(p)
        t.same(gx, X, 'features (without query ids)')
        d = Dataset.load(p)
        t.same(d.X, X, 'features of the dataset')
        t.same(d.get_qids_dataset(), q, 'query ids of the dataset')
        t.check((d.y == np.array(labs, dtype=np.float32)).all() and d.n_features == width, 'dataset')
    finally:
        os.remove(p)


@case('C11', 200)
def malformed(t):
    from rankeval.dataset.svmlight_format import load_svmlight_file
    good = [svm_line(t, 3, 1, .2)[0] for _ in range(int(t.rng.randint(0, 4)))]
    bad = t.pick('', 'x qid:1 1:2', 'qid:1 1:2', '1', '1 ', '1 qid:1 2', '1 qid:1 a:2', '1 qid:1 1:2 3', '1 qid:1 1:', '1 qid:1 :3', '1 qid:1 1:a', '1 qid:1 1.5:3', '1 qid:1 1=2',
                 '1 qid:1 1:2x', '1 qid:1 1:2:3', '1 qid:1 -1:2', '1 qid:x 1:2', '1 qid: 1:2', '1 qid:1 qid:2', '1abc qid:1 1:2', '1 qid:3x 1:2', '1 2', '1 qid:1 1:2 foo # c')
    k = int(t.rng.randint(0, len(good) + 1))
    lines = good[:k] + [bad] + good[k:]
    if bad == '' and k == len(good):
        lines.append('1 qid:1 1:1')
    text = '\n'.join(lines) + '\n'
    t.note(text=text)
    p = write(t, text)
    try:
        t.raises(lambda: load_svmlight_file(p, query_id=True), 'malformed line %r' % bad)
    finally:
        os.remove(p)


@case('C12', 300)
def roundtrip(t):
    from rankeval.dataset import Dataset
    ids, sizes = gens.query_layout(t, 6, 5)
    q = np.repeat(ids, sizes).astype(np.int32)
    n, nf = len(q), int(t.rng.randint(1, 7))
    kind = t.pick('bits', 'bits', 'normal', 'grid', 'zeros', 'extreme')
    if kind == 'bits':
        X = t.rng.randint(0, 2 ** 32, (n, nf), dtype=np.uint64).astype(np.uint32).view(np.float32).reshape(n, nf).copy()
        X[~np.isfinite(X)] = 1.5
    elif kind == 'normal':
        X = t.rng.randn(n, nf).astype(np.float32)
    elif kind == 'grid':
        X = t.rng.randint(-3, 4, (n, nf)).astype(np.float32)
    elif kind == 'zeros':
        X = np.zeros((n, nf), dtype=np.float32)
    else:
        f = np.finfo(np.float32)
        X = t.rng.choice(np.array([f.max, -f.max, f.tiny, -f.tiny, f.tiny / 8, 0, -0.0, 1 / 3., 16777217, 1e-40], dtype=np.float32), (n, nf))
    lab = t.pick('gen', 'gen', 'normal', 'grid', 'bits')
    if lab == 'gen':
        y = gens.labels(t, n)
    elif lab == 'normal':
        y = (t.rng.randn(n) * t.pick(1, 1e-20, 1e20)).astype(np.float32)
    elif lab == 'grid':
        y = (t.rng.randint(-5, 6, n) / np.float32(t.pick(1, 1, 2, 3)) * np.float32(t.pick(1, 1, 100003))).astype(np.float32)
    else:
        y = t.rng.randint(0, 2 ** 32, n, dtype=np.uint64).astype(np.uint32).view(np.float32).copy()
        y[~np.isfinite(y)] = -2
    if t.rng.rand() < .3:
        X = np.asfortranarray(X)
    t.note(X=X, y=y, qid=q)
    d = Dataset(X, y, q)
    Xb = X.copy()
    ext = t.pick('', '', '.gz')
    p = os.path.join(t.scratch, 'd%d%s' % (t.k, ext))
    try:
        d.dump(p)
        e = Dataset.load(p)
        t.check(e.X.dtype == np.float32 and e.X.shape == X.shape and np.array_equal(np.ascontiguousarray(e.X).view(np.uint32), np.ascontiguousarray(X).view(np.uint32)), 'features read back', got=e.X)
        t.check(np.array_equal(e.y.astype(np.float32).view(np.uint32), y.view(np.uint32)), 'labels read back', got=e.y)
        t.same(e.query_ids, d.query_ids, 'query ids read back')
        t.same(e.query_offsets, d.query_offsets, 'query boundaries read back')
        t.same(d.X, Xb, 'features changed by dumping')
        if not np.isnan(X).any():
            t.check(e == d, 'dataset read back')
    finally:
        if os.path.exists(p):
            os.remove(p)
