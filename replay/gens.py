"""Generators of concrete inputs."""
import numpy as np


def labels(t, n, kind=None):
    kind = kind or t.pick('graded', 'graded', 'binary', 'zero', 'one', 'wide', 'frac', 'const')
    r = t.rng
    if kind == 'graded':
        y = r.randint(0, 5, n)
    elif kind == 'binary':
        y = r.randint(0, 2, n)
    elif kind == 'zero':
        y = np.zeros(n)
    elif kind == 'one':
        y = np.zeros(n)
        y[r.randint(n)] = r.randint(1, 5)
    elif kind == 'wide':
        y = r.randint(0, 13, n)
    elif kind == 'frac':
        y = r.randint(0, 17, n) / 4.0
    else:
        y = np.full(n, r.randint(0, 4))
    return y.astype(np.float32)


def scores(t, n, y=None, kind=None):
    """predicted scores; with ties only among documents of equal label (when y is given), so that rankings are determined
    as far as labels go"""
    kind = kind or t.pick('distinct', 'distinct', 'tied', 'negative', 'large')
    r = t.rng
    base = r.permutation(n).astype(np.float64)
    if kind == 'tied' and y is not None:
        # documents with equal label get, in part, equal scores
        base = np.array([base[np.where(y == y[i])[0][0]] if r.rand() < 0.6 else base[i] for i in range(n)])
        # different labels never share a score
        seen = {}
        for i in range(n):
            while base[i] in seen and seen[base[i]] != y[i]:
                base[i] += n + 1
            seen[base[i]] = y[i]
    if kind == 'negative':
        base = base - n / 2.0 - 0.5
    if kind == 'large':
        base = base * 1000.0 - 700
    return (base / 4.0).astype(np.float32)


def cutoff(t, n):
    return t.pick(None, None, 1, 2, 3, max(1, n - 1), n, n + 1, n + 7, int(t.rng.randint(1, n + 4)))


def size(t, hi=12):
    u = t.rng.rand()
    if u < 0.01:
        return int(t.rng.randint(100, 300))
    if u < 0.07:
        return int(t.rng.randint(13, 60))
    return int(t.pick(1, 1, 2, 3, int(t.rng.randint(1, hi + 1)), int(t.rng.randint(1, hi + 1))))


def query_layout(t, max_q=6, max_n=7, min_q=1):
    nq = int(t.rng.randint(min_q, max_q + 1))
    sizes = [int(t.pick(1, int(t.rng.randint(1, max_n + 1)))) for _ in range(nq)]
    u = t.rng.rand()
    if u < 0.04:         # a long query, or many queries
        sizes[t.rng.randint(nq)] = int(t.rng.randint(10, 70))
    elif u < 0.07:
        nq = int(t.rng.randint(10, 40))
        sizes = [int(t.rng.randint(1, 4)) for _ in range(nq)]
    kind = t.pick('seq', 'shuffled', 'gaps', 'big', 'signed')
    if kind == 'seq':
        ids = np.arange(1, nq + 1)
    elif kind == 'shuffled':
        ids = t.rng.permutation(nq * 2)[:nq]
    elif kind == 'gaps':
        ids = np.sort(t.rng.permutation(nq * 9 + 5)[:nq])[::-1]
    elif kind == 'signed':
        ids = t.rng.permutation(nq * 3)[:nq] - nq
    else:
        ids = t.rng.permutation(100000)[:nq] + 3
    return ids.astype(np.int64), sizes


def dataset(t, n_features=None, max_q=6, max_n=7, lab=None, grid=True, min_q=1, dtype=np.float32):
    from rankeval.dataset import Dataset
    ids, sizes = query_layout(t, max_q, max_n, min_q)
    n = sum(sizes)
    qid = np.repeat(ids, sizes).astype(np.int32)
    nf = n_features if n_features is not None else int(t.rng.randint(1, 7))
    if grid:
        X = (t.rng.randint(-8, 9, (n, nf)) / 2.0).astype(dtype)
    else:
        X = t.rng.randn(n, nf).astype(dtype)
    X[t.rng.rand(n, nf) < 0.2] = 0
    y = labels(t, n, lab)
    t.note(X=X, y=y, qid=qid)
    return Dataset(X.copy(), y.copy(), qid.copy(), name='ds%d' % t.k)
