"""Random tree ensembles as plain Python structures, with the reference semantics, and QuickRank files for them."""
import os
import numpy as np

# a tree is ('leaf', value) or ('split', feature (0-based), threshold, left, right)


def rand_tree(t, n_features, n_leaves, values='dyadic', shape=None):
    r = t.rng
    shape = shape or t.pick('random', 'random', 'chain', 'left', 'balanced')

    def val():
        return np.float32(r.randint(-64, 65) / 16.0) if values == 'dyadic' else np.float32(r.randn() * t.pick(1, 1e-3, 1e3))

    def thr():
        return np.float32(r.randint(-8, 9) / 2.0) if values == 'dyadic' else np.float32(t.pick(r.randn(), r.randn() * 1e-4, r.randn() * 1e4, 0.0, float(r.randint(-3, 4))))

    def go(k):
        if k == 1:
            return ('leaf', val())
        if shape == 'chain':
            a = 1
        elif shape == 'left':
            a = k - 1
        elif shape == 'balanced':
            a = k // 2
        else:
            a = r.randint(1, k)
        return ('split', int(r.randint(n_features)), thr(), go(a), go(k - a))
    return go(n_leaves)


class Spec:
    def __init__(self, trees, weights, base, lr, n_features):
        self.trees, self.weights, self.base, self.lr, self.n_features = trees, weights, base, lr, n_features

    def leaf(self, tree, x):
        while tree[0] == 'split':
            tree = tree[3] if np.float32(x[tree[1]]) <= tree[2] else tree[4]
        return tree[1]

    def contrib(self, X, k):
        return np.array([[np.float64(self.leaf(tr, x)) * np.float64(w) * self.lr for tr, w in zip(self.trees[:k], self.weights[:k])] for x in X]).reshape(len(X), -1)

    def scores(self, X, k=None):
        k = len(self.trees) if k is None else k
        return self.contrib(X, k).sum(axis=1) + (self.base or 0)

    def describe(self):
        return {'trees': [show(tr) for tr in self.trees] if sum(nodes(tr) for tr in self.trees) < 60 else '%d trees, %d nodes' % (len(self.trees), sum(nodes(tr) for tr in self.trees)),
                'weights': [float(w) for w in self.weights], 'base': self.base, 'lr': self.lr}


def show(tr):
    return float(tr[1]) if tr[0] == 'leaf' else [tr[1], float(tr[2]), show(tr[3]), show(tr[4])]


def nodes(tr):
    return 1 if tr[0] == 'leaf' else 1 + nodes(tr[3]) + nodes(tr[4])


def leaves(tr):
    return 1 if tr[0] == 'leaf' else leaves(tr[3]) + leaves(tr[4])


def height(tr):
    return 0 if tr[0] == 'leaf' else 1 + max(height(tr[3]), height(tr[4]))


def preorder(tr):
    """nodes in the order in which QuickRank files list them"""
    return [tr] if tr[0] == 'leaf' else [tr] + preorder(tr[3]) + preorder(tr[4])


def ensemble(t, n_features=None, max_trees=6, max_leaves=9, values='dyadic', min_trees=1, plain=False):
    r = t.rng
    nf = n_features or int(r.randint(1, 7))
    n = int(r.randint(min_trees, max_trees + 1))
    trees = [rand_tree(t, nf, int(t.pick(1, 2, int(r.randint(1, max_leaves + 1)), int(r.randint(1, max_leaves + 1)))), values) for _ in range(n)]
    weights = [np.float32(t.pick(1.0, 0.5, 0.25, 2.0, -1.0, 0.0)) if values == 'dyadic' else np.float32(r.rand() + .01) for _ in range(n)]
    base = t.pick(None, None, 0.5, -1.25, 0.0)
    lr = t.pick(1, 1, 0.5, 0.25, 2)
    if plain:
        base, lr = None, 1
    s = Spec(trees, weights, base, lr, nf)
    t.note(model=s.describe())
    return s


def xml(spec):
    out = ['<ranker>\n<info><type>MART</type></info>\n<ensemble>\n']

    def go(tr, pos):
        out.append('<split%s>\n' % (' pos="%s"' % pos if pos else ''))
        if tr[0] == 'leaf':
            out.append('<output> %r </output>\n' % float(tr[1]))
        else:
            out.append('<feature> %d </feature>\n<threshold> %r </threshold>\n' % (tr[1] + 1, float(tr[2])))
            go(tr[3], 'left')
            go(tr[4], 'right')
        out.append('</split>\n')
    for k, tr in enumerate(spec.trees):
        out.append('<tree id="%d" weight="%r">\n' % (k + 1, float(spec.weights[k])))
        go(tr, None)
        out.append('</tree>\n')
    out.append('</ensemble>\n</ranker>\n')
    return ''.join(out)


_n = [0]


def path(t, ext='xml'):
    _n[0] += 1
    return os.path.join(t.scratch, 'm%d.%s' % (_n[0], ext))


def load(t, spec, n_trees=None, name=None):
    from rankeval.model import RTEnsemble
    p = path(t)
    with open(p, 'w') as f:
        f.write(xml(spec))
    try:
        return RTEnsemble(p, name=name, format='QuickRank', base_score=spec.base, learning_rate=spec.lr, n_trees=n_trees)
    finally:
        os.remove(p)


def spec_of(model):
    """the ensemble as stored in the arrays of the model (so that loading is not part of what is checked)"""
    def go(i):
        l, r = int(model.trees_left_child[i]), int(model.trees_right_child[i])
        if l == -1 and r == -1:
            return ('leaf', np.float32(model.trees_nodes_value[i]))
        return ('split', int(model.trees_nodes_feature[i]), np.float32(model.trees_nodes_value[i]), go(l), go(r))
    return Spec([go(int(i)) for i in model.trees_root], [np.float32(w) for w in model.trees_weight], model.base_score, model.learning_rate, 0)


def node_ids(model, k):
    """node ids of tree k in preorder"""
    def go(i):
        l, r = int(model.trees_left_child[i]), int(model.trees_right_child[i])
        return [i] if l == -1 and r == -1 else [i] + go(l) + go(r)
    return go(int(model.trees_root[k]))


def state(model):
    return {a: np.array(getattr(model, a), copy=True) for a in ('trees_root', 'trees_weight', 'trees_left_child', 'trees_right_child', 'trees_nodes_value', 'trees_nodes_feature', 'n_trees', 'n_nodes', 'learning_rate')}
